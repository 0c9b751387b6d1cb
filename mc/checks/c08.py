"""C08: length text parsing."""
from itertools import product

from .. import edits
from .. import ref_units as ru
from ..world import CSS, UNIT_NAMES, call, canon, real, real_parser, real_units

ID = "C08"
RULE = ("str: every string up to the length bound over the alphabet of digits, sign, point, exponent and suffix letters, "
        "in batches; tok: every number token x every suffix token (valid, angle, unknown, concatenated, cased); hist: "
        "every sequence up to the depth bound of unit creations and parses before re-parsing a panel of texts; obj: "
        "numbers, lengths and other types; edit: every text one edit, and over a smaller alphabet two edits, away from well-formed lengths")
BOUNDS = dict(quick="all strings of length <= 5 over 15 characters (814k); token product; histories of depth <= 3 over 9 operations; one edit of 105 texts over 40 characters, two edits over 10",
              thorough="all strings of length <= 6 over 16 characters (17.9M)")

CH = {"quick": "1.-+e%pxinmcvta", "thorough": "10.-+e%pxinmcvta"}
MAXLEN = {"quick": 5, "thorough": 6}
NUMS = ["0", "1", "-1", "+1", "10", "007", "1.5", ".5", "5.", "-.5", "+5.", "1e2", "1E2", "1e-2", "1e+2", "1.5e1", "-0", "1e308", "1e309",
        "-1e999", "", ".", "-", "+", "e", "e5", "1e", "1e+", "--1", "1-", "1+", "5.5+", "1e2-", "+1+", "1 2", "_1", "1_", "1__0", "_", "- 1", "1e 5", "1_.5", "1._5", "1_e5", "1e_5", "-_1", "1 .5", "1. 5", "1..2", "1.2.3", "1,5", "0x1", "1e1.5", "0.12345678901", "1000000000.125", "0.0000001", "1234567890123", "-123456.789012", "0.00000000000001", "1e-30", "999999", "100", "0.999", "inf", "nan", "-inf", "Infinity", "+nan", "١"]
SUFF = ru.LENGTH_SUFFIXES + ["", "deg", "rad", "grad", "turn", "m", "p", "v", "vm", "rem", "xpx", "pxpx", "px%", "%%", "q", "Q", "PX", "Px", "IN",
                             "inch", "min", "max", "vmi", "cmm", "mmm", "emm", "exx", "pcx", "vhw", "chh", "fr", "dpi", "s", ";", "px;", "an", "f", "n"]
HOPS = [("parse", "5px"), ("parse", "7em"), ("parse", "bad"), ("parse", "3vmin"), ("create", 9, "in"), ("create", 2.5, "%"),
        ("create", 4, "deg"), ("css", "width", "12mm"), ("neg", 6, "cm")]
PANEL = ["1px", "2in", "3vmin", "4mm", "5cm", "6%", "7", "8em", "9pt", "1deg", "bad", "2vmax", "3e1pc", "4ch", "5ex", "6vw", "7vh", "infin"]


NEAR = [n + u for n in ("1", "-2.5", "+10", ".5", "12e1", "0", "3.", "-4E-2") for u in ru.LENGTH_SUFFIXES + [""]]
EDITCH = "0123456789.+-eE%pxnimcvhwatdgrPXINVMqzf,;/()"
EDIT2 = "05.-e%pxmi"


def cases(tier):
    for t in NEAR:
        yield ("edit", t)
    for x in (("!unit", 3, "em"), ("!unit", 0, "px"), ("!unit", -2.5, "%"), ("!unit", 1e-9, "mm"), ("!unit", 1e15, "vw"), 1e-9, 1234567.875, 40000.5, -99999, 0.1, ("!unit", 1, "deg"), ("!unit", 1, "turn"), 0, 5, -3, 2.5, 10**30, -0.0, 2**53, 2**53 + 1, -(2**53) - 1, 2**64 + 1, 10**15 + 1, 1e16, 1e300, 5e-324,
              ("!float", "inf"), ("!float", "-inf"), ("!float", "nan"), None, [], (), {}, ("!obj",), [1], (1, 2), ("!rgb", 1, 2, 3)):
        yield ("obj", x)
    for n, s in product(NUMS, SUFF):
        yield ("tok", n + s)
    for d in range(1, 4):
        for h in product(range(len(HOPS)), repeat=d):
            yield ("hist", h)
    ch = CH[tier]
    k = 2 if tier == "quick" else 3
    for d in range(0, k):
        for t in product(ch, repeat=d):
            yield ("one", "".join(t))
    for t in product(ch, repeat=k):
        yield ("tree", "".join(t), ch, MAXLEN[tier] - k)


def one(text, rec, where=""):
    want = ru.parse(text)
    try:
        got = real_parser.units(text)
    except ValueError:
        got = None
    rec.ops += 1
    if got is None:
        if want is not None:
            rec.fail(f"{where}{text!r} refused, expected {want}")
    else:
        if want is None:
            rec.fail(f"{where}{text!r} accepted as {canon(got)!r}, must be refused")
        if canon(got) != ("unit", want[0] + 0.0, want[1]) or not isinstance(got, real_units.Unit):
            rec.fail(f"{where}{text!r} parsed as {canon(got)!r}, expected {want}")
        rec.state(want)


def check(case, rec):
    kind = case[0]
    if kind in ("one", "tok"):
        text = case[1]
        if not text.isascii():
            return rec.skip()
        one(text, rec)
        # the same verdict through a property
        want = ru.parse(text)
        res = call(setattr, CSS(), "margin_top", text)
        if (res[0] == "ok") != (want is not None) or (res[0] == "err" and not res[2]):
            rec.fail(f"margin_top = {text!r}: {res}, expected {want}")
    elif kind == "edit":
        for t in edits.one(case[1], EDITCH):
            if t == t.strip() and " " not in t:
                one(t, rec)
        for a in edits.few(case[1], EDIT2):
            for b in edits.few(a, EDIT2):
                one(b, rec)
    elif kind == "tree":
        _, prefix, ch, more = case
        for d in range(0, more + 1):
            for t in product(ch, repeat=d):
                one(prefix + "".join(t), rec)
    elif kind == "hist":
        made = []
        for i in case[1]:
            op = HOPS[i]
            if op[0] == "parse":
                call(real_parser.units, op[1])
            elif op[0] == "create":
                made.append(real(("!unit",) + op[1:]))
            elif op[0] == "neg":
                made.append(-real(("!unit",) + op[1:]))
            else:
                c = CSS()
                c[op[1]] = op[2]
                made.append(c)
            rec.op()
        for text in PANEL:
            one(text, rec, f"after {[HOPS[i] for i in case[1]]}: ")
        rec.state(case[1])
    else:
        x = case[1]
        v = real(x)
        res = call(real_parser.units, v)
        rec.op()
        if isinstance(x, (int, float)):
            ok = res[0] == "ok" and canon(res[1]) == ("unit", x + 0.0, "px") and res[1].val == x
        elif isinstance(x, tuple) and x and x[0] == "!unit" and x[2] in ru.LENGTH_SUFFIXES:
            ok = res[0] == "ok" and canon(res[1]) == ("unit", x[1] + 0.0, x[2])
        else:
            ok = res[0] == "err" and res[2]
        if not ok:
            rec.fail(f"units({x!r}): {res}")
        rec.state(repr(x))
