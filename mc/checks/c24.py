"""C24: validators, sets of choices and properties declared with them."""
from itertools import combinations, permutations, product

from colosseum import constants, declaration, validators
from colosseum.exceptions import ValidationError

from .. import ref_css as rc
from .. import ref_units as ru
from ..core import pristine
from ..world import call, canon, real, real_parser

ID = "C24"
USES_PRISTINE = True
RULE = ("num: is_integer and is_number under every pair of bounds x every value around the bounds; val: every validator x "
        "every value of the alphabets; choices: every set of constants x every ordered selection of validators x every set "
        "of explicit defaulting constants x a value panel, directly, and as a property of a new class, twice over; after: for every validator, every value "
        "(and the texts of every value) validated after every other by the same set of choices, compared with its validation in an unused process; text: "
        "the text of every such set")
BOUNDS = dict(quick="12x12 bounds x 80 values; 10 validators x 1300 values; up to 2 of 5 constants, 2 of 9 validators, 2 defaulting constants",
              thorough="up to 3 of 5 constants and 3 of 9 validators")
ASSUMPTIONS = ["booleans, white space, underscores and non-ASCII digits in numbers get no verdict"]

LIMITS = [None, 0, 1, -1, 3, -4, 0.5, -2.5, 10, 100, 1000000, -1000000]
VALUES = ([n for n in range(-6, 13)] + [99, 100, 101, 999999, 1000000, 1000001, -999999, -1000000, -1000001, 10**12, -(10**12)]
          + [str(n) for n in (-5, -4, -3, -1, 0, 1, 2, 3, 4, 10, 11, 99, 100, 101, 1000000, 1000001)]
          + ["+1", "-0", "007", "+0", "-004", "1.5", "0.5", "0.49999", "-2.5", "-2.50001", "3.0", "3.0001", ".5", "5.", "1e2", "1e6", "100.5",
             "", "x", "1x", "x1", "1.2.3", "--1", "1-", "e", "0x10", "inf", "-inf", "nan", "NaN", "Infinity", "+infinity", "1e999", "-1e999", "1e400", "1,5", "1px", "10%"]
          + [0.5, 0.49999, -2.5, -2.50001, 2.99999, 3.0, 3.00001, 100.0, 100.25, 1e6, -0.0, 1.0, 10.0]
          + [("!float", "nan"), ("!float", "inf"), ("!float", "-inf"), 1e300, -1e300, -0.5, 0.999999999, 1e-300] + [None, (), [], {}, [1], (1,), ("!obj",), ("!unit", 1, "px"), ("!rgb", 1, 2, 3)])

DELEGATES = dict(is_length="units", is_color="color", is_border_spacing="border_spacing", is_rect="rect",
                 is_quote="quotes", is_uri="uri", is_cursor="cursor")
STRUCT = ["rect(1px, 2px, 3px, 4px)", "rect(1px 2px 3px 4px)", "rect(1px, 2px, 3px)", "rect(a, b, c, d)", "rect(", "rect(1, 2, 3, 4",
          "'<' '>'", "'<' '>' '[' ']'", "'<'", "'<' '>' '['", "''", "'<' ''", "url(a.png)", "url('a.png')", 'url( "x" )', "url(x", "urx(x)", "url()",
          "url(a), move", "move, url(a)", "url(a), url(b)", "move, move", "url(a), foo", "foo", "1 2", "1px 2em", "1, 2", "1 2 3", "a b",
          [1, 2], (1, 2), [1, 2, 3], ["a", "b"], ["<", ">"], [("<", ">")], ["<"], ["url(a)", "move"], ["move", "url(a)"], [1], ["1px", "2em"],
          ("!rect", ("!unit", 1, "px"), ("!unit", 2, "px"), ("!unit", 3, "px"), ("!unit", 4, "px")), ("!quotes", ("<", ">")), ("!uri", "x"),
          ("!cursor", ("!uri", "x"), "move"), ("!spacing", ("!unit", 1, "px"), ("!unit", 2, "em"))]

CONSTS = [None, "auto", "inline-block", "left", "inherit"]
VALIDS = ["is_integer", "is_length", "is_percentage", "is_color", "is_uri", "is_number", "is_rect", "is_cursor", "int0", "num01"]
EDC = [(), ("inherit",), ("initial", "unset"), ("inherit", "auto")]
PANEL = [None, "none", "auto", "Auto", "inline-block", "inline_block", "left", "inherit", "initial", "unset", "revert", "red", "#123", "1", "0", 0, 1, -1, "-1", "1.5",
         0.5, 1.0, "2", "10px", "10%", "-10%", "0%", ("!unit", 5, "%"), ("!unit", -5, "%"), "-0.25%", ("!unit", -0.25, "%"), "-0.001%", "0.25%", ("!unit", 2, "em"), ("!rgb", 1, 2, 3), "url(x)", ("!uri", "y"), "rect(1, 2, 3, 4)",
         "move", ["url(x)", "move"], "foo", "", (), [], {}, ("!obj",), "1deg", ("!unit", 1, "deg"), ("!float", "nan")]


def make(name):
    if name == "int0":
        return validators.is_integer(min_value=0)
    if name == "num01":
        return validators.is_number(min_value=0, max_value=1)
    return getattr(validators, name)


def ref_num(kind, v, lo=None, hi=None):
    """Canonical value, None when it must be refused, '?' outside the domain."""
    if isinstance(v, bool) or isinstance(v, (bytes, set)):
        return "?"
    if isinstance(v, tuple) and v[:1] == ("!float",):
        return None
    if isinstance(v, float) and kind == "int" and v != int(v):
        return None
    if isinstance(v, int) and kind == "num" and abs(v) > 10**300:
        return "?"
    if isinstance(v, (int, float)):
        n = int(v) if kind == "int" else float(v)
    elif isinstance(v, str):
        if v != v.strip() or "_" in v or not v.isascii():
            return "?"
        if v.strip("+-").lower() in ("inf", "nan", "infinity"):
            return None
        if kind == "int":
            t = v[1:] if v[:1] in ("+", "-") else v
            if not t.isdigit():
                return None
            n = int(v)
        else:
            if not ru.NUMBER.match(v):
                return None
            n = float(v)
            if n in (float("inf"), float("-inf")):
                return None
    else:
        return None
    if lo is not None and n < lo or hi is not None and n > hi:
        return None
    return ("int", n) if kind == "int" else ("float", n)


def ref_percent(v):
    r = rc._length(v) if not isinstance(v, (bool, bytes)) else "?"
    if r is rc.UNKNOWN or r == rc.REJECT:
        return None if r == rc.REJECT else "?"
    return r if r[2] == "%" and r[1] >= 0 else None


def by_parser(name, v):
    """What the parser of that validator makes of the value (its own correctness is C08, C09, C11)."""
    res = call(getattr(real_parser, DELEGATES[name]), real(v))
    return canon(res[1]) if res[0] == "ok" else (None if res[2] else "?")


def ref(name, v):
    if name == "is_integer":
        return ref_num("int", v)
    if name == "is_number":
        return ref_num("num", v)
    if name == "int0":
        return ref_num("int", v, 0)
    if name == "num01":
        return ref_num("num", v, 0, 1)
    if name == "is_percentage":
        return ref_percent(v)
    return by_parser(name, v)


def same(got, want):
    if want and want[0] == "float":
        return got[:1] == ("float",) and got[1] == want[1]
    return got == want


def validate(fn, v, want, rec, label):
    res = call(fn, real(v))
    rec.op()
    if want == "?":
        return
    if want is None:
        if res[0] == "ok":
            rec.fail(f"{label}({v!r}) gives {canon(res[1])!r}, must be refused")
        if res[1] != "ValidationError":
            rec.fail(f"{label}({v!r}) raises {res[1]}, expected ValidationError")
    elif res[0] != "ok" or not same(canon(res[1]), want):
        rec.fail(f"{label}({v!r}): {res[1] if res[0] == 'err' else canon(res[1])!r}, expected {want!r}")
    rec.state((label, want))


def cases(tier):
    if not issubclass(ValidationError, ValueError):
        yield ("class",)
    for kind, lo, hi in product(("int", "num"), LIMITS, LIMITS):
        yield ("num", kind, lo, hi)
    for name in sorted(DELEGATES) + ["is_integer", "is_number", "is_percentage"]:
        for i in range(8):
            yield ("val", name, i)
    for name in AFTER:
        for i in range(8):
            yield ("after", name, i)
    n = 2 if tier == "quick" else 3
    for k in range(n + 1):
        for vs in permutations(VALIDS, k):
            for m in range(n + 1):
                for cs in combinations(CONSTS, m):
                    for e in range(len(EDC)):
                        yield ("choices", cs, vs, e)


def texts():
    """The panel, structured values, and all of their texts."""
    out = []
    for v in PANEL + STRUCT + SIMILAR:
        out.append(v)
        r = real(v)
        for t in (str(r), repr(r)):
            if " object at " not in t:
                out.append(t)
    seen = set()
    return [v for v in out if not (repr(v) in seen or seen.add(repr(v)))]


# values that Python holds to be equal, or of which one is the text of another
SIMILAR = [2.0, 0.0, -0.0, "0.0", "-0", "2.0", (1,), ("1",), ["1"], [1.0], ("<", ">"), ["url(a)"], ("url(a)",), ("move",), ["move"], "1 ", "RED", "Red", "#FFF", "#fff", "#ffffff", b"1", True, False,
           ("!unit", 1, "px"), ("!unit", 1.0, "px"), ("!unit", 2, "px"), ("!unit", 2, "pt"), ("!hsl", 1, 0.5, 0.5), ("!hsl", 1, 1, 1)]
AFTER = VALIDS + ["is_quote", "is_border_spacing", "mixed"]


def choices(name):
    if name == "mixed":
        return constants.Choices(None, "auto", "left", validators=[make("is_integer"), make("is_length"), make("is_color"), make("is_quote")], explicit_defaulting_constants=["inherit"])
    return constants.Choices("auto", validators=[make(name)], explicit_defaulting_constants=["inherit"])


def outcome(ch, v):
    res = call(ch.validate, real(v))
    return repr(canon(res[1])) if res[0] == "ok" else "refused" if res[2] else res[1]


def alone(name, i):
    return outcome(choices(name), texts()[i])


def check_after(name, part, rec):
    pool = texts()
    want = [pristine("alone", name, i) for i in range(len(pool))]
    for first in pool[part::8]:
        ch = choices(name)
        outcome(ch, first)
        for v, w in zip(pool, want):
            got = outcome(ch, v)
            rec.op()
            if got != w:
                rec.fail(f"choices with {name} after {first!r} and those before {v!r} in the pool: {v!r} gives {got}, by itself {w}")
    rec.state((name, part))


def check(case, rec):
    kind = case[0]
    if kind == "after":
        return check_after(case[1], case[2], rec)
    if kind == "class":
        rec.fail("ValidationError is not a ValueError")
    elif kind == "num":
        _, k, lo, hi = case
        base = validators.is_integer if k == "int" else validators.is_number
        if lo is None and hi is None:
            fns = [base]
        else:
            kw = {n: x for n, x in (("min_value", lo), ("max_value", hi)) if x is not None}
            fns = [base(**kw), base(min_value=lo, max_value=hi), base(None, lo, hi)]
            other = base(min_value=-7, max_value=7)  # another validator does not change this one
            call(other, 5)
        for fn in fns:
            for v in VALUES:
                validate(fn, v, ref_num(k, v, lo, hi), rec, f"{base.__name__}[{lo}..{hi}]")
    elif kind == "val":
        _, name, part = case
        pool = rc.ALPHABET + rc.EXTENDED + STRUCT + PANEL + VALUES
        for v in pool[part::8]:
            validate(getattr(validators, name), v, ref(name, v), rec, name)
    else:
        _, cs, vs, e = case
        fns = [make(n) for n in vs]
        edc = list(EDC[e])
        ch = constants.Choices(*cs, validators=list(fns) or None, explicit_defaulting_constants=edc or None)
        if all(n.startswith("is_") for n in vs):
            want = sorted({"none" if c is None else c for c in cs} | {f.description for f in fns} | set(edc))
            for _ in range(2):
                if str(ch) != ", ".join(want):
                    rec.fail(f"text of {case[1:]}: {str(ch)!r}, expected {', '.join(want)!r}")
            named = True
        else:
            named = False

        class Thing:
            prop = declaration.validated_property("prop_c24", choices=ch, initial=(cs or ("auto",))[0]) if cs else None

        thing = Thing() if cs else None
        for turn in range(2):
            for v in PANEL:
                want = choose(cs, vs, edc, v)
                if want == "?":
                    continue
                res = call(ch.validate, real(v))
                rec.op()
                judge(case, v, want, res, rec, "choices")
                if thing is not None and named and not (want == "refuse" and isinstance(v, tuple) and v[:1] == ("!obj",)):
                    before = canon(thing.prop)
                    res = call(setattr, thing, "prop", real(v))
                    if res[0] == "ok":
                        res = ("ok", thing.prop)
                    elif canon(thing.prop) != before:
                        rec.fail(f"{case[1:]}: refused {v!r} changed the property from {before} to {canon(thing.prop)}")
                    judge(case, v, want, res, rec, "property")
                    rec.op()
            if thing is not None:
                call(delattr, thing, "prop")
                want = choose(cs, vs, edc, cs[0])
                if want != "?" and canon(thing.prop) != want:
                    rec.fail(f"{case[1:]}: deleted property is {canon(thing.prop)!r}, expected {want!r}")
        rec.state(case)


def choose(cs, vs, edc, v):
    """Canonical value the choices give, 'refuse' or '?'."""
    for n in vs:
        r = ref(n, v)
        if r == "?" or r is not None:
            return r
    w = None if isinstance(v, str) and v == "none" else v
    if (w is None or isinstance(w, str)) and (w in cs or w in edc):
        return w
    return "refuse"


def judge(case, v, want, res, rec, label):
    if want == "refuse":
        if res[0] == "ok" or not res[2]:
            rec.fail(f"{label} {case[1:]}: {v!r} gives {res}, expected ValueError")
    elif res[0] != "ok" or not same(canon(res[1]), want):
        rec.fail(f"{label} {case[1:]}: {v!r} gives {res}, expected {want!r}")
