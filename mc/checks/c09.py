"""C09: colour text."""
import string
from itertools import product

from .. import edits
from .. import ref_color as rc
from ..world import CSS, call, canon, real, real_parser

ID = "C09"
RULE = ("hex: '#' followed by every digit string up to length 4 over the digit alphabet, and for every longer length up to "
        "10 every pair of positions x every pair of characters; fun: every combination of function name, opening, "
        "component tokens, separator, number of components and closing; name: every colour name, its case variants and "
        "every single-character deletion, substitution, insertion and transposition; str: every string up to the length "
        "bound over a syntax alphabet; edit: every text one edit, and over a smaller alphabet two edits, away from well-formed texts; obj: colour objects and other types. Each text goes through parser.color and (for "
        "hex and fun) through the color property")
BOUNDS = dict(quick="hex alphabet of all 22 digits plus 4 bad characters, 4 digits; 24 component tokens, in functions of four every two positions; strings <= 4 over 16 characters; one edit of 24 texts over 26 characters, two edits of 10 texts over 7",
              thorough="hex alphabet of all 22 digits plus 12 bad characters; 22 component tokens; strings <= 6 over 16 characters (16.8M)")

HEXA = {"quick": string.digits + "abcdefABCDEF" + "gG- ", "thorough": string.digits + "abcdefABCDEF" + "gGzZ- +._x#%"}
COMP = {"quick": ["0", "7", "255", "100", "+3", "007", "1", "50%", "100%", "0%", "0.5", ".25", "x", "", "1 2", "%", "0.0", "0.3333333", "360", "1000", "256", "-1", "+0.5", "1.0"]}
COMP["thorough"] = COMP["quick"] + ["12", "99%", "1.", "0x1", "a1", "1a"]
FUN = ["rgb", "rgba", "hsl", "hsla", "hsv", "rg", "rgbaa", "hs", ""]
OPENS = ["(", " (", "", "[", "(("]
CLOSES = [")", "", "))", "]", ") x", ");"]
SEPS = [",", ", ", " , ", " ", ";"]
STRCH = {"quick": "#rgbahsl(),01%. ", "thorough": "#rgbahsl(),01%. "}
STRLEN = {"quick": 4, "thorough": 6}
NOTCOLOR = ["", " ", "#", "##fff", "# fff", "fff", "0xfff", "transparent", "currentcolor", "inherit", "none", "red red", "red;", "(red)",
            "'red'", "light blue", "light-blue", "rgb", "rgb()", "rgb(,,)", "None", "hsl(0, 0%, 0%", "rgb 1,2,3", "#fff;", "\n", "#\n\n\n",
            "0", "1", "dark", "light", "greyy", "re", "d"]
OBJS = [None, 0, 1, 0xFFFFFF, 1.5, [], (), {}, (1, 2, 3), [255, 0, 0], ("!obj",), ("!unit", 1, "px"), ("!uri", "x"), {"r": 1}]


NEAR = ["rgb(1,2,3)", "rgb(10, 200, 30)", "rgb( 1 , 2 , 3 )", "rgba(1,2,3,0.5)", "rgba(10, 20, 30, 1)", "hsl(120,50%,25%)", "hsl(0, 0%, 100%)",
        "hsla(120,50%,25%,.5)", "hsla(1, 2%, 3%, 0.25)", "#1aF", "#1aFc", "#1aF30B", "#1aF30B7e", "red", "Tan", "rebeccapurple", "rgb(0,0,0)", "rgba(0,0,0,0)",
        "hsl(0,0%,0%)", "hsla(0,0%,0%,0)", "rgb(255,255,255)", "rgba(255,255,255,1.0)", "hsl(359,100%,100%)", "hsla(359,100%,100%,1)"]
EDITCH = "019aFgr#(),.% +-e/;xX\t\n\"[]"
EDIT2 = {"quick": ",) %0x.", "thorough": ",) %0x.(-a"}


def cases(tier):
    for t in NEAR:
        yield ("edit", t)
    for t in NEAR[:13]:
        for i in range(len(t) + 1):
            yield ("edit2", t, i, EDIT2[tier])
    for t in NOTCOLOR:
        yield ("text", t)
    for o in OBJS:
        yield ("obj", o)
    for a in (0, 128, 255):
        yield ("same", ("!rgb", a, 2, 3))
        yield ("same", ("!rgb", 1, a, 3, 0.5))
        yield ("same", ("!hsl", a, 0.25, 0.75))
        yield ("same", ("!hsl", 10, 0.25, 0.75, 0.5))
    for n in sorted(rc.NAMED):
        yield ("name", n)
    ha = HEXA[tier]
    for d in (0, 1, 2):
        for t in product(ha, repeat=d):
            yield ("hex", "".join(t), ha, 0)
    for t in product(ha, repeat=2):
        yield ("hextree", "".join(t), ha)
    for n in range(5, 11):
        for i in range(n):
            yield ("hexpos", n, i, ha)
    comps = COMP[tier]
    for f in FUN:
        for o, c in product(OPENS, CLOSES):
            if (o, c) != ("(", ")") and f not in ("rgb", "hsla"):
                continue
            for a in comps:
                yield ("fun", f, o, c, a, tuple(comps) if (o, c) == ("(", ")") else tuple(comps[:4]), tier)
    for f in ("rgb", "rgba", "hsl", "hsla"):
        for base in (("7", "8", "9", "0.5"), ("7", "50%", "25%", "0.5"), ("300", "100%", "0%", "1"), ("0", "0", "0", "0")):
            for i in range(4):
                for j in range(i):
                    yield ("fun4", f, base, i, j, tuple(comps))
    ch = STRCH[tier]
    for t in product(ch, repeat=2):
        yield ("strtree", "".join(t), ch, STRLEN[tier] - 2)


def one(text, rec, prop=True):
    want = rc.parse(text)
    if want == "?":
        return
    try:
        got = real_parser.color(text)
    except ValueError:
        got = None
    rec.ops += 1
    g = canon(got) if got is not None else None
    w = tuple(round(x, 9) if isinstance(x, float) else x for x in want) if want else None
    if g != w:
        rec.fail(f"color({text!r}) gives {g if g else 'ValueError'}, expected {w if w else 'ValueError'}")
    if w:
        rec.state(w)
    if prop:
        css = CSS()
        res = call(setattr, css, "background_color", text)
        rec.ops += 1
        if text == "transparent":
            return
        if res[0] == "ok":
            if canon(css.background_color) != w:
                rec.fail(f"background_color = {text!r} stores {canon(css.background_color)!r}, expected {w}")
        elif w is not None or not res[2]:
            rec.fail(f"background_color = {text!r}: {res}, expected {w}")


def check(case, rec):
    kind = case[0]
    if kind == "text":
        one(case[1], rec)
    elif kind == "obj":
        v = real(case[1])
        res = call(real_parser.color, v)
        rec.op()
        if res[0] != "err" or not res[2]:
            rec.fail(f"color({case[1]!r}): {res}, expected ValueError")
        rec.state(case)
    elif kind == "same":
        v = real(case[1])
        before = canon(v)
        res = real_parser.color(v)
        rec.op()
        if res is not v and canon(res) != before or canon(v) != before:
            rec.fail(f"color({case[1]!r}) gives {canon(res)!r}")
        rec.state(case)
    elif kind == "edit":
        for t in edits.one(case[1], EDITCH):
            one(t, rec)
    elif kind == "edit2":
        _, t, i, ch = case
        for a in {t[:i] + t[i + 1:]} | {t[:i] + c + t[i:] for c in ch} | {t[:i] + c + t[i + 1:] for c in ch}:
            for b in edits.few(a, ch):
                one(b, rec, prop=False)
    elif kind == "name":
        n = case[1]
        variants = {n, n.upper(), n.title(), n.swapcase()} | {n[:i] + n[i].upper() + n[i + 1:] for i in range(len(n))}
        for i in range(len(n) + 1):
            variants.add(n[:i] + n[i + 1:])
            for c in "aeglrstuy -1":
                variants.add(n[:i] + c + n[i:])
                variants.add(n[:i] + c + n[i + 1:])
            if i + 1 < len(n):
                variants.add(n[:i] + n[i + 1] + n[i] + n[i + 2:])
        for v in sorted(variants):
            one(v, rec, prop=v == n)
    elif kind == "hex":
        one("#" + case[1], rec)
    elif kind == "hextree":
        _, p, ha = case
        for a in ha:
            one("#" + p + a, rec)
            for b in ha:
                one("#" + p + a + b, rec, prop=False)
    elif kind == "hexpos":
        _, n, i, ha = case
        base = "13579bdf24"[:n]
        for j in range(n):
            for a in ha:
                for b in ha:
                    t = list(base)
                    t[i], t[j] = a, b
                    one("#" + "".join(t), rec, prop=False)
    elif kind == "fun":
        _, f, o, c, a, comps, tier = case
        seps = SEPS if tier == "thorough" else [", ", ",", " "]
        for n in range(1, 6):
            pool = comps if n < 4 else comps[6:14] if n == 4 and tier == "thorough" else ("7", "50%", "0.5", "1.0", "x") if n == 4 else ("7", "50%")
            for rest in product(pool, repeat=n - 1):
                for s in seps:
                    one(f + o + s.join((a,) + rest) + c, rec, prop=n == 3)
    elif kind == "fun4":
        _, f, base, i, j, comps = case
        for a, b in product(comps, repeat=2):
            parts = list(base)
            parts[i], parts[j] = a, b
            for s in SEPS:
                one(f + "(" + s.join(parts) + ")", rec, prop=s == ",")
    else:
        _, p, ch, more = case
        one(p, rec)
        for d in range(1, more + 1):
            for t in product(ch, repeat=d):
                one(p + "".join(t), rec, prop=False)
