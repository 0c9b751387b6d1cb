"""C27: refusals and printed values say what they are about."""
import re
from itertools import product

from colosseum import colors, units, wrappers
from colosseum.shapes import Rect

from .. import obs, omni, shapes
from .. import ref_css as rc
from .. import ref_units as ru
from ..world import CSS, canon, real, walk

ID = "C27"
RULE = ("message: every longhand x every value of the alphabets it refuses x prior states x routes, the message compared with the value, the name and the reference "
        "list of alternatives; names: unknown names, among them all combinations of two words of property names, on every route; print: pools of values of every kind "
        "(all combinations of components), the printed forms read back number by number and compared between all pairs of the pool; box: every tree shape with styles from an orthogonal array, the printed "
        "box compared with its size and place before layout, after it, after moves and after a reset")
BOUNDS = dict(quick="66 longhands x 1900 values, long and oddly written ones of up to 1030 characters among them, x 3 routes x 2 prior states; 5500 unknown names; pools of up to 4096 values; array of strength 2 on the shapes of 1-4 nodes",
              thorough="as quick, on 4 prior states; pools of up to 20 000 values; shapes of 1-5 nodes")
ASSUMPTIONS = ["the default colour, which has no spelling, may stand among the alternatives"]
HASH_SEEDS = [0, 1]

KIND_TEXT = {"length": "<length>", "percent": "<percentage>", "integer": "<integer>", "color": "<color>", "rect": "<rect>", "quotes": "[<string> <string>]+",
             "spacing": "<length> <length>?"}
CURSOR_WORDS = set(rc.CURSORS) | {"<uri>"}
MARK = "Valid values are: "
SHORTNAMES = ["margin", "padding", "border_width", "border_style", "border_color", "border", "border_top", "border_right", "border_bottom", "border_left", "outline"]
WORDS = sorted({w for n in list(rc.LONGHANDS) + SHORTNAMES for w in n.split("_")})
ROUTES = {"attr": lambda css, n, v: setattr(css, n, v), "item": lambda css, n, v: css.__setitem__(n.replace("_", "-"), v),
          "update": lambda css, n, v: css.update(**{n.replace("_", "-"): v}), "constructor": lambda css, n, v: CSS(**{n: v})}
NUM = r"-?(?:\d+\.?\d*(?:e[+-]?\d+)?|\.\d+)"
SHORT = {"Outline": ["outline_color", "outline_style", "outline_width"], "Border": ["border_width", "border_style", "border_color"],
         **{f"Border{s.title()}": [f"border_{s}_{k}" for k in ("width", "style", "color")] for s in rc.SIDES}}
PARTS = [None, "red", "solid", "{", "}", "{0}", "{border_width}", "%s", ("!unit", 1, "px"), ("!unit", 1.5, "em"), ("!rgb", 1, 2, 3), 1, "x y", "'", '"', "\\"]
LONG = ["z" * n for n in (20, 40, 61, 81, 130, 260, 1030)] + [" ".join(f"zq{i}" for i in range(n)) for n in (4, 16, 60, 250)] + [
    "zq\nzq", "{zq}", "{0} zq", "%s zq", "%(zq)s", "zq: zq; zq", "zq\tzq", " zq ", "ZQ", "zq'zq", 'zq"zq"', "zq\\zq", "zqé", "zq\u200b", "\x00zq"]
STRINGS = ["<", ">", "'", '"', "a b", "{", "%", "\\", "é", "„", ",", "ab", "none"]
VALS = [0, 1, -1, 2, 0.5, -0.5, 1.0, 100, 0.1, 1e-9, 1 / 3, 2**53, 2**53 + 2, 1e22, 1 + 2**-40, 123456.789, -1234567.5, 99999999]
LENS = [(1, "px"), (2, "px"), (1, "em"), (1.5, "px"), (-1, "px"), (1, "vmin"), (1, "vmax"), (0, "px")]


def trees(tier):
    return omni.every_shape((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5), ["margin_top", "margin_left", "padding_left", "width", "height", "border_top_width"] + omni.OFFSETS, share=0.4)


BOXES = {t: trees(t) for t in ("quick", "thorough")}


def cases(tier):
    for n in rc.LONGHANDS:
        bad = [i for i, v in enumerate(rc.ALPHABET + rc.EXTENDED) if rc.judge(n, v) == rc.REJECT]
        for a in range(0, len(bad), 300):
            yield ("message", n, a, 300, tier)
        yield ("message", n, None, 0, tier)
    for w in WORDS:
        yield ("names", w)
    for kind in POOLS:
        yield ("print", kind, tier)
    for u in ru.LENGTH_SUFFIXES + ["deg", "grad", "rad", "turn"]:
        yield ("unit", u)
    for kind, name, a, b in omni.cases(BOXES[tier], tier):
        yield ("box", tier, name, a, b)


def alternatives(name):
    _, keywords, kinds = rc.T[name]
    return set(keywords) | {KIND_TEXT[k] for k in kinds if k in KIND_TEXT}


def message(fn, *a):
    try:
        fn(*a)
    except (ValueError, KeyError, NameError) as e:
        return str(e)
    return None


def check_message(name, a, n, tier, rec):
    every = rc.ALPHABET + rc.EXTENDED
    bad = LONG if a is None else [v for v in every if rc.judge(name, v) == rc.REJECT][a:a + n]
    want = alternatives(name)
    acc = rc.accepted(name, 3)
    priors = [[], [acc[-1][0]], [acc[0][0], acc[-1][0]], [acc[0][0]]][: 2 if tier == "quick" else 4]
    for v in bad:
        obj = real(v)
        for prior in priors:
            for route, fn in ROUTES.items():
                if obj is None and route in ("update", "constructor") or route == "constructor" and prior:
                    continue
                css = CSS()
                for p in prior:
                    setattr(css, name, real(p))
                got = message(fn, css, name, obj)
                rec.op()
                where = f"{name} = {v!r} via {route} after {prior!r}"
                if got is None:
                    rec.fail(f"{where}: not refused")
                head, mark, tail = got.partition(MARK)
                if not mark:
                    rec.fail(f"{where}: {got!r} lists no alternatives")
                if str(obj) not in head:
                    rec.fail(f"{where}: {got!r} does not quote the value")
                if not re.search(rf"(?<![\w-]){name.replace('_', '[-_]')}(?![\w-])", head.replace(str(obj), "", 1)):
                    rec.fail(f"{where}: {got!r} does not name the property")
                if name == "cursor":
                    words = set(re.findall(r"<uri>|[a-z][a-z-]*", tail.replace("<uri>", " <uri> ").replace("inherit", "", 1))) - {"uri"}
                    if words != CURSOR_WORDS or "inherit" not in tail:
                        rec.fail(f"{where}: the alternatives are {tail!r}")
                else:
                    words = [w for w in tail.split(", ") if not w.startswith("<object")]
                    if set(words) != want or len(words) != len(want):
                        rec.fail(f"{where}: the alternatives are {words}, expected {sorted(want)}")
        rec.state((name, repr(v)))


def check_name(name, rec):
    css = CSS(margin_top=3)
    alt = name.replace("-", "_")
    for what, fn in (("get", lambda: css[name]), ("set", lambda: css.__setitem__(name, 1)), ("del", lambda: css.__delitem__(name)),
                     ("update", lambda: css.update(**{name: 1})), ("update none", lambda: css.update(**{name: None})), ("constructor", lambda: CSS(**{name: 1})),
                     ("constructor", lambda: CSS(margin_top=1, **{name: 1}))):
        got = message(fn)
        rec.op()
        if got is None:
            rec.fail(f"{what} of the unknown name {name!r}: not refused")
        if not re.search(rf"(?<!\w){re.escape(name)}(?!\w)", got) and not re.search(rf"(?<!\w){re.escape(alt)}(?!\w)", got):
            rec.fail(f"{what} of the unknown name {name!r}: {got!r} does not name it")
    rec.state(name)


# ------------------------------------------------------------------- printing
def _unit(n, s):
    return real(("!unit", n, s))


def pool_rgb(tier):
    r = [0, 1, 2, 12, 127, 255, 256, -1]
    return [((a, b, c, d), colors.rgb(a, b, c, d)) for a, b, c in product(r, repeat=3) for d in (1, 1.0, 0, 0.5, 0.1, 0.25, 1 / 3)]


def pool_hsl(tier):
    return [((h, s, l, a), colors.hsl(h, s, l, a)) for h in (0, 1, 60, 359, 360, -10, 0.5, 123.456) for s, l in product((0, 0.1, 0.5, 0.505, 1 / 3, 1.0, 0.07), repeat=2)
            for a in (1, 1.0, 0, 0.5, 0.1, 1 / 3)]


def pool_rect(tier):
    k = LENS if tier == "quick" else LENS + [(3, "pt"), (1, "%"), (0.1, "px")]
    return [(t, Rect(*[_unit(*x) for x in t])) for t in product(k, repeat=4)]


def pool_quotes(tier):
    out = [((p,), wrappers.Quotes([p])) for p in product(STRINGS, repeat=2)]
    few = STRINGS[:4]
    return out + [((p, q), wrappers.Quotes([p, q])) for p in product(few, repeat=2) for q in product(few, repeat=2)]


def pool_uri(tier):
    chars = ["a", " ", "(", ")", "'", "/", "{", "%", "\\"]
    return [(u, wrappers.Uri(u)) for n in range(0, 4 if tier == "quick" else 5) for u in ("".join(t) for t in product(chars, repeat=n))]


def pool_cursor(tier):
    items = ["auto", "move", "n-resize", ("u", "a.png"), ("u", "b"), ("u", "auto"), ("u", "{x}"), "text"]
    return [(t, wrappers.Cursor([wrappers.Uri(x[1]) if isinstance(x, tuple) else x for x in t])) for n in range(0, 4 if tier == "quick" else 5) for t in product(items, repeat=n)]


def pool_immutable(tier):
    items = ["a", "b", 1, 2, "1", ("t", 1), None, "{x}"]
    return [(t, wrappers.ImmutableList(t)) for n in range(0, 4) for t in product(items, repeat=n)]


def pool_spacing(tier):
    k = LENS + [(3, "pt"), (0.1, "px"), (2, "in")]
    return [((x,), wrappers.BorderSpacing(_unit(*x))) for x in k] + [((x, y), wrappers.BorderSpacing(_unit(*x), _unit(*y))) for x, y in product(k, repeat=2)]


def pool_short(name):
    def make(tier):
        out = []
        ks = SHORT[name]
        parts = PARTS if tier == "thorough" else PARTS[:-3]
        for vs in product([("absent",)] + parts, repeat=3):
            kw = {k: real(v) for k, v in zip(ks, vs) if v != ("absent",)}
            out.append((vs, getattr(wrappers, name)(**kw)))
        return out
    return make


POOLS = {"rgb": pool_rgb, "hsl": pool_hsl, "Rect": pool_rect, "Quotes": pool_quotes, "Uri": pool_uri, "Cursor": pool_cursor, "ImmutableList": pool_immutable,
         "BorderSpacing": pool_spacing, **{n: pool_short(n) for n in SHORT}}


def exact(c):
    """Components, numbers of the same value and type told apart by neither."""
    return tuple(exact(x) for x in c) if isinstance(c, tuple) else (float(c) if isinstance(c, (int, float)) else c)


def check_print(kind, tier, rec):
    seen = {}
    for comp, obj in POOLS[kind](tier):
        before = view(kind, obj)
        text = repr(obj)
        again, plain = repr(obj), str(obj)
        rec.op(3)
        if not isinstance(plain, str) or text != again:
            rec.fail(f"{kind}{comp!r} prints as {text!r}, then as {again!r}")
        if view(kind, obj) != before:
            rec.fail(f"printing {kind}{comp!r} changed it to {view(kind, obj)!r}")
        key = exact(comp) if kind != "ImmutableList" else comp
        other = seen.setdefault(text, (key, obj))
        if other[0] != key:
            rec.fail(f"{kind}{comp!r} and {kind}{other[0]!r} both print as {text!r}")
        if kind in ("rgb", "hsl"):
            nums = [float(x) for x in re.findall(NUM, text)]
            if nums != [float(x) for x in comp]:
                rec.fail(f"{kind}{comp!r} prints as {text!r}")
        if kind in SHORT:
            for k, v in zip(SHORT[kind], comp):
                if (v != ("absent",)) != (f"{k}=" in text):
                    rec.fail(f"{kind} with {comp!r} prints as {text!r}")
                if v != ("absent",) and f"{k}={real(v)!r}" not in text:
                    rec.fail(f"{kind} with {comp!r} prints as {text!r}, without {k}={real(v)!r}")
        rec.state((kind, text))


def view(kind, obj):
    if kind in SHORT:
        return [(k, canon(v)) for k, v in obj.to_dict().items()]
    if kind == "rgb":
        return (obj.r, obj.g, obj.b, obj.a)
    if kind == "hsl":
        return (obj.h, obj.s, obj.l, obj.a)
    return canon(obj)


def check_unit(suffix, rec):
    seen = {}
    for v in VALS:
        u = _unit(v, suffix)
        for t in (repr(u), str(u)):
            rec.op()
            m = re.fullmatch(rf"({NUM})({re.escape(suffix)})", t)
            if not m or float(m[1]) != float(v):
                rec.fail(f"{v!r} * {suffix} prints as {t!r}")
        if canon(u) != ("unit", v + 0.0, suffix):
            rec.fail(f"printing {v!r} * {suffix} changed it to {canon(u)!r}")
        if seen.setdefault(repr(u), float(v)) != float(v):
            rec.fail(f"{v!r} {suffix} and {seen[repr(u)]!r} {suffix} both print as {u!r}")
        rec.state((suffix, v))


# ---------------------------------------------------------------------- boxes
def tells(node, rec, where):
    for n in walk(node):
        b = n.layout
        if b is None:
            continue
        text = repr(b)
        rec.op()
        want = [b.content_width, b.content_height, b.absolute_content_left, b.absolute_content_top]
        nums = [float(x) for x in re.findall(NUM, text)] if None not in want[:2] else [float(x) for x in re.findall(NUM, text)][-2:]
        if None in want[:2]:
            want = want[2:]
        if nums != [float(x) for x in want]:
            rec.fail(f"{where}: a box of {b.content_width} x {b.content_height} at {b.absolute_content_left}, {b.absolute_content_top} prints as {text!r}")
        if repr(b) != text:
            rec.fail(f"{where}: a box prints as {text!r}, then as {b!r}")


def check(case, rec):
    kind = case[0]
    if kind == "message":
        check_message(*case[1:], rec)
    elif kind == "names":
        every = set(rc.LONGHANDS) | set(SHORTNAMES)
        for w in [""] + WORDS:
            for name in sorted({f"{case[1]}_{w}", f"{case[1]}-{w}", f"{case[1]}{w}"}):
                if name.replace("-", "_") not in every:
                    check_name(name, rec)
    elif kind == "print":
        check_print(case[1], case[2], rec)
    elif kind == "unit":
        check_unit(case[1], rec)
    elif kind == "box":
        _, tier, name, a, b = case
        t = omni.made(BOXES[tier], name)
        for i in range(a, b):
            spec, disp, std, _ = t.get(i)
            node = omni.lay(spec, disp, std)
            tells(node, rec, f"{spec!r}")
            node.layout.content_left = 7
            node.layout.content_top = -2.5
            tells(node, rec, f"{spec!r}, moved")
            rec.state(repr(node.layout))
