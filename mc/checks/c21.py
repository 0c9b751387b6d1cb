"""C21: lengths are resolved in the right context during layout."""
from itertools import product

from .. import omni
from .. import ref_layout as rl
from ..world import Display, build, real_layout, tree_geom

ID = "C21"
RULE = ("omni: orthogonal arrays over trees with a slot for every property below of every node, the display and the standard, in which every combination of values of any t slots is laid out; "
        "one: every length property x every unit value of the pool x every node of every tree x every display (size, "
        "resolution, fixed sizes): the real layout must equal that of the same tree with the pixel equivalent, computed by "
        "exact arithmetic from the statement's reference size; two: every pair of (node, property) with a smaller value "
        "pool, both replaced at once; far: numbers of every magnitude; style: every border style on every side of every node changes nothing")
BOUNDS = dict(quick="omni arrays over every shape of 4 nodes besides the named ones; 6 trees of 3-4 nodes, 22 properties, 24 values, 5 displays; far: 176 values from 1/64 to 30000 of every unit; pairs on 3 trees with 4 values on 2 displays",
              thorough="every shape of 5 nodes; 6 trees, 36 values, 7 displays; pairs with 6 values on 4 displays")

U = lambda n, s: ("!unit", n, s)  # noqa: E731
VALUES = [U(10, "%"), U(33, "%"), U(1, "in"), U(20, "pt"), U(3, "pc"), U(1, "cm"), U(15, "mm"), U(7, "vw"), U(9, "vh"), U(5, "vmin"), U(4, "vmax"), U(12.5, "px"),
          U(0, "%"), U(0, "in"), "thin", "medium", "thick", "2in", "25%", "6vh", "17", U(0.5, "in"), U(0.25, "px"), U(0.75, "%"), U(80, "%"), U(150, "%"), U(7, "pt"), U(1.5, "cm"), U(3, "mm"), U(0.7, "pc"),
          U(33.3, "vw"), U(21.7, "vh"), U(66, "vmin"), U(1, "vmax"), "0", "12.25px"]
# small and large numbers of every unit
FARVALUES = [U(n, s) for s in ("%", "in", "pt", "pc", "cm", "mm", "vw", "vh", "vmin", "vmax", "px")
             for n in (0.0078125, 0.015625, 0.03, 0.0625, 0.09, 0.99, 1.01, 2, 11, 64, 99, 100, 101, 199.5, 1000, 5000, 30000) if s not in ("cm", "mm") or n < 20]  # a cm is 28.3465 pt here
PAIRVALS = [U(10, "%"), U(1, "in"), U(5, "vh"), "thick", U(7, "vmax"), U(30, "%")]
DISPLAYS = [(640, 480, 96, None), (480, 640, 96, None), (333, 700, 72, None), (1000, 300, 300, {"thin": 2, "medium": 3, "thick": 4}),
            (800, 800, 96, {"thin": 0, "medium": 7, "thick": 6}), (50, 2000, 120, None), (2001, 999, 144, None)]
B = "block"
TREES = {
    "a": ({"display": B, "padding_left": 5, "padding_right": 15}, {}, [
        ({"display": B, "width": 201, "height": 120}, {}, [({"display": B, "height": 30, "margin_top": 3}, {}, [])]),
        ({"display": B, "height": 40, "margin_bottom": 4}, {}, [])]),
    "b": ({"display": B, "height": 200, "margin_left": 11}, {}, [({"display": B, "height": 55}, {}, [({"padding_left": 2}, {"width": 30, "height": 20}, [])])]),
    "c": ({"display": B, "width": 450}, {}, [({"display": B, "padding_top": 1, "margin_left": 30}, {}, [
        ({"display": B, "width": 100, "height": 17, "position": "relative"}, {}, [])])]),
    "d": ({"display": B}, {}, [({"display": B}, {}, [({"width": 90}, {"is_replaced": True, "height": 31}, [])])]),
    "f": ({"display": B, "padding_left": 7}, {}, [({"display": B, "width": 300}, {}, [({"display": "list-item", "width": 123}, {}, [
        ({"padding_right": 1}, {"is_replaced": True, "width": 20}, [])])])]),
    "e": ({"display": B, "direction": "rtl"}, {}, [({"display": B, "width": 77, "height": 5}, {}, []), ({"display": "list-item", "height": 6}, {}, [])]),
}
SIDES = ("top", "right", "bottom", "left")
PROPS = [f"margin_{s}" for s in SIDES] + [f"padding_{s}" for s in SIDES] + [f"border_{s}_width" for s in SIDES] + [
    "width", "height", "min_width", "max_width", "min_height", "max_height", "left", "right", "top", "bottom"]
BSTYLES = ["hidden", "dotted", "solid", "double", "inset", "none"]

UNITS = {n: [U(10, "%"), U(33, "%"), U(1, "in"), U(20, "pt"), U(3, "pc"), U(7, "vw"), U(9, "vh"), U(5, "vmin"), U(4, "vmax"), "17", "25%", "6vh", U(0.25, "in"), U(0.0078125, "in"), U(12.5, "px"), U(100, "%")]
         for n in omni.POOLS if n not in ("direction", "display", "position")}
for _n in UNITS:
    if _n.startswith("border"):
        UNITS[_n] = ["thin", "medium", "thick"] + [v for v in UNITS[_n] if not (isinstance(v, tuple) and v[2] == "%" or v == "25%")]
    elif _n in ("min_height", "max_height", "top", "bottom"):
        UNITS[_n] = [v for v in UNITS[_n] if not (isinstance(v, tuple) and v[2] == "%" or v == "25%")]
    elif _n in ("width", "height", "max_width"):
        UNITS[_n] = UNITS[_n] + [50, 200, 300.5]
OD = [(640, 480, 96), (480, 640, 96), (333, 700, 72), (1000, 300, 300), (2001, 999, 144), (800, 800, 120)]
OMNI = {
    "one": (True, lambda: omni.Trees("one", omni.FLOW + omni.OFFSETS, 3, pools=UNITS, displays=OD)),
    "pair": (True, lambda: omni.Trees("pair", omni.FLOW + omni.OFFSETS, 2, pools=UNITS, displays=OD)),
    "chain": (True, lambda: omni.Trees("chain", omni.FLOW + omni.OFFSETS, 2, share=0.6, pools=UNITS, displays=OD)),
    "three": (True, lambda: omni.Trees("three", omni.FLOW, 2, share=0.6, pools=UNITS, displays=OD)),
    "text": (True, lambda: omni.Trees("chain", omni.FLOW + omni.OFFSETS, 2, text=[(0, 0)], pools=UNITS, displays=OD)),
    "pair3": (True, lambda: omni.Trees("pair", omni.FLOW, 3, pools=UNITS, displays=OD)),
}
OMNI.update(omni.every_shape((4,), omni.FLOW + omni.OFFSETS, share=0.65, pools=UNITS, displays=OD))
OMNI.update(omni.every_shape((5,), omni.FLOW, quick=False, share=0.65, pools=UNITS, displays=OD))

def slots(tree):
    def go(s, path):
        yield path
        for i, k in enumerate(s[2]):
            yield from go(k, path + (i,))
    return list(go(TREES[tree], ()))


def cases(tier):
    yield from omni.cases(OMNI, tier)
    q = tier == "quick"
    names = "abcdef"
    vals = VALUES[:24] if q else VALUES
    nd = 5 if q else 7
    for t in names:
        for p in slots(t):
            for prop in PROPS:
                for d in range(nd):
                    yield ("one", t, p, prop, d, len(vals))
                yield ("far", t, p, prop, 0 if q else 2)
            for side in SIDES:
                yield ("style", t, p, side)
    for t in "abc" if q else names:
        sl = [(p, prop) for p in slots(t) for prop in PROPS]
        for i, a in enumerate(sl):
            yield ("two", t, a, 4 if q else 6, 2 if q else 4)


def get(spec, path):
    for i in path:
        spec = spec[2][i]
    return spec


def put(spec, path, name, value):
    style, intr, kids = spec
    if not path:
        return ({**style, name: value}, intr, kids)
    i = path[0]
    return (style, intr, kids[:i] + [put(kids[i], path[1:], name, value)] + kids[i + 1:])


def is_pct(v):
    return isinstance(v, tuple) and v[2] == "%" or isinstance(v, str) and v.endswith("%")


def allowed(spec, path, prop, v):
    """Is (prop: v) inside the statement?"""
    keyword = v in ("thin", "medium", "thick")
    if prop.startswith("border"):
        return not is_pct(v)
    if keyword:
        return False
    if not is_pct(v):
        return True
    if prop in ("min_height", "max_height", "top", "bottom"):
        return False
    if prop == "height":
        if not path:
            return True
        parent = get(spec, path[:-1])[0]
        h = parent.get("height", "auto")
        me = get(spec, path)
        return h != "auto" and not is_pct(h) and "min_height" not in parent and "max_height" not in parent and me[0].get("display") in rl.BLOCKS
    return True


def lay(spec, d):
    w, h, dpi, fixed = DISPLAYS[d]
    n = build(spec)
    real_layout(Display(w, h, dpi, fixed) if fixed else Display(w, h, dpi), n)
    return n


def equivalent(spec, path, prop, v, d, widths):
    """Pixel value of v as prop of the node at path; widths: path -> content width."""
    w, h, dpi, fixed = DISPLAYS[d]
    ctx = rl.Ctx(w, h, dpi, fixed)
    if prop == "height":
        ph = get(spec, path[:-1])[0].get("height", "auto") if path else h
        size = h if not path else (rl.px(ph, ctx, None) if ph != "auto" and not is_pct(ph) else None)
    else:
        size = widths[path[:-1]] if path else w
    return rl.px(v, ctx, size)


_base = {}


def widths_of(spec, d):
    """Content widths of the ancestors as the real code lays them out."""
    n = lay(spec, d)
    out = {}

    def go(n, path):
        out[path] = n.layout.content_width
        for i, c in enumerate(n.children):
            go(c, path + (i,))
    go(n, ())
    return out


def compare(orig, pixels, d, rec, label):
    a, b = tree_geom(lay(orig, d)), tree_geom(lay(pixels, d))
    rec.ops += 2
    if a != b:
        rec.fail(f"{label} on display {DISPLAYS[d]}: {a!r}; with the pixel equivalent: {b!r} ({orig!r} / {pixels!r})")
    rec.state((d, a))


def activate(spec, path, prop):
    """Offsets only count for relative boxes."""
    if prop in ("left", "right", "top", "bottom"):
        return put(spec, path, "position", "relative")
    return spec


def check(case, rec):
    if case[0] == "omni":
        return omni.sweep(omni.made(OMNI, case[1]), case[2], case[3], rec)
    kind, t = case[:2]
    if kind in ("one", "far"):
        p, prop, d = case[2:5]
        base = activate(TREES[t], p, prop)
        ran = 0
        for v in FARVALUES if kind == "far" else VALUES[:case[5]]:
            if not allowed(base, p, prop, v):
                continue
            orig = put(base, p, prop, v)
            try:
                x = equivalent(orig, p, prop, v, d, widths_of(orig, d) if p else None)
            except rl.OutOfDomain:  # just between two layout units
                continue
            compare(orig, put(base, p, prop, x), d, rec, f"{prop}: {v} at {p} of {t}")
            ran += 1
        if not ran:
            rec.skip()
    elif kind == "two":
        _, _, (p, prop), nv, nd = case
        sl = [(r, q) for r in slots(t) for q in PROPS]
        for r, q in sl[sl.index((p, prop)) + 1:]:
            base = activate(activate(TREES[t], p, prop), r, q)
            for k in range(nv):
                v, u = PAIRVALS[k], PAIRVALS[(k + 1) % nv]
                for d in range(nd):
                    one = put(put(base, p, prop, v), r, q, u)
                    if not allowed(one, p, prop, v) or not allowed(one, r, q, u):
                        continue
                    ws = widths_of(one, d)
                    try:
                        two = put(put(base, p, prop, equivalent(one, p, prop, v, d, ws)), r, q, equivalent(one, r, q, u, d, ws))
                    except rl.OutOfDomain:
                        continue
                    compare(one, two, d, rec, f"{prop}: {v} at {p} and {q}: {u} at {r} of {t}")
    else:
        _, _, p, side = case
        for w in (0, 4, "thin"):
            base = put(TREES[t], p, f"border_{side}_width", w)
            for s in BSTYLES:
                compare(put(base, p, f"border_{side}_style", s), base, 0, rec, f"border-{side}-style {s} at {p} of {t}")
            compare(put(base, p, f"border_{side}_color", "red"), base, 0, rec, "border colour")
