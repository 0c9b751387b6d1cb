"""C20: inline boxes (CSS 2.1 10.3.1, 10.3.2, 10.6.1, 10.6.2)."""
from fractions import Fraction
from itertools import product

from .. import omni
from ..arrays import Array
from ..atlas import FEW, PIXELS
from ..ref_layout import OutOfDomain, snap
from ..world import Display, build, real_layout

ID = "C20"
RULE = ("omni: orthogonal arrays over sizes, intrinsic sizes, ratio, all margins, borders, paddings, border styles, limits and the place, in which every combination of values of any "
        "three of them occurs; "
        "the full cross product of width x height style x intrinsic width x height x ratio x replaced or not x place (root, "
        "only child, nested child, one of two children) x edges; pair: every two of these dimensions from large pools at once, from ten starting points; text and far: sizes of every magnitude; every dimension compared with the rule that determines "
        "it, and the position with the edges")
BOUNDS = dict(quick="5 widths x 4 heights x 4 x 4 x 4 intrinsic x 6 edge sets x 4 places; pairs: 28 widths, 25 heights, 25 + 25 intrinsic sizes, 25 ratios, 9 edge sets, 14 places (containers of 0-20000 px)", thorough="8 widths x 6 heights x 6 x 6 x 6 intrinsic x 10 edge sets x 5 places")

W = ["auto", 120, 33, ("!unit", 50, "%"), 0, 7.5, ("!unit", 1, "in"), 1000]
H = ["auto", 60, 45, 0, 12.5, ("!unit", 1, "in")]
IW = [None, 80, 0, 31, 400, 7.5]
IH = [None, 40, 0, 25, 300, 9.25]
RATIO = [None, 2, 1, 0.5, 4, 1.5]
EDGES = [{}, {"margin_left": 3, "margin_top": 5, "padding_left": 7, "padding_top": 11, "border_left_width": 13, "border_top_width": 17},
         {"margin_left": "auto", "margin_right": "auto", "margin_top": "auto", "margin_bottom": "auto"},
         {"margin_right": 19, "margin_bottom": 23, "padding_right": 2, "border_right_width": 4, "padding_bottom": 6, "border_bottom_width": 8},
         {"margin_left": ("!unit", 10, "%"), "padding_top": ("!unit", 5, "%")}, {"border_left_width": "thin", "border_top_width": "thick"},
         {"margin_left": -4}, {"margin_left": "auto", "padding_left": 5}, {"margin_top": "auto", "padding_top": 5},
         {"min_width": 500, "max_width": 2, "min_height": 500, "max_height": 1}]
PLACES = ["root", "child", "nested", "second", "list"]
BOXES = [0, 0.5, 50, 200, 299, 300, 301, 2500, 20000]
PLACES += [f"box {w}" for w in BOXES]
DISP = (640, 480)
# rich pools, explored in pairs
RICH = {
    "w": W + [U for U in FEW if U not in W] + [("!unit", 30, "%"), ("!unit", 150, "%"), ("!unit", 2, "in")],
    "h": H + [U for U in FEW if U not in H] + [("!unit", 2, "in")],
    "iw": IW + [x for x in FEW if x not in IW],
    "ih": IH + [x for x in FEW if x not in IH],
    "ratio": RATIO + [0.25, 0.015625, 0.3, 0.333, 0.75, 1.25, 4 / 3, 16 / 9, 9 / 16, 2.39, 3, 10, 10.5, 64, 100, 1.0625, 1.99, 2.01, 0.99],
    "e": list(range(len(EDGES))),
    "place": PLACES,
}
# what the rest is while two of them vary
BASES = [dict(w="auto", h="auto", iw=None, ih=None, ratio=None, e=0, place="child"),
         dict(w="auto", h="auto", iw=80, ih=40, ratio=2, e=1, place="nested"),
         dict(w="auto", h="auto", iw=None, ih=40, ratio=2, e=0, place="child"),
         dict(w="auto", h="auto", iw=None, ih=None, ratio=2, e=3, place="child"),
         dict(w=120, h="auto", iw=80, ih=None, ratio=None, e=0, place="list"),
         dict(w=120, h="auto", iw=None, ih=40, ratio=None, e=0, place="box 200"),
         dict(w=120, h="auto", iw=None, ih=None, ratio=2, e=0, place="second"),
         dict(w="auto", h=60, iw=80, ih=None, ratio=None, e=6, place="child"),
         dict(w="auto", h=60, iw=None, ih=None, ratio=2, e=0, place="child"),
         dict(w="auto", h=60, iw=80, ih=None, ratio=None, e=0, place="child")]
FIXED = {"thin": 1, "medium": 5, "thick": 10}
NONREP = {"width": [0, 80, 31.5, 700], "height": [0, 40, 25.25, 900]}

_u = lambda n, x: ("!unit", n, x)  # noqa: E731
MARGIN = ["auto", 0, 3, -4, 10.5, 64, _u(10, "%"), 500, 1, 0.25]
EDGE = [0, 1, 3, 7, 0.5, 20, _u(10, "%"), 100, _u(0.5, "in")]
LINE = [0, 1, "thin", "medium", "thick", 2.5, 30, 100]
STYLES3 = ["none", "hidden", "solid", "dotted"]
SLOTS = [("w", RICH["w"][:24], 0.4), ("h", RICH["h"][:24], 0.4), ("iw", RICH["iw"][1:24], 0.3), ("ih", RICH["ih"][1:24], 0.3), ("ratio", RICH["ratio"][1:24], 0.4), ("place", PLACES, 0.2)]
SLOTS += [(f"margin_{x}", MARGIN) for x in ("top", "right", "bottom", "left")] + [(f"padding_{x}", EDGE) for x in ("top", "right", "bottom", "left")]
SLOTS += [(f"border_{x}_width", LINE) for x in ("top", "right", "bottom", "left")] + [(f"border_{x}_style", STYLES3) for x in ("top", "right", "bottom", "left")]
SLOTS += [("exact_width", [False], 0.6), ("exact_height", [False], 0.6), ("direction", ["rtl", "ltr"], 0.6), ("visibility", ["hidden"], 0.7), ("vertical", [0], 0.7)]
TEXTSLOTS = SLOTS + [("min_width", [0, 5, 700], 0.6), ("max_width", [0, 5, 700], 0.6), ("min_height", [0, 5, 700], 0.6), ("max_height", [0, 5, 700], 0.6)]
ARRAYS = {"image": (SLOTS, 3), "text": (TEXTSLOTS, 3)}
_arr = {}


def array(name):
    if name not in _arr:
        _arr[name] = Array(*ARRAYS[name])
    return _arr[name]


def sweep(name, a, b, rec):
    """Rows of the array of images or text boxes."""
    for i in range(a, b):
        row = array(name).row(i)
        c = {"w": "auto", "h": "auto", "iw": None, "ih": None, "ratio": None, "place": "child"}
        e, x = {}, {}
        for k, v in row.items():
            if k in c:
                c[k] = v
            elif k.startswith("exact"):
                x[k] = v
            elif k != "vertical":
                e[k] = v
        c["e"] = e
        if name == "text":
            c["iw"] = 13 if c["iw"] is None else c["iw"]
            c["ih"] = 11 if c["ih"] is None else c["ih"]
        try:
            (text if name == "text" else image)(rec=rec, extra=x, **c)
        except OutOfDomain:
            pass


def cases(tier):
    for name in ARRAYS:
        for a in range(0, array(name).size, 250):
            yield ("omni", name, a, min(a + 250, array(name).size))
    q = tier == "quick"
    nw, nh, ni, nr, ne, np_ = (5, 4, 4, 4, 6, 4) if q else (8, 6, 6, 6, 10, 5)
    for place in PLACES[:np_]:
        for e in range(ne):
            for w in W[:nw]:
                for h in H[:nh]:
                    yield ("flow", place, e, w, h)
                    if e != 9:
                        yield ("rep", place, e, w, h, ni, nr)


    axes = sorted(RICH)
    for b in range(len(BASES)):
        for i, x in enumerate(axes):
            for y in axes[i + 1:]:
                yield ("pair", b, x, y)
    for iw in NONREP["width"] + FEW:
        yield ("text", iw, tier)
    if not q:
        for b in range(len(BASES)):
            for x in ("w", "h", "iw", "ih"):
                yield ("far", b, x)


def tree(place, style, intr):
    me = (style, intr, [])
    blk = {"display": "block"}
    if place == "root":
        return me, ()
    if place == "child":
        return (blk, {}, [me]), (0,)
    if place == "nested":
        return (blk, {}, [({"display": "block", "width": 300, "padding_left": 9}, {}, [me]), ({"display": "block", "height": 4}, {}, [])]), (0, 0)
    if place == "second":
        return (blk, {}, [({}, {"width": 11, "height": 12}, []), me]), (1,)
    if place.startswith("box"):
        return (blk, {}, [({"display": "block", "width": CBW[place]}, {}, [me])]), (0, 0)
    return (blk, {}, [({"display": "list-item", "width": 333}, {}, [me])]), (0, 0)


CBW = {"root": 640, "child": 640, "nested": 300, "second": 640, "list": 333, **{f"box {w}": w for w in BOXES}}


def px(v, cbw):
    if v == "auto":
        return 0
    if isinstance(v, str):
        return FIXED[v]
    if isinstance(v, tuple):
        return snap(Fraction(v[1]) * Fraction(cbw) / 100 if v[2] == "%" else Fraction(v[1]) * 96)
    return v


def close(a, b):
    """Equal; dimensions derived from a ratio may be rounded to whole pixels."""
    return abs(a - b) <= 0.5 + 1e-9


def spec_width(w, h, intr, cbw, e, quirk):
    """(value, derived from the ratio)"""
    if w != "auto":
        return px(w, cbw), False
    iw, ih, ratio = intr.get("width"), intr.get("height"), intr.get("ratio")
    if h == "auto":
        if iw is not None:
            return iw, False
        if ih is not None and ratio is not None:
            return ih * ratio, True
        if ratio is not None:
            return cbw - sum(px(e.get(k, 0), cbw) for k in (
                "margin_left", "border_left_width", "padding_left", "padding_right", "border_right_width", "margin_right")), False
    elif ratio is not None and not quirk:
        return px(h, None) * ratio, True
    return (iw if iw is not None else 300), False


def spec_heights(w, h, intr, width, quirk):
    """Admissible heights: [(value, derived)]"""
    if h != "auto":
        return [(px(h, None), False)]
    ih, ratio = intr.get("height"), intr.get("ratio")
    if w == "auto" and ih is not None:
        return [(ih, False)]
    if ratio:
        return [(width * ratio if quirk else width / ratio, True)]
    if ih is not None:
        return [(ih, False)]
    # half the width, in whole pixels or exactly
    return [(min(width // 2, 150), False), (min(width / 2, 150), False)]


def fits(v, options):
    return any(close(v, x) if d else v == x for x, d in options)


def position(b, e, cbw, rec, label):
    g = lambda k: px(e.get(k, 0), cbw)  # noqa: E731
    left = g("margin_left") + g("border_left_width") + g("padding_left")
    top = g("margin_top") + g("border_top_width") + g("padding_top")
    if b.content_left != left or b.content_top != top:
        rec.fail(f"{label}: content at {b.content_left!r},{b.content_top!r}, expected {left},{top}")
    m = (b.margin_top, b.margin_right, b.margin_bottom, b.margin_left)
    want = tuple(g(f"margin_{s}") for s in ("top", "right", "bottom", "left"))
    if m != want:
        rec.fail(f"{label}: margins {m!r}, expected {want!r}")


def edges(e):
    return EDGES[e] if isinstance(e, int) else e


def style_of(e, w, h):
    style = dict(edges(e))
    if w != "auto":
        style["width"] = w
    if h != "auto":
        style["height"] = h
    return style


def check(case, rec):
    kind = case[0]
    if kind == "omni":
        sweep(*case[1:], rec)
    elif kind == "flow":
        _, place, e, w, h = case
        for iw, ih in product(NONREP["width"], NONREP["height"]):
            for ratio in (None, 2):
                text(place, e, w, h, iw, ih, ratio, rec)
    elif kind == "text":
        for ih in NONREP["height"] + (FEW if case[2] == "quick" else PIXELS):
            for i, place in enumerate(PLACES):
                text(place, (i * 3) % 9, W[i % len(W)], H[i % len(H)], case[1], ih, RATIO[i % len(RATIO)], rec)
    elif kind == "rep":
        _, place, e, w, h, ni, nr = case
        for iw, ih, ratio in product(IW[:ni], IH[:ni], RATIO[:nr]):
            image(place, e, w, h, iw, ih, ratio, rec)
    elif kind == "pair":
        _, b, x, y = case
        for u, v in product(RICH[x], RICH[y]):
            c = {**BASES[b], x: u, y: v}
            if c["e"] != 9:
                image(rec=rec, **c)
    else:
        _, b, x = case
        for u in PIXELS:
            image(rec=rec, **{**BASES[b], x: u})


def text(place, e, w, h, iw, ih, ratio, rec, extra={}):
    style = style_of(e, w, h)
    intr = {"width": iw, "height": ih, **extra}
    if ratio:
        intr["ratio"] = ratio
    b = lay(place, style, intr, rec)
    label = f"{style!r} {intr!r} as {place}"
    if (b.content_width, b.content_height) != (iw, ih) and place != "root":
        rec.fail(f"{label}: {b.content_width!r} x {b.content_height!r}, expected the intrinsic size")
    if b.content_width != iw:
        rec.fail(f"{label}: {b.content_width!r} wide, expected the intrinsic size")
    if place != "root":
        position(b, edges(e), CBW[place], rec, label)
    rec.state(("text", b.content_width, b.content_height, b.content_left))


def image(place, e, w, h, iw, ih, ratio, rec, extra={}):
    style = style_of(e, w, h)
    e, cbw = edges(e), CBW[place]
    intr = {"is_replaced": True, **extra}
    for k, v in (("width", iw), ("height", ih), ("ratio", ratio)):
        if v is not None:
            intr[k] = v
    b = lay(place, style, intr, rec)
    label = f"{style!r} {intr!r} as {place}"
    width, height = b.content_width, b.content_height
    want = spec_width(w, h, intr, cbw, e, False)
    known = None
    if not fits(width, [want]):
        q = spec_width(w, h, intr, cbw, e, True)
        if fits(width, [q]):
            known = f"width {width!r}, expected {want[0]!r}"
        else:
            rec.fail(f"{label}: width {width!r}, expected {want[0]!r}")
    if place != "root":  # the height of a root is fitted to the display
        want = spec_heights(w, h, intr, width, False)
        if not fits(height, want):
            if fits(height, spec_heights(w, h, intr, width, True)):
                known = f"height {height!r} for width {width!r}, expected {want[0][0]!r}"
            else:
                rec.fail(f"{label}: height {height!r} for width {width!r}, expected {want!r}")
        position(b, e, cbw, rec, label)
    if known:
        rec.known("K4", f"{label}: {known}")
    rec.state(("image", width, height, b.content_left, b.content_top))


def lay(place, style, intr, rec):
    spec, path = tree(place, style, intr)
    node = build(spec)
    real_layout(Display(*DISP), node)
    rec.ops += 1
    for i in path:
        node = node.children[i]
    return node.layout
