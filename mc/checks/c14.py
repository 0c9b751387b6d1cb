"""C14: horizontal metrics of blocks (CSS 2.1 10.3.3, 10.4)."""
from itertools import product

from .. import omni
from .. import ref_layout as rl
from ..atlas import FEW, PIXELS
from ..world import Display, build, real_layout

ID = "C14"
RULE = ("omni: orthogonal arrays over trees with a slot for every property below of every node, the display and the standard, in which every combination of values of any t slots is laid out; "
        "the full cross product of width x margin-left x margin-right x border/padding sides x min-width x max-width x own "
        "and container direction x place (root of a display, child of an explicit, of an auto-width and of a padded "
        "container, grandchild), laid out by the real code and compared with the reference solution of 10.3.3, node by "
        "node; pct: percentage and unit values on every axis, up to three axes at once, on four displays; "
        "far: amounts of every magnitude on every axis of eight base styles in containing blocks of every width and depth")
BOUNDS = dict(quick="omni arrays over every shape of 4-5 nodes besides the named ones; 6 widths x 5 x 5 margins x 6 edge combinations x 4 min x 4 max x 4 directions x 3 places; pct: all triples of 9 axes; far: 20 to 30 amounts from 1/64 to 10^6 px x 9 axes x 8 bases x 15 containing blocks x 2 directions",
              thorough="every shape of 6 nodes; 9 widths x 7 x 7 margins x 16 edge combinations x 5 min x 5 max x 4 directions x 5 places; far: 130 amounts")

W = {"quick": ["auto", 0, 100, 10.5, 1500, ("!unit", 50, "%")],
     "thorough": ["auto", 0, 1, 100, 10.5, 333, 1024, 1500, ("!unit", 50, "%")]}
ML = {"quick": ["auto", 0, 10, -20, 2000], "thorough": ["auto", 0, 10, -20, 2000, 7.25, 499]}
MR = {"quick": ["auto", 0, 15, -30, 700], "thorough": ["auto", 0, 15, -30, 700, 3.5, 2001]}
E6 = [(0, 0, 0, 0), (3, 7, 4, 5), (3, 0, 0, 0), (0, 7, 0, 0), (0, 0, 4, 0), (0, 0, 0, 5)]
E16 = [(a, b, c, d) for a in (0, 3) for b in (0, 7) for c in (0, 4) for d in (0, 5)]
MIN = {"quick": ["auto", 0, 150, 900], "thorough": ["auto", 0, 150, 900, 2500]}
MAX = {"quick": [None, 80, 400, 2000], "thorough": [None, 0, 80, 400, 2000]}
PLACES = ["root", "fixed", "padded", "auto", "grand"]
QUIRKS = ("K5", "K7")
PCT = {
    "width": [("!unit", 50, "%"), "2in", "120%", "30vw"],
    "margin_left": ["auto", "10%", "1in", "-5%", "3vmin"],
    "margin_right": ["auto", "12.5%", "2pc"],
    "padding_left": ["5%", "1vw", "12pt"],
    "padding_right": ["3%", "10mm"],
    "border_left_width": ["thin", "thick", "1vh"],
    "border_right_width": ["medium", "6pt"],
    "min_width": ["40%", "7in", "500"],
    "max_width": ["20%", "1in", "50.5"],
}
# containing blocks of every width: chains of one to four blocks, the last of which holds the box, or displays
HOLDERS = [("root", 1), ("root", 640), ("root", 100000.5), ("in", 0), ("in", 0.5), ("in", 1), ("in", 99.984375), ("in", 640), ("in", 5000), ("in", 70000),
           ("deep", 300), ("deep", 9), ("ninth", 500), ("list", 400), ("rel", 200)]
BASES = [{}, {"width": 100}, {"width": 100, "margin_left": "auto"}, {"width": 100, "margin_right": "auto"}, {"width": 100.5, "margin_left": "auto", "margin_right": "auto"},
         {"width": 60, "max_width": 90, "min_width": 30}, {"width": 20, "padding_left": 3, "border_right_width": 5, "margin_left": 7, "margin_right": "auto"},
         {"margin_left": 4, "margin_right": 6, "padding_right": 8}]
AXES = ["width", "margin_left", "margin_right", "padding_left", "padding_right", "border_left_width", "border_right_width", "min_width", "max_width"]
DISPLAYS = [(1024, 768, 96), (333, 77, 72), (640, 480, 300), (2001, 999, 96)]

OMNI = {
    "pair": (True, lambda: omni.Trees("pair", omni.HORIZONTAL + ["display"], 3, displays=omni.DISPLAYS, stds=("html5",))),
    "chain": (True, lambda: omni.Trees("chain", omni.HORIZONTAL, 3, share=0.6, displays=omni.DISPLAYS[:4], stds=("html5",))),
    "mixed": (True, lambda: omni.Trees("mixed", omni.FLOW + omni.OFFSETS, 2, share=0.7, displays=omni.DISPLAYS)),
    "pair4": (True, lambda: omni.Trees("pair", omni.HORIZONTAL, 4, displays=omni.DISPLAYS, stds=("html5",))),
}
OMNI.update(omni.every_shape((4, 5), omni.HORIZONTAL, share=0.6, displays=omni.DISPLAYS[:4], stds=("html5",)))
OMNI.update(omni.every_shape((6,), omni.HORIZONTAL, quick=False, share=0.6, stds=("html5",)))

def cases(tier):
    yield from omni.cases(OMNI, tier)
    edges = E6 if tier == "quick" else E16
    for place in PLACES[:3] if tier == "quick" else PLACES:
        for d, cd in product(("ltr", "rtl"), repeat=2):
            if place == "root" and cd == "rtl":
                continue
            for w, ml in product(W[tier], ML[tier]):
                for e in edges:
                    yield ("x", place, d, cd, w, ml, e, tier)
    for h in range(len(HOLDERS)):
        for b in range(len(BASES)):
            for d in ("ltr", "rtl"):
                for axis in AXES:
                    yield ("far", h, b, d, axis, tier)
    axes = sorted(PCT)
    for i, a in enumerate(axes):
        for j in range(i + 1, len(axes)):
            for k in range(j + 1, len(axes)):
                for disp in DISPLAYS:
                    yield ("pct", a, axes[j], axes[k], disp)


def tree(place, style, cd):
    me = (dict(style, display="block", height=10), {}, [])
    if place == "root":
        return me
    if place == "fixed":
        return ({"display": "block", "width": 500, "direction": cd}, {}, [me])
    if place == "padded":
        return ({"display": "block", "padding_left": 11, "padding_right": 2, "border_left_width": 1, "direction": cd}, {},
                [me, ({"display": "block", "height": 5}, {}, [])])
    if place == "auto":
        return ({"display": "block", "margin_left": 31, "direction": cd}, {}, [({"display": "block", "height": 5}, {}, []), me])
    return ({"display": "block"}, {}, [({"display": "list-item", "width": 301, "direction": cd}, {}, [me])])


def held(h, style, d):
    """(spec, display) of the box in the holder; all directions are d."""
    kind, w = HOLDERS[h]
    me = ({"display": "block", "height": 10, "direction": d, **style}, {}, [])
    blk = {"display": "block", "direction": d}
    leaf = ({"display": "block", "height": 5, "direction": d}, {}, [])
    if kind == "root":
        return me, (w, 768, 96)
    box = {**blk, "width": w, "margin_right" if d == "ltr" else "margin_left": "auto"}
    if kind == "in":
        spec = (blk, {}, [(box, {}, [me])])
    elif kind == "deep":
        spec = (blk, {}, [(blk, {}, [leaf, (dict(blk, padding_left=2), {}, [(blk, {}, [(blk, {}, [(box, {}, [me])])])])])])
    elif kind == "ninth":
        spec = (box, {}, [leaf] * 8 + [me] + [leaf] * 2)
    elif kind == "list":
        spec = (blk, {}, [(dict(box, display="list-item"), {}, [leaf, me])])
    else:
        spec = (blk, {}, [(dict(box, position="relative", left=8), {}, [me])])
    return spec, (1024, 768, 96)


def run(spec, disp, rec):
    w, h, dpi = disp
    node = build(spec)
    real_layout(Display(w, h, dpi), node)
    rec.ops += 1
    got = rl.geom_of(node)
    rl.judge(got, spec, rl.Ctx(w, h, dpi), "html5", rec, QUIRKS)
    return got


def check(case, rec):
    if case[0] == "omni":
        return omni.sweep(omni.made(OMNI, case[1]), case[2], case[3], rec, QUIRKS)
    if case[0] == "far":
        _, h, b, d, axis, tier = case
        vals = FEW if tier == "quick" else PIXELS
        if axis.startswith("margin"):
            vals = vals + [-v for v in vals[::2]]
        for v in vals + [0]:
            spec, disp = held(h, {**BASES[b], axis: v}, d)
            try:
                rec.state(run(spec, disp, rec))
            except Exception as e:
                raise type(e)(f"{e} for {spec!r}") from e
    elif case[0] == "x":
        _, place, d, cd, w, ml, (bl, pl, pr, br), tier = case
        for mr, mn, mx in product(MR[tier], MIN[tier], MAX[tier]):
            style = {"margin_left": ml, "margin_right": mr}
            for k, v, skip in (("width", w, "auto"), ("min_width", mn, "auto"), ("max_width", mx, None), ("direction", d, "ltr"),
                               ("border_left_width", bl, 0), ("padding_left", pl, 0), ("padding_right", pr, 0), ("border_right_width", br, 0)):
                if v != skip:
                    style[k] = v
            spec = tree(place, style, cd)
            try:
                g = run(spec, (1024, 768, 96), rec)
            except Exception as e:
                raise type(e)(f"{e} for {spec!r}") from e
            rec.state(g)
    else:
        _, a, b, c, disp = case
        for x, y, z in product(PCT[a], PCT[b], PCT[c]):
            for place in ("root", "fixed", "grand"):
                for extra in ({}, {"width": 100}):
                    spec = tree(place, {**extra, a: x, b: y, c: z}, "ltr")
                    try:
                        g = run(spec, disp, rec)
                    except Exception as e:
                        raise type(e)(f"{e} for {spec!r}") from e
                    rec.state(g)
