"""C18: relative positioning (CSS 2.1 9.4.3)."""
from itertools import product

from colosseum.constants import HTML4

from .. import omni
from .. import ref_layout as rl
from ..atlas import FEW, LARGE, PIXELS
from ..shapes import is_leaf, make, paths, trees
from ..world import Display, build, real_layout

ID = "C18"
RULE = ("omni: orthogonal arrays over trees with a slot for every property below of every node, the display and the standard, in which every combination of values of any t slots is laid out; "
        "one: every tree shape up to the node bound x every node made relative x every combination of left, right, top and "
        "bottom from the pool x container direction x base style; two: every pair of nodes made relative x offsets; inl: "
        "an inline child made relative; meta: 8 kinds of nodes (blocks, list items, text, images) x the directions of the node and "
        "the boxes around it x offsets, compared with the same tree laid out with the node static; mirror: a bottom (right) offset of any kind, percentages included, compared with the opposite top (left) offset; far: offsets of every magnitude; large: every node of wide and tall trees; off: offsets on nodes that are not relative. The real geometry is compared with "
        "the reference layout (static position plus offset), both standards")
BOUNDS = dict(quick="omni arrays over every shape of 4-5 nodes besides the named ones; shapes of 1-4 nodes; 5 x 4 x 3 x 2 offsets; 3 base styles; pairs with 6 offsets each; meta: 8 kinds, 8 directions, 8 x 7 offsets; far: 38 amounts from 1/64 to 10^6 px; large: 9 trees of 6-13 nodes, 14 offsets",
              thorough="every shape of 6 nodes; shapes of 1-5 nodes; 6 x 5 x 4 x 3 offsets; pairs with 12 offsets each; far: 260 amounts")
QUIRKS = ("K1", "K2")
P = lambda n: ("!unit", n, "%")  # noqa: E731
LEFT = ["auto", 13, -5.5, ("!unit", 10, "%"), 0, ("!unit", 0.5, "in")]
RIGHT = ["auto", 7, ("!unit", 20, "%"), -3, ("!unit", 3, "vw")]
TOP = ["auto", 11, -6, 2.25]
BOTTOM = ["auto", 9, -14]
PAIRS = [{"left": 4}, {"right": 6}, {"top": 5}, {"bottom": 8}, {"left": ("!unit", 25, "%"), "top": -3}, {},
         {"left": 1, "right": 2}, {"top": 1, "bottom": 2}, {"left": -4, "bottom": -8}, {"right": ("!unit", 10, "%")}, {"top": 70}, {"bottom": 70, "right": -1}]
DISP = (640, 480)
# kinds of a relative node, none of them with an edge at the top (K1)
KINDS = {
    "block": ({"display": "block", "height": 14, "margin_left": 3}, {}),
    "list": ({"display": "list-item", "height": 14, "padding_left": 3}, {}),
    "tall": ({"display": "block", "height": 14}, {}, [({"display": "block", "height": 3, "margin_left": 4}, {}, []), ({"display": "list-item", "height": 5}, {}, [])]),
    "text": ({"margin_left": 2, "padding_bottom": 1}, {"width": 30, "height": 12}),
    "image": ({"padding_left": 2}, {"is_replaced": True, "width": 30, "height": 12}),
    "ratio": ({}, {"is_replaced": True, "height": 12, "ratio": 2.5}),
    "sized": ({"width": 50, "height": ("!unit", 50, "%")}, {"is_replaced": True, "ratio": 2}),
    "empty": ({"border_left_width": 1}, {"is_replaced": True}),
}
FAR = [s * v for v in FEW for s in (1, -1)]
OFFS = [("auto", "auto"), (5, "auto"), ("auto", 7), (5, 7), (("!unit", 10, "%"), 7), (0, 7), (-3, ("!unit", 5, "%")), (("!unit", 2, "vw"), ("!unit", 0.25, "in"))]
VERT = [("auto", "auto"), (11, "auto"), ("auto", 9), (-6, 9), (0, 9), (("!unit", 10, "vh"), "auto"), ("auto", ("!unit", 0.5, "in"))]

OMNI = {
    "pair": (True, lambda: omni.Trees("pair", ["margin_left", "margin_top", "border_top_width", "padding_top", "padding_left", "width", "height", "display", "direction"] + omni.OFFSETS, 3, share=0.4, displays=omni.DISPLAYS[:4])),
    "three": (True, lambda: omni.Trees("three", omni.FLOW + omni.OFFSETS, 2, share=0.65, displays=omni.DISPLAYS)),
    "chain": (True, lambda: omni.Trees("chain", omni.FLOW + omni.OFFSETS, 2, share=0.65)),
    "text": (True, lambda: omni.Trees("chain", omni.FLOW + omni.OFFSETS, 2, text=[(0, 0)])),
    "chain3": (True, lambda: omni.Trees("chain", ["margin_top", "padding_top", "padding_left", "height", "direction"] + omni.OFFSETS, 3, share=0.4)),
    "three3": (True, lambda: omni.Trees("three", ["margin_top", "margin_bottom", "padding_left", "height", "width", "direction"] + omni.OFFSETS, 3, share=0.5)),
    "deep": (True, lambda: omni.Trees("deep", omni.FLOW + omni.OFFSETS, 2, share=0.65)),
}
OMNI.update(omni.every_shape((4, 5), ["margin_top", "margin_left", "padding_left", "height", "direction"] + omni.OFFSETS, share=0.5, shares={"position": 0.3}))
OMNI.update(omni.every_shape((6,), ["margin_top", "height", "direction"] + omni.OFFSETS, quick=False, share=0.5, shares={"position": 0.3}))

def base(tree, which):
    st = {}
    for i, p in enumerate(paths(tree)):
        s = {"display": "block"}
        if is_leaf(tree, p):
            s["height"] = 10 + i
        if which >= 1:
            s.update(margin_top=4 + (7 * i) % 11, margin_bottom=3 + (5 * i) % 13, margin_left=2 + i)
        if which == 2:
            s.update(border_top_width=1, padding_top=2 + i, padding_left=3, border_bottom_width=2)
        if which == 3:
            s.update(padding_bottom=2, width=300 - 40 * i, height=40)
        st[p] = s
    return st


def cases(tier):
    yield from omni.cases(OMNI, tier)
    q = tier == "quick"
    for n in range(1, 5 if q else 6):
        for tree in trees(n, 4):
            ps = list(paths(tree))
            for which in (0, 1, 2, 3):
                for d in ("ltr", "rtl"):
                    if which == 3 and d == "rtl":
                        continue  # over-constrained widths: C14
                    for p in ps:
                        yield ("one", tree, which, d, p, tier)
                    if which != 3:
                        for a in range(len(ps)):
                            for b in range(a + 1, len(ps)):
                                yield ("two", tree, which, d, ps[a], ps[b], 6 if q else 12)
    for d in ("ltr", "rtl"):
        for e in range(4):
            yield ("inl", d, e)
    for n in (2, 3):
        for tree in trees(n, 3):
            for p in paths(tree):
                yield ("off", tree, p)


    # every kind of node, every direction of the two boxes around it and its own
    for kind in sorted(KINDS):
        for ds in product(("ltr", "rtl"), repeat=3):
            yield ("meta", kind, ds)
            yield ("mirror", kind, ds)
        yield ("far", kind, tier)
    for name in sorted(LARGE):
        for p in paths(LARGE[name]):
            yield ("large", name, p)


def geom(spec):
    node = build(spec)
    real_layout(Display(*DISP), node)
    return rl.geom_of(node)


def moved(g, path, dx, dy):
    """g with the node at path moved, and what it contains with it."""
    (x, y, w, h, ax, ay, *rest), kids = g
    if path is None:  # inside
        return ((x, y, w, h, ax + dx, ay + dy, *rest), tuple(moved(k, None, dx, dy) for k in kids))
    if path == ():
        return ((x + dx, y + dy, w, h, ax + dx, ay + dy, *rest), tuple(moved(k, None, dx, dy) for k in kids))
    return (g[0], tuple(moved(k, path[1:], dx, dy) if i == path[0] else k for i, k in enumerate(kids)))


def meta(kind, ds, left, right, top, bottom, place, rec):
    """The same tree with the node static, moved by the offset. The boxes around it
    have heights of their own (K2)."""
    k = KINDS[kind]
    style, intr, kids = dict(k[0]), k[1], k[2] if len(k) > 2 else []
    style["direction"] = ds[2]
    block = style.get("display", "inline") in rl.BLOCKS
    sib = ({"display": "block", "height": 6}, {}, []) if block else ({"padding_left": 1}, {"width": 8, "height": 4}, [])
    ctx = rl.Ctx(*DISP)
    cbw = 200
    want_dx = want_dy = 0
    if left != "auto" and (right == "auto" or ds[1] == "ltr"):
        want_dx = rl.px(left, ctx, cbw)
    elif right != "auto":
        want_dx = -rl.px(right, ctx, cbw)
    if top != "auto":
        want_dy = rl.px(top, ctx, None)
    elif bottom != "auto":
        want_dy = -rl.px(bottom, ctx, None)

    def spec(st):
        row = [sib] * place + [(st, intr, kids), sib]
        return ({"display": "block", "direction": ds[0]}, {}, [
            ({"display": "block", "direction": ds[1], "width": cbw, "margin_right": "auto", "height": 90, "margin_left": 10}, {}, row),
            ({"display": "block", "height": 5}, {}, [])])

    still = geom(spec(style))
    rel = dict(style)
    put(rel, left=left, right=right, top=top, bottom=bottom)
    got = geom(spec(rel))
    want = moved(still, (0, place), want_dx, want_dy)
    rec.ops += 1
    if got != want:
        rec.fail(f"relative {kind} {rel!r} as child {place} of {ds}: {rl.diff(got, want)}")
    rec.state(got)


MIRROR = [P(n) for n in (0, 10, 50, 100, 250, -10, -100, 12.5)] + [7, -3.5, ("!unit", 5, "vh"), ("!unit", -1, "em"), ("!unit", 0.5, "in")]


def negated(v):
    return -v if isinstance(v, (int, float)) else ("!unit", -v[1], v[2])


def mirror(kind, ds, rec):
    """An offset from the far side, whatever it is measured of, is the opposite one from the near side."""
    k = KINDS[kind]
    intr, kids = k[1], k[2] if len(k) > 2 else []
    block = k[0].get("display", "inline") in rl.BLOCKS
    sib = ({"display": "block", "height": 6}, {}, []) if block else ({"padding_left": 1}, {"width": 8, "height": 4}, [])
    for v, h, mine, place, edge in product(MIRROR, ("auto", 90, P(50)), ("auto", 14, P(25)), (0, 1, None), ({}, {"margin_top": 3}, {"padding_top": 2})):
        def spec(**offs):
            st = {**k[0], **edge, "direction": ds[2], "position": "relative", **offs}
            if mine != "auto":
                st["height"] = mine
            if place is None:  # the root
                return (st, intr, kids)
            return ({"display": "block", "direction": ds[0]}, {}, [
                ({"display": "block", "direction": ds[1], "width": 200, "margin_right": "auto", **({} if h == "auto" else {"height": h})}, {}, [sib] * place + [(st, intr, kids), sib])])

        for near, far in (("left", "right"), ("top", "bottom")):
            a, b = geom(spec(**{far: v})), geom(spec(**{near: negated(v)}))
            rec.ops += 2
            if a != b:
                rec.fail(f"relative {kind} in {ds}, height {h!r}/{mine!r}, child {place}: {far} = {v!r} and {near} = {negated(v)!r} differ: {rl.diff(a, b)}")
            other = {"top": 0, "bottom": 0} if near == "left" else {"left": 0, "right": 0}
            c = geom(spec(**{far: v}, **other))
            if c != a:
                rec.fail(f"relative {kind} in {ds}, height {h!r}/{mine!r}, child {place}: {far} = {v!r} differs beside {other}: {rl.diff(a, c)}")
        rec.state(a)


def run(spec, rec):
    for std in ("html5", "html4"):
        node = build(spec)
        if std == "html5":
            real_layout(Display(*DISP), node)
        else:
            real_layout(Display(*DISP), node, standard=HTML4)
        rec.ops += 1
        got = rl.geom_of(node)
        rl.judge(got, spec, rl.Ctx(*DISP), std, rec, QUIRKS)
        rec.state(got)


def offsets(tier):
    if tier == "quick":
        return product(LEFT[:5], RIGHT[:4], TOP[:3], BOTTOM[:2])
    return product(LEFT, RIGHT, TOP, BOTTOM)


def put(style, **kw):
    style["position"] = "relative"
    for k, v in kw.items():
        if v != "auto":
            style[k] = v


def check(case, rec):
    if case[0] == "omni":
        return omni.sweep(omni.made(OMNI, case[1]), case[2], case[3], rec, QUIRKS)
    kind = case[0]
    if kind == "one":
        _, tree, which, d, p, tier = case
        for left, right, top, bottom in offsets(tier):
            st = base(tree, which)
            if d == "rtl":
                for s in st.values():
                    s["direction"] = d
                if which != 2 and not is_leaf(tree, p):
                    st[p].pop("direction")
            elif not is_leaf(tree, p) and which == 1 and p:
                st[p]["direction"] = "rtl"
            put(st[p], left=left, right=right, top=top, bottom=bottom)
            run(make(tree, st), rec)
    elif kind == "two":
        _, tree, which, d, p, r, n = case
        for a, b in product(PAIRS[:n], repeat=2):
            st = base(tree, which)
            for s in st.values():
                s["direction"] = d
            put(st[p], **a)
            put(st[r], **b)
            run(make(tree, st), rec)
    elif kind == "inl":
        _, d, e = case
        edges = [{}, {"padding_left": 3, "margin_left": 2}, {"padding_top": 4}, {"margin_top": 5, "border_top_width": 1}][e]
        for left, right, top, bottom in offsets("thorough"):
            kid = dict(edges)
            put(kid, left=left, right=right, top=top, bottom=bottom)
            spec = ({"display": "block", "direction": d}, {}, [
                ({"display": "block", "direction": d, "margin_top": 6}, {}, [(kid, {"width": 30, "height": 12}, [])]),
                ({"display": "block", "height": 5}, {}, [])])
            run(spec, rec)
    elif kind == "mirror":
        mirror(case[1], case[2], rec)
    elif kind == "meta":
        for (left, right), (top, bottom), place in product(OFFS, VERT, (0, 1)):
            meta(case[1], case[2], left, right, top, bottom, place, rec)
    elif kind == "far":
        pool = FAR if case[2] == "quick" else [s * v for v in PIXELS for s in (1, -1)]
        for i, v in enumerate(pool):
            for ds in (("ltr",) * 3, ("ltr", "rtl", "ltr")):
                for left, right in ((v, "auto"), ("auto", v), (v, 3), (3, v)):
                    meta(case[1], ds, left, right, "auto", "auto", i % 2, rec)
                for top, bottom in ((v, "auto"), ("auto", v), (v, 3), (3, v)):
                    meta(case[1], ds, "auto", "auto", top, bottom, i % 2, rec)
    elif kind == "large":
        tree = LARGE[case[1]]
        for kw in PAIRS + [{"left": 5000.25, "top": 5001}, {"right": -70000, "bottom": 0.5}]:
            for which in (0, 1):
                for d in ("ltr", "rtl"):
                    st = base(tree, which)
                    for i, s in enumerate(st.values()):
                        s["direction"] = d
                        s["display"] = "list-item" if i % 3 == 2 else "block"
                    put(st[case[2]], **kw)
                    run(make(tree, st), rec)
    else:
        _, tree, p = case
        for left, right, top, bottom in offsets("quick"):
            for extra in ({}, {"position": "static"}):
                st = base(tree, 1)
                put(st[p], left=left, right=right, top=top, bottom=bottom)
                st[p].pop("position")
                st[p].update(extra)
                run(make(tree, st), rec)
