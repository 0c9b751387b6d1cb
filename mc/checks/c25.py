"""C25: what has no part in layout never influences geometry."""
from itertools import combinations

from colosseum.constants import HTML4

from .. import omni
from .. import ref_css as rc
from .. import shapes
from ..world import Display, Node, at, build, build_explicit, call, real, real_layout, tree_geom, walk

ID = "C25"
RULE = ("omni: orthogonal arrays over all layout properties, all properties without a role in layout and all intrinsic attributes of the nodes of a shape, display and "
        "standard, in which every combination of values of any two slots occurs, every other row again with all initial values declared, in an order of its own; "
        "cross: every value of every such property on either box of every tree of an array in which every combination of values of any two layout slots of two boxes occurs; one: every property without a role in layout x every accepted value x every node of every tree, laid out fresh, set on a laid out "
        "tree, and deleted again; two: every pair of such properties on every node of three trees; with: every such property with each of a "
        "few values x every layout style (on the same node, its parent, its child, its sibling); all: all of them at once on all subsets of "
        "nodes; own: offsets of static boxes, sizes and limits of inline boxes, intrinsic sizes of blocks, exactness of sizes, order and route of "
        "declaration. The geometry of all boxes is compared with that of the tree without it, in both standards")
BOUNDS = dict(quick="omni arrays over every shape of 3-5 nodes besides the named ones; 13 trees (1-9 nodes), 41 properties x up to 12 values; all pairs; x 44 layout styles x 4 relations; x 2809 array rows x 2 boxes, 5 values",
              thorough="every shape of 6 nodes; all values; pairs with 3 values each; x 44 layout styles with 6 values")

U = lambda n, s: ("!unit", n, s)  # noqa: E731
B = "block"
LAYOUT = {f"{a}_{s}" for a in ("margin", "padding") for s in rc.SIDES} | {f"border_{s}_width" for s in rc.SIDES} | set(rc.SIDES) | {
    "display", "position", "float", "direction", "width", "height", "min_width", "min_height", "max_width", "max_height"}
# a role in CSS that depends on what is inside: lines of text, or margins that could collapse
TEXT = {"text_indent", "text_align", "letter_spacing", "word_spacing", "text_transform", "white_space", "unicode_bidi"}
INERT = sorted(set(rc.LONGHANDS) - LAYOUT)
L = lambda h=10, **s: ({"display": B, "height": h, **s}, {}, [])  # noqa: E731
I = lambda w=30, h=12, **s: (s, {"width": w, "height": h}, [])  # noqa: E731,E741
# name -> (spec, inline content?, margins that collapse?)
TREES = {
    "single": (({"display": B, "width": 100, "height": 50, "margin_top": 3, "padding_left": 4, "border_top_width": 2}, {}, []), False, False),
    "auto": (({"display": B}, {}, [L(), L(20)]), False, False),
    "collapse": (({"display": B, "margin_top": 3}, {}, [({"display": B, "margin_bottom": 4}, {}, [L(margin_top=7, margin_bottom=9), L(margin_top=2)]),
                                                        L(margin_top=6, margin_bottom=8)]), False, True),
    "edges": (({"display": B, "padding_top": 1}, {}, [({"display": B, "border_top_width": 2, "border_bottom_width": "thin", "padding_left": 3}, {}, [L(margin_top=7), L(5)]),
                                                      L(7, width=30, margin_left="auto", margin_right="auto")]), False, True),
    "sizes": (({"display": B, "height": 200, "width": 300}, {}, [L(U(50, "%"), width=U(50, "%"), min_width=200, max_height=40),
                                                                 ({"display": B, "min_height": 33, "max_width": 70, "width": 90}, {}, [L(3)])]), False, False),
    "relative": (({"display": B}, {}, [({"display": B, "position": "relative", "left": 5, "top": 6}, {}, [L(4)]),
                                       L(8, position="relative", right=U(10, "%"), bottom=3)]), False, False),
    "rtl": (({"display": B, "direction": "rtl"}, {}, [L(9, width=20, margin_left=3, margin_right=4, direction="rtl"), L(9, width=20, margin_left="auto")]), False, False),
    "items": (({"display": "list-item"}, {}, [({"display": "list-item"}, {}, [L()]), ({"display": "list-item", "height": 6}, {}, [])]), False, False),
    "hidden": (({"display": B}, {}, [L(), ({"display": "none"}, {}, [L()]), L(11)]), False, False),
    "inline": (({"display": B}, {}, [I(margin_left=3, padding_top=2), I(7, 8)]), True, False),
    "image": (({"display": B, "width": 200}, {}, [({"width": 40}, {"is_replaced": True, "ratio": 2, "height": 9}, []), ({}, {"is_replaced": True}, [])]), True, False),
    "wide": (({"display": B}, {}, [L(k + 1) for k in range(8)]), False, False),
    "tall": (({"display": B}, {}, [({"display": B, "padding_left": 1}, {}, [({"display": B}, {}, [({"display": B, "width": 77}, {}, [({"display": B}, {}, [L(5, margin_left=2)])])])])]), False, False),
}
# one layout style each, put beside every inert property
STYLES = [{}, {"width": 60}, {"width": U(30, "%")}, {"height": 45}, {"height": U(20, "%")}, {"height": 0}, {"min_width": 70, "width": 5}, {"max_width": 33, "width": 50},
          {"min_height": 48}, {"max_height": 4}, {"margin_left": "auto"}, {"margin_right": "auto", "margin_left": "auto", "width": 41}, {"margin_left": 13},
          {"margin_right": -7}, {"width": 2000, "margin_left": "auto"}, {"padding_left": 6}, {"padding_right": U(3, "%")}, {"padding_top": 8},
          {"padding_bottom": 2.5}, {"border_left_width": "thick"}, {"border_right_width": 3}, {"border_top_width": "medium"}, {"border_bottom_width": U(1, "pt")},
          {"border_top_width": 4, "border_top_style": "solid"}, {"border_bottom_width": 4, "border_bottom_style": "dashed", "border_bottom_color": "red"},
          {"position": "relative"}, {"position": "relative", "left": 7}, {"position": "relative", "right": -7, "left": "auto"}, {"position": "relative", "top": 5},
          {"position": "relative", "bottom": 5}, {"position": "relative", "left": 3, "right": 9, "top": 2, "bottom": 8}, {"direction": "rtl"},
          {"direction": "rtl", "width": 50, "margin_left": 3}, {"display": "list-item"}, {"width": U(1, "in"), "height": U(5, "vw")}, {"min_width": 0, "max_width": "none", "width": 10},
          {"width": 0}, {"width": 300, "height": 150}, {"width": 5, "padding_left": 500}, {"width": 33.328125, "margin_left": "auto", "margin_right": "auto"},
          {"position": "relative", "left": U(50, "%"), "width": 50}, {"margin_left": U(5, "%"), "margin_right": U(5, "%")}, {"float": "none", "position": "static"},
          {"width": 40, "height": 40, "padding_top": 4, "padding_left": 4, "border_left_width": 1}]
RELATIONS = ["same", "parent", "child", "sibling"]
WITH = {"same": (({"display": B}, {}, [L(), ({"display": B}, {}, [L(7)]), L(6)]), (1,), (1,)),
        "parent": (({"display": B}, {}, [({"display": B}, {}, [L(), L(6)])]), (0, 1), (0,)),
        "child": (({"display": B}, {}, [({"display": B}, {}, [L(), L(6)]), L(3)]), (0,), (0, 1)),
        "sibling": (({"display": B}, {}, [L(), L(6), L(5)]), (1,), (2,))}
STANDARDS = ["html5", "html4"]

WPOOLS = {**omni.WILD}
EXPLICIT = sorted(set(rc.LONGHANDS) - {"overflow", "display"})
INTR = {"width": [0, 5, 30.5, 700], "height": [0, 12, 300], "ratio": [2, 0.5, 1], "exact_width": [False, True], "exact_height": [False, True]}


def inert_slots(paths):
    out = []
    for p in paths:
        for n in INERT:
            if n != "overflow" or p == ():
                vals = values(n, 12)
                out.append((("x", p, n), vals, 0.6))
        out += [(("x", p, "intr:" + k), v, 0.6) for k, v in INTR.items()]
    return out


OMNI = {n: (q, lambda shape=shape, on=on, share=share: omni.Trees(shape, omni.FLOW + omni.OFFSETS, 2, share=share, pools=WPOOLS, displays=omni.DISPLAYS, extra=inert_slots(on)))
        for n, q, shape, on, share in (("one", True, "one", [()], 0.4), ("pair", True, "pair", [(), (0,)], 0.55), ("three", True, "three", [(1,)], 0.6), ("chain", True, "chain", [(0,)], 0.6),
                                       ("chain end", False, "chain", [(0, 0), ()], 0.6))}

# every shape: one slot of each node for all values of all inert properties
def inert_values(path):
    return [(n, v) for n in INERT if n != "overflow" or not path for v in values(n, 2)]


def shape(tree):
    return omni.Trees(tree, ["margin_top", "margin_bottom", "padding_top", "border_bottom_width", "height", "width", "min_height", "display", "position", "top"], 2, share=0.5, pools=WPOOLS,
                      extra=[(("x", p, "*"), inert_values(p), 0.2) for p in shapes.paths(tree)])


OMNI.update({f"shape {tree!r}": (n < 6, lambda tree=tree: shape(tree)) for n in (3, 4, 5, 6) for tree in shapes.trees(n, 9)})

_cross = []


def CROSS():
    if not _cross:
        _cross.append(omni.Trees("pair", omni.FLOW + omni.OFFSETS, 2, share=0.5, pools=WPOOLS, displays=omni.DISPLAYS))
    return _cross[0]


def check_cross(case, rec):
    """Every value of every inert property on either box of every row of an array over the layout properties."""
    _, a, b, n = case
    todo = [(p, path, [real(v) for v in values(p, n)]) for p in INERT for path in ((), (0,)) if p != "overflow" or not path]
    for i in range(a, b):
        spec, disp, std, _ = CROSS().get(i)
        node = omni.lay(spec, disp, std)
        want = tree_geom(node)
        for p, path, vals in todo:
            css = at(node, path).style
            for v in vals:
                setattr(css, p, v)
                compare(rec, f"{p} = {v} on {path} of {spec!r} on {disp}, {std}", want, lambda: tree_geom(omni.lay_node(node, disp, std)))
            delattr(css, p)
        rec.state((i, want))


def allowed(prop, tree, path):
    spec, inline, collapse = TREES[tree]
    if prop in TEXT and inline:
        return False
    if prop == "overflow" and collapse and path:
        return False
    return True


def nodes(spec, path=()):
    yield path
    for i, k in enumerate(spec[2]):
        yield from nodes(k, path + (i,))


def values(prop, n):
    acc = rc.accepted(prop, n)
    return [lit for lit, _ in acc]


def cases(tier):
    yield from omni.cases(OMNI, tier)
    n = 12 if tier == "quick" else 60
    for t in TREES:
        for p in INERT:
            yield ("one", t, p, n)
        yield ("all", t)
        yield ("order", t)
    for t in ("collapse", "relative", "sizes"):
        for a, b in combinations(INERT, 2):
            yield ("two", t, a, b, 1 if tier == "quick" else 3)
    for p in INERT:
        for r in RELATIONS:
            for s in range(len(STYLES)):
                yield ("with", p, r, s, 3 if tier == "quick" else 6)
    for t in TREES:
        yield ("own", t)
    n = CROSS().size
    for a in range(0, n, 15):
        yield ("cross", a, min(a + 15, n), 5 if tier == "quick" else 12)


def lay(node, std):
    d = Display(640, 480)
    if std == "html4":
        real_layout(d, node, standard=HTML4)
    else:
        real_layout(d, node)
    return tree_geom(node)


def restyle(spec, path, extra):
    if not path:
        return ({**spec[0], **extra}, spec[1], spec[2])
    kids = list(spec[2])
    kids[path[0]] = restyle(kids[path[0]], path[1:], extra)
    return (spec[0], spec[1], kids)


def compare(rec, where, want, f):
    got = call(f)
    rec.op()
    if got != ("ok", want):
        rec.fail(f"{where}: the geometry is {got[1]!r}, without it {want!r}")


def quiet(spec):
    """The spec without the offsets of static boxes."""
    style = {k: v for k, v in spec[0].items() if k not in rc.SIDES or spec[0].get("position") == "relative"}
    return (style, {}, [quiet(k) for k in spec[2]])


def noisy(spec, extra, path=()):
    style, intr = dict(spec[0]), dict(spec[1])
    for (_, p, n), v in extra.items():
        if p == path:
            if n == "*":
                style[v[0]] = v[1]
            elif n.startswith("intr:"):
                intr[n[5:]] = v
            else:
                style[n] = v
    return (style, intr, [noisy(k, extra, path + (i,)) for i, k in enumerate(spec[2])])


def check(case, rec):
    if case[0] == "omni":
        t = omni.made(OMNI, case[1])
        for i in range(case[2], case[3]):
            spec, disp, std, extra = t.get(i)
            want = tree_geom(omni.lay(quiet(spec), disp, std))
            full = noisy(spec, extra)
            compare(rec, f"{full!r} on {disp}, {std}", want, lambda: tree_geom(omni.lay(full, disp, std)))
            if i % 2 and not case[1].startswith("shape"):
                compare(rec, f"{spec!r} with all initial values declared, turn {i}, on {disp}, {std}", want, lambda: tree_geom(omni.lay_node(build_explicit(spec, EXPLICIT, i), disp, std)))
        rec.state(case[:3])
        return
    if case[0] == "cross":
        return check_cross(case, rec)
    kind, t = case[0], case[1]
    if kind == "with":
        prop, rel, s, n = case[1:]
        spec, target, other = WITH[rel]
        spec = restyle(spec, other, STYLES[s])
        for std in STANDARDS:
            want = lay(build(spec), std)
            for v in values(prop, 100)[-n:]:
                compare(rec, f"{prop}={v!r} on {target} with {STYLES[s]} on {other} ({rel}), {std}", want, lambda: lay(build(restyle(spec, target, {prop: v})), std))
        rec.state(case[1:4])
        return
    spec = TREES[t][0]
    for std in STANDARDS:
        want = lay(build(spec), std)
        if kind == "one":
            prop = case[2]
            for path in nodes(spec):
                if not allowed(prop, t, path):
                    rec.skip()
                    continue
                old = build(spec)
                lay(old, std)
                for v in values(prop, case[3]):
                    where = f"{prop}={v!r} on {path} of {t}, {std}"
                    compare(rec, where, want, lambda: lay(build(restyle(spec, path, {prop: v})), std))
                    setattr(at(old, path).style, prop, real(v))
                    compare(rec, where + " (laid out before)", want, lambda: lay(old, std))
                delattr(at(old, path).style, prop)
                compare(rec, f"{prop} deleted on {path} of {t}, {std}", want, lambda: lay(old, std))
            rec.state((t, prop, std))
        elif kind == "two":
            a, b, n = case[2:]
            for path in nodes(spec):
                if not (allowed(a, t, path) and allowed(b, t, path)):
                    rec.skip()
                    continue
                for v in values(a, 100)[-n:]:
                    for w in values(b, 100)[-n:]:
                        compare(rec, f"{a}={v!r}, {b}={w!r} on {path} of {t}, {std}", want, lambda: lay(build(restyle(spec, path, {a: v, b: w})), std))
            rec.state((t, a, b, std))
        elif kind == "all":
            ps = list(nodes(spec))
            for pick in (0, 1, -1, -2):
                for mask in range(1, 2 ** len(ps) if len(ps) <= 6 else 2):
                    s = spec
                    for i, path in enumerate(ps):
                        if len(ps) > 6 or mask >> i & 1:
                            vals = {p: values(p, 100) for p in INERT if allowed(p, t, path)}
                            s = restyle(s, path, {p: v[pick % len(v)] for p, v in vals.items()})
                    compare(rec, f"all properties (choice {pick}) on nodes {mask:b} of {t}, {std}", want, lambda: lay(build(s), std))
            rec.state((t, "all", std))
        elif kind == "order":
            # the order and the route by which a style came about
            for k, way in enumerate(("reversed", "items", "update", "twice", "toggled")):
                root = build(restyle_all(spec, {}))
                for path in nodes(spec):
                    style = dict(sub(spec, path)[0])
                    css = at(root, path).style
                    for key in list(style):
                        delattr(css, key)
                    pairs = list(style.items())
                    if way == "reversed":
                        pairs.reverse()
                    if way == "update":
                        css.update(**{a.replace("_", "-"): real(b) for a, b in pairs})
                        continue
                    for a, b in pairs:
                        if way == "items":
                            css[a.replace("_", "-")] = real(b)
                        elif way == "toggled":
                            for v in values(a, 100)[:3]:
                                setattr(css, a, real(v))
                            setattr(css, a, real(b))
                        else:
                            setattr(css, a, real(b))
                            if way == "twice":
                                setattr(css, a, real(b))
                compare(rec, f"{t} declared {way}, {std}", want, lambda: lay(root, std))
            rec.state((t, "order", std))
        elif kind == "own":
            for path in nodes(spec):
                style, intr, kids = sub(spec, path)
                display = style.get("display", "inline")
                extras = []
                if style.get("position", "static") == "static":
                    for side in rc.SIDES:
                        extras += [({side: v}, {}) for v in (5, -5, 0, U(10, "%"), "auto", 70000)]
                    extras += [({"left": 3, "right": 4, "top": 5, "bottom": 6}, {}), ({"left": "inherit"}, {}), ({"bottom": "inherit", "position": "static"}, {})]
                extras += [({}, {"exact_width": a, "exact_height": b}) for a in (True, False) for b in (True, False)]
                if display in (B, "list-item", "none") and not intr:
                    extras += [({}, {"width": w, "height": h, "ratio": r}) for w in (None, 0, 55, 2000) for h in (None, 0, 44) for r in (None, 0.5, 3)]
                    extras += [({"min_width": 10, "max_width": 20} if display == "none" else {}, {"width": 30, "exact_width": False})]
                if display == "inline" and not intr.get("is_replaced"):
                    for p in ("width", "height", "min_width", "max_width", "min_height", "max_height"):
                        extras += [({p: v}, {}) for v in (0, 5, 500, U(50, "%"), U(1, "in"))]
                    extras += [({}, {"ratio": r}) for r in (0.5, 1, 3)]
                extras += [({"clear": c}, {"exact_width": False}) for c in ("left", "right", "both")]
                for st, it in extras:
                    def make():
                        root = build(restyle(spec, path, st))
                        for k, v in it.items():
                            setattr(at(root, path).intrinsic, k, v)
                        return lay(root, std)
                    compare(rec, f"style {st} and intrinsic {it} on {path} of {t}, {std}", want, make)
            rec.state((t, "own", std))


def sub(spec, path):
    for i in path:
        spec = spec[2][i]
    return spec


def restyle_all(spec, extra):
    return ({**spec[0], **extra}, spec[1], [restyle_all(k, extra) for k in spec[2]])
