"""C26: every supported tree lays out, with finite numbers everywhere."""
from itertools import combinations, product
from math import isfinite

from colosseum.constants import HTML4

from .. import omni
from .. import ref_css as rc
from .. import shapes
from ..atlas import LARGE
from ..world import Display, build, call, real_layout, walk

ID = "C26"
RULE = ("omni: orthogonal arrays over all layout properties of every node of a shape, display and standard, in which every combination of values of any two (single and two nodes: three) "
        "slots occurs; "
        "one: every layout property x every accepted value x every node of every host tree; two: every pair of layout properties with "
        "each of a few values on the same node, and on every two nodes of a tree; full: the cross product of kinds of values (auto, zero, positive, "
        "negative, fractional, percentage, absolute, viewport, font unit) of all sizes, margins and limits of a node; shape: every tree shape x "
        "every assignment of block, list item, inline, inline replaced and hidden nodes without mixed children x base styles; intr: every intrinsic "
        "size of inline boxes; disp: every display size, dpi and standard. The layout must not raise, every displayed node must have a box, and "
        "all its dimensions, margins, borders, paddings and edges must be finite numbers")
BOUNDS = dict(quick="omni arrays over every shape of 4-5 nodes besides the named ones; 10 hosts; 31 properties x all accepted values of the alphabet; pairs with 5 values; shapes of <= 4 nodes; 9^2 x 5^4 sizes; 12 displays",
              thorough="every shape of 6 nodes; pairs with 9 values; shapes of <= 5 nodes; 9^3 x 5^4 sizes")

U = lambda n, s: ("!unit", n, s)  # noqa: E731
B = "block"
PROPS = ([f"{a}_{s}" for a in ("margin", "padding") for s in rc.SIDES] + [f"border_{s}_width" for s in rc.SIDES] + rc.SIDES
         + ["width", "height", "min_width", "min_height", "max_width", "max_height", "direction", "position", "display", "overflow", "clear", "visibility", "z_index", "text_align",
            "border_top_style"])
KINDS = [0, 7, -7, 2.5, U(30, "%"), U(-30, "%"), U(1, "in"), U(3, "vmin"), U(2, "em"), 70000.5]
VALUES = {"position": ["static", "relative"], "direction": ["ltr", "rtl"], "display": ["block", "list-item", "none"]}
L = ({"display": B, "height": 10}, {}, [])
A = ({"display": B}, {}, [])
HOSTS = {
    "root": (A, ()),
    "root+kids": (({"display": B}, {}, [L, A, L]), ()),
    "only": (({"display": B}, {}, [A]), (0,)),
    "middle": (({"display": B, "height": 50}, {}, [L, (A[0], {}, [L]), L]), (1,)),
    "deep": (({"display": B}, {}, [L, ({"display": "list-item", "width": 80}, {}, [({"display": B}, {}, [A, L])])]), (1, 0, 0)),
    "beside hidden": (({"display": B}, {}, [({"display": "none"}, {}, []), A, ({"display": "none"}, {}, [])]), (1,)),
    "parent of inline": (({"display": B}, {}, [({"display": B}, {}, [({}, {"width": 5, "height": 6}, [])])]), (0,)),
    "inline": (({"display": B}, {}, [({}, {"width": 5, "height": 6}, [])]), (0,)),
    "image": (({"display": B}, {}, [({}, {"is_replaced": True, "ratio": 2}, [])]), (0,)),
    "inline root": (({}, {"width": 5, "height": 6}, []), ()),
}
EDGES = [f"{a}{b}_box_{s}" for a in ("", "absolute_") for b in ("padding", "border") for s in rc.SIDES] + [
    f"{a}content_{s}" for a in ("", "absolute_") for s in rc.SIDES] + [f"{b}_box_{d}" for b in ("padding", "border") for d in ("width", "height")]
NUMBERS = EDGES + ["content_width", "content_height"] + [f"{a}_{s}" for a in ("margin", "padding") for s in rc.SIDES] + [f"border_{s}_width" for s in rc.SIDES]
DISPLAYS = [(640, 480, 96), (0, 0, 96), (1, 1, 96), (0, 480, 72), (640, 0, 300), (1023, 767, 97), (33.5, 20.25, 110.5), (100000, 3, 1), (3, 100000, 1200), (640, 480, 0),
            (2 ** 31, 2 ** 31, 96), (0.25, 0.25, 96)]
ZOO = {"B": ({"display": B}, {}), "H": ({"display": B, "height": 9}, {}), "T": ({"display": "list-item", "padding_left": 3}, {}),
       "I": ({"padding_left": 1}, {"width": 5, "height": 6}), "R": ({}, {"is_replaced": True, "width": 8}), "N": ({"display": "none"}, {})}
BASES = [{}, {"margin_top": 3, "margin_left": "auto"}, {"position": "relative", "left": U(5, "%"), "bottom": 2}, {"margin_top": -3, "margin_bottom": "auto", "width": 50},
         {"min_height": 4, "max_height": 20, "direction": "rtl", "width": U(110, "%")}]

OMNI = {n: (q, lambda n=n, t=t, share=share, text=text: omni.Trees(n.split()[0], omni.FLOW + omni.OFFSETS, t, share=share, pools=omni.WILD, displays=omni.DISPLAYS + DISPLAYS, text=text))
        for n, q, t, share, text in (("one 3", True, 3, 0.4, ()), ("pair", True, 2, 0.4, ()), ("three", True, 2, 0.5, ()), ("chain", True, 2, 0.5, ()), ("chain text", True, 2, 0.5, ((0, 0),)),
                                     ("mixed", True, 2, 0.6, ()), ("pair 3", True, 3, 0.4, ()))}
OMNI.update(omni.every_shape((4, 5), omni.FLOW + omni.OFFSETS, share=0.6, pools=omni.WILD, displays=omni.DISPLAYS + DISPLAYS))
OMNI.update(omni.every_shape((6,), omni.FLOW, quick=False, share=0.6, pools=omni.WILD, displays=omni.DISPLAYS + DISPLAYS))


def values(prop):
    if prop in VALUES:
        return VALUES[prop]
    return [v for v, _ in rc.accepted(prop) if v != "inherit"] + [v for v in KINDS if rc.judge(prop, v) not in (rc.REJECT,)]


def few(prop, n):
    if prop in VALUES:
        return VALUES[prop]
    # negative paddings, widths and borders are accepted by the library, though CSS has no use for them
    res = [v for v in ["auto", "none", "thin"] + KINDS if v in T(prop) or not isinstance(v, str) and (rc.T[prop][2] & {"length", "integer"})]
    if not (rc.T[prop][2] & {"percent"}):
        res = [v for v in res if not (isinstance(v, tuple) and v[2] == "%")]
    if "signed" not in rc.T[prop][2]:
        res = [v for v in res if not (isinstance(v, tuple) and v[1] < 0 or isinstance(v, (int, float)) and v < 0)]
    if "integer" in rc.T[prop][2]:
        res = [v for v in res if isinstance(v, int) or v == "auto"]
    return res[:n] if res else sorted(T(prop))[:n]


def T(prop):
    return rc.T[prop][1]


def paths(spec, at=()):
    yield at
    for i, k in enumerate(spec[2]):
        yield from paths(k, at + (i,))


def cases(tier):
    yield from omni.cases(OMNI, tier)
    n = 5 if tier == "quick" else 9
    for h in HOSTS:
        for p in PROPS:
            yield ("one", h, p)
    for p, q in combinations(PROPS, 2):
        yield ("two", p, q, n)
    for a, b in product(range(len(KINDS) + 1), repeat=2):
        yield ("full", a, b, tier)
    size = 4 if tier == "quick" else 5
    for k in range(1, size + 1):
        for t in shapes.trees(k, 4):
            yield ("shape", t)
    for t in LARGE.values():
        yield ("large", t)
    for r in (False, True):
        for w in (None, 0, 5, 2.5, 70000):
            for h in (None, 0, 6, 0.5, 70000):
                yield ("intr", r, w, h)
    for d in range(len(DISPLAYS)):
        yield ("disp", d)


def lay(spec, std, rec, where, display=DISPLAYS[0]):
    rec.op()
    root = build(spec)
    d = Display(*display)
    res = call(real_layout, d, root, HTML4) if std == "html4" else call(real_layout, d, root)
    if res[0] != "ok":
        rec.fail(f"{where}, {std}: layout raises {res[1]}")
        return
    numbers(root, rec, f"{where}, {std}", ())


def numbers(node, rec, where, path):
    if node.style.display is None:
        return
    if node.layout is None:
        rec.fail(f"{where}: node {path} has no box")
        return
    for name in NUMBERS:
        v = getattr(node.layout, name)
        if isinstance(v, bool) or not isinstance(v, (int, float)) or not isfinite(v):
            rec.fail(f"{where}: {name} of {path} is {v!r}")
    for i, c in enumerate(node.children):
        numbers(c, rec, where, path + (i,))


def restyle(spec, path, extra):
    if not path:
        return ({**spec[0], **extra}, spec[1], spec[2])
    kids = list(spec[2])
    kids[path[0]] = restyle(kids[path[0]], path[1:], extra)
    return (spec[0], spec[1], kids)


def both(spec, rec, where, **k):
    lay(spec, "html5", rec, where, **k)
    lay(spec, "html4", rec, where, **k)


def check(case, rec):
    kind = case[0]
    if kind == "omni":
        t = omni.made(OMNI, case[1])
        for i in range(case[2], case[3]):
            spec, disp, std, _ = t.get(i)
            lay(spec, std, rec, f"{spec!r} on {disp}", disp)
        rec.state(case[:3])
        return
    if kind == "one":
        spec, path = HOSTS[case[1]]
        prop = case[2]
        if prop == "display" and case[1] in ("inline", "image", "inline root"):
            return
        for v in values(prop):
            for pos in ({}, {"position": "relative"}) if prop in rc.SIDES else ({},):
                both(restyle(spec, path, {prop: v, **pos}), rec, f"{prop}={v!r} on {case[1]} {pos}")
        rec.state(case)
    elif kind == "two":
        p, q, n = case[1:]
        for h in ("middle", "image", "inline"):
            spec, path = HOSTS[h]
            if h != "middle" and "display" in (p, q):
                continue
            for v, w in product(few(p, n), few(q, n)):
                both(restyle(spec, path, {"position": "relative", p: v, q: w}), rec, f"{p}={v!r}, {q}={w!r} on {h}")
        spec = (A[0], {}, [(A[0], {}, [L]), L])
        ps = list(paths(spec))
        for x, y in product(ps, repeat=2):
            for v, w in product(few(p, 3), few(q, 3)):
                if x != y:
                    lay(restyle(restyle(spec, x, {p: v}), y, {q: w}), "html5", rec, f"{p}={v!r} on {x}, {q}={w!r} on {y}")
        rec.state(case[:3])
    elif kind == "full":
        a, b, tier = case[1:]
        sizes = ["auto"] + KINDS
        lims = [None, 0, 7, U(30, "%"), U(1, "in")]
        mar = ["auto", 0, 7, -7, U(30, "%")]
        for lo, hi in product(lims, repeat=2):
            for ml, mr in product(mar, repeat=2):
                st = {"display": B, "width": sizes[a], "height": sizes[b], "margin_left": ml, "margin_right": mr, "margin_top": mr, "margin_bottom": ml}
                for k, v in (("min_width", lo), ("max_width", hi), ("min_height", hi), ("max_height", lo)):
                    if v is not None:
                        st[k] = v
                lay((A[0], {}, [(st, {}, [L]), L]), "html5", rec, f"{st}")
                for c in (range(len(sizes)) if tier == "thorough" else (0,)):
                    lay(({"display": B, "height": sizes[c]}, {}, [L, (st, {}, [])]), "html4", rec, f"{st} in height {sizes[c]}")
        rec.state(case[:3])
    elif kind in ("shape", "large"):
        t = case[1]
        ps = list(shapes.paths(t))
        if kind == "large":
            combos = [[z] + [k if shapes.is_leaf(t, p) or k != "I" else "B" for p in ps[1:]] for z in "BT" for k in "BHTIN"]
        else:
            combos = product(ZOO, repeat=len(ps))
        for combo in combos:
            kinds = dict(zip(ps, combo))
            if not fits(t, kinds):
                rec.skip()
                continue
            for s, base in enumerate(BASES):
                styles = {p: {**ZOO[kinds[p]][0], **(base if kinds[p] != "N" else {})} for p in ps}
                spec = shapes.make(t, styles, (), {p: ZOO[kinds[p]][1] for p in ps})
                lay(spec, "html5" if s % 2 else "html4", rec, f"{t} with {''.join(combo)} and {base}")
        rec.state(case)
    elif kind == "intr":
        r, w, h = case[1:]
        if not r and (w is None or h is None):
            rec.skip()
            return
        for ratio in (None, 0.5, 1, 3, 1000):
            for sw, sh in product(["auto", 0, 7, U(30, "%"), U(1, "in")], repeat=2):
                me = ({"width": sw, "height": sh}, {"is_replaced": r, "width": w, "height": h, "ratio": ratio}, [])
                both((A[0], {}, [me]), rec, f"{me}")
                both(({"display": B, "width": 0}, {}, [({"display": B}, {}, [me, me])]), rec, f"{me} twice")
        rec.state(case)
    elif kind == "disp":
        for h, (spec, path) in HOSTS.items():
            for st in ({}, {"width": U(50, "vw"), "height": U(20, "vmax")}, {"padding_left": U(1, "cm"), "margin_top": U(10, "%")}, {"height": U(100, "%"), "margin_left": "auto"},
                       {"border_top_width": "thick"}, {"position": "relative", "left": U(10, "vmin"), "top": U(5, "vh")}):
                both(restyle(spec, path, st), rec, f"{st} on {h}, display {DISPLAYS[case[1]]}", display=DISPLAYS[case[1]])
        rec.state(case)


def fits(t, kinds, path=()):
    """No node mixes block-level and inline-level children (C23 says what happens to those)."""
    kids = [path + (i,) for i in range(len(shapes.subtree(t, path)))]
    shown = {("i" if kinds[k] in "IR" else "b") for k in kids if kinds[k] != "N"}
    if len(shown) > 1 and kinds[path] != "N":
        return False
    return kinds[path] == "N" or all(fits(t, kinds, k) for k in kids)
