"""C15: vertical block flow (CSS 2.1 8.3.1, 10.6.3, 10.7)."""
from .. import omni
from .. import ref_layout as rl
from ..atlas import FEW, LARGE, PIXELS
from ..shapes import deviations, is_leaf, make, paths, trees
from ..world import Display, build, real_layout

ID = "C15"
RULE = ("omni: orthogonal arrays over trees with a slot for every property below of every node, the display and the standard, in which every combination of values of any t slots is laid out; "
        "every tree shape up to the node bound x three base styles (bare, margins everywhere, borders and paddings "
        "everywhere) x every set of at most k deviations of any node in margin, border, padding, height, min- and "
        "max-height (far: of every magnitude; large: on wide and tall trees), laid out by the real code and compared with the reference flow, node by node")
BOUNDS = dict(quick="omni arrays (some without margins, but with heights and limits of 0) over every shape of 4-6 nodes besides the named ones; shapes of 2-4 nodes: at most 2 deviations each; 3-node shapes: at most 3; 5-node shapes: 1; amounts from 1/64 to 10^6 px on shapes of 2-3 nodes, in pairs of 4; 9 trees of 6-13 nodes (up to 12 children, 9 levels): 1",
              thorough="every shape of 7 nodes; shapes of 2-4 nodes: at most 3 deviations; 5 nodes: 2; 6 nodes: 1; 130 amounts; large trees: 2")
ASSUMPTIONS = ["margins are not negative and boxes with margins have non-zero height, as the statement says"]

K = {"quick": {2: 3, 3: 3, 4: 2, 5: 1}, "thorough": {2: 4, 3: 3, 4: 3, 5: 2, 6: 1}}
PAIR = [0.5, 64, 1025, 12000.25]
DISPLAY = (640, 480)

OMNI = {
    "two": (True, lambda: omni.Trees("two", omni.VERTICAL + ["display"], 3, stds=("html4", "html5"))),
    "chain": (True, lambda: omni.Trees("chain", omni.VERTICAL + ["display"], 3, share=0.6, stds=("html4",))),
    "mixed": (True, lambda: omni.Trees("mixed", omni.FLOW, 2, share=0.7, displays=omni.DISPLAYS, stds=("html4", "html5"))),
    "grid": (True, lambda: omni.Trees("grid", omni.VERTICAL, 2, share=0.6, stds=("html4",))),
    "text": (True, lambda: omni.Trees("chain", omni.VERTICAL + ["display"], 2, text=[(0, 0)], stds=("html4", "html5"))),
    "pair4": (True, lambda: omni.Trees("pair", omni.VERTICAL, 4, stds=("html4",))),
    "three3": (True, lambda: omni.Trees("three", omni.VERTICAL, 3, share=0.5, stds=("html4",))),
    "deep3": (True, lambda: omni.Trees("deep", omni.VERTICAL, 3, share=0.6, stds=("html4",))),
}
OMNI.update(omni.every_shape((4, 5, 6), omni.VERTICAL, share=0.6, stds=("html4", "html5")))
OMNI.update(omni.every_shape((7,), omni.VERTICAL, quick=False, share=0.65, stds=("html4", "html5")))

# no margins: boxes without height are in the domain
ZERO = {"height": ["auto", 0, 9, ("!unit", 50, "%"), ("!unit", 0, "%"), ("!unit", 0, "em")], "max_height": ["none", 0, 4, ("!unit", 0, "in")], "min_height": ["auto", 0, 6],
        "padding_top": [0, 2], "padding_bottom": [0, 1], "border_top_width": [0, 1], "border_bottom_width": [0, 2]}
for _t in ("two", "chain", "three"):
    OMNI[f"zero {_t}"] = (True, lambda t=_t: omni.Trees(t, list(ZERO), 3, share=0.4, pools=ZERO, stds=("html4", "html5")))
OMNI.update({"zero " + k: v for k, v in omni.every_shape((4, 5), list(ZERO), share=0.4, pools=ZERO, stds=("html4", "html5")).items()})


def options(tree):
    out = []
    for p in paths(tree):
        for name, vals in (("margin_top", (0, 6, 31)), ("margin_bottom", (0, 9, 37)), ("border_top_width", (0, 2)),
                           ("padding_top", (0, 3)), ("border_bottom_width", (0, 4)), ("padding_bottom", (0, 5))):
            for v in vals:
                out.append(((p, name), v))
        out.append(((p, "margin_top"), "auto"))
        out.append(((p, "margin_bottom"), "auto"))
        out.append(((p, "margin_top"), 12.5))
        out.append(((p, "min_height"), 55))
        out.append(((p, "max_height"), 8))
        if is_leaf(tree, p):
            out.append(((p, "height"), 25.5))
        else:
            out.append(((p, "height"), 100))
            out.append(((p, "height"), 3))
        if p:
            out.append(((p, "height"), ("!unit", 50, "%")))
        out.append(((p, "display"), "list-item"))
    return out


def far_options(tree, pool):
    out = []
    for p in paths(tree):
        for name in ("margin_top", "margin_bottom", "border_top_width", "padding_top", "border_bottom_width", "padding_bottom",
                     "min_height", "max_height", "height"):
            for v in pool:
                out.append(((p, name), v))
    return out


def base(tree, which):
    styles = {}
    for i, p in enumerate(paths(tree)):
        s = {"display": "block"}
        if is_leaf(tree, p):
            s["height"] = 10 + i
        if which == 1:
            s["margin_top"] = 11 + (7 * i) % 13
            s["margin_bottom"] = 8 + (11 * i) % 17
        elif which == 2:
            s.update(border_top_width=1, padding_bottom=2, margin_bottom=14 + i, margin_top=20 - i)
        styles[p] = s
    return styles


def cases(tier):
    yield from omni.cases(OMNI, tier)
    for n, k in sorted(K[tier].items(), key=lambda x: x[0]):
        for tree in trees(n, 4):
            for which in (0, 1, 2):
                opts = options(tree)
                yield (tree, which, (), k if k < 2 else 1)
                if k >= 2:
                    # one case per first deviation; the rest is enumerated inside
                    for i in range(len(opts)):
                        yield (tree, which, (i,), k - 1)


    # amounts of every magnitude, alone and in pairs
    for n in (2, 3):
        for tree in trees(n, 4):
            m = len(far_options(tree, PAIR))
            for which in (0, 1, 2):
                for i in range(9 * n):
                    yield ("far", tree, which, i, tier)
                for i in range(m):
                    yield ("far2", tree, which, i)
    # wide and tall trees
    for name in LARGE:
        m = len(options(LARGE[name]))
        for which in (0, 1, 2):
            for i in range(m):
                if tier == "thorough":
                    yield ("large", name, which, i, 1)
                elif i % 4 == 0:
                    yield ("large", name, which, (i, min(i + 4, m)), 0)


def in_domain(spec, parent=None):
    style, _, kids = spec
    h = style.get("height", "auto")
    if isinstance(h, tuple):
        if parent is None:
            return False
        ph = parent.get("height", "auto")
        if ph == "auto" or isinstance(ph, tuple) or "min_height" in parent or "max_height" in parent:
            return False
    return all(in_domain(k, style) for k in kids)


def zero_height(r, spec):
    """A non-root box of zero border-box height with margins (its own or collapsed
    through it) is outside the statement."""
    g, kids = r
    for k, s in zip(kids, spec[2]):
        (_, _, _, h, _, _, m, b, p) = k[0]
        if h + b[0] + b[2] + p[0] + p[2] == 0:
            return True
        if zero_height(k, s):
            return True
    return False


def check(case, rec):
    if case[0] == "omni":
        return omni.sweep(omni.made(OMNI, case[1]), case[2], case[3], rec)
    if case[0] == "far":
        _, tree, which, i, tier = case
        pool = FEW if tier == "quick" else PIXELS
        opts = far_options(tree, pool)
        return sweep(tree, which, [(d,) for d in opts[i * len(pool):(i + 1) * len(pool)]], rec)
    if case[0] == "far2":
        _, tree, which, i = case
        opts = far_options(tree, PAIR)
        return sweep(tree, which, [(opts[i], d) for d in opts[i + 1:]], rec)
    if case[0] == "large":
        _, name, which, i, more = case
        tree = LARGE[name]
        opts = options(tree)
        if more:
            return sweep(tree, which, [(opts[i],)] + [(opts[i], d) for d in opts[i + 1:]], rec)
        return sweep(tree, which, [()] + [(d,) for d in opts[i[0]:i[1]]], rec)
    tree, which, first, more = case
    opts = options(tree)
    head = tuple(opts[i] for i in first)
    rest = opts[first[0] + 1:] if first else opts
    sweep(tree, which, (head + devs for devs in deviations(rest, more)), rec)


def sweep(tree, which, sets, rec):
    done = 0
    for devs in sets:
        slots = [s for s, _ in devs]
        if len(set(slots)) != len(slots):
            continue
        styles = base(tree, which)
        for (p, name), v in devs:
            styles[p][name] = v
        spec = make(tree, styles)
        if not in_domain(spec):
            continue
        ctx = rl.Ctx(*DISPLAY)
        want = rl.root(spec, ctx, "html4")
        if zero_height(want, spec):
            continue
        node = build(spec)
        real_layout(Display(*DISPLAY), node, standard="html4")
        got = rl.geom_of(node)
        rec.ops += 1
        done += 1
        if got != want:
            d = rl.diff(got, want)
            if d:
                rec.fail(f"{d} in {spec!r}")
        rec.state(got)
    if not done:
        rec.skip()
