"""C19: fitting the root box to the display."""
from itertools import product

from colosseum.constants import HTML4, HTML5

from .. import omni
from .. import ref_layout as rl
from ..atlas import FEW, LARGE, PIXELS
from ..shapes import deviations, is_leaf, make, paths
from ..world import Display, build, real_layout

ID = "C19"
RULE = ("omni: orthogonal arrays over trees with a slot for every property below of every node, the display and the standard, in which every combination of values of any t slots is laid out; "
        "every set of at most k deviations in the styles of root, first, middle, last and nested children (margins, border, "
        "padding, heights, limits, widths, visibility) of five content trees x four displays x both standards (HTML5 given "
        "explicitly and by default); far: vertical edges and heights of every magnitude, single and in pairs, on displays of every size; large: wide and tall trees; all compared with the reference; and the two standards may differ in the root's height only")
BOUNDS = dict(quick="omni arrays over every shape of 4-5 nodes besides the named ones; 5 content trees, 4 displays, at most 2 deviations of about 40; far: 19 amounts from 1/64 to 10^6 px for 8 properties of root and child, pairs of 4, on 8 displays from 0 to 20000 px; large: 9 trees of 6-13 nodes x single deviations", thorough="every shape of 6 nodes; at most 3 deviations; far: 130 amounts")

DISPLAYS = [(640, 480, 96), (333, 77, 72), (1024, 768, 300), (50, 2000, 96)]
B = "block"
CONTENT = {
    "empty": [],
    "one": [({"display": B, "height": 20}, {}, [])],
    "two": [({"display": B, "height": 20, "margin_top": 9}, {}, []), ({"display": "list-item", "height": 30, "margin_bottom": 12}, {}, [])],
    "nest": [({"display": B}, {}, [({"display": B, "height": 15, "margin_top": 8, "margin_bottom": 5}, {}, [])])],
    "hidden": [({"display": "none", "margin_top": 90}, {}, []), ({"display": B, "height": 600, "margin_bottom": 7}, {}, []),
               ({"display": "none", "margin_bottom": 80}, {}, [])],
}
ROOT = [("margin_top", 6), ("margin_top", 40), ("margin_top", "auto"), ("margin_top", ("!unit", 10, "%")), ("margin_bottom", 11), ("margin_bottom", 33),
        ("margin_bottom", "auto"), ("border_top_width", 2), ("border_top_width", "thick"), ("border_bottom_width", 3), ("padding_top", 4), ("padding_bottom", 5),
        ("padding_bottom", ("!unit", 5, "%")), ("height", 100), ("height", 3000), ("height", ("!unit", 50, "%")), ("min_height", 700), ("max_height", 10),
        ("width", 200), ("width", ("!unit", 50, "%")), ("width", 5000), ("margin_left", 17), ("margin_left", "auto"), ("margin_right", "auto"),
        ("padding_left", 6), ("border_right_width", 8), ("direction", "rtl"), ("display", "list-item"), ("border_top_style", "solid"), ("overflow", "hidden"), ("position", "relative")]
KID = [("margin_top", 50), ("margin_top", 2), ("margin_bottom", 60), ("margin_bottom", 1), ("border_top_width", 1), ("padding_bottom", 2), ("height", 900)]

WIDE = [(640, 5000, 96), (1, 1, 96), (20000, 20000, 96), (0, 0, 96), (640, 0.5, 96), (640.25, 479.75, 96), (1920, 4321, 144), (12000, 50, 72)]
VERTICAL = ["margin_top", "margin_bottom", "border_top_width", "padding_top", "border_bottom_width", "padding_bottom", "height", "min_height", "max_height"]
PAIR = [0.25, 64, 1025, 12000.25]

OMNI = {
    "one": (True, lambda: omni.Trees("one", omni.FLOW + omni.OFFSETS, 3, displays=omni.DISPLAYS + WIDE)),
    "pair": (True, lambda: omni.Trees("pair", lambda p: omni.FLOW if not p else omni.VERTICAL, 3, displays=omni.DISPLAYS)),
    "two": (True, lambda: omni.Trees("two", omni.FLOW, 2, displays=omni.DISPLAYS)),
    "two3": (True, lambda: omni.Trees("two", omni.VERTICAL + ["position"], 3, share=0.5, displays=omni.DISPLAYS)),
    "chain": (True, lambda: omni.Trees("chain", omni.VERTICAL, 3, share=0.6)),
}
OMNI.update(omni.every_shape((4, 5), lambda p: omni.FLOW if not p else ["margin_top", "margin_bottom", "height", "border_top_width", "padding_bottom", "position", "top"], share=0.6, displays=omni.DISPLAYS))
OMNI.update(omni.every_shape((6,), ["margin_top", "margin_bottom", "height", "padding_top", "padding_bottom"], quick=False, share=0.6, displays=omni.DISPLAYS))

def options(content):
    out = [(((), n), v) for n, v in ROOT]
    for p in {"empty": [], "one": [(0,)], "two": [(0,), (1,)], "nest": [(0,), (0, 0)], "hidden": [(1,)]}[content]:
        out += [((p, n), v) for n, v in KID if not (content == "nest" and p == (0,) and n == "height" and False)]
    return out


def cases(tier):
    yield from omni.cases(OMNI, tier)
    for c in CONTENT:
        opts = options(c)
        for disp in range(len(DISPLAYS)):
            yield (c, disp, None, 1)
            for i in range(len(opts)):
                yield (c, disp, i, 1 if tier == "quick" else 2)
    for c in ("empty", "one", "two", "nest"):
        for disp in range(len(WIDE)):
            for i in range(len(far_options(c, FEW))):
                yield ("far", c, disp, i, tier)
    for name in sorted(LARGE):
        for disp in range(len(WIDE)):
            for which in (0, 1):
                yield ("large", name, disp, which)


def far_options(c, pool):
    out = [(((), n), v) for n in VERTICAL for v in pool]
    if c in ("one", "two"):
        out += [(((0,), n), v) for n in VERTICAL for v in pool]
    if c == "two":
        out += [(((1,), n), v) for n in ("margin_bottom", "padding_bottom", "height") for v in pool]
    if c == "nest":
        out += [(((0, 0), n), v) for n in ("margin_top", "margin_bottom", "height") for v in pool]
    return out


def clone(s):
    return (dict(s[0]), dict(s[1]), [clone(k) for k in s[2]])


def check(case, rec):
    if case[0] == "omni":
        return omni.sweep(omni.made(OMNI, case[1]), case[2], case[3], rec)
    if case[0] == "far":
        _, c, di, i, tier = case
        slot, v = far_options(c, FEW)[i]
        judge(c_spec(c, [(slot, v)]), WIDE[di], rec)
        if tier == "thorough":
            k = len(FEW)
            for w in PIXELS[i % k::k]:
                judge(c_spec(c, [(slot, w)]), WIDE[di], rec)
        if v == FEW[0]:
            for s2, v2 in far_options(c, PAIR):
                for w in PAIR:
                    if s2 > slot:
                        judge(c_spec(c, [(slot, w), (s2, v2)]), WIDE[di], rec)
        return
    if case[0] == "large":
        _, name, di, which = case
        tree = LARGE[name]
        w, h, dpi = WIDE[di]
        for name, v in [("display", B)] + ROOT:
            if w < 100 and name in ("width", "margin_left", "margin_right", "padding_left", "border_right_width", "padding_bottom"):
                continue
            st = {p: {"display": B, "margin_top": 4 + 3 * which * len(p) + i % 3, "margin_bottom": 3 + 5 * which * len(p) + i % 4,
                      **({"height": 10 + i} if is_leaf(tree, p) else {})} for i, p in enumerate(paths(tree))}
            st[()][name] = v
            judge(make(tree, st), WIDE[di], rec)
        return
    c, di, first, more = case
    opts = options(c)
    head = () if first is None else (opts[first],)
    rest = opts if first is None else opts[first + 1:]
    for devs in deviations(rest, more):
        devs = head + devs
        if len({s for s, _ in devs}) != len(devs):
            continue
        spec = c_spec(c, devs)
        root = spec[0]
        if "position" in root and ("border_top_width" in root or "padding_top" in root):
            continue  # K1
        judge(spec, DISPLAYS[di], rec)


def c_spec(c, devs):
    spec = ({"display": B}, {}, [clone(k) for k in CONTENT[c]])
    for (p, name), v in devs:
        t = spec
        for i in p:
            t = t[2][i]
        t[0][name] = v
    return spec


def judge(spec, disp, rec):
    w, h, dpi = disp
    ctx = rl.Ctx(w, h, dpi)
    geoms = {}
    for std in ("default", "html5", "html4"):
        node = build(spec)
        if std == "default":
            real_layout(Display(w, h, dpi), node)
        else:
            real_layout(Display(w, h, dpi), node, standard=HTML4 if std == "html4" else HTML5)
        rec.ops += 1
        geoms[std] = rl.geom_of(node)
    for std in ("html5", "html4"):
        want = rl.root(spec, ctx, std)
        d = None if geoms[std] == want else rl.diff(geoms[std], want)
        if d:
            rec.fail(f"{spec!r} on {disp}, {std}: {d}")
    if geoms["default"] != geoms["html5"]:
        rec.fail(f"{spec!r}: the default standard is not HTML5: {rl.diff(geoms['default'], rl.root(spec, ctx, 'html5'))}")
    a, b = geoms["html5"], geoms["html4"]
    if a[1] != b[1] or a[0][:3] != b[0][:3] or a[0][4:] != b[0][4:]:
        rec.fail(f"{spec!r}: the standards differ in more than the height of the root: {a!r} {b!r}")
    rec.state((disp, a, b))
