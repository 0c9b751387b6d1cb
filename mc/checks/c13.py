"""C13: consistency of box geometry."""
from itertools import product
from operator import attrgetter

from .. import omni
from ..atlas import LARGE
from ..world import Box, Display, Size, build, real_layout, walk

ID = "C13"
RULE = ("omni: orthogonal arrays over all layout properties of every node of a shape (hidden ones included), display and standard, in which every combination of values of "
        "any two (two nodes: three) slots occurs, laid out, checked, and every box moved; gaps: trees some of whose nodes have no box, or got their children after they were moved; "
        "every sequence up to the depth bound of box operations (position, size, padding, border, margin, dirtiness and visibility assignments of "
        "any box, resets of any box, layouts of the tree) on every tree of the pool; after each operation all stored and "
        "derived edges of all boxes are compared with a model that holds just the stored numbers and the definitions")
BOUNDS = dict(quick="omni arrays over every shape of 4-5 nodes besides the named ones; 5 trees of 1-4 boxes; all operations to depth 2 (3 on the chain of three); position operations and resets to depth 4 (3 on four boxes); amounts from 1/256 to 2^31 px to depth 2; 9 trees of 6-13 boxes (up to 12 children, 9 levels) to depth 2",
              thorough="all operations to depth 3, position operations and resets to depth 5")

TREES = {"one": (), "chain": (((),),), "fork": ((), ()), "deep": ((((),),),), "bush": (((),), ())}
TREES_ALL = {**TREES, **LARGE}
POS = [("content_top", 5), ("content_top", -3.5), ("content_top", 0), ("content_left", 7), ("content_left", 0), ("reset", None)]
SIZE = [("content_width", 30), ("content_height", 20.5), ("padding_top", 1), ("padding_right", 2), ("padding_bottom", 3), ("padding_left", 4),
        ("border_top_width", 10), ("border_right_width", 20), ("border_bottom_width", 30), ("border_left_width", 40),
        ("margin_top", 100), ("margin_left", 200), ("margin_right", 300), ("margin_bottom", 400),
        ("dirty", False), ("dirty", None), ("visible", False)]
# amounts below a layout unit and beyond any screen, and differences of that size
FAR = [(n, v) for n in ("content_top", "content_left") for v in (0.00390625, 5.00390625, 5.015625, 40000, -40000.25, 1e6, 33000, -5, 2**31)]
FARSIZE = [(n, v) for n in [n for n, _ in SIZE if n not in ("dirty", "visible")] for v in (0, 0.015625, 0.5, 10.5, 2000, 33000.5, 1e6)]
STORED = ["content_top", "content_left", "content_width", "content_height",
          "padding_top", "padding_right", "padding_bottom", "padding_left",
          "border_top_width", "border_right_width", "border_bottom_width", "border_left_width"]

WPOOLS = {**omni.WILD, "display": ["none", "list-item", "block"]}
OMNI = {n: (q, lambda n=n, share=share: omni.Trees(n.split()[0], omni.FLOW + omni.OFFSETS, 3 if n.endswith("3") else 2, share=share, pools=WPOOLS, displays=omni.DISPLAYS))
        for n, q, share in (("one", True, 0.4), ("pair", True, 0.5), ("three", True, 0.6), ("chain", True, 0.6), ("mixed", True, 0.7), ("pair 3", True, 0.5))}
OMNI.update(omni.every_shape((4, 5), ["margin_top", "margin_left", "padding_top", "border_left_width", "width", "height", "display", "position", "left", "bottom"], share=0.5, pools=WPOOLS))
GAPS = {"fan3": ((), (), ()), "nest": (((), ()), ((), ())), "fork": ((), ()), "chain": (((),),)}


def count(t):
    return 1 + sum(count(k) for k in t)


def cases(tier):
    yield from omni.cases(OMNI, tier)
    for name, t in GAPS.items():
        n = count(t)
        for mask in range(1, 2 ** n):
            yield ("gaps", name, mask)
        for i in range(n):
            yield ("joined", name, i)
    for name, t in TREES.items():
        n = count(t)
        allops = [(i,) + o for i in range(n) for o in POS + SIZE] + [(0, "layout", 0), (0, "layout", 1)]
        depth = 3 if tier == "thorough" or name == "chain" else 2
        for d in range(1, depth + 1):
            for head in product(allops, repeat=min(2, d)):
                yield (name, head, d - min(2, d), "all")
        posops = [(i,) + o for i in range(n) for o in POS] + [(0, "layout", 0)]
        for head in product(posops, repeat=2):
            yield (name, head, (2 if tier == "quick" else 3) - (n > 3), "pos")
        far = [(i,) + o for i in range(n) for o in FAR + POS[:1] + POS[-1:]]
        for head in product(far, repeat=2):
            yield (name, head, 0, "far")
        if n <= 3:
            for a in [(i,) + o for i in range(n) for o in FARSIZE]:
                yield (name, (a,), 1, "farsize")
    for name in LARGE:
        n = count(TREES_ALL[name])
        ops = [(i,) + o for i in range(n) for o in POS[:2] + POS[3:4] + POS[-1:] + SIZE[:1]] + [(0, "layout", 0)]
        for a in ops:
            yield (name, (a,), 1, "large")


def make(t, i=0):
    style = {"display": "block", "padding_top": 2, "margin_left": 3, "border_left_width": 1, "margin_top": 4}
    if not t:
        style["height"] = 9
    return (style, {}, [make(k) for k in t])


_CSS = {}


class Light:
    """A node whose (never changed) style declaration is shared between cases."""

    def __init__(self, t, parent=None):
        leaf = not t
        if leaf not in _CSS:
            _CSS[leaf] = build(make(() if leaf else ((),))).style
        self.style = _CSS[leaf]
        self.parent = parent
        self.children = []
        self.intrinsic = Size(self)
        self.layout = Box(self)
        self.children = [Light(k, self) for k in t]


class M:
    """Model box: stored numbers, parent, children."""

    def __init__(self, parent):
        self.parent, self.kids = parent, []
        self.v = dict.fromkeys(STORED, 0)
        # known finding K8: absolute edges are unreliable in the subtree of a box
        # that was reset on its own, until the whole tree is reset or laid out
        self.lost = False
        self.gone = False  # no box

    def abs(self):
        x, y = self.parent.abs() if self.parent else (0, 0)
        return x + self.v["content_left"], y + self.v["content_top"]

    def reset(self, lost):
        for k in STORED:
            self.v[k] = 0
        self.lost = lost
        for k in self.kids:
            k.reset(lost)


def model(t, parent=None):
    m = M(parent)
    m.kids = [model(k, m) for k in t]
    return m


def flat(m):
    yield m
    for k in m.kids:
        yield from flat(k)


EDGES_Y = [b + s for b in ("content_", "padding_box_", "border_box_") for s in ("top", "bottom")]
EDGES_X = [b + s for b in ("content_", "padding_box_", "border_box_") for s in ("left", "right")]


def expected(m):
    v = m.v
    ax, ay = m.abs()
    px, py = ax - v["content_left"], ay - v["content_top"]
    t, l, w, h = v["content_top"], v["content_left"], v["content_width"], v["content_height"]
    pt, pr, pb, pl = (v[f"padding_{s}"] for s in ("top", "right", "bottom", "left"))
    bt, br, bb, bl = (v[f"border_{s}_width"] for s in ("top", "right", "bottom", "left"))
    e = dict(v)
    e.update(
        content_right=l + w, content_bottom=t + h,
        padding_box_top=t - pt, padding_box_left=l - pl, padding_box_right=l + w + pr, padding_box_bottom=t + h + pb,
        padding_box_width=pl + w + pr, padding_box_height=pt + h + pb,
        border_box_top=t - pt - bt, border_box_left=l - pl - bl, border_box_right=l + w + pr + br, border_box_bottom=t + h + pb + bb,
        border_box_width=bl + pl + w + pr + br, border_box_height=bt + pt + h + pb + bb,
    )
    for k in EDGES_Y:
        e["absolute_" + k] = e[k] + py
    for k in EDGES_X:
        e["absolute_" + k] = e[k] + px
    return e


GET = attrgetter(*expected(M(None)))


def verify(node, m, rec, trail):
    lost = None
    for i, (n, k) in enumerate(zip(walk(node), flat(m))):
        b = n.layout
        if k is None or k.gone:
            continue
        e = expected(k)
        if GET(b) == tuple(e.values()):
            continue
        for name, want in e.items():
            if getattr(b, name) != want:
                bad = f"after {trail!r}: box {i} {name} is {getattr(b, name)!r}, expected {want!r}"
                if k.lost and name.startswith("absolute_"):
                    lost = bad
                else:
                    rec.fail(bad)
    if lost:
        rec.known("K8", lost)


DISPLAYS = [Display(640, 480), Display(333, 200)]


def apply(node, m, op):
    i, name, val = op
    n, k = list(walk(node))[i], list(flat(m))[i]
    if name == "layout":
        real_layout(DISPLAYS[val], node)
        # the model takes over the stored numbers and checks everything derived
        for a, b in zip(walk(node), flat(m)):
            b.v = {s: getattr(a.layout, s) for s in STORED}
            b.lost = False
    elif name == "reset":
        n.layout.reset()
        k.reset(k.parent is not None)
    else:
        setattr(n.layout, name, val)
        if name in k.v:
            k.v[name] = val


def mirror(node, parent=None):
    """The model of the boxes of a tree as it is."""
    m = M(parent)
    m.gone = node.layout is None or parent is not None and parent.gone
    if not m.gone:
        m.v = {s: getattr(node.layout, s) for s in STORED}
    m.kids = [mirror(c, m) for c in node.children]
    return m


def check_omni(case, rec):
    t = omni.made(OMNI, case[1])
    for i in range(case[2], case[3]):
        spec, disp, std, _ = t.get(i)
        node = omni.lay(spec, disp, std)
        m = mirror(node)
        verify(node, m, rec, (spec, disp, std))
        rec.ops += 1
        if not m.gone:
            node.layout.dirty = (False, True, None)[i % 3]
        for j, k in enumerate(flat(m)):
            if not k.gone:
                apply(node, m, (j, "content_left", 3.25 + j))
                apply(node, m, (j, "content_top", 1000 - j))
                apply(node, m, (j, "padding_left", 2))
                rec.ops += 3
        verify(node, m, rec, (spec, disp, std, "moved"))
        rec.state(i)


GAPOPS = [("content_top", 5), ("content_left", 7), ("content_top", -3.5), ("content_left", 0.5), ("reset", None), ("content_width", 30), ("padding_top", 1)]


def check_gaps(case, rec):
    """Boxes around nodes that have none."""
    _, name, mask = case
    t = GAPS[name]
    n = count(t)
    for a, b in product([(i,) + o for i in range(n) for o in GAPOPS], repeat=2):
        if mask >> a[0] & 1 or mask >> b[0] & 1 or any(o[1] == "reset" and o[0] for o in (a, b)):
            continue
        node = Light(t)
        for i, x in enumerate(walk(node)):
            if mask >> i & 1:
                x.layout = None
        m = mirror(node)
        if any(k.gone for k in flat(m)) and [k for i, k in enumerate(flat(m)) if i in (a[0], b[0]) and k.gone]:
            continue  # inside a part without boxes
        for j, op in enumerate((a, b)):
            apply(node, m, op)
            rec.ops += 1
            verify(node, m, rec, (name, mask, a, b)[: 3 + j])
        rec.state(case)


def check_late(case, rec):
    """Children that come to a box after it was moved follow its next moves."""
    _, name, i = case
    t = GAPS[name]
    for first, second in product(product((5, -3.5, 0), repeat=2), product((11, 0.25, -70), repeat=2)):
        for up in (False, True):
            node, m = Light(t), None
            host = list(walk(node))[i]
            host.layout.content_left, host.layout.content_top = first
            kid = Light(((), ((),)))
            for k, x in enumerate(walk(kid)):
                x.layout.content_left, x.layout.content_top = 2 + k, 3 * k
            host.children.append(kid)
            kid.parent = host
            # moving the box, or the one around it, tells the new children where they are
            mover = host.parent if up and host.parent else host
            mover.layout.content_left, mover.layout.content_top = second
            m = mirror(node)
            rec.ops += 4
            verify(node, m, rec, (name, i, first, second, up))
            rec.state((case, first, second, up))


def check(case, rec):
    if case[0] == "omni":
        return check_omni(case, rec)
    if case[0] == "gaps":
        return check_gaps(case, rec)
    if case[0] == "joined":
        return check_late(case, rec)
    name, head, more, which = case
    t = TREES_ALL[name]
    n = count(t)
    if which in ("far", "farsize"):
        ops = [(i,) + o for i in range(n) for o in FAR + FARSIZE]
    elif which == "large":
        ops = [(i,) + o for i in range(n) for o in POS[:1] + POS[3:4] + POS[-1:]] + [(0, "layout", 1)]
    elif which == "all":
        ops = [(i,) + o for i in range(n) for o in POS + SIZE] + [(0, "layout", 0), (0, "layout", 1)]
    else:
        ops = [(i,) + o for i in range(n) for o in POS] + [(0, "layout", 0)]
    for tail in product(ops, repeat=more):
        trail = head + tail
        node, m = Light(t), model(t)
        for j, op in enumerate(trail):
            apply(node, m, op)
            rec.ops += 1
            # every prefix of head is the trail of an earlier case
            if j == len(trail) - 1 or (which == "pos" and j >= 1) or which in ("far", "large"):
                verify(node, m, rec, trail[: j + 1])
        rec.state([sorted(k.v.items()) for k in flat(m)])
