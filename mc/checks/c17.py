"""C17: display none."""
from itertools import combinations, product

from colosseum.constants import HTML4

from .. import omni
from .. import ref_css as rc
from .. import ref_layout as rl
from ..atlas import LARGE, fan
from ..core import pristine
from ..shapes import is_leaf, make, paths, subtree, trees
from ..world import Display, at, build, call, real, real_layout, tree_geom, walk

ID = "C17"
USES_PRISTINE = True
RULE = ("omni: orthogonal arrays over all layout properties of every node of a shape, hidden or not, display and standard, in which every combination of values of any two (two nodes: three) "
        "slots occurs, each compared with the tree without the hidden nodes; "
        "static: every tree shape up to the node bound x four content kinds (blocks, inline leaves, blocks whose margins collapse through growing outwards or inwards) x every set of hidden "
        "nodes x every other style of a hidden node from the pool (up to 3 nodes also every longhand with up to 3 of its values): hidden nodes have no box and every other node has the "
        "geometry of the tree with the hidden nodes taken out; dyn: every sequence up to the "
        "depth bound of hide, show, change of a hidden or shown node and layout, compared in the same way at every layout")
BOUNDS = dict(quick="omni arrays over every shape of 4-5 nodes besides the named ones; static: shapes of 1-5 nodes, all hidden sets, up to 4 nodes 15 styles and 16 intrinsic sizes on one hidden node; all hidden sets of 7 children and 6 inline children; 9 trees of 6-13 nodes with prefixes, suffixes, every second or third, all but one hidden; dyn: 3 trees, 20 operations, depth 3",
              thorough="every shape of 6 nodes; static: shapes of 1-6 nodes; dyn: depth 4")

EXTRA = [{}, {"margin_top": 50}, {"margin_bottom": 60, "height": 30}, {"padding_top": 5, "padding_bottom": 6}, {"border_top_width": 7},
         {"float": "left"}, {"position": "absolute"}, {"position": "fixed"}, {"position": "relative", "top": 9, "left": 4},
         {"width": 500, "min_width": 20}, {"margin_left": "auto", "margin_right": "auto"}, {"margin_top": "auto", "margin_bottom": "auto"},
         {"height": ("!unit", 50, "%")}, {"width": ("!unit", 30, "%"), "margin_top": ("!unit", 10, "%")}, {"min_height": 80, "max_height": 3},
         {"direction": "rtl", "margin_left": 8}]
INTR = [{k: v for on, (k, v) in zip(c, (("is_replaced", True), ("ratio", 2), ("width", 20), ("height", 10))) if on}
        for c in product((0, 1), repeat=4)]
DISP = (640, 480)

WPOOLS = {**omni.WILD, "display": ["none", "none", "list-item"]}
OMNI = {n: (q, lambda n=n, share=share, text=text: omni.Trees(n.split()[0], omni.FLOW + omni.OFFSETS, 3 if n.endswith("3") else 2, share=share, pools=WPOOLS, displays=omni.DISPLAYS, text=text))
        for n, q, share, text in (("pair", True, 0.5, ()), ("three", True, 0.6, ()), ("chain", True, 0.6, ()), ("mixed", True, 0.75, ()), ("grid", False, 0.75, ()), ("pair 3", True, 0.5, ()))}
# many children, most of them hidden
MANY = ["margin_top", "margin_bottom", "height", "position", "top", "padding_bottom", "display"]
for _n in ("fan6", "fan5 nest"):
    OMNI[_n] = (True, lambda n=_n: omni.Trees(n, MANY, 2, share=0.4, pools={**WPOOLS, "display": ["none"]}, displays=omni.DISPLAYS[:2], shares={"display": 0.4, "position": 0.4}))
OMNI.update(omni.every_shape((4, 5), MANY + ["margin_left", "width", "min_height"], share=0.5, pools={**WPOOLS, "display": ["none"]}, displays=omni.DISPLAYS[:2], shares={"display": 0.6, "position": 0.6}))
OMNI.update(omni.every_shape((6,), ["margin_top", "margin_bottom", "height", "padding_top", "display"], quick=False, share=0.5, pools={**WPOOLS, "display": ["none"]}, shares={"display": 0.6}))


# every longhand and value a hidden node can have besides
SINGLE = [{p: v} for p in rc.LONGHANDS if p != "display" for v, c in rc.accepted(p, 3)]


def styles_for(tree, kind, hidden=()):
    st, intr = {}, {}
    for i, p in enumerate(paths(tree)):
        if kind == "bare":
            # margins collapse through: the deeper and the later, the larger
            st[p] = {"display": "block", "margin_top": 2 + 10 * len(p) + 3 * i, "margin_bottom": 1 + 20 * len(p) + 5 * i}
            if is_leaf(tree, p):
                st[p]["height"] = 10 + i
            continue
        if kind == "shrink":
            st[p] = {"display": "block", "margin_top": 90 - 20 * len(p) - 3 * i, "margin_bottom": 80 - 20 * len(p) - 5 * i}
            if is_leaf(tree, p):
                st[p]["height"] = 10 + i
            continue
        leaf = is_leaf(tree, p) and p != ()
        if kind == "inline" and leaf and len(p) > 1 and all(k == () or p[:-1] + (j,) in hidden for j, k in enumerate(subtree(tree, p[:-1]))):
            st[p] = {"padding_left": 1 + i, "margin_left": 2}
            intr[p] = {"width": 20 + i, "height": 10 + i}
            continue
        s = {"display": "block", "margin_top": 5 + (i * 7) % 11, "margin_bottom": 3 + (i * 5) % 13}
        if leaf:
            s["height"] = 10 + i
        if i % 3 == 2:
            s["padding_top"] = 2
        if i % 4 == 1:
            s["border_bottom_width"] = 1
        st[p] = s
    return st, intr


def subsets(ps):
    for r in range(len(ps) + 1):
        yield from combinations(ps, r)


def cases(tier):
    yield from omni.cases(OMNI, tier, 60)
    top = 5 if tier == "quick" else 6
    for n in range(1, top + 1):
        for tree in trees(n, 4):
            ps = list(paths(tree))
            for kind in ("block", "inline", "bare", "shrink"):
                if kind == "inline" and not any(len(p) > 1 for p in ps):
                    continue
                for r in range(0, n + 1):
                    for hidden in combinations(ps, r):
                        yield ("static", tree, kind, hidden, 0)
                        if r in (1, 2) and kind in ("block", "inline") and n < top:
                            for e in range(1, len(EXTRA) + len(INTR) - 1):
                                yield ("static", tree, kind, hidden, e)
                        if r == 1 and n <= 3 and kind == "block":
                            for e in range(len(SINGLE)):
                                yield ("static", tree, kind, hidden, 1000 + e)
    # wide and tall trees
    for kind in ("block", "bare", "inline"):
        for hidden in subsets(list(paths(fan(7)))[1:]):
            yield ("static", fan(7), kind, hidden, 0)
        for name in sorted(LARGE):
            tree = LARGE[name]
            ps = list(paths(tree))[1:]
            seen = set()
            for i in range(len(ps)):
                for hidden in (ps[: i + 1], ps[i:], ps[i:i + 1], ps[:i] + ps[i + 1:], ps[i::2], ps[i::3], ps[: i + 1: 2]):
                    hidden = tuple(hidden)
                    if hidden not in seen:
                        seen.add(hidden)
                        yield ("static", tree, kind, hidden, 0)
                        if len(hidden) == 1:
                            for e in (1, 2, 5, 6, 8, 12, 14):
                                yield ("static", tree, kind, hidden, e)
    # a row of inline children, some of them hidden
    for hidden in subsets([(0, i) for i in range(6)]):
        yield ("static", (fan(6), ()), "inline", hidden, 0)
    for t in sorted(DYN):
        for a, b in product(range(len(OPS)), repeat=2):
            yield ("dyn", t, (a, b), 1 if tier == "quick" else 2)


def prune(spec):
    """The spec without hidden nodes; None if the root is hidden."""
    if not rl.displayed(spec):
        return None
    return (spec[0], spec[1], [q for q in (prune(k) for k in spec[2]) if q is not None])


def drop_none(g):
    """Geometry without the places of hidden nodes."""
    return None if g is None else (g[0], tuple(drop_none(k) for k in g[1] if k is not None))


def lay(node, std="html5"):
    if std == "html5":
        real_layout(Display(*DISP), node)
    else:
        real_layout(Display(*DISP), node, standard=HTML4)


def no_boxes(node, spec, rec, label):
    """Displayed nodes have a box, hidden ones none (hidden subtrees end there)."""
    if not rl.displayed(spec):
        if node.layout is not None:
            rec.fail(f"{label}: a node with display none still has {node.layout!r}")
        return
    if node.layout is None:
        rec.fail(f"{label}: a displayed node has no box")
    for c, k in zip(node.children, spec[2]):
        no_boxes(c, k, rec, label)


_memo = {}


def without(spec, std):
    """Geometry the real code gives to the tree without its hidden nodes."""
    p = prune(spec)
    if p is None:
        return None
    key = (repr(p), std)
    if key not in _memo:
        if len(_memo) > 50000:
            _memo.clear()
        _memo[key] = pristine("lay_fresh", p, std)
    return _memo[key]


def lay_fresh(p, std):
    n = build(p)
    lay(n, std)
    return tree_geom(n)


def compare(node, spec, std, rec, label):
    lay(node, std)
    rec.ops += 1
    no_boxes(node, spec, rec, label)
    got = drop_none(tree_geom(node))
    want = without(spec, std)
    if got != want:
        rec.fail(f"{label}: {std} geometry {got!r}, without the hidden nodes {want!r}")
    rec.state(got)


# ------------------------------------------------------------------- dynamic
DYN = {
    "flat": ({"display": "block"}, {}, [({"display": "block", "height": 10, "margin_top": 4}, {}, []),
                                        ({"display": "block", "height": 20, "margin_bottom": 9, "margin_top": 7}, {}, []),
                                        ({"display": "block", "height": 30, "padding_top": 3}, {}, [])]),
    "nest": ({"display": "block", "margin_top": 2}, {}, [({"display": "block", "margin_left": 6}, {}, [
        ({"display": "block", "height": 15, "margin_top": 11}, {}, []), ({"display": "block", "height": 5}, {}, [])]),
        ({"display": "block", "height": 25, "border_top_width": 1}, {}, [])]),
    "inl": ({"display": "block"}, {}, [({"display": "block", "padding_left": 2}, {}, [({"padding_left": 4}, {"width": 30, "height": 8}, [])]),
                                       ({"display": "block", "height": 12}, {}, [])]),
}
OPS = [("hide", ()), ("hide", (0,)), ("hide", (1,)), ("hide", (2,)), ("hide", (0, 0)), ("hide", (0, 1)),
       ("show", ()), ("show", (0,)), ("show", (1,)), ("show", (2,)), ("show", (0, 0)), ("show", (0, 1)),
       ("set", (0,), "margin_top", 33), ("set", (0,), "width", 77), ("set", (0, 0), "margin_bottom", 21), ("set", (1,), "height", 44),
       ("intr", (0, 0), "width", 66), ("intr", (1,), "height", 3), ("unset", (0,), "margin_top"), ("layout", "html4")]


def thaw(s):
    return [dict(s[0]), dict(s[1]), [thaw(k) for k in s[2]]]


def apply(node, s, op, rec, trail, shown):
    if op[0] == "layout":
        compare(node, s, op[1], rec, f"after {trail!r}")
        return True
    n, t = node, s
    for i in op[1]:
        if i >= len(t[2]):
            return False
        n, t = n.children[i], t[2][i]
    k = op[0]
    if k == "hide":
        t[0]["display"] = "none"
        n.style.display = "none"
    elif k == "show":
        t[0]["display"] = shown[op[1]]
        n.style.display = shown[op[1]]
    elif k == "set":
        t[0][op[2]] = op[3]
        setattr(n.style, op[2], op[3])
    elif k == "unset":
        t[0].pop(op[2], None)
        delattr(n.style, op[2])
    else:
        t[1][op[2]] = op[3]
        setattr(n.intrinsic, op[2], op[3])
    rec.ops += 1
    return True


def lay_many(items):
    out = []
    for p, disp, std in items:
        try:
            out.append(None if p is None else tree_geom(omni.lay(p, disp, std)))
        except Exception as e:
            out.append(("refused", type(e).__name__))
    return out


def sweep(trees, a, b, rec):
    rows = [trees.get(i)[:3] for i in range(a, b)]
    wants = pristine("lay_many", [(prune(spec), disp, std) for spec, disp, std in rows])
    for (spec, disp, std), want in zip(rows, wants):
        node = omni.lay(spec, disp, std)
        rec.ops += 1
        no_boxes(node, spec, rec, f"{spec!r}")
        got = drop_none(tree_geom(node))
        if got != want:
            rec.fail(f"{spec!r} on {disp}, {std}: {got!r}, without the hidden nodes {want!r}")
        rec.state(got)


def check(case, rec):
    if case[0] == "omni":
        return sweep(omni.made(OMNI, case[1]), case[2], case[3], rec)
    if case[0] == "static":
        _, tree, kind, hidden, e = case
        st, intr = styles_for(tree, kind, hidden)
        for p in hidden:
            st[p]["display"] = "none"
        if e:
            p = hidden[0]
            if e >= 1000:
                st[p].update(SINGLE[e - 1000])
            elif e < len(EXTRA):
                st[p].update(EXTRA[e])
            else:
                intr.setdefault(p, {}).update(INTR[e - len(EXTRA) + 1])
        spec = make(tree, st, intrinsics=intr)
        for std in ("html5", "html4"):
            node = build(spec)
            compare(node, spec, std, rec, f"{spec!r}")
            # styles and sizes of hidden nodes can be changed afterwards
            for p in hidden:
                n = at(node, p)
                for r in (call(setattr, n.style, "margin_top", 99), call(setattr, n.style, "color", "red"), call(delattr, n.style, "width"),
                          call(setattr, n.intrinsic, "width", 5), call(setattr, n.intrinsic, "ratio", 3)):
                    rec.ops += 1
                    if r[0] != "ok":
                        rec.fail(f"{spec!r}: changing the hidden node {p} fails with {r}")
            compare(node, spec, std, rec, f"{spec!r} laid out again")
    else:
        _, name, head, more = case
        shown = {}
        for n, p in zip(walk(build(DYN[name])), _paths(DYN[name])):
            shown[p] = "block" if n.style.display == "block" else "inline"
        ran = False
        for tail in product(range(len(OPS)), repeat=more):
            trail = [OPS[i] for i in head + tail]
            s, node = thaw(DYN[name]), build(DYN[name])
            compare(node, s, "html5", rec, "first layout")
            for i, op in enumerate(trail):
                if not apply(node, s, op, rec, trail[: i + 1], shown):
                    break
                if i % 2 == 0:
                    compare(node, s, "html5", rec, f"{name} after {trail[: i + 1]!r}")
            else:
                ran = True
                compare(node, s, "html5", rec, f"{name} after {trail!r}")
        if not ran:
            rec.skip()


def _paths(s, at=()):
    yield at
    for i, k in enumerate(s[2]):
        yield from _paths(k, at + (i,))
