"""C16: layout is a function of the current tree."""
from itertools import product

from .. import omni
from ..core import pristine
from ..world import Display, at, box_geom, build, real, real_layout, tree_geom

ID = "C16"
USES_PRISTINE = True
RULE = ("omni: walks through the rows of orthogonal arrays over all layout properties, intrinsic attributes, display and standard of every node of a shape "
        "(every combination of values of any two slots occurs), one tree changing node by node from row to row and laid out after each change; "
        "every sequence up to the depth bound of style changes, deletions, hiding, showing, intrinsic changes, insertions, "
        "removals and moves of children, style copies, clearings of the dirty flag and layouts (five displays, one window resized in place and new ones, both standards, of the tree or a part taken out of it), starting from every "
        "tree of the pool after a first layout and followed by a last one; resize: boxes of n children that become boxes of m (others removed at the front, back or middle, all at once, or hidden) and of n again, all n and m up to 10; at every layout the geometry of all displayed "
        "nodes must equal that of a freshly built tree of the same spec laid out in an unused process (or both must refuse), and laying out once more "
        "must change nothing")
BOUNDS = dict(quick="4 trees, 62 operations, all sequences of 2; all sequences of 3 over 22 operations on two trees; each operation followed by 40 layouts, each pair of 22 by turns 12 times; two larger trees (10 children, 9 levels) with sequences of 2 over 22 operations",
              thorough="all sequences of 3 over all operations, of 4 over 13 operations; 60 turns")

B = "block"
TREES = {
    "blocks": ({"display": B, "padding_left": 3}, {}, [
        ({"display": B, "margin_top": 10, "margin_bottom": 6}, {}, [({"display": B, "height": 20, "margin_top": 14, "width": 100}, {}, [])]),
        ({"display": B, "height": 30, "margin_top": 8, "border_top_width": 2}, {}, [])]),
    "inline": ({"display": B, "margin_left": 5}, {}, [({"padding_left": 4, "margin_top": 3}, {"width": 40, "height": 12}, [])]),
    "image": ({"display": B}, {}, [({"margin_left": 2}, {"is_replaced": True, "width": 40, "height": 20}, [])]),
    "deep": ({"display": B}, {}, [({"display": B, "position": "relative", "left": 5}, {}, [({"display": B, "padding_top": 1}, {}, [
        ({"display": B, "height": 9, "margin_bottom": 7}, {}, [])])])]),
}
LEAF = ({"display": B, "height": 7, "margin_top": 3, "margin_bottom": 5}, {}, [])
# wide and tall trees; the operations' places are moved out to the far end
LARGE = {
    "wide": ({"display": B, "padding_left": 3}, {}, [LEAF] * 8 + [TREES["blocks"][2][0], TREES["blocks"][2][1]]),
    "tall": None,
}
_t = TREES["blocks"]
for _ in range(6):
    _t = ({"display": B, "margin_top": 1, "padding_left": 1}, {}, [_t])
LARGE["tall"] = _t
PLACE = {"wide": {(): (), (0,): (8,), (0, 0): (8, 0), (1,): (9,)},
         "tall": {(): (0,) * 5, (0,): (0,) * 6 + (0,), (0, 0): (0,) * 8, (1,): (0,) * 6 + (1,)}}
NEW = {"a": ({"display": B, "height": 11, "margin_top": 25, "margin_bottom": 3}, {}, []),
       "b": ({"display": B}, {}, [({"display": B, "height": 5, "padding_top": 2}, {}, [])])}
DISPLAYS = {0: (640, 480, 96), 1: (333, 700, 72), 2: (640, 768, 192), 3: (640, 480, 192), 4: (640, 480, 96, {"thin": 3, "medium": 4, "thick": 21})}
R, C0, C00, C1 = (), (0,), (0, 0), (1,)
OPS = [
    # hiding and showing
    ("set", C0, "display", "none"), ("set", C1, "display", "none"), ("set", C00, "display", "none"), ("set", R, "display", "none"),
    ("set", C0, "display", B), ("set", C1, "display", B), ("set", C00, "display", B), ("set", R, "display", B),
    # structure
    ("rm", R, 0), ("rm", C0, 0), ("add", R, 0, "a"), ("add", C0, 1, "b"), ("add", C00, 0, "a"), ("mv", C1, C0, 0), ("mv", C00, R, 0), ("swap", R),
    # margins, borders, paddings: going up, down and away
    ("set", C0, "margin_top", 40), ("set", C0, "margin_top", 1), ("set", C0, "margin_bottom", 50), ("set", C00, "margin_top", 2), ("del", C00, "margin_top"),
    ("set", C00, "margin_bottom", 33), ("set", R, "margin_top", 17), ("set", R, "border_top_width", 4), ("set", C0, "padding_bottom", 5),
    ("set", C0, "margin_left", "auto"), ("set", C0, "margin_left", 13), ("set", R, "padding_left", 0),
    # sizes and position
    ("set", C0, "height", 70), ("set", C0, "height", "auto"), ("set", C0, "width", 200), ("set", C0, "width", ("!unit", 50, "%")), ("set", C0, "width", "auto"),
    ("set", C0, "padding_top", ("!unit", 1, "in")), ("set", C0, "height", ("!unit", 10, "vh")), ("set", C0, "border_left_width", "thick"),
    ("set", C0, "min_height", 90), ("set", C0, "max_height", 4), ("set", C0, "position", "relative"), ("set", C0, "position", "static"),
    ("set", C0, "left", 9), ("set", C0, "top", 11), ("set", R, "direction", "rtl"),
    # refused for now
    ("set", C0, "float", "left"), ("set", C0, "float", None), ("set", C0, "display", "inline-block"),
    # intrinsic
    ("intr", C0, "width", 77), ("intr", C0, "height", 55), ("intr", C0, "is_replaced", True), ("intr", C0, "is_replaced", False), ("intr", C0, "ratio", 2),
    ("restyle", C0), ("clean", R),
    # layouts in between
    ("layout", 1, "html5"), ("layout", 0, "html4"), ("layout", 2, "html5"), ("layout", 3, "html5"), ("layout", 4, "html4"),
    # a part of the tree taken out and laid out by itself, for good or to be put back
    ("cut", C0), ("cut", C1), ("lend", C0), ("lend", C00),
]
SHORT = [("set", C0, "display", "none"), ("set", C0, "display", B), ("rm", R, 0), ("add", R, 0, "a"), ("add", C0, 1, "b"), ("mv", C1, C0, 0), ("mv", C00, R, 0),
         ("set", C0, "margin_top", 40), ("set", C0, "margin_top", 1), ("set", C00, "margin_top", 2), ("set", C00, "margin_bottom", 33), ("set", R, "border_top_width", 4),
         ("set", C0, "height", 70), ("set", C0, "height", "auto"), ("set", C0, "width", 200), ("set", C0, "position", "relative"), ("set", C0, "top", 11),
         ("set", C0, "float", "left"), ("set", C0, "float", None), ("layout", 1, "html5"), ("layout", 0, "html4"), ("clean", R)]
TINY = [SHORT[i] for i in (0, 1, 2, 3, 6, 7, 8, 12, 13, 17, 18, 20, 21)]

INTR = [(f"intr:{k}", v) for k, v in (("width", [0, 5, 30.5, 700]), ("height", [0, 12, 300]), ("ratio", [2, 0.5]), ("is_replaced", [True]), ("exact_width", [False]))]
PROPS = omni.FLOW + omni.OFFSETS + ["float"] + [k for k, _ in INTR]
WPOOLS = {**omni.WILD, **dict(INTR), "display": ["list-item", "block", "none", "none", "inline", "list-item", "inline-block"], "float": ["left", "none", "none", "none"]}
OMNI = {n: (q, lambda shape=shape, share=share, extra=extra: omni.Trees(shape, PROPS if extra else [p for p in omni.FLOW + omni.OFFSETS if p != "display"], 2, share=share,
                                                                        pools=WPOOLS, displays=omni.DISPLAYS))
        for n, q, shape, share, extra in (("pair", True, "pair", 0.6, True), ("three", True, "three", 0.7, True), ("chain", True, "chain", 0.7, False), ("mixed", False, "mixed", 0.8, True))}


def cases(tier):
    yield from omni.cases(OMNI, tier, 40)
    for t in TREES:
        for op in OPS:
            yield (t, (op,), 0, "all")
        for a in OPS:
            for b in OPS:
                yield (t, (a, b), 0 if tier == "quick" else 1, "all")
        if t in ("blocks", "deep") and tier == "quick":
            for a in SHORT:
                for b in SHORT:
                    yield (t, (a, b), 1, "short")
        # long histories: the same change or two changes by turns, laid out again and again
        for a in OPS:
            yield (t, (a,), 40, "long")
        for i, a in enumerate(SHORT):
            for b in SHORT[i + 1:]:
                yield (t, (a, b), 12 if tier == "quick" else 60, "long")
        if tier == "thorough":
            for a in TINY:
                for b in TINY:
                    yield (t, (a, b), 2, "tiny")
    for t in LARGE:
        for a in OPS:
            yield (t, (a,), 0, "all")
        for a in SHORT:
            for b in SHORT if tier == "quick" else OPS:
                yield (t, (a, b), 0, "all")


    for n, m in product(range(11), repeat=2):
        for how in ("front", "back", "middle", "all", "hide"):
            for kind in ("row", "comb", "text"):
                yield ("resize", n, m, how, kind)


def resize_spec(n, kind):
    def leaf(i):
        if kind == "text":
            return ({"padding_left": i % 3}, {"width": 10 + i, "height": 5 + i % 4}, [])
        return ({"display": B, "height": 7 + i, "margin_top": (3 * i) % 5, "margin_bottom": (5 * i) % 7}, {}, [])

    if kind == "comb":
        return ({"display": B}, {}, [leaf(0), ({"display": B, "padding_left": 2}, {}, [leaf(i) for i in range(n)]), leaf(1)])
    return ({"display": B, "margin_top": 2}, {}, [leaf(i) for i in range(n)])


def resize(n, m, how, kind, rec):
    """A box of n children, laid out, becomes one of m and then one of n again."""
    tree = resize_spec(max(n, m), kind)
    s, node = thaw(tree), build(tree)
    at_ = (1,) if kind == "comb" else ()
    host, shost = at(node, at_), spec_at(s, at_)
    every, severy = list(host.children), list(shost[2])

    def choose(k):
        if how == "hide":
            for i, c in enumerate(every):
                want = "none" if i >= k else severy[i][0].get("display0", "inline" if kind == "text" else B)
                c.style.display = want
                if want == "none":
                    severy[i][0].update(display="none")
                elif kind == "text":
                    severy[i][0].pop("display", None)
                else:
                    severy[i][0]["display"] = B
            return
        t = len(every)
        if how == "front":
            idx = list(range(t - k, t))
        elif how == "back":
            idx = list(range(k))
        elif how == "middle":
            idx = list(range((k + 1) // 2)) + list(range(t - k // 2, t))
        else:
            idx = list(range(k))
            if host.children:  # once without any
                host.children[:], shost[2][:] = [], []
                compare(node, s, 1, "html5", rec, (n, m, how, kind, "none"))
        host.children[:] = [every[i] for i in idx]
        shost[2][:] = [severy[i] for i in idx]

    for j, k in enumerate((n, m, n)):
        choose(k)
        compare(node, s, 0, "html5", rec, (n, m, how, kind, k), twice=j == 1)
        compare(node, s, 1, "html4", rec, (n, m, how, kind, k))


def thaw(s):
    return [dict(s[0]), dict(s[1]), [thaw(k) for k in s[2]]]


def freeze(s):
    return (tuple(sorted(s[0].items(), key=repr)), tuple(sorted(s[1].items())), tuple(freeze(k) for k in s[2]))


def spec_at(s, path):
    for i in path:
        s = s[2][i]
    return s


def exists(s, path):
    try:
        spec_at(s, path)
        return True
    except IndexError:
        return False


_fresh = {}


def resized(window, *disp):
    """The window, which a user has resized (or moved to another screen)."""
    if window is None:
        return Display(*disp)
    new = Display(*disp)
    window.content_width, window.content_height, window.dpi, window.fixed = new.content_width, new.content_height, new.dpi, new.fixed
    return window


def lay(node, disp, std, window=None):
    d = resized(window, *DISPLAYS[disp])
    try:
        if std == "html5":
            real_layout(d, node)
        else:
            real_layout(d, node, standard=HTML4)
    except Exception as e:
        return ("refused",)
    return tree_geom(node)


from colosseum.constants import HTML4  # noqa: E402


def fresh(s, disp, std):
    key = (freeze(s), disp, std)
    if key not in _fresh:
        if len(_fresh) > 100000:
            _fresh.clear()
        _fresh[key] = pristine("lay_fresh", (s[0], s[1], s[2]), disp, std)
    return _fresh[key]


def lay_fresh(s, disp, std):
    return lay(build(s), disp, std)


def lay_on(node, disp, std, window=None):
    try:
        real_layout(resized(window, *disp), node, **({"standard": HTML4} if std == "html4" else {}))
        return tree_geom(node)  # text without an intrinsic size has no edges
    except Exception:
        return ("refused",)


def lay_many(items):
    return [lay_on(build(s), disp, std) for s, disp, std in items]


def walk_rows(trees, a, b, rec):
    """One tree goes through the rows, node by node."""
    first, disp, std, _ = trees.get(a)
    node, s = build(first), thaw(first)
    steps = [(None, None, disp, std)]
    specs = [(freeze2(s), disp, std)]
    for i in range(a + 1, b):
        spec, disp, std, _ = trees.get(i)
        for j, p in enumerate(trees.paths):
            t, new = spec_at(s, p), spec_at(spec, p)
            t[0], t[1] = dict(new[0]), dict(new[1])
            steps.append((p, new, disp, std))
            specs.append((freeze2(s), disp, std))
    want = pristine("lay_many", specs)
    window = Display()
    for k, ((p, new, disp, std), w) in enumerate(zip(steps, want)):
        if p is not None:
            n = at(node, p)
            for name in [x for x in n.style.keys() if x not in new[0]]:
                delattr(n.style, name)
            for name, v in new[0].items():
                setattr(n.style, name, real(v))
            for name, v in {**DEFAULTS, **new[1]}.items():
                setattr(n.intrinsic, name, v)
        got = lay_on(node, disp, std, window if k % 3 else None)
        rec.ops += 1
        if got != w:
            rec.fail(f"step {k}: the tree changed to {specs[k]!r} is laid out as {got!r}, a fresh one as {w!r}")
        rec.state(w)


DEFAULTS = {"width": None, "height": None, "ratio": None, "is_replaced": False, "exact_width": True, "exact_height": True}


def freeze2(s):
    return (dict(s[0]), dict(s[1]), [freeze2(k) for k in s[2]])


def compare(node, s, disp, std, rec, trail, twice=False):
    want = fresh(s, disp, std)
    if not hasattr(node, "window"):
        node.window = Display()
    window = node.window if std == "html5" else None
    got = lay(node, disp, std, window)
    rec.ops += 1
    if got != want:
        rec.fail(f"after {trail!r}: layout on {DISPLAYS[disp]} {std} gives {got!r}, a fresh tree gives {want!r}")
    if twice:
        again = lay(node, disp, std, window)
        if again != want:
            rec.fail(f"after {trail!r}: laying out again gives {again!r} instead of {want!r}")
    rec.state(want)


def moved(name, op):
    """The operation at the places of the tree name."""
    if name not in PLACE or op[0] == "layout":
        return op
    m = PLACE[name]
    return (op[0], m[op[1]]) + tuple(m.get(x, x) if op[0] == "mv" and isinstance(x, tuple) else x for x in op[2:])


def step(node, s, op, rec, trail):
    """Apply op to the real tree and to the spec; False if it does not apply."""
    k = op[0]
    if k == "layout":
        compare(node, s, op[1], op[2], rec, trail)
        return True
    if not exists(s, op[1]):
        return False
    n, t = at(node, op[1]), spec_at(s, op[1])
    if k == "set":
        t[0][op[2]] = op[3]
        setattr(n.style, op[2], real(op[3]))
    elif k == "del":
        t[0].pop(op[2], None)
        delattr(n.style, op[2])
    elif k == "intr":
        t[1][op[2]] = op[3]
        setattr(n.intrinsic, op[2], op[3])
    elif k == "rm":
        if op[2] >= len(t[2]):
            return False
        t[2].pop(op[2])
        n.children.pop(op[2]).parent = None
    elif k == "add":
        t[2].insert(op[2], thaw(NEW[op[3]]))
        c = build(NEW[op[3]])
        n.children.insert(op[2], c)
        c.parent = n
    elif k == "mv":
        dst, i = op[2], op[3]
        if not exists(s, dst):
            return False
        m, d = at(node, dst), spec_at(s, dst)
        pn, pt = at(node, op[1][:-1]), spec_at(s, op[1][:-1])
        pt[2].pop(op[1][-1])
        pn.children.pop(op[1][-1])
        d[2].insert(i, t)
        m.children.insert(i, n)
        n.parent = m
    elif k in ("cut", "lend"):
        pn, pt = at(node, op[1][:-1]), spec_at(s, op[1][:-1])
        i = op[1][-1]
        pt[2].pop(i)
        pn.children.pop(i)
        n.parent = None
        compare(n, t, 0, "html5", rec, trail + ("part",))
        compare(n, t, 1, "html4", rec, trail + ("part",))
        if k == "lend":
            pt[2].insert(i, t)
            pn.children.insert(i, n)
            n.parent = pn
    elif k == "swap":
        t[2].reverse()
        n.children.reverse()
    elif k == "restyle":
        n.style = n.style.copy(n)
    elif k == "clean":
        if n.layout is None:
            return False
        n.layout.dirty = False
    rec.ops += 1
    return True


def check(case, rec):
    if case[0] == "omni":
        return walk_rows(omni.made(OMNI, case[1]), case[2], case[3], rec)
    if case[0] == "resize":
        return resize(*case[1:], rec)
    name, head, more, pool = case
    tree = TREES.get(name) or LARGE[name]
    head = tuple(moved(name, op) for op in head)
    if pool == "long":
        return long(tree, head, more, rec)
    ops = {"all": OPS, "short": SHORT, "tiny": TINY}[pool]
    ran = False
    for tail in product(ops, repeat=more):
        trail = head + tail
        s = thaw(tree)
        node = build(tree)
        compare(node, s, 0, "html5", rec, ())
        for i, op in enumerate(trail):
            if not step(node, s, op, rec, trail[: i + 1]):
                break
            # changes are seen by a layout at once, or (layout ops absent) together
            if len(trail) > 1 and i < len(trail) - 1 and op[0] != "layout" and i % 2 == 0 and more:
                compare(node, s, 2, "html5", rec, trail[: i + 1])
        else:
            ran = True
            compare(node, s, 0, "html4", rec, trail)
            compare(node, s, 1, "html5", rec, trail, twice=True)
    if not ran:
        rec.skip()


def long(tree, head, times, rec):
    s, node = thaw(tree), build(tree)
    trail = ()
    for i in range(times):
        op = head[i % len(head)]
        if i < len(head) or len(head) > 1:
            if op[0] in ("add", "cut", "rm") and i >= 2 * len(head):
                break
            if not step(node, s, op, rec, trail + (op,)):
                break
            trail += (op,)
        compare(node, s, i % 3, "html4" if i % 5 == 4 else "html5", rec, trail + (f"layout {i}",))
    if not trail:
        rec.skip()
