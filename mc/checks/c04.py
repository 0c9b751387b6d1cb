"""C04: copies are equal, complete and independent."""
from itertools import product

from .. import obs
from .. import ref_css as rc
from .. import rows
from ..world import CSS, Node, call, canon, real

ID = "C04"
RULE = ("rows: declarations of an orthogonal array in which every combination of values of any two longhands occurs among values of all others, "
        "copied, the copy changed property by property; value: every longhand x every accepted value of the alphabet, copied unbound, bound and copied again; pair: "
        "every pair of longhands; all: declarations of every size up to all longhands at once, for each value index; tree: every pair of nodes of a tree, the declaration of one copied for the other, every set of boxes clean; hist: every sequence up to the depth "
        "bound of operations on original, copy and copy of the copy, all three compared with their own reference maps "
        "and the dirtiness of their nodes after every step")
BOUNDS = dict(quick="4489 array rows; 66 longhands x accepted extended alphabet; 66x65/2 pairs; histories of depth <= 4 over 19 operations",
              thorough="36 000 rows of the array of strength three; histories of depth <= 5")
HASH_SEEDS = [0, 1]


def cases(tier):
    yield ("empty",)
    yield from rows.cases(tier)
    for p in rc.LONGHANDS:
        for v, c in rc.accepted(p):
            yield ("value", p, v)
        for v in rc.accepted_far(p):
            yield ("value", p, v)
    for i in range(6):
        yield ("all", i)
        for k in range(3, len(rc.LONGHANDS)):
            yield ("some", i, k)
    for i, p in enumerate(rc.LONGHANDS):
        for q in rc.LONGHANDS[i + 1:]:
            yield ("pair", p, q)
    for a in range(len(TREE)):
        for b in [None] + list(range(len(TREE))):
            for clean in range(2 ** len(TREE)):
                yield ("tree", a, b, clean)
    n = len(HOPS)
    for d in range(1, 5 if tier == "quick" else 6):
        for h in product(range(n), repeat=d):
            # the copies have to be made at some point to be used
            if any(HOPS[i][0] in ("copy", "ucopy") for i in h):
                yield ("hist", h)


HOPS = [("copy", 0, 1), ("copy", 1, 2), ("copy", 0, 2)]
for _w in (0, 1, 2):
    HOPS += [("set", _w, "margin_top", 5), ("set", _w, "cursor", ("!cursor", ("!uri", "a"), "auto")),
             ("del", _w, "margin_top"), ("update", _w, "clip", ("!rect", ("!unit", 1, "px"), ("!unit", 2, "px"), ("!unit", 3, "px"), ("!unit", 4, "px")))]
HOPS += [("short", 0), ("short", 1), ("ucopy", 0, 1), ("ucopy", 1, 2)]


# parent of each node of the tree copies are made within
TREE = [None, 0, 1, 0, 3]


def check_tree(a, b, clean, rec):
    """Copy the declaration of node a for node b (or none) of a tree some of whose boxes are clean."""
    for which in range(3):
        nodes = []
        for i, p in enumerate(TREE):
            n = Node({"margin_top": i + 1, "color": "red"} if which else {})
            if p is not None:
                n.parent = nodes[p]
                nodes[p].children.append(n)
            nodes.append(n)
        below = {i: [j for j in range(len(TREE)) if j == i or any(k == i for k in up(j))] for i in range(len(TREE))}
        nodes[0].layout.dirty = False
        for i in range(len(TREE)):
            # below a dirty box all are dirty; boxes that are clean again below one occur as well
            nodes[i].layout.dirty = not clean >> i & 1
        before = [n.layout.dirty for n in nodes]
        src = nodes[a].style
        where = f"copy of the declaration of node {a} of {TREE} for node {b}, dirty boxes {before}"
        dup = src.copy(None if b is None else nodes[b])
        rec.op()
        state = {"margin_top": ("unit", float(a + 1), "px"), "color": rc.judge("color", "red")} if which else {}
        same(dup, state, rec, where)
        same(src, state, rec, where + " (original)")
        after = [n.layout.dirty for n in nodes]
        for i in range(len(TREE)):
            if after[i] is not before[i] and (b is None or i not in below[b] or not after[i]):
                rec.fail(f"{where}: the box of node {i} is {after[i]}")
        if which == 2 and b is not None:
            nodes[b].style = dup
        for css, owner in ((src, a), (dup, b)):
            if css is not None:
                for n in nodes:
                    n.layout.dirty = False
                css.margin_left = 7
                got = [i for i, n in enumerate(nodes) if n.layout.dirty]
                want = [] if owner is None else below[owner]
                if got != want:
                    rec.fail(f"{where}: changing the {'original' if css is src else 'copy'} dirties {got}, not {want}")
        rec.state((a, b, clean, which))


def up(j):
    while TREE[j] is not None:
        j = TREE[j]
        yield j


def same(css, state, rec, where):
    obs.agree(css, state, rec, where)


def check(case, rec):
    kind = case[0]
    if kind == "hist":
        return hist(case[1], rec)
    if kind == "tree":
        return check_tree(*case[1:], rec)
    if kind == "rows":
        for i in range(case[2], case[3]):
            check_row(i, case[1], rec)
        return
    state = {}
    src = CSS()
    if kind == "value":
        todo = [(case[1], case[2])]
    elif kind == "pair":
        todo = [(p, rc.accepted(p, 3)[-1][0]) for p in case[1:]]
    elif kind in ("all", "some"):
        todo = []
        r = case[1] * 11
        ps = rc.LONGHANDS[r:] + rc.LONGHANDS[:r]
        for p in ps[: case[2]] if kind == "some" else ps:
            acc = rc.accepted(p, 12)
            todo.append((p, acc[(case[1] * 2 + 1) % len(acc)][0]))
    else:
        todo = []
    for p, v in todo:
        setattr(src, p, real(v))
        state[p] = rc.judge(p, v)
    node, other = Node(), Node()
    keys = src.keys()
    text = str(src)
    for label, make in (
        ("copy()", lambda: src.copy()),
        ("copy(node)", lambda: src.copy(node)),
        ("copy().copy(node)", lambda: src.copy().copy(other)),
    ):
        dup = make()
        rec.op()
        where = f"{case!r} {label}"
        same(dup, state, rec, where)
        same(src, state, rec, where + " (original)")
        if dup.keys() != keys or str(dup) != text or src.keys() != keys:
            rec.fail(f"{where}: copy lists {dup.keys()} / {str(dup)!r}, original {keys} / {text!r}")
        rec.state((sorted(state.items(), key=lambda kv: kv[0]), label))
    # independence, both directions, and the node binding
    node.style = dup = src.copy(node)
    node.layout.dirty = False
    mine = dict(state)
    for p in list(state) + ["overflow"]:
        node.layout.dirty = False
        delattr(src, p)
        if node.layout.dirty is not False:
            rec.fail(f"{case!r}: deleting {p} of the original dirties the copy's node")
    same(dup, mine, rec, f"{case!r}: copy after clearing the original")
    for p in list(state):
        node.layout.dirty = False
        before = canon(getattr(dup, p))
        listed = p in dup.keys()
        delattr(dup, p)
        if listed and node.layout.dirty is not True:
            rec.fail(f"{case!r}: changing {p} of the copy does not dirty its node")
    same(src, {}, rec, f"{case!r}: original")
    same(dup, {}, rec, f"{case!r}: cleared copy")
    rec.op(2 * len(state) + 2)


def check_row(i, t, rec):
    """Copy a row, change the copy and the original alternately."""
    src, state = CSS(), {}
    todo = list(rows.objects(rows.row(i, t), i % 3 == 0))
    for p, v, obj in todo:
        setattr(src, p, obj)
        state[p] = rc.judge(p, v)
    node = Node()
    where = f"row {i} of strength {t}"
    node.style = dup = src.copy(node) if i % 2 else src.copy().copy(node)
    theirs = dict(state)
    same(dup, theirs, rec, where + " copied")
    if dup.keys() != src.keys() or str(dup) != str(src):
        rec.fail(f"{where}: copy lists {dup.keys()} / {str(dup)!r}, original {src.keys()} / {str(src)!r}")
    # the properties others take their initial value from first
    nxt = dict(rows.row((i + 1) % rows.array(t).size, t))
    order = ["color", "direction"] + [p for p, _, _ in todo if p not in ("color", "direction")]
    for k, p in enumerate(order):
        who, st, other, ost = (dup, theirs, src, state) if (k + i) % 2 else (src, state, dup, theirs)
        listed = p in who.keys()
        node.layout.dirty = False
        if p in nxt and (i + k) % 3:
            setattr(who, p, real(nxt[p]))
            st[p] = rc.judge(p, nxt[p])
        else:
            delattr(who, p)
            st.pop(p, None)
        rec.op()
        if who is src and node.layout.dirty is not False:
            rec.fail(f"{where}: changing {p} of the original dirties the copy's node")
        if who is dup and listed and p not in st and node.layout.dirty is not True:
            rec.fail(f"{where}: deleting {p} of the copy does not dirty its node")
        if k < 2 or k % 20 == 19:
            same(dup, theirs, rec, f"{where}: copy after {k + 1} changes")
            same(src, state, rec, f"{where}: original after {k + 1} changes")
    same(dup, theirs, rec, f"{where}: copy after all changes")
    same(src, state, rec, f"{where}: original after all changes")
    rec.state((t, i))


def hist(h, rec):
    nodes = [Node(), Node(), Node()]
    css = [nodes[0].style, None, None]
    st = [{}, None, None]
    bound = [True, False, False]
    trail = []
    for i in h:
        op = HOPS[i]
        trail.append(op)
        if op[0] in ("copy", "ucopy"):
            if css[op[1]] is None:
                return rec.skip()
            bound[op[2]] = op[0] == "copy"
            css[op[2]] = css[op[1]].copy(nodes[op[2]]) if op[0] == "copy" else css[op[1]].copy()
            st[op[2]] = dict(st[op[1]])
            touched = None
        else:
            w = op[1]
            if css[w] is None:
                return rec.skip()
            for n in nodes:
                n.layout.dirty = False
            touched = w
            old = dict(st[w])
            if op[0] == "set":
                setattr(css[w], op[2], real(op[3]))
                st[w][op[2]] = rc.judge(op[2], op[3])
            elif op[0] == "update":
                css[w].update(**{op[2]: real(op[3])})
                st[w][op[2]] = rc.judge(op[2], op[3])
            elif op[0] == "del":
                delattr(css[w], op[2])
                st[w].pop(op[2], None)
            else:
                css[w].margin = (1, 2)
                for k, v in zip(rc.DIRECTIONAL["margin"], (1, 2, 1, 2)):
                    st[w][k] = ("unit", float(v), "px")
            for k in range(3):
                if (k != w or not bound[w]) and nodes[k].layout.dirty is not False:
                    rec.fail(f"{trail}: changing declaration {w} dirties the node of {k}")
            if bound[w] and old != st[w] and nodes[w].layout.dirty is not True:
                rec.fail(f"{trail}: changing declaration {w} does not dirty its node")
        rec.op()
    names = ["margin_top", "margin_right", "cursor", "clip", "margin_bottom"]
    for k in range(3):
        if css[k] is not None:
            for n in names:
                want = rc.value_of(n, st[k])
                if canon(getattr(css[k], n)) != want:
                    rec.fail(f"{trail}: {n} of declaration {k} is {canon(getattr(css[k], n))!r}, expected {want!r}")
            obs.listing(css[k], st[k], rec, f"{trail} declaration {k}")
    rec.state([sorted(s.items()) if s is not None else None for s in st])
