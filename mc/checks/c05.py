"""C05: changes dirty exactly the changed node and its descendants."""
from itertools import product

from .. import ref_css as rc
from .. import rows
from ..atlas import LARGE
from ..shapes import paths
from ..world import CSS, Node, call, real, walk, real_layout, Display

ID = "C05"
RULE = ("rows: declarations of an orthogonal array in which every combination of values of any two longhands occurs among values of all others, "
        "each property changed to the value of the next row, set to it again and deleted; states: every sequence of the three states given to the root and changes of nodes; "
        "context: every ordered pair of values of each intrinsic attribute x every combination of the other attributes; change: every longhand x accepted value (two per longhand) x every node of a 6-node tree x every route: set, set "
        "the equal value again, refuse, read everything, delete, delete again; intrinsic: every attribute of the intrinsic "
        "size likewise, over every ordered pair of values; pair: every longhand x every ordered pair of up to 24 values; short: every shorthand; large: every two nodes of wide and tall trees; hist: every sequence up to the depth bound of effective, no-op and refused "
        "changes, cleanings and dirtyings on several nodes, the dirty state of all nodes compared after every step; "
        "all of it again on laid out block trees in which no node or one or two nodes are hidden")
BOUNDS = dict(quick="4489 array rows; sequences of 4 states and changes; 64 contexts; 66 longhands x 2 values x 6 nodes x 3 routes; histories of depth <= 4 over 16 operations; with 7 sets of hidden nodes: 1 route, depth <= 3; every ordered pair of nodes of 9 trees of 6-13 nodes (12 children, 9 levels) x 6 kinds of change",
              thorough="36 000 rows of the array of strength three; 66 longhands x 4 values; histories of depth <= 5")

# r -> a(b, c(e)), d
PATHS = {"r": (), "a": (0,), "b": (0, 0), "c": (0, 1), "e": (0, 1, 0), "d": (1,)}
DESC = {"r": "rabced", "a": "abce", "b": "b", "c": "ce", "e": "e", "d": "d"}


# nodes with display none, which have no box after a layout
HIDDEN = ("b", "c", "e", "d", "a", "bd")


def tree(hidden=None):
    """The tree; with hidden given, block nodes that have been laid out with the
    hidden ones not displayed. Returns the nodes by name and those with a place."""
    st = {} if hidden is None else {"display": "block"}
    e = Node(st)
    b, c, d = Node(st), Node(st, children=[e]), Node(st)
    a = Node(st, children=[b, c])
    r = Node(st, children=[a, d])
    t = dict(r=r, a=a, b=b, c=c, d=d, e=e)
    seen = set(t)
    if hidden is not None:
        for h in hidden:
            t[h].style.display = "none"
            seen -= set(DESC[h])
        real_layout(Display(), r)
    return {k: t[k] for k in t if k in seen}, t


SIZES = [None, 0, 1, 10, 10.5, 10.25, 20, 1000000]
INTRINSIC = [(a, v, w) for a in ("width", "height") for v in SIZES for w in SIZES if v != w]
INTRINSIC += [("ratio", v, w) for v in (None, 0, 0.5, 1.5, 1.505, 1.5000001, 2) for w in (None, 0, 0.5, 1.5, 1.505, 1.5000001, 2) if v != w]
INTRINSIC += [("exact_width", False, True), ("exact_height", False, True), ("is_replaced", True, False)]
NEAR = [0, 1, 10, 10.5, 10.25, 10.000001, -10, 1000000, ("!unit", 10, "em"), ("!unit", 10, "%"), ("!unit", 0, "em"), ("!unit", 0, "%"), ("!unit", 10.5, "%")]
NEAR += [("!unit", 10, u) for u in ("ex", "ch", "pt", "pc", "in", "cm", "mm", "vh", "vw", "vmin", "vmax")]
SHORT = [("margin", (1, 2)), ("padding", 3), ("border_width", ("thin", 2)), ("border_style", "solid"),
         ("border_color", "red"), ("border", "thin solid red"), ("border_top", "2px dashed"), ("border_right", "red"),
         ("border_bottom", (3, "solid")), ("border_left", "thick"), ("outline", "red solid")]

HIST = []
for _n in ("r", "a", "e"):
    HIST += [("set", _n, "margin_top", 5), ("set", _n, "margin_top", 7), ("del", _n, "margin_top"), ("intr", _n, "width", 10)]
HIST += [("bad", "a"), ("clean",), ("alldirty",), ("layoutclean",)]


CONTEXT = [dict(zip(("width", "height", "ratio", "exact_width", "exact_height", "is_replaced"), c))
           for c in product((None, 10), (None, 20), (None, 1.5), (True, False), (True, False), (True, False))]
STATES = [("all", True), ("all", False), ("all", None)] + [("set", k) for k in "rabe"] + [("size", "c"), ("noop", "a")]


BOXOPS = [("box", k, v) for k in "race" for v in (True, False, None)] + [("set", k) for k in "rac"] + [("lay",)]


def check_boxes(h, rec):
    """Whatever states single boxes were given before, a change makes a node and those inside it dirty, and the root's state becomes everyone's."""
    def made():
        t, _ = tree("")
        for i in h:
            op = BOXOPS[i]
            if op[0] == "box":
                t[op[1]].layout.dirty = op[2]
            elif op[0] == "set":
                t[op[1]].style.margin_top = len(h) + i + 1
            else:
                real_layout(Display(), t["r"])
        rec.op()
        return t

    before = {k: n.layout.dirty for k, n in made().items()}
    nodes = "rabced" if len(h) < 3 else "rac"
    for j, k in enumerate(nodes):
        for how in ("style", "size") if len(h) < 3 else (("style", "size")[(j + sum(h)) % 2],):
            t = made()
            n = t[k]
            if how == "style":
                n.style.margin_top = 90.5
            else:
                n.intrinsic.width = 33
            got = {q: x.layout.dirty for q, x in t.items()}
            want = {q: True if q in DESC[k] else before[q] for q in t}
            if got != want:
                rec.fail(f"{[BOXOPS[i] for i in h]}, then {how} of {k} changed: dirty states are {got}, expected {want}")
    for v in (True, False, None):
        t = made()
        t["r"].layout.dirty = v
        got = {q: x.layout.dirty for q, x in t.items()}
        if set(got.values()) != {v}:
            rec.fail(f"{[BOXOPS[i] for i in h]}, then the root's box {v}: dirty states are {got}")
    rec.state(repr(before))


def check_states(h, rec):
    t, _ = tree()
    root = t["r"].layout
    root.dirty = False
    want = dict.fromkeys(t, False)
    for j, i in enumerate(h):
        how, who = STATES[i]
        if how == "all":
            root.dirty = who
            want = dict.fromkeys(t, who)
        else:
            if how == "set":
                t[who].style.margin_top = j + 1
            elif how == "size":
                t[who].intrinsic.width = j + 1
            else:
                t[who].style.padding_top = 0
                t[who].style.update(z_index="auto")
                del t[who].style.left
            if how != "noop":
                want.update(dict.fromkeys(DESC[who], True))
        got = {k: n.layout.dirty for k, n in t.items()}
        rec.op()
        if got != want or any(n.style.dirty is not want[k] or n.intrinsic.dirty is not want[k] for k, n in t.items()):
            rec.fail(f"{[STATES[k] for k in h[:j + 1]]}: dirty states are {got}, expected {want}")
    rec.state((h, repr(want)))


def check_row(i, strength, rec):
    t, _ = tree()
    node = "rabced"[i % 6]
    n, d, root = t[node], set(DESC[node]), t["r"].layout
    state = {}
    for p, v, obj in rows.objects(rows.row(i, strength), i % 3 == 0):
        setattr(n.style, p, obj)
        state[p] = rc.judge(p, v)
    nxt = rows.row((i + 1) % rows.array(strength).size, strength)
    for k, (p, v) in enumerate(nxt):
        where = f"row {i} of strength {strength}, node {node}: {p}"
        want, now = rc.judge(p, v), rc.value_of(p, state)
        fixed = p in state or not isinstance(rc.T[p][0], tuple) or rc.T[p][0][0] != "derived"
        root.dirty = False
        if (k + i) % 3 and v is not None:
            n.style.update(**{p: real(v)})
        else:
            setattr(n.style, p, real(v))
        if want != now and (p in state or fixed):
            expect(t, d, rec, f"{where} changed from {now!r} to {v!r}")
        elif plain(want) and fixed:
            expect(t, (), rec, f"{where} = {v!r} assigned over {now!r}")
        state[p] = want
        rec.op()
        if plain(want) and k % 4 == 0:
            root.dirty = False
            setattr(n.style, p, real(v))
            expect(t, (), rec, f"{where} = {v!r} again")
    root.dirty = False
    for p in rc.LONGHANDS:
        getattr(n.style, p)
    str(n.style), n.style.keys(), n.style.items(), n.style.copy()
    expect(t, (), rec, f"row {i} of strength {strength} read")
    for p in list(state):
        root.dirty = False
        now = state.pop(p)
        delattr(n.style, p)
        rec.op()
        if now != rc.value_of(p, state) and now != rc.T[p][0]:
            expect(t, d, rec, f"row {i} of strength {strength}, node {node}: {p} {now!r} deleted")
        root.dirty = False
        delattr(n.style, p)
        expect(t, (), rec, f"row {i} of strength {strength}, node {node}: {p} deleted again")
    rec.state((strength, i))


def check_context(case, rec):
    _, attr, v1, v2 = case
    for c in CONTEXT:
        t, _ = tree()
        n, root = t["a"], t["r"].layout
        for k, v in c.items():
            if k != attr:
                setattr(n.intrinsic, k, v)
        for v in (v1, v2, v2, v1):
            root.dirty = False
            same = getattr(n.intrinsic, attr) == v
            setattr(n.intrinsic, attr, v)
            rec.op()
            expect(t, () if same else DESC["a"], rec, f"{case!r} in {c} {attr}={v!r}")
    rec.state(case)


def cases(tier):
    yield from rows.cases(tier)
    for d in range(1, 5):
        for h in product(range(len(STATES)), repeat=d):
            yield ("states", h)
    for d in range(1, 4):
        for h in product(range(len(BOXOPS)), repeat=d):
            yield ("boxes", h)
    for i in INTRINSIC:
        yield ("context",) + i
    for node in "rabced":
        for p in rc.LONGHANDS:
            for k, (v, c) in enumerate(rc.accepted(p, 2 if tier == "quick" else 4)):
                for route in ("attr", "item", "update"):
                    yield ("change", node, p, v, route)
        for i in INTRINSIC:
            yield ("intrinsic", node) + i
        for s in SHORT:
            yield ("short", node) + s
    for p in rc.LONGHANDS:
        vals = [v for v, c in rc.accepted(p, 12)] + [v for v in NEAR if rc.judge(p, v) not in (rc.UNKNOWN, rc.REJECT)]
        for v, w in product(vals, repeat=2):
            yield ("pair", "a", p, v, w)
    for hid in ("",) + HIDDEN:
        for node in "rabced":
            if any(node in DESC[h] for h in hid):
                continue
            for p in rc.LONGHANDS:
                for k, (v, c) in enumerate(rc.accepted(p, 2)):
                    if p != "display":
                        yield ("change", node, p, v, "attr", hid)
            for i in INTRINSIC[:: 9 if tier == "quick" else 1]:
                yield ("intrinsic", node) + i + (hid,)
            for s in SHORT:
                yield ("short", node) + s + (hid,)
        for d in range(1, 4 if tier == "quick" else 5):
            for h in product(range(len(HIST)), repeat=d):
                yield ("hist", h, hid)
    for name in sorted(LARGE):
        for p in paths(LARGE[name]):
            yield ("large", name, p)
    for d in range(1, 5 if tier == "quick" else 6):
        for h in product(range(len(HIST)), repeat=d):
            yield ("hist", h)


def expect(t, dirty, rec, where):
    dirty = set(dirty) & set(t)
    got = {k for k, n in t.items() if n.layout.dirty}
    bad = {k: n.layout.dirty for k, n in t.items() if n.layout.dirty not in (True, False)}
    if got != set(dirty) or bad:
        rec.fail(f"{where}: dirty nodes are {sorted(got)}{bad or ''}, expected {sorted(dirty)}")
    for k, n in t.items():
        if bool(n.style.dirty) != (k in dirty) or bool(n.intrinsic.dirty) != (k in dirty):
            rec.fail(f"{where}: style/intrinsic dirtiness of {k} disagrees with its box")


def check_large(case, rec):
    """One node of a wide or tall tree is changed, then every other one."""
    _, name, path = case
    ps = list(paths(LARGE[name]))

    def grow(shape, at=()):
        kids = [grow(k, at + (i,)) for i, k in enumerate(shape)]
        nodes[at] = Node({"display": "block"}, children=kids)
        return nodes[at]

    for laid in (False, True):
        nodes = {}
        root = grow(LARGE[name])
        if laid:
            real_layout(Display(), root)
        below = {p: {q for q in ps if q[: len(p)] == p} for p in ps}
        for how in range(6):
            for other in ps:
                root.layout.dirty = False
                expect(nodes, (), rec, f"{case!r} cleaned")
                change(nodes[path], how)
                expect(nodes, below[path], rec, f"{case!r} change {how}")
                change(nodes[other], how + 1)
                expect(nodes, below[path] | below[other], rec, f"{case!r} change {how}, then of {other}")
                if other != path:
                    change(nodes[other], how)
                rec.op(3)
        rec.state((name, path, laid))


def change(n, how):
    """A change that is one whenever it is not the same as the node's last one."""
    n.seq = getattr(n, "seq", 0) + 1
    k = how % 6
    if k == 0:
        n.style.margin_top = n.seq
    elif k == 1:
        n.intrinsic.width = n.seq
    elif k == 2:
        n.style.update(color=("red", "blue")[n.seq % 2], padding=n.seq)
    elif k == 3:
        n.style["max-height"] = n.seq
        del n.style["max-height"]
    elif k == 4:
        n.intrinsic.ratio = n.seq
    else:
        n.style.border_top = f"{n.seq}px solid"


def check(case, rec):
    kind = case[0]
    if kind == "large":
        return check_large(case, rec)
    if kind == "states":
        return check_states(case[1], rec)
    if kind == "boxes":
        return check_boxes(case[1], rec)
    if kind == "context":
        return check_context(case, rec)
    if kind == "rows":
        for i in range(case[2], case[3]):
            check_row(i, case[1], rec)
        return
    n_plain = dict(hist=2, change=5, intrinsic=5, short=4, pair=5)[kind]
    hid = case[n_plain] if len(case) > n_plain else None
    case = case[:n_plain]
    t, every = tree(hid)
    root = t["r"].layout
    if kind == "hist":
        if any(HIST[i][0] in ("set", "del", "intr", "bad") and HIST[i][1] not in t for i in case[1]):
            return rec.skip()
        val = {}
        dirty = set(t)
        root.dirty = False
        dirty = set()
        trail = []
        for i in case[1]:
            op = HIST[i]
            trail.append(op)
            if op[0] == "set":
                t[op[1]].style[op[2]] = op[3]
                if val.get((op[1], op[2])) != op[3]:
                    dirty |= set(DESC[op[1]])
                val[(op[1], op[2])] = op[3]
            elif op[0] == "del":
                delattr(t[op[1]].style, op[2])
                if val.pop((op[1], op[2]), None) is not None:
                    dirty |= set(DESC[op[1]])
            elif op[0] == "intr":
                setattr(t[op[1]].intrinsic, op[2], op[3])
                if val.get((op[1], "i" + op[2])) != op[3]:
                    dirty |= set(DESC[op[1]])
                val[(op[1], "i" + op[2])] = op[3]
            elif op[0] == "bad":
                res = call(setattr, t[op[1]].style, "width", "bad")
                if res[0] == "ok":
                    rec.fail(f"{trail}: width = 'bad' accepted")
            elif op[0] == "clean":
                root.dirty = False
                dirty = set()
            elif op[0] == "alldirty":
                root.dirty = True
                dirty = set(t)
            else:
                root.reset()
                root.dirty = False
                dirty = set()
            rec.op()
            expect(t, dirty, rec, f"{trail}")
        rec.state((sorted(dirty), sorted(val.items())))
        return
    node = case[1]
    n = t[node]
    d = set(DESC[node])
    if kind == "change":
        _, _, p, v, route = case
        want = rc.judge(p, v)
        init = rc.initial_of(p, {})

        def assign(value):
            if route == "attr" or value is None:
                setattr(n.style, p, value)
            elif route == "item":
                n.style[p.replace("_", "-")] = value
            else:
                n.style.update(**{p: value})

        root.dirty = False
        assign(real(v))
        rec.op()
        if want != init:
            expect(t, d, rec, f"{case!r} {hid or ''} set")
        elif rc.T[p][0] == init and plain(want):
            expect(t, (), rec, f"{case!r} set to the initial value it has")
        root.dirty = False
        expect(t, (), rec, f"{case!r} cleaned")
        if plain(want):
            assign(real(v))
            rec.op()
            expect(t, (), rec, f"{case!r} set to the equal value again")
        for q in rc.LONGHANDS:
            getattr(n.style, q)
        str(n.style), n.style.keys(), n.style.items(), n.style.copy(), repr(n.layout)
        expect(t, (), rec, f"{case!r} reading")
        res = call(assign, real(("!obj",)))
        if res[0] == "ok":
            rec.fail(f"{case!r}: arbitrary object accepted")
        expect(t, (), rec, f"{case!r} refused")
        listed = p in n.style.keys()
        delattr(n.style, p)
        if want != init:
            expect(t, d, rec, f"{case!r} {hid or ''} deleted")
        root.dirty = False
        delattr(n.style, p)
        expect(t, (), rec, f"{case!r} deleted again")
        rec.op(4)
        rec.state((node, p, want, route))
    elif kind == "pair":
        _, _, p, v, w = case
        cv, cw = rc.judge(p, v), rc.judge(p, w)
        setattr(n.style, p, real(v))
        root.dirty = False
        setattr(n.style, p, real(w))
        rec.op(2)
        if cv != cw:
            expect(t, d, rec, f"{case!r} changed")
        elif plain(cv):
            expect(t, (), rec, f"{case!r} unchanged")
        rec.state((p, cv, cw))
    elif kind == "intrinsic":
        _, _, attr, v1, v2 = case
        for v in (v1, v1, v2, v1, v2, v2):
            root.dirty = False
            same = getattr(n.intrinsic, attr) == v
            setattr(n.intrinsic, attr, v)
            rec.op()
            if getattr(n.intrinsic, attr) != v:
                rec.fail(f"{case!r}: {attr} reads {getattr(n.intrinsic, attr)!r} after setting {v!r}")
            expect(t, () if same else d, rec, f"{case!r} {attr}={v!r}")
        rec.state((node, attr))
    else:
        _, _, p, v = case
        root.dirty = False
        setattr(n.style, p, v)
        expect(t, d, rec, f"{case!r} {hid or ''} set")
        root.dirty = False
        delattr(n.style, p)
        expect(t, d, rec, f"{case!r} {hid or ''} deleted")
        rec.op(2)
        rec.state((node, p))


def plain(c):
    """Values that compare by value: keywords, numbers, lengths."""
    return c is None or isinstance(c, str) or c[0] in ("int", "unit")
