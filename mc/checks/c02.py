"""C02: a declaration is one map, on every access route, along every history."""
from itertools import permutations, product

from .. import obs
from .. import ref_css as rc
from .. import rows
from ..world import CSS, call, canon, real

ID = "C02"
RULE = ("pairs: every ordered pair of longhands, set/overwrite/delete interleaved, the whole declaration compared after "
        "each step; hist: every operation sequence up to the depth bound over groups of interacting longhands, two "
        "values each, all set and delete routes; bulk: constructor and update with every permutation of triples; "
        "order: update and constructor with every ordered pair of names, shorthands included, and every order of names that share longhands, "
        "compared with the assignments one by one; names: unknown names, among them every combination of two words of property names, on every route; rows: declarations of an orthogonal array in which every combination of values of any "
        "two longhands occurs among values of all others, set on all routes in many orders, partly deleted, overwritten, the whole compared")
BOUNDS = dict(quick="4489 array rows (40 values per longhand); pairs 66x65; histories of depth <= 3 over 3 groups, values x routes", 
              thorough="as quick, plus 36 000 rows of the array of strength three, plus depth 4 on the attribute/item routes")
HASH_SEEDS = [0, 1]

GROUPS = [
    [("color", ["red", "#00f"]), ("border_top_color", ["red", "transparent"]), ("border_left_color", ["#0f0"]),
     ("background_color", ["red"])],
    [("direction", ["rtl", "ltr"]), ("text_align", ["left", "right"]), ("unicode_bidi", ["embed"])],
    [("margin_top", [5, 0]), ("width", ["10%", "auto"]), ("max_width", [7, "none"]), ("display", ["block", "none"])],
    [("z_index", [3, "auto"]), ("quotes", [("!quotes", ("<", ">")), "none"]), ("cursor", ["move"]),
     ("border_spacing", [4])],
]
# shorthands: two values each
SHORT = {"margin": [(1, 2), 0], "padding": [3, (1, 2, 3)], "border_width": [("thin", 2), 5], "border_style": ["solid", ("none", "dotted")],
         "border_color": ["red", ("#00f", "transparent")], "border": ["1px solid red", "thick"], "border_top": ["2px dashed", "#0f0"],
         "border_right": ["dotted 3px blue", "none"], "border_bottom": ["thin", "double red"], "border_left": ["4px", "solid"],
         "outline": ["1px solid red", "invert"]}
# names that share longhands
SHARED = [["border", "border_width", "border_top", "border_top_width", "border_top_color"], ["border_left", "border_color", "border_left_color", "color", "border"],
          ["margin", "margin_top", "margin_left", "margin_bottom"], ["padding", "padding_right", "padding_bottom", "padding_left"],
          ["outline", "outline_width", "outline_style", "outline_color"], ["border_style", "border_bottom", "border_bottom_style", "border_right_style"]]
WORDS = sorted({w for n in list(rc.LONGHANDS) + list(SHORT) for w in n.split("_")})
SET = ["attr", "item_", "item-", "update", "update-"]
DEL = ["attr", "item_", "item-", "update"]


def do_set(css, route, n, v):
    if route == "attr":
        setattr(css, n, v)
    elif route == "item_":
        css[n] = v
    elif route == "item-":
        css[n.replace("_", "-")] = v
    elif route == "update":
        css.update(**{n: v})
    else:
        css.update(**{n.replace("_", "-"): v})


def do_del(css, route, n):
    if route == "attr":
        delattr(css, n)
    elif route == "item_":
        del css[n]
    elif route == "item-":
        del css[n.replace("_", "-")]
    else:
        css.update(**{n: None})


def ops(group, few):
    out = []
    for n, vals in group:
        sets = SET if not few else ["attr", "item-"]
        dels = DEL if not few else ["attr"]
        for i, v in enumerate(vals):
            for r in (sets if i == 0 else ["attr"]):
                out.append(("set", r, n, v))
        for r in dels:
            out.append(("del", r, n))
    return out


def cases(tier):
    for name in ("no_such_property", "margin-topp", "", "_margin_top", "dirty", "copy", "node", "update", "Display",
                 "margin_top_", "color ", "backgroundcolor", "_node", "keys"):
        yield ("names", name)
    for w in WORDS:
        yield ("words", w)
    every = sorted(rc.LONGHANDS) + sorted(SHORT)
    for p in every:
        yield ("order", [(p, q) for q in every if q != p])
    for g in SHARED:
        for r in (3, len(g)):
            yield ("order", list(permutations(g, r)))
    for p in rc.LONGHANDS:
        yield ("single", p)
    for p in rc.LONGHANDS:
        for q in rc.LONGHANDS:
            if p != q:
                yield ("pair", p, q)
    yield from rows.cases(tier)
    names = ["color", "border_top_color", "direction", "text_align", "margin_top", "display", "cursor", "quotes"]
    for tri in permutations(names, 3):
        yield ("bulk", tri)
    for gi, g in enumerate(GROUPS):
        o = ops(g, False)
        for d in (1, 2):
            for h in product(range(len(o)), repeat=d):
                yield ("hist", gi, False, h)
        o = ops(g, True)
        for d in ((3,) if tier == "quick" else (3, 4)):
            for h in product(range(len(o)), repeat=d):
                yield ("hist", gi, True, h)


_OPS = {}


def check(case, rec):
    kind = case[0]
    if kind == "rows":
        for i in range(case[2], case[3]):
            check_row(i, case[1], rec)
    elif kind == "hist":
        _, gi, few, h = case
        key = (gi, few)
        if key not in _OPS:
            _OPS[key] = ops(GROUPS[gi], few)
        css, state, trail = CSS(), {}, []
        for i in h:
            op = _OPS[key][i]
            trail.append(op)
            apply(css, state, op)
            rec.op()
        obs.agree(css, state, rec, f"after {trail}")
        routes(css, state, rec, [n for n, _ in GROUPS[gi]], trail)
        rec.state(("g", gi, sorted(state.items(), key=lambda kv: kv[0])))
    elif kind == "single":
        p = case[1]
        for i, (lit, want) in enumerate(rc.accepted(p, 4) + [(v, rc.judge(p, v)) for v in rc.accepted_far(p)]):
            # the first values on every pair of routes, the others on each set route once
            for r in SET:
                for d in DEL if i < 4 else [DEL[i % len(DEL)]]:
                    css, state = CSS(), {}
                    obs.agree(css, state, rec, "new")
                    apply(css, state, ("set", r, p, lit))
                    obs.agree(css, state, rec, f"{p}={lit!r} via {r}")
                    routes(css, state, rec, [p], (r, p, lit))
                    apply(css, state, ("del", d, p))
                    obs.agree(css, state, rec, f"{p}={lit!r} via {r}, deleted via {d}")
                    apply(css, state, ("del", d, p))
                    obs.agree(css, state, rec, f"{p} deleted twice via {d}")
                    rec.op(3)
            rec.state((p, want))
    elif kind == "pair":
        _, p, q = case
        pv, qv = rc.accepted(p, 3), rc.accepted(q, 3)
        css, state = CSS(), {}
        script = [("set", "attr", p, pv[0][0]), ("set", "item-", q, qv[-1][0]), ("set", "update", p, pv[-1][0]),
                  ("del", "item-", q), ("set", "attr", q, qv[0][0]), ("del", "attr", p), ("del", "update", q)]
        for k, op in enumerate(script):
            apply(css, state, op)
            rec.op()
            obs.agree(css, state, rec, f"after {script[:k + 1]}")
            rec.state((p, q, k))
    elif kind == "bulk":
        tri = case[1]
        vals = [rc.accepted(n, 2)[-1] for n in tri]
        kw = {n: real(lit) for n, (lit, _) in zip(tri, vals)}
        state = {n: c for n, (_, c) in zip(tri, vals)}
        a = CSS(**kw)
        obs.agree(a, state, rec, f"CSS(**{tri})")
        b = CSS(overflow="hidden")
        b.update(**{n.replace("_", "-"): v for n, v in kw.items()})
        obs.agree(b, dict(state, overflow="hidden"), rec, f"update(**{tri})")
        b.update(**{tri[0]: None, tri[1]: kw[tri[1]]})
        st = dict(state, overflow="hidden")
        st.pop(tri[0])
        obs.agree(b, st, rec, f"update(**{tri}) then update({tri[0]}=None, {tri[1]}=same)")
        rec.op(3)
        rec.state(sorted(state.items()))
    elif kind == "order":
        for names in case[1]:
            check_order(names, rec)
    elif kind == "words":
        every = set(rc.LONGHANDS) | set(SHORT)
        for w in [""] + WORDS:
            for name in {f"{case[1]}_{w}", f"{case[1]}-{w}", f"{case[1]}{w}", f"{case[1]}_{w}_width", f"{case[1]}_{w}_style", f"{case[1]}_{w}_color", f"_{case[1]}_{w}"}:
                if name.replace("-", "_") not in every:
                    unknown(name, rec)
    elif kind == "names":
        name = case[1]
        unknown(name, rec)


def values_of(name, k):
    return real(SHORT[name][k] if name in SHORT else rc.accepted(name, 3)[-1 - k % len(rc.accepted(name, 3))][0])


def check_order(names, rec):
    """Several names at once are the assignments one by one, in the order given."""
    for k in (0, 1):
        a, b = CSS(), CSS()
        vals = {n: values_of(n, (k + j) % 2) for j, n in enumerate(names)}
        if None in vals.values():
            vals = {n: v for n, v in vals.items() if v is not None}
        for n, v in vals.items():
            setattr(a, n, v)
        hyphens = {n.replace("_", "-") if k else n: v for n, v in vals.items()}
        b.update(**hyphens)
        want = obs.snapshot(a)
        rec.op(len(names))
        if obs.snapshot(b) != want:
            rec.fail(f"update(**{hyphens}) gives {obs.snapshot(b)[2]!r}, the assignments in this order {want[2]!r}")
        if obs.snapshot(CSS(**vals)) != want:
            rec.fail(f"CSS(**{vals}) gives {str(CSS(**vals))!r}, the assignments in this order {want[2]!r}")
        rec.state(want[2])


def unknown(name, rec):
    css = CSS(margin_top=3)
    before = obs.snapshot(css)
    for what, fn, exc in (
        ("get", lambda: css[name], KeyError),
        ("set", lambda: css.__setitem__(name, 1), KeyError),
        ("del", lambda: css.__delitem__(name), KeyError),
        ("update", lambda: css.update(**{name: 1}), NameError),
        ("update none", lambda: css.update(**{name: None}), NameError),
        ("constructor", lambda: CSS(**{name: 1}), NameError),
    ):
        try:
            fn()
            res = "no exception"
        except Exception as e:
            res = None if isinstance(e, exc) else type(e).__name__
        rec.op()
        if res is not None:
            rec.fail(f"{what} of unknown name {name!r}: {res}, expected {exc.__name__}")
        if obs.snapshot(css) != before:
            rec.fail(f"{what} of unknown name {name!r} changed the declaration")
        rec.state((name, what))


def check_row(i, t, rec):
    """A row set on all routes, every other longhand deleted, the next row set over it."""
    css, state = CSS(), {}
    for k, (p, v, obj) in enumerate(rows.objects(rows.row(i, t), i % 3 == 0)):
        do_set(css, SET[(i + k) % len(SET)] if obj is not None else "attr", p, obj)
        state[p] = rc.judge(p, v)
        rec.op()
        if k % 16 == 7:
            obs.agree(css, state, rec, f"row {i} of strength {t}, {k + 1} set")
    obs.agree(css, state, rec, f"row {i} of strength {t}")
    routes(css, state, rec, sorted(state), f"row {i} of strength {t}")
    for k, p in enumerate(list(state)):
        if (k + i) % 2:
            do_del(css, DEL[(i + k) % len(DEL)], p)
            state.pop(p)
            rec.op()
    obs.agree(css, state, rec, f"row {i} of strength {t}, half deleted")
    nxt = rows.row((i + 1) % rows.array(t).size, t)
    css.update(**{p: obj for p, v, obj in rows.objects(nxt, False) if obj is not None})
    state.update((p, rc.judge(p, v)) for p, v in nxt if v is not None)
    rec.op(len(nxt))
    obs.agree(css, state, rec, f"row {i} of strength {t}, updated with the next")
    rec.state((t, i))


def apply(css, state, op):
    if op[0] == "set":
        if op[3] is None and op[1].startswith("update"):
            op = ("set", "attr", op[2], None)
        do_set(css, op[1], op[2], real(op[3]))
        state[op[2]] = rc.judge(op[2], op[3])
    else:
        do_del(css, op[1], op[2])
        state.pop(op[2], None)


def routes(css, state, rec, names, where):
    for n in names:
        want = rc.value_of(n, state)
        for got in (css[n], css[n.replace("_", "-")]):
            if canon(got) != want:
                rec.fail(f"after {where}: item {n} is {canon(got)!r}, expected {want!r}")
