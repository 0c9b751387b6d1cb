"""C03: shorthands expand to exactly their longhands, atomically."""
import re
from itertools import permutations, product

from .. import edits, obs
from .. import ref_css as rc
from ..world import Node, call, canon, real

ID = "C03"
RULE = ("dir: every directional shorthand x every scalar and every tuple of 0-5 entries over {2 valid, 1 invalid} values; "
        "edit: every text one edit away from well-formed texts of border, the border sides and outline; part: border, the four border sides and outline x every arrangement of 1-3 parts (all permutations, all value "
        "choices), every duplicate, every invalid part in every position, surplus parts, as text and as sequences; "
        "each from several prior declarations and through every route, whole declaration compared after each operation")
BOUNDS = dict(quick="1-3 tuples complete over 6 values, 4-tuples over 3 values; 1-4 tuples of zeros, initial values and others over 5-8 values; 1-3 parts complete over 8 valid and 2 invalid values; 4 prior states",
              thorough="as quick with a larger value alphabet and every pair of successive shorthand assignments")
HASH_SEEDS = [0]

DIR_VALUES = {
    "margin": [1, "auto", "bad"],
    "padding": ["2px", 3.5, "auto"],
    "border_width": ["thin", 2, "bad"],
    "border_style": ["solid", "none", "bad"],
    "border_color": ["red", "#00f", "bad"],
}
MORE = {
    "margin": ["10%", -4, ("!unit", 3, "em")],
    "padding": ["10%", "0", ("!unit", 3, "em")],
    "border_width": ["thick", "0.5in", ("!unit", 3, "px")],
    "border_style": ["hidden", "double", None],
    "border_color": ["inherit", "transparent", ("!rgb", 1, 2, 3)],
}
# zeros, initial values and values beside them
ZEROS = {
    "margin": [0, 5, "auto", -4, 0.0, "0px", ("!unit", 0, "em"), "0%"],
    "padding": [0, 5, 0.0, "0px", ("!unit", 0, "em"), "0%", 1, 0.5],
    "border_width": [0, 5, 0.0, "thin", "0px", ("!unit", 0, "em"), "medium"],
    "border_style": [None, "none", "solid", "hidden", "dotted"],
    "border_color": ["transparent", "red", "inherit", ("!rgb", 0, 0, 0, 0), "black"],
}
SIDES = {}
for _s in rc.SIDES:
    SIDES["border_" + _s] = {k: [f"border_{_s}_{k}"] for k in ("width", "style", "color")}
SIDES["border"] = {k: [f"border_{s}_{k}" for s in rc.SIDES] for k in ("width", "style", "color")}
SIDES["outline"] = {k: ["outline_" + k] for k in ("width", "style", "color")}
PARTS = [("width", "thin"), ("width", "2px"), ("width", 3), ("style", "solid"), ("style", "none"), ("color", "red"),
         ("color", "#00f"), ("color", "rgb(1,2,3)"), ("bad", "bad"), ("bad", "10deg")]
PARTS_MORE = PARTS + [("width", "0"), ("width", "1.5em"), ("style", "hidden"), ("style", "inset"), ("color", ("!rgb", 4, 5, 6)),
                      ("color", "hsl(1,2%,3%)"), ("bad", ""), ("bad", "soild"), ("bad", ("!obj",))]
# colours with blanks inside, colour objects, keywords of several kinds
PARTS_WIDE = PARTS + [("color", "rgb(1, 2, 3)"), ("color", "hsla(10, 20%, 30%, 0.4)"), ("color", ("!rgb", 4, 5, 6, 0.5)), ("color", ("!hsl", 10, 0.2, 0.3)), ("width", ("!unit", 3, "em")),
                      ("width", "0"), ("width", 0), ("style", None), ("style", "groove"), ("bad", ""), ("bad", "rgb(1, 2)"), ("bad", "rgb(1,"), ("bad", "solid,"), ("bad", ("!obj",))]
BLANKS = ["  ", "\t", "\n", " \t ", "    "]
NOBLANKS = [",", ", ", " , ", "/", ";", " ; ", "", "-", "_", " and ", "+"]
PRIORS = ["unset", "set", "mixed", "reset"]
ROUTES = ["attr", "item", "update"]
DELS = ["attr", "item", "update"]


NEAR = ["1px solid red", "red", "thin", "none", "dotted #1a3 2.5em", "rgb(1, 2, 3) medium", "hsla(1,2%,3%,.5) 0 double", "thick groove transparent", "2px dashed"]
NEARCH = "01.,;()- #%aedopxnrs/\t"


def cases(tier):
    for name in SIDES:
        for t in NEAR:
            for prior in ("unset", "set"):
                yield ("edit", name, prior, t)
    for name in list(rc.DIRECTIONAL) + list(SIDES):
        for prior in PRIORS:
            for r in DELS:
                yield ("del", name, prior, r)
    for prior in PRIORS:
        yield ("read", "border", prior)
    for name in rc.DIRECTIONAL:
        vals = DIR_VALUES[name]
        for prior in PRIORS:
            for v in vals + MORE[name]:
                yield ("dir", name, prior, v, "attr")
                yield ("dir", name, prior, v, "item")
                yield ("dir", name, prior, v, "update")
            for n in range(0, 6):
                use = vals if (n > 3 and (tier == "quick" or prior != "set")) or n > 4 else vals + MORE[name]
                if tier == "quick" and n == 3 and prior not in ("unset", "set"):
                    use = vals
                if n == 5:
                    use = vals[:1] + vals[-1:]
                for t in product(use, repeat=n):
                    yield ("dir", name, prior, t, "attr")
        for prior, route in (("unset", "attr"), ("set", "update"), ("mixed", "item")):
            for n in range(1, 5):
                for t in product(ZEROS[name] if n < 4 or tier == "thorough" else ZEROS[name][:5], repeat=n):
                    yield ("dir", name, prior, t, route)
        for t in product(vals[:2] + MORE[name][:1], repeat=4):
            yield ("dir", name, "set", t, "item")
    parts = PARTS if tier == "quick" else PARTS_MORE
    for name in SIDES:
        for prior in PRIORS:
            for n in (1, 2, 3):
                for combo in product(range(len(parts)), repeat=n):
                    yield ("part", name, prior, tuple(parts[i] for i in combo), "seq", "attr")
                    if all(isinstance(parts[i][1], str) and parts[i][1] for i in combo):
                        yield ("part", name, prior, tuple(parts[i] for i in combo), "text", "attr")
                        if n < 3 or prior == "set":
                            yield ("part", name, prior, tuple(parts[i] for i in combo), "text", "item" if sum(combo) % 2 else "update")
            for combo in ((0, 3, 5, 3), (0, 3, 5, 8), (1, 4, 6, 0)):
                yield ("part", name, prior, tuple(parts[i] for i in combo), "seq", "item")
                yield ("part", name, prior, tuple(parts[i] for i in combo), "text", "update")
            for n in (1, 2):
                for combo in product(range(len(PARTS_WIDE)), repeat=n):
                    ps = tuple(PARTS_WIDE[i] for i in combo)
                    yield ("part", name, prior, ps, "seq", "attr")
                    if all(isinstance(p[1], str) and p[1] for p in ps):
                        yield ("part", name, prior, ps, "text", "attr")
            for ps in permutations([("width", "2px"), ("style", "dashed"), ("color", "rgb(1, 2, 3)")]):
                yield ("part", name, prior, ps, "text", "attr")
                for k in range(4):
                    for bad in (("bad", ""), ("bad", " "), ("bad", "bad"), ("bad", ("!obj",)), ps[k % 3]):
                        yield ("part", name, prior, ps[:k] + (bad,) + ps[k:], "seq", "attr")
                for sep in BLANKS:
                    yield ("sep", name, prior, ps, sep)
                for sep in NOBLANKS:
                    for m in (2, 3):
                        yield ("sep", name, prior, ps[:m], sep)
            for v in ("", (), [], None, 5, ("!obj",), " "):
                yield ("odd", name, prior, v)
    if tier == "thorough":
        for a, b in product(list(SIDES), repeat=2):
            for x, y in product([(0,), (3,), (5,), (2, 4), (1, 7), (3, 6), (0, 3, 5)], repeat=2):
                yield ("seq", (a, tuple(PARTS[i] for i in x)), (b, tuple(PARTS[i] for i in y)))


def setup(prior):
    root = Node()
    css, state = root.style, {}
    todo = []
    if prior in ("set", "mixed", "reset"):
        for n in rc.LONGHANDS:
            if n.startswith(("margin_", "padding_", "border_", "outline_")):
                acc = rc.accepted(n, 12)
                lit = acc[3 % len(acc)]
                if prior == "mixed" and not n.endswith(("_top", "_left_width", "_color", "right_style")):
                    continue
                todo.append((n,) + lit)
        todo.append(("overflow", "hidden", "hidden"))
        todo.append(("color", "blue", rc.judge("color", "blue")))
    for n, lit, c in todo:
        setattr(css, n, real(lit))
        state[n] = c
    if prior == "reset":  # explicitly back to the initial values, where these can be spelled
        for n in list(state):
            lit = "none" if rc.T[n][0] is None else rc.T[n][0]
            if isinstance(lit, tuple) and lit[0] == "unit":
                lit = 0
            if isinstance(lit, (str, int)) and rc.judge(n, lit) == rc.T[n][0]:
                setattr(css, n, lit)
                state[n] = rc.T[n][0]
    root.layout.dirty = False
    return root, css, state


def rejected(res, where, before, css, root, rec):
    if res[0] == "ok":
        rec.fail(f"{where}: accepted, must be refused")
    if not res[2]:
        rec.fail(f"{where}: raised {res[1]} instead of ValueError")
    if obs.snapshot(css) != before:
        a, b = before[0], obs.snapshot(css)[0]
        rec.fail(f"{where}: refused, but changed { {k: (a[k], b[k]) for k in a if a[k] != b[k]} }, keys {before[1]} -> {css.keys()}")
    if root.layout.dirty is not False:
        rec.fail(f"{where}: refused, but the layout is dirty")


def check(case, rec):
    kind = case[0]
    rec.op()
    if kind == "seq":
        root, css, state = setup("unset")
        for name, parts in case[1:]:
            setattr(css, name, tuple(real(p[1]) for p in parts))
            apply_parts(name, parts, state)
            obs.agree(css, state, rec, f"{case[1:]} after {name}")
            reading(css, state, rec, case)
        rec.state(sorted(state.items()))
        return
    name, prior = case[1], case[2]
    root, css, state = setup(prior)
    before = obs.snapshot(css)
    where = f"{case!r}"
    if kind == "read":
        obs.agree(css, state, rec, where)
        reading(css, state, rec, where)
        if obs.snapshot(css) != before or root.layout.dirty is not False:
            rec.fail(f"{where}: reading shorthands changes the declaration")
        rec.state((name, prior, "read"))
    elif kind == "del":
        if case[3] == "attr":
            delattr(css, name)
        elif case[3] == "item":
            del css[name.replace("_", "-")]
        else:
            css.update(**{name: None})
        for n in members(name):
            state.pop(n, None)
        obs.agree(css, state, rec, where)
        reading(css, state, rec, where)
        rec.state((name, prior, "deleted"))
    elif kind == "edit":
        for text in edits.one(case[3], NEARCH):
            if not text.strip() or re.search(r"\([^)]*\(|\)[^(]*\)|^[^(]*\)|\([^)]*$", text) and re.search(r"\s", text):
                continue
            parts = []
            for p in re.findall(r"(?:\([^()]*\)|\S)+", text):
                kinds = {k: rc.judge(ls[0], p) for k, ls in SIDES[name].items()}
                if rc.UNKNOWN in kinds.values() or len([k for k in kinds if kinds[k] != rc.REJECT]) > 1:
                    break
                parts.append(([k for k in kinds if kinds[k] != rc.REJECT] + ["bad"])[0])
                parts[-1] = (parts[-1], p)
            else:
                root, css, state = setup(prior)
                before = obs.snapshot(css)
                res = assign(css, name, text, "attr")
                kinds = [k for k, _ in parts]
                rec.op()
                if "bad" in kinds or len(set(kinds)) < len(kinds):
                    rejected(res, f"{name} = {text!r} from {prior}", before, css, root, rec)
                else:
                    if res[0] != "ok":
                        rec.fail(f"{name} = {text!r}: raised {res[1]}, must be accepted")
                    apply_parts(name, parts, state)
                    obs.agree(css, state, rec, f"{name} = {text!r} from {prior}")
                rec.state((name, prior, text))
    elif kind == "dir":
        v, route = case[3], case[4]
        if v is None and route == "update":
            rec.skip()
            return
        longs = rc.DIRECTIONAL[name]
        istuple = isinstance(v, tuple) and not (v and isinstance(v[0], str) and v[0].startswith("!"))
        if istuple:
            if not 1 <= len(v) <= 4:
                want = None
            else:
                idx = {1: (0, 0, 0, 0), 2: (0, 1, 0, 1), 3: (0, 1, 2, 1), 4: (0, 1, 2, 3)}[len(v)]
                want = [rc.judge(longs[k], v[i]) for k, i in enumerate(idx)]
        else:
            want = [rc.judge(n, v) for n in longs]
        if want and rc.UNKNOWN in want:
            rec.skip()
            return
        rv = real(v)
        res = assign(css, name, rv, route)
        if want is None or rc.REJECT in want:
            rejected(res, where, before, css, root, rec)
            rec.state((name, prior, "reject", repr(v)))
        else:
            if res[0] != "ok":
                rec.fail(f"{where}: raised {res[1]}, must be accepted")
            for n, w in zip(longs, want):
                state[n] = w
            obs.agree(css, state, rec, where)
            reading(css, state, rec, where)
            rec.state((name, prior, tuple(want)))
    elif kind == "odd":
        v = real(case[3])
        res = call(setattr, css, name, v)
        if case[3] == " ":  # blank text: no verdict on acceptance of an empty part list
            rec.skip()
            return
        rejected(res, where, before, css, root, rec)
        rec.state((name, prior, "odd", repr(case[3])))
    elif kind == "sep":
        parts, sep = case[3], case[4]
        text = sep.join(p[1] for p in parts)
        for value in (text, " " + text + " ") if sep in BLANKS else (text,):
            res = assign(css, name, value, "attr")
            if sep in BLANKS:
                if res[0] != "ok":
                    rec.fail(f"{where}: {value!r} raised {res[1]}, must be accepted")
                apply_parts(name, parts, state)
                obs.agree(css, state, rec, where)
                again(css, name, state, rec, where)
            else:
                rejected(res, where, before, css, root, rec)
        rec.state((name, prior, "sep", sep))
    else:
        parts, form, route = case[3], case[4], case[5]
        value = tuple(real(p[1]) for p in parts) if form == "seq" else " ".join(str(p[1]) for p in parts)
        kinds = [p[0] for p in parts]
        if form == "seq" and len(parts) % 2:
            value = list(value)
        res = assign(css, name, value, route)
        if "bad" in kinds or len(set(kinds)) < len(kinds) or len(kinds) > 3:
            rejected(res, where, before, css, root, rec)
            rec.state((name, prior, "reject", kinds))
        else:
            if res[0] != "ok":
                rec.fail(f"{where}: raised {res[1]}, must be accepted")
            apply_parts(name, parts, state)
            obs.agree(css, state, rec, where)
            reading(css, state, rec, where)
            again(css, name, state, rec, where)
            rec.state((name, sorted(state.items())))


def assign(css, name, value, route):
    if route == "attr":
        return call(setattr, css, name, value)
    if route == "item":
        return call(css.__setitem__, name.replace("_", "-"), value)
    return call(css.update, **{name: value})


def apply_parts(name, parts, state):
    given = dict(parts)
    for k, longs in SIDES[name].items():
        for n in longs:
            if k in given:
                state[n] = rc.judge(n, given[k])
            else:
                state.pop(n, None)


def again(css, name, state, rec, where):
    """The text of a border side or outline says what it was set to."""
    sides = ["border_" + s for s in rc.SIDES] if name == "border" else [name]
    for n in sides:
        longs = [m for ls in SIDES[n].values() for m in ls]
        if not any(m in css.keys() for m in longs):
            continue  # nothing to say
        if any(state.get(m) == "inherit" for m in longs):
            continue  # does not say of which part
        text = str(getattr(css, n))
        fresh = Node().style
        res = assign(fresh, n, text, "attr")
        if res[0] != "ok":
            rec.fail(f"{where}: text {text!r} of {n} assigned back raised {res[1]}")
        for m in longs:
            if canon(getattr(fresh, m)) != rc.value_of(m, {k: v for k, v in state.items() if k != "color"}):
                rec.fail(f"{where}: text {text!r} of {n} assigned back gives {m} = {canon(getattr(fresh, m))!r}, expected {rc.value_of(m, state)!r}")
        rec.op()


def members(name):
    if name in rc.DIRECTIONAL:
        return rc.DIRECTIONAL[name]
    return [n for ls in SIDES[name].values() for n in ls]


def reading(css, state, rec, where):
    for name, longs in rc.DIRECTIONAL.items():
        got = canon(getattr(css, name))
        want = tuple(rc.value_of(n, state) for n in longs)
        if got != want or canon(css[name]) != want:
            rec.fail(f"{where}: {name} reads {got!r}, expected {want!r}")
    for name, ks in SIDES.items():
        if name == "border":
            continue
        longs = [n for ls in ks.values() for n in ls]
        got = getattr(css, name)
        d = {k: canon(v) for k, v in got.to_dict().items()} if got != "" else {}
        listed = css.keys()
        want = {n: state.get(n, "not declared") for n in longs if n in listed}
        if d != want:
            rec.fail(f"{where}: {name} reads {d!r}, expected {want!r}")
