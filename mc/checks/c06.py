"""C06: the rendered declaration re-parses to the same declaration."""
from .. import obs
from .. import ref_css as rc
from .. import rows
from ..world import CSS, canon, real

ID = "C06"
RULE = ("rows: declarations of an orthogonal array in which every combination of values of any two longhands occurs among values of all others; value: every longhand x every accepted value of the alphabet; pair: every pair of longhands in both orders with "
        "two values each; all: declarations of every size up to all longhands at once. The text is split into declarations, fed back through the item "
        "interface of a new declaration and compared property by property")
BOUNDS = dict(quick="4489 array rows; 66 longhands x accepted extended alphabet, 66x65 ordered pairs, 250 declarations of 3-65 properties", thorough="36 000 rows of the array of strength three; pairs with all accepted values of a reduced alphabet")
HASH_SEEDS = [0, 1, 2]

EXTRA = {**rows.MORE,
         "color": rows.COLORS + [("!hsl", h, s / 100.0, l / 100.0, a) for h in (0, 200, 359) for s in (0, 7, 29, 57, 100) for l in (0, 14, 58, 100) for a in (1.0, 0.5)],
         "width": [("!unit", v, u) for v in (1e-7, 1e22, 123456.789, 1 / 3, 100, 3 + 2**-32, 3 - 2**-32, 0.1 + 0.2, 2 + 2**-40) for u in rc.ref_units.LENGTH_SUFFIXES]}


def values(p):
    return [v for v, _ in rc.accepted(p)] + rc.accepted_far(p) + EXTRA.get(p, [])


def cases(tier):
    yield ("set", ())
    yield from rows.cases(tier)
    for p in rc.LONGHANDS:
        for v in values(p):
            yield ("set", ((p, v),))
    for p in rc.LONGHANDS:
        for q in rc.LONGHANDS:
            if p != q:
                k = 2 if tier == "quick" else 5
                for v in rc.accepted(p, k)[-2 if tier == "quick" else 0:]:
                    w = rc.accepted(q, k)[-1]
                    yield ("set", ((p, v[0]), (q, w[0])))
    # declarations of every size
    for i in range(4):
        ps = rc.LONGHANDS[i * 7:] + rc.LONGHANDS[: i * 7]
        for k in range(3, len(ps)):
            yield ("set", tuple((p, values(p)[(i * 5 + k) % len(values(p))]) for p in ps[:k]))
    for i in range(8):
        todo = []
        for p in rc.LONGHANDS:
            acc = values(p)
            todo.append((p, acc[(i * 3 + 1) % len(acc)]))
        yield ("set", tuple(todo))
        yield ("set", tuple(reversed(todo)))


def want_of(p, v):
    return rc.judge(p, v)


def check(case, rec):
    if case[0] == "rows":
        for i in range(case[2], case[3]):
            check_set(("set", tuple(rows.row(i, case[1]))), rec)
    else:
        check_set(case, rec)


def check_set(case, rec):
    css, state = CSS(), {}
    for p, v in case[1]:
        setattr(css, p, real(v))
        state[p] = want_of(p, v)
        rec.op()
    obs.agree(css, state, rec, f"{case!r}")
    text = str(css)
    keys = css.keys()
    back = CSS()
    for part in text.split("; ") if text else []:
        if ": " not in part:
            rec.fail(f"{case!r}: rendered as {text!r}: {part!r} is not 'name: value'")
        name, value = part.split(": ", 1)
        try:
            back[name] = value
        except Exception as e:
            rec.fail(f"{case!r}: rendered as {text!r}, but {name}: {value!r} does not parse back ({e!r})")
        rec.op()
    for n in rc.LONGHANDS:
        a, b = canon(getattr(css, n)), canon(getattr(back, n))
        if a != b:
            rec.fail(f"{case!r}: rendered as {text!r}; {n} was {a!r} and parses back as {b!r}")
    if str(back) != text or str(css) != text or css.keys() != keys:
        rec.fail(f"{case!r}: rendered as {text!r}, then as {str(css)!r}; parsed back and rendered as {str(back)!r}")
    other = CSS()
    for p, v in reversed(case[1]):
        setattr(other, p, real(v))
    if str(other) != text:
        rec.fail(f"{case!r}: order of assignment changes the rendering: {text!r} / {str(other)!r}")
    rec.state(text)
