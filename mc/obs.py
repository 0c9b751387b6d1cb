"""Observation of declarations and agreement with the reference map."""
from . import ref_css as rc
from .world import canon


def snapshot(css):
    """Everything observable about the declared values."""
    return (
        {n: canon(getattr(css, n)) for n in rc.LONGHANDS},
        frozenset(css.keys()),
        str(css),
    )


def agree(css, state, rec, where):
    """The declaration must agree with the reference map on every route."""
    for n in rc.LONGHANDS:
        want = rc.value_of(n, state)
        got = canon(getattr(css, n))
        if got != want:
            rec.fail(f"{where}: {n} is {got!r}, expected {want!r}")
    listing(css, state, rec, where)


def listing(css, state, rec, where):
    must = {n for n, v in state.items() if v != rc.T[n][0]}
    may = set(state)
    keys = set(css.keys())
    if not must <= keys <= may:
        rec.fail(f"{where}: keys() lists {sorted(keys)}, expected {sorted(must)} (plus at most {sorted(may)})")
    items = css.items()
    names = [k for k, _ in items]
    if set(names) != keys or len(names) != len(keys):
        rec.fail(f"{where}: items() lists {sorted(names)}, keys() lists {sorted(keys)}")
    for k, v in items:
        if canon(v) != state[k]:
            rec.fail(f"{where}: items() gives {k}={canon(v)!r}, expected {state[k]!r}")
    text = str(css)
    rendered = [part.split(":", 1)[0] for part in text.split("; ")] if text else []
    want = sorted(k.replace("_", "-") for k in keys)
    if rendered != want:
        rec.fail(f"{where}: rendered as {text!r}, but keys are {want}")
