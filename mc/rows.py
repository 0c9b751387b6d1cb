"""Declarations from orthogonal arrays: every combination of values of any two
(or three) longhands occurs, among arbitrary values of all the others."""
import functools

from . import ref_css as rc
from .arrays import Array
from .world import real

# values of structured kinds beyond the alphabet
MORE = {
    "clip": [("!rect", ("!unit", a, "px"), ("!unit", b, "em"), ("!unit", 0.5, "in"), ("!unit", -3, "%")) for a in (0, 1.25) for b in (2, -7)],
    "quotes": [("!quotes", ("«", "»")), ("!quotes", ("a", "b"), ("c", "d"), ("e", "f")), ("!quotes", ("\\", "/")), ("!quotes", ("A", "B")),
               ("!quotes", ("\xad", "\xad")), ("!quotes", ("<", "\x07")), ("!quotes", ("a", "a"), ("a", "a")), ("!quotes", ("'", '"')),
               ("!quotes", ("a b", " c ")), ("!quotes", ("\n", ">")), ("!quotes", ("<", "\n")), ("!quotes", ("\t", "\r")), ("!quotes", ("\0", "<")),
               ("!quotes", ("<", "\0")), ("!quotes", ("'\"", "\"'")), ("!quotes", ("\\\\", "\\n")), ("!quotes", ("x", "\\")), ("!quotes", ("\u2028", "\U0001f600"))],
    "cursor": [("!cursor", ("!uri", "http://a.b/c?d=e"), ("!uri", "x.cur"), "wait"), ("!cursor", "n-resize"), ("!cursor", ("!uri", "only")),
               ("!cursor", ("!uri", "a"), ("!uri", "a"), "auto"), ("!cursor", ("!uri", "a"), ("!uri", "b"), ("!uri", "a")), ("!cursor", ("!uri", "UP/Case.PNG"), "help"), ("!cursor", ("!uri", "data:image/png;base64,AA=="), "auto"), ("!cursor", ("!uri", " a b, c,d "), ("!uri", "x,y"), "text")],
    "border_spacing": [("!spacing", ("!unit", 1.5, "cm"), ("!unit", 0, "px")), ("!spacing", ("!unit", 2, "px"), ("!unit", 2, "px")), ("!spacing", ("!unit", 0, "em"), ("!unit", 0, "px"))],
    "z_index": [-5, 0, 10**20],
}
COLORS = [("!rgb", 0, 0, 0, 0.0), ("!rgb", 255, 254, 253, 0.25), ("!rgb", 1, 2, 3, 0.0), ("!hsl", 0, 0.0, 0.0, 0.0), ("!rgb", 0, 0, 0), ("!rgb", 255, 255, 255), ("!hsl", 359, 1.0, 1.0)]
LENGTHS = [("!unit", v, u) for v in (1e-7, 1e22, 123456.789, 1 / 3, 100, 3 + 2**-32, 3 - 2**-32, 0.1 + 0.2) for u in ("px", "%")] + [("!unit", 7 + 2**-36, "em"), 3 + 2**-32]


@functools.lru_cache(maxsize=None)
def pool(p, limit=40):
    """Literals of distinct values, the widest variety first."""
    kinds = rc.T[p][2]
    groups = [[v for v, _ in rc.accepted(p, 200)], MORE.get(p, []), COLORS if "color" in kinds else [], LENGTHS if "length" in kinds else [], rc.accepted_far(p)]
    groups = [list(g) for g in groups if g]
    out, seen = [], set()
    while any(groups) and len(out) < limit:
        for g in groups:
            if g:
                v = g.pop(0)
                c = rc.judge(p, v)
                if c not in (rc.UNKNOWN, rc.REJECT) and repr(c) not in seen and len(out) < limit:
                    seen.add(repr(c))
                    out.append(v)
    return out


@functools.lru_cache(maxsize=None)
def array(t=2, share=0.5):
    return Array([(p, pool(p)) for p in rc.LONGHANDS], t, share=share, q=67)


def row(i, t=2, share=0.5):
    """[(longhand, literal)], in an order that depends on i"""
    r = array(t, share).row(i)
    ps = sorted(r)
    k = i * 7 % len(ps) if ps else 0
    ps = ps[k:] + ps[:k]
    if i % 2:
        ps.reverse()
    return [(p, r[p]) for p in ps]


def cases(tier, quick=4489, thorough=4489 * 8, step=67):
    """Chunks of rows of the strength 2 array (all of it), and more of the strength 3 one."""
    for a in range(0, quick, step):
        yield ("rows", 2, a, a + step)
    if tier == "thorough":
        for a in range(0, thorough, step):
            yield ("rows", 3, a, a + step)


def objects(r, share):
    """The values of a row; with share, equal literals are one and the same object."""
    seen = {}
    for p, v in r:
        if share:
            k = repr(v)
            if k not in seen:
                seen[k] = real(v)
            yield p, v, seen[k]
        else:
            yield p, v, real(v)
