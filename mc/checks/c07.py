"""C07: unit resolution, scaling, negation, equality, angles."""
import math
from fractions import Fraction as F
from itertools import product

from .. import ref_units as ru
from ..world import Display, UNIT_NAMES, canon, real_units

ID = "C07"
RULE = ("len: every length unit x every magnitude of the grid x every display, resolution, reference size and font of "
        "the context grid, lu() and px() against exact rational arithmetic; chain: every chain of scalings and negations "
        "up to the depth bound; eq: every pair of a pool of lengths and angles; angle: every angle unit x magnitude")
BOUNDS = dict(quick="magnitudes: -40..130 and 1/64, 1/7, 1/10 fractions; 11 displays (some with a side of 0) x 6 resolutions x 11 sizes x 5 fonts; chains <= 3",
              thorough="magnitudes -300..2100 and three finer fraction grids; chains <= 4")

DISPLAYS = [(1024, 768), (768, 1024), (500, 500), (333, 77), (1, 1999), (100.5, 50.25), (20000, 30000.75), (0, 500), (640, 0), (0, 0), (0.015625, 3)]
DPIS = [72, 96, 300, 96.5, 1, 163]
SIZES = [0, 1, 7, 100, 333, 1024, 0.5, 12.25, 99999.5, 1 / 3, 640]
FONTS = [dict(em=12, ex=6, ch=7), dict(em=10.5, ex=4.25, ch=9), dict(em=1, ex=30, ch=0.5), dict(em=12.345, ex=6.125, ch=7.0078125), dict(em=0, ex=100.001, ch=1e-3)]
EQS = (0, 1, 2, 2.5, -1, 2.5000001, 1e-9, 1000000, 1000000.5, 72, 6, 12, 10, 96, 100)
FACTORS = [0, 1, 2, -3, 0.5, -0.25, 10]


class Font:
    def __init__(self, d):
        self.em, self.ex, self.ch = d["em"], d["ex"], d["ch"]


def magnitudes(tier):
    out = list(range(-40, 131)) if tier == "quick" else list(range(-300, 2101))
    step = 3 if tier == "quick" else 1
    out += [k / 64 for k in range(-70, 140, step)]
    out += [k / 7 for k in range(-20, 60, step)]
    out += [k / 10 for k in range(-55, 260, step)]
    out += [0.01, 0.005, 0.0078, 33.333, 66.6667, 99.999, 1e-9, 12345.678, 1e6, 32768.25, 40000.5, 65536.015625, 1e7 + 0.25, 2**31 + 0.5, -40000.5, 999.9999, 1234.0078125]
    return out


def cases(tier):
    for s in ru.LENGTH_SUFFIXES:
        for n in magnitudes(tier):
            yield ("len", s, n)
    for a in ("deg", "grad", "rad", "turn"):
        for n in magnitudes(tier):
            yield ("angle", a, n)
    ops = [("mul", f) for f in FACTORS] + [("neg",)]
    for s in UNIT_NAMES:
        for d in range(1, 4 if tier == "quick" else 5):
            for c in product(range(len(ops)), repeat=d):
                yield ("chain", s, tuple(ops[i] for i in c))
    for s in UNIT_NAMES:
        for n in EQS:
            yield ("eq", s, n)
    for s in UNIT_NAMES:
        for bad in ("x", None, (1,), "2"):
            yield ("badmul", s, bad)


def check(case, rec):
    kind = case[0]
    base = getattr(real_units, UNIT_NAMES[case[1]])
    if kind == "len":
        _, s, n = case
        u = n * base
        if canon(u) != ("unit", n + 0.0, s):
            rec.fail(f"{n} * {s} is {canon(u)!r}")
        seen = set()
        for (w, h), dpi, size, fi in product(DISPLAYS, DPIS, SIZES, range(len(FONTS))):
            # contexts the unit does not depend on are varied together
            if s == "px" and (fi, dpi) != (0, 96):
                continue
            if s in ru.INCHES and (size != 7 or fi):
                continue
            if s == "%" and (dpi != 96 or fi):
                continue
            if s in ("em", "ex", "ch") and (size != 7 or w != 1024):
                continue
            if s.startswith("v") and (size != 7 or fi or dpi == 72):
                continue
            ctx = dict(display=Display(w, h, dpi), font=Font(FONTS[fi]), size=size)
            lu, px = u.lu(**ctx), u.px(**ctx)
            rec.op(2)
            x = 64 * ru.exact_px(n, s, w, h, dpi, size, FONTS[fi])
            tol = F(1, 2) + abs(x) * (F(1, 100000) if s in ("cm", "mm") else F(1, 10**12)) + F(1, 10**9)
            where = f"{n}{s} on {w}x{h} at {dpi} dpi, size {size}, font {FONTS[fi]}"
            if lu != int(lu) or abs(F(lu) - x) > tol:
                rec.fail(f"{where}: {lu!r} layout units, exact {float(x)}")
            whole = F(lu) / 64
            if F(px) != whole or isinstance(px, int) != (whole.denominator == 1) or isinstance(px, bool):
                rec.fail(f"{where}: {px!r} px for {lu} layout units")
            seen.add(lu)
        rec.state((s, n, sorted(seen)))
        if canon(u) != ("unit", n + 0.0, s) or canon(base) != ("unit", 1.0, s):
            rec.fail(f"resolving {n}{s} altered it or its unit")
    elif kind == "angle":
        _, s, n = case
        u = n * base
        d = u.deg()
        rec.op()
        want = {"deg": F(n), "grad": F(n) * F(9, 10), "turn": F(n) * 360}.get(s)
        x = float(want) if want is not None else n * 180 / math.pi
        if not math.isclose(d, x, rel_tol=1e-12, abs_tol=1e-12):
            rec.fail(f"{n}{s} is {d} degrees, expected {x}")
        if isinstance(d, int) != (d == int(d)):
            rec.fail(f"{n}{s} is {d!r} degrees: int exactly when whole")
        rec.state((s, d))
    elif kind == "chain":
        _, s, ops = case
        u, v = base, 1.0
        trail = [u]
        vals = [v]
        for op in ops:
            u = op[1] * u if op[0] == "mul" else -u
            v = v * op[1] if op[0] == "mul" else -v
            trail.append(u)
            vals.append(v)
            rec.op()
        for o, want in zip(trail, vals):
            c = canon(o)
            if c[:1] + c[2:] != ("unit", s) or not math.isclose(c[1], want, rel_tol=1e-12):
                rec.fail(f"{case!r}: chain gives {[canon(t) for t in trail]}, expected values {vals}")
            if type(o) is not type(base):
                rec.fail(f"{case!r}: {o!r} is a {type(o).__name__}, {base!r} a {type(base).__name__}")
        text = str(u)
        num = text[: -len(s)] if s else text
        if not text.endswith(s) or float(num) != v or (v == int(v) and abs(v) < 1e15 and "." in num):
            rec.fail(f"{case!r}: rendered as {text!r}")
        rec.state((s, v))
    elif kind == "eq":
        _, s, n = case
        a = n * base
        for t, name in UNIT_NAMES.items():
            for m in EQS:
                b = m * getattr(real_units, name)
                same = s == t and m == n
                rec.op(2)
                if (a == b) is not same or (a != b) is same:
                    rec.fail(f"{n}{s} == {m}{t} is {a == b!r}, != is {a != b!r}")
        for other in ("1px", None, "x", [], 7.5):
            if a == other:
                rec.fail(f"{n}{s} equals {other!r}")
        rec.state((s, n))
    else:
        _, s, bad = case
        try:
            r = bad * base
            res = repr(r)
        except TypeError:
            res = None
        rec.op()
        if res is not None:
            rec.fail(f"{bad!r} * {s} gives {res} instead of TypeError")
        rec.state((s, bad))
