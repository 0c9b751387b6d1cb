"""C10: hsl to rgb."""
from fractions import Fraction as F

from ..world import call, canon, real_colors, real_parser

ID = "C10"
RULE = ("every hue of the grid (integers, fractions, negative and beyond full turns) x every saturation x every lightness "
        "x alpha; expected components by exact rational arithmetic of the CSS definition (piecewise hue function), each "
        "within half a unit; text: the same through hsl()/hsla() text; twice: conversions repeated, sources unchanged; fine: "
        "components of many decimals and far hues; reuse: one colour whose components are reassigned between conversions")
BOUNDS = dict(quick="hues -400..800 in steps of 1 x 13 x 13, 48 hues x 101 x 101, 60 fractional hues x 21 x 21",
              thorough="hues -720..1080 in steps of 1 x 51 x 51 plus all 360 hues x 101 x 101; fractional hues in steps of 1/4")

COARSE = [0, 1, 10, 25, 33, 49, 50, 51, 66, 75, 90, 99, 100]


def cases(tier):
    for a in (0, 0.25, 0.5, 1, 1.0):
        yield ("alpha", a)
    for r in (0, 1, 127, 128, 254, 255):
        yield ("rgb", r)
    if tier == "quick":
        for h in range(-400, 801):
            yield ("grid", h, 1, "coarse")
        for h in list(range(0, 360, 15)) + list(range(7, 360, 15)):
            yield ("grid", h, 1, "full")
        for k in range(-30, 1500, 25):
            yield ("grid", k, 4, "mid")
    else:
        for h in range(-720, 1081):
            yield ("grid", h, 1, "even")
        for h in range(0, 360):
            yield ("grid", h, 1, "full")
        for k in range(-400, 1900):
            yield ("grid", k, 4, "mid")
    for h in range(-360, 721, 5):
        yield ("text", h)
    for h in FINE_H:
        yield ("fine", h)
    for h in (0, 30, 200.5, 359, -10):
        yield ("reuse", h)


FINE_H = [0, 0.001, 1e-9, 29.999, 59.9999, 60.0001, 119.5, 179.999, 240.0001, 299.999, 300.001, 359.999, 359.9999999, 1000000, -1e-3, -0.25, 12345.678, 720.5, 33.3]
FINE = [0, 1e-6, 0.001, 0.004, 0.0123456, 0.123456, 0.33333, 0.4999, 0.5, 0.50001, 0.6543217, 0.987654, 0.999, 0.99999, 1]


def spec(h, s, l):
    """CSS colour module 3: HSL to RGB, exact."""
    h = h % 360 / 360
    m2 = l * (s + 1) if l <= F(1, 2) else l + s - l * s
    m1 = l * 2 - m2

    def hue(x):
        x = x % 1
        if x * 6 < 1:
            return m1 + (m2 - m1) * x * 6
        if x * 2 < 1:
            return m2
        if x * 3 < 2:
            return m1 + (m2 - m1) * (F(2, 3) - x) * 6
        return m1

    return [255 * hue(h + F(1, 3)), 255 * hue(h), 255 * hue(h - F(1, 3))]


TOL = F(1, 2) + F(1, 10**9)


def compare(got, want, where, rec):
    for g, w, n in zip(got, want, "rgb"):
        if not isinstance(g, int) or isinstance(g, bool) or abs(g - w) > TOL or not 0 <= g <= 255:
            rec.fail(f"{where}: {n} is {g!r}, exact value {float(w)} (rgb {got})")


def check(case, rec):
    kind = case[0]
    if kind == "alpha":
        a = case[1]
        for h in range(0, 360, 20):
            for s in (0, 0.5, 1):
                for l in (0, 0.25, 0.5, 1):
                    c = real_colors.hsl(h, s, l, a)
                    r = c.rgb
                    rec.op()
                    if not isinstance(r, real_colors.rgb) or r.a != a:
                        rec.fail(f"hsl({h},{s},{l},{a}).rgb has alpha {r.a!r}")
                    if (c.h, c.s, c.l, c.a) != (h, s, l, a):
                        rec.fail(f"hsl({h},{s},{l},{a}) changed by conversion")
                    if canon(c.rgb) != canon(r) or canon(c.rgb.rgb) != canon(r):
                        rec.fail(f"hsl({h},{s},{l},{a}).rgb differs the second time")
                    rec.state(canon(r))
    elif kind == "rgb":
        for g in (0, 100, 255):
            for b in (0, 77, 255):
                for a in (0, 0.5, 1.0):
                    c = real_colors.rgb(case[1], g, b, a)
                    rec.op()
                    if canon(c.rgb) != ("rgb", case[1], g, b, a) or canon(c) != ("rgb", case[1], g, b, a):
                        rec.fail(f"rgb view of {canon(c)!r} is {canon(c.rgb)!r}")
                    rec.state(canon(c))
    elif kind == "grid":
        _, k, den, res = case
        h = k if den == 1 else k / den
        hx = F(k, den)
        pts = {"coarse": COARSE, "full": range(101), "mid": range(0, 101, 5), "even": range(0, 101, 2)}[res]
        seen = set()
        for s in pts:
            for l in pts:
                r = real_colors.hsl(h, s / 100.0, l / 100.0).rgb
                rec.ops += 1
                got = (r.r, r.g, r.b)
                compare(got, spec(hx, F(s, 100), F(l, 100)), f"hsl({h},{s}%,{l}%)", rec)
                if r.a != 1:
                    rec.fail(f"hsl({h},{s}%,{l}%).rgb has alpha {r.a!r}")
                seen.add(got)
        for g in seen:
            rec.state(g)
    elif kind == "fine":
        h = case[1]
        for s in FINE:
            for l in FINE:
                for a in (0, 0.125, 1.0):
                    c = real_colors.hsl(h, s, l, a)
                    r = c.rgb
                    rec.ops += 1
                    compare((r.r, r.g, r.b), spec(F(h), F(s), F(l)), f"hsl({h},{s},{l})", rec)
                    if r.a != a or (c.h, c.s, c.l, c.a) != (h, s, l, a):
                        rec.fail(f"hsl({h},{s},{l},{a}).rgb is {canon(r)!r} and leaves {canon(c)!r}")
                rec.state(canon(r))
    elif kind == "reuse":
        # one colour object whose components change between conversions
        h = case[1]
        c = real_colors.hsl(h, 0.5, 0.5)
        for attr, v in [(x, y) for x in "hsla" for y in (0, 0.25, 1, 0.75)] * 2:
            setattr(c, attr, v)
            r = c.rgb
            rec.ops += 1
            compare((r.r, r.g, r.b), spec(F(c.h), F(c.s), F(c.l)), f"{canon(c)!r} after setting {attr}", rec)
            if r.a != c.a:
                rec.fail(f"{canon(c)!r}: rgb has alpha {r.a!r}")
        rec.state(canon(c.rgb))
    else:
        h = case[1]
        for s in range(0, 101, 10):
            for l in range(0, 101, 10):
                for text, a in ((f"hsl({h}, {s}%, {l}%)", 1.0), (f"hsla({h},{s}%,{l}%,0.5)", 0.5)):
                    r = real_parser.color(text).rgb
                    rec.ops += 1
                    compare((r.r, r.g, r.b), spec(F(h), F(s, 100), F(l, 100)), text, rec)
                    if r.a != a:
                        rec.fail(f"{text} has alpha {r.a!r}")
        rec.state(("text", h))
