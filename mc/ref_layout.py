"""Reference layout of trees of in-flow boxes, written from CSS 2.1 sections 8-10.

Trees are specs (style, intrinsic, children) with literal values: numbers are
pixels, ('!unit', n, suffix) lengths, keywords text. Geometry is computed over
multiples of 1/64 px, which floats represent exactly.

Quirks are the known findings of the current code, each a separate flag, used only
to tell a listed deviation from a new one:
  K1  a relative box counts its own top padding and border (inline: and margin) twice
  K2  the vertical offset of a relative last child leaks into the auto height of its parent
  K5  auto width ignores min-width and max-width, and may be negative
  K7  an over-constrained box looks at its own direction, not its containing block's
"""
import functools
from fractions import Fraction

from . import ref_units as ru

BLOCKS = ("block", "list-item")


class Ctx:
    def __init__(self, width=1024, height=768, dpi=96, fixed=None):
        self.w, self.h, self.dpi = width, height, dpi
        self.fixed = fixed or {"thin": 1, "medium": 5, "thick": 10}


class OutOfDomain(Exception):
    pass


def snap(x):
    """Nearest 1/64 px; a value just between two may go either way."""
    n = round(x * 64)
    if abs(x * 64 - n) * 2 == 1:
        raise OutOfDomain("between two layout units")
    return n // 64 if n % 64 == 0 else n / 64


def px(v, ctx, size):
    if v is None or v == 0 and not isinstance(v, tuple):
        return 0
    if isinstance(v, (int, float)):
        return snap(Fraction(v))
    if isinstance(v, str):
        if v in ctx.fixed:
            return ctx.fixed[v]
        p = ru.parse(v)
        if p is None:
            raise OutOfDomain(v)
        v = ("!unit", p[0], p[1])
    _, n, suffix = v
    if suffix in ("em", "ex", "ch"):
        raise OutOfDomain("font units")
    if suffix == "%" and size is None:
        raise OutOfDomain("percentage of an unknown size")
    return _px(n, suffix, ctx.w, ctx.h, ctx.dpi, size or 0)


@functools.lru_cache(maxsize=200000)
def _px(n, suffix, w, h, dpi, size):
    return snap(ru.exact_px(n, suffix, w, h, dpi, size))


class B:
    """Resulting box."""

    __slots__ = ("x", "y", "w", "h", "m", "b", "p", "T", "Bm", "kids", "leak", "dx", "dy", "spec", "ax", "ay")

    def bbh(self):
        return self.b[0] + self.p[0] + self.h + self.p[2] + self.b[2]


def displayed(spec):
    return spec[0].get("display", "inline") not in ("none", None)


def edges(style, ctx, cbw):
    auto = [style.get(f"margin_{s}", 0) == "auto" for s in ("top", "right", "bottom", "left")]
    m = [0 if a else px(style.get(f"margin_{s}", 0), ctx, cbw)
         for a, s in zip(auto, ("top", "right", "bottom", "left"))]
    b = [px(style.get(f"border_{s}_width", 0), ctx, None) for s in ("top", "right", "bottom", "left")]
    p = [px(style.get(f"padding_{s}", 0), ctx, cbw) for s in ("top", "right", "bottom", "left")]
    return auto, m, b, p


def width_10_3_3(style, ctx, cbw, cbdir, auto, m, b, p, quirks):
    """Used (width, margin-left, margin-right) of an in-flow non-replaced block."""
    d = style.get("direction", "ltr") if "K7" in quirks or cbdir is None else cbdir
    inner = b[3] + p[3] + p[1] + b[1]
    maxw = style.get("max_width")
    maxw = None if maxw in (None, "none") else px(maxw, ctx, cbw)
    minw = style.get("min_width", "auto")
    minw = 0 if minw == "auto" else px(minw, ctx, cbw)

    def solve(w):
        la, ra = auto[3], auto[1]
        ml, mr = m[3], m[1]
        if w == "auto":
            return cbw - inner - ml - mr, ml, mr
        if inner + w + ml + mr > cbw:
            la = ra = False
        rest = cbw - inner - w
        if la and ra:
            half = rest // 2
            return w, half, half
        if la:
            return w, rest - mr, mr
        if ra:
            return w, ml, rest - ml
        if d == "ltr":
            return w, ml, rest - ml
        return w, rest - mr, mr

    w = style.get("width", "auto")
    if w == "auto":
        r = solve("auto")
        if "K5" in quirks:
            return r
        if maxw is not None and r[0] > maxw:
            r = solve(maxw)
        if r[0] < minw:
            r = solve(minw)
        if r[0] < 0:
            r = solve(0)
        return r
    w = px(w, ctx, cbw)
    if maxw is not None and w > maxw:
        w = maxw
    if w < minw:
        w = minw
    return solve(w)


def used_height(style, ctx, pheight, content):
    """Used content height; content is the auto height, pheight the parent's
    explicit height (None when it is auto)."""
    h = style.get("height", "auto")
    h = content if h == "auto" else px(h, ctx, pheight)
    mx = style.get("max_height")
    if mx not in (None, "none"):
        h = min(h, px(mx, ctx, None))
    mn = style.get("min_height", "auto")
    if mn != "auto":
        h = max(h, px(mn, ctx, None))
    return h


def block(spec, ctx, cbw, cbdir, pheight, quirks):
    """Lay out one block box and its subtree; y is relative and left 0 (border
    edge at 0) for the parent to place."""
    style, intrinsic, kids = spec
    if intrinsic.get("is_replaced") or style.get("display", "inline") not in BLOCKS:
        raise OutOfDomain("not a non-replaced block")
    r = B()
    r.spec = spec
    auto, r.m, r.b, r.p = edges(style, ctx, cbw)
    r.w, ml, mr = width_10_3_3(style, ctx, cbw, cbdir, auto, r.m, r.b, r.p, quirks)
    r.m[3], r.m[1] = ml, mr
    r.x = ml + r.b[3] + r.p[3]
    h = style.get("height", "auto")
    myheight = None
    if h != "auto":
        myheight = px(h, ctx, pheight)
    shown = [k for k in kids if displayed(k)]
    direction = style.get("direction", "ltr")
    kinds = {k[0].get("display", "inline") in BLOCKS for k in shown}
    if len(kinds) > 1:
        raise OutOfDomain("mixed children")
    r.kids = []
    content = 0
    r.T, r.Bm = r.m[0], r.m[2]
    if kinds == {False}:
        for k in shown:
            c = inline(k, ctx, r.w, quirks)
            offset(c, k, ctx, r.w, direction, quirks)
            r.kids.append(c)
        c = r.kids[-1]
        content = c.y + c.h + c.p[2] + c.b[2]
        if c.m[2] or len(r.kids) > 1:
            raise OutOfDomain("line boxes")
    else:
        y = 0
        prev = None
        for k in shown:
            c = block(k, ctx, r.w, direction, myheight, quirks)
            if prev is None:
                if r.b[0] or r.p[0]:
                    y += c.T
                else:
                    r.T = max(r.T, c.T)
            else:
                y += max(prev.Bm, c.T)
            c.y = y + c.b[0] + c.p[0]
            y += c.bbh()
            offset(c, k, ctx, r.w, direction, quirks)
            r.kids.append(c)
            prev = c
        if prev is not None:
            content = y + prev.leak
            if r.b[2] or r.p[2]:
                content += prev.Bm
            elif h == "auto":
                r.Bm = max(r.Bm, prev.Bm)
    r.h = used_height(style, ctx, pheight, content)
    r.y = 0
    return r


def inline(spec, ctx, cbw, quirks):
    style, intrinsic, kids = spec
    if intrinsic.get("is_replaced") or kids or style.get("display", "inline") != "inline":
        raise OutOfDomain("inline")
    if intrinsic.get("width") is None or intrinsic.get("height") is None:
        raise OutOfDomain("no intrinsic size")
    r = B()
    r.spec = spec
    _, r.m, r.b, r.p = edges(style, ctx, cbw)
    r.w, r.h = intrinsic["width"], intrinsic["height"]
    r.x = r.m[3] + r.b[3] + r.p[3]
    r.y = r.m[0] + r.b[0] + r.p[0]
    r.kids = []
    r.T = r.Bm = 0
    return r


def offset(r, spec, ctx, cbw, cbdir, quirks):
    """9.4.3: relative positioning of an already placed box."""
    style = spec[0]
    r.leak = 0
    if style.get("position", "static") != "relative":
        return
    left, right = style.get("left", "auto"), style.get("right", "auto")
    top, bottom = style.get("top", "auto"), style.get("bottom", "auto")
    dx = dy = 0
    if left != "auto" and (right == "auto" or cbdir == "ltr"):
        dx = px(left, ctx, cbw)
    elif right != "auto":
        dx = -px(right, ctx, cbw)
    if top != "auto":
        dy = px(top, ctx, None)
    elif bottom != "auto":
        dy = -px(bottom, ctx, None)
    r.x += dx
    r.y += dy
    if "K1" in quirks:
        e = r.b[0] + r.p[0]
        if style.get("display", "inline") not in BLOCKS:
            e += r.m[0]
        r.y += e
        r.leak += e
    if "K2" in quirks:
        r.leak += dy


def root(spec, ctx, standard="html5", quirks=frozenset()):
    """Geometry of the whole tree: nested tuples like geom_of()."""
    r = block(spec, ctx, ctx.w, None, ctx.h, quirks)
    r.y = r.T + r.b[0] + r.p[0]
    offset(r, spec, ctx, ctx.w, spec[0].get("direction", "ltr"), quirks)
    if standard == "html5":
        r.h = ctx.h - r.T - r.Bm
    return out(r, 0, 0)


def out(r, ox, oy):
    g = (r.x, r.y, r.w, r.h, ox + r.x, oy + r.y, tuple(r.m), tuple(r.b), tuple(r.p))
    kids, i = [], 0
    for k in r.spec[2]:
        if displayed(k):
            kids.append(out(r.kids[i], ox + r.x, oy + r.y))
            i += 1
        else:
            kids.append(None)
    return (g, tuple(kids))


def geom_of(node):
    """The same view of the real boxes."""
    b = node.layout
    if b is None:
        return None
    g = (b.content_left, b.content_top, b.content_width, b.content_height,
         b.absolute_content_left, b.absolute_content_top,
         (b.margin_top, b.margin_right, b.margin_bottom, b.margin_left),
         (b.border_top_width, b.border_right_width, b.border_bottom_width, b.border_left_width),
         (b.padding_top, b.padding_right, b.padding_bottom, b.padding_left))
    return (g, tuple(geom_of(c) for c in node.children))


NAMES = ("content_left", "content_top", "content_width", "content_height", "absolute_content_left",
         "absolute_content_top", "margins", "borders", "paddings")


def diff(got, want, path=()):
    """First difference as text, or None."""
    if got is None or want is None:
        return None if got is want else f"node {path}: box {'missing' if got is None else 'present'}"
    for n, g, w in zip(NAMES, got[0], want[0]):
        if g != w:
            show = [float(x) for x in w] if isinstance(w, tuple) else float(w)
            return f"node {path}: {n} is {g!r}, expected {show!r}"
    for i, (a, b) in enumerate(zip(got[1], want[1])):
        d = diff(a, b, path + (i,))
        if d:
            return d
    return None


def subsets(keys):
    keys = sorted(keys)
    for mask in range(1, 1 << len(keys)):
        yield frozenset(k for i, k in enumerate(keys) if mask >> i & 1)


def judge(got, spec, ctx, standard, rec, quirks=()):
    """Compare real geometry with the reference; report known findings exactly."""
    want = root(spec, ctx, standard)
    if got == want:
        return
    d = diff(got, want)
    if d is None:
        return
    for q in sorted(subsets(quirks), key=len):
        if got == root(spec, ctx, standard, q):
            for k in q:
                rec.known(k, d)
            return
    rec.fail(f"{d} ({standard}, display {ctx.w}x{ctx.h}@{ctx.dpi})")
