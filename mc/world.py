"""The user's side of the API: displays, nodes and observations of the real code.
Only documented names of the library are used."""
from colosseum import CSS
from colosseum import colors as real_colors
from colosseum import parser as real_parser
from colosseum import units as real_units
from colosseum.dimensions import Box, Size
from colosseum.engine import layout as real_layout
from colosseum.shapes import Rect
from colosseum.wrappers import BorderSpacing, Cursor, Quotes, Uri

FIXED = {"thin": 1, "medium": 5, "thick": 10}


class Display:
    def __init__(self, width=1024, height=768, dpi=96, fixed=FIXED):
        self.content_width = width
        self.content_height = height
        self.dpi = dpi
        self.fixed = fixed

    def fixed_size(self, value):
        return self.fixed[value]


class Node:
    def __init__(self, style=None, intrinsic=None, children=()):
        self.parent = None
        self.children = []
        self.intrinsic = Size(self)
        self.layout = Box(self)
        for k, v in (intrinsic or {}).items():
            setattr(self.intrinsic, k, v)
        css = style if isinstance(style, CSS) else CSS()
        if not isinstance(style, CSS):
            for k, v in (style or {}).items():
                setattr(css, k, real(v))
        self.style = css.copy(self)
        for c in children:
            self.children.append(c)
            c.parent = self


def build_explicit(spec, names, turn=0):
    """Like build, but every longhand of names was set to something else before and
    has its final value by assignment, even when that is the initial one; the order
    of assignment depends on turn."""
    from . import ref_css as rc

    style, intrinsic, kids = spec
    node = Node({}, intrinsic, [build_explicit(k, names, turn + 1) for k in kids])
    todo = dict(style)
    for n in names:
        init = rc.T[n][0]
        if n in todo or n in ("color", "background_color") or isinstance(init, tuple) and init[0] == "derived":
            continue
        if isinstance(init, tuple):
            init = {"unit": 0, "int": 2, "spacing": 0, "cursor": "auto"}[init[0]]
        todo[n] = "none" if init is None else init
    order = sorted(todo)
    k = turn * 5 % len(order) if order else 0
    order = order[k:] + order[:k]
    if turn % 2:
        order.reverse()
    for n in order:
        for other, canonical in rc.accepted(n, 4)[::-1]:
            if canonical != rc.T[n][0]:
                setattr(node.style, n, real(other))
        setattr(node.style, n, real(todo[n]))
    return node


UNIT_NAMES = {
    "px": "px", "em": "em", "ex": "ex", "ch": "ch", "pt": "pt", "pc": "pc", "in": "inch",
    "cm": "cm", "mm": "mm", "vh": "vh", "vw": "vw", "vmin": "vmin", "vmax": "vmax", "%": "percent",
    "deg": "deg", "rad": "rad", "grad": "grad", "turn": "turn",
}


class Unprintable:
    """A value of no type the library knows."""

    def __repr__(self):
        return "<object>"


def real(v):
    """Turn a literal description into the real Python value.

    ('!unit', n, suffix)   n * unit object      ('!rgb', r, g, b[, a])   rgb object
    ('!hsl', h, s, l[, a]) hsl object           ('!obj',)  an arbitrary object
    ('!rect', ...) ('!quotes', ...) ('!uri', s) ('!cursor', ...) ('!spacing', ...)
    ('!float', 'nan')      a float literal_eval cannot spell
    """
    if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith("!"):
        tag, a = v[0], v[1:]
        if tag == "!unit":
            return a[0] * getattr(real_units, UNIT_NAMES[a[1]])
        if tag == "!rgb":
            return real_colors.rgb(*a)
        if tag == "!hsl":
            return real_colors.hsl(*a)
        if tag == "!obj":
            return Unprintable()
        if tag == "!float":
            return float(a[0])
        if tag == "!rect":
            return Rect(*[real(x) for x in a])
        if tag == "!quotes":
            return Quotes([tuple(x) for x in a])
        if tag == "!uri":
            return Uri(a[0])
        if tag == "!cursor":
            return Cursor([real(x) for x in a])
        if tag == "!spacing":
            return BorderSpacing(*[real(x) for x in a])
        raise ValueError(v)
    if isinstance(v, tuple):
        return tuple(real(x) for x in v)
    if isinstance(v, list):
        return [real(x) for x in v]
    if type(v) is str:
        # a string of its own, as a user's code computes it (never the library's constant)
        return (v + " ")[:-1]
    return v


def canon(v):
    """Canonical description of a value the library handed out (public view only)."""
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, int):
        return ("int", v)
    if isinstance(v, float):
        return ("float", v)
    if isinstance(v, real_units.BaseUnit):
        return ("unit", v.val + 0.0, v.suffix)
    if isinstance(v, real_colors.rgb):
        return ("rgb", v.r, v.g, v.b, round(v.a + 0.0, 9))
    if isinstance(v, real_colors.hsl):
        return ("hsl", v.h, round(v.s, 9), round(v.l, 9), round(v.a + 0.0, 9))
    if isinstance(v, Rect):
        return ("rect", canon(v.top), canon(v.right), canon(v.bottom), canon(v.left))
    if isinstance(v, Quotes):
        return ("quotes",) + tuple((v.opening(i), v.closing(i)) for i in range(len(v)))
    if isinstance(v, Uri):
        return ("uri", v.url)
    if isinstance(v, Cursor):
        return ("cursor",) + tuple(canon(x) for x in v)
    if isinstance(v, BorderSpacing):
        return ("spacing", canon(v.horizontal), canon(v.vertical))
    if isinstance(v, (tuple, list)):
        return tuple(canon(x) for x in v)
    if type(v) is object:
        return "<default>"
    return ("?", type(v).__name__)


def call(fn, *a, **k):
    """('ok', value) or ('err', exception type name, is ValueError)"""
    try:
        return ("ok", fn(*a, **k))
    except Exception as e:
        return ("err", type(e).__name__, isinstance(e, ValueError))


# ---------------------------------------------------------------- geometry
def box_geom(b):
    """The observable geometry of one box."""
    return (
        b.content_width, b.content_height, b.content_left, b.content_top,
        b.absolute_content_left, b.absolute_content_top,
        b.absolute_content_right, b.absolute_content_bottom,
        b.padding_box_width, b.padding_box_height,
        b.absolute_padding_box_left, b.absolute_padding_box_top,
        b.border_box_width, b.border_box_height,
        b.absolute_border_box_left, b.absolute_border_box_top,
        b.margin_top, b.margin_right, b.margin_bottom, b.margin_left,
    )


def tree_geom(node, geom=box_geom):
    """Nested tuple of geometries; hidden nodes give None and hide their children."""
    if node.layout is None:
        return None
    return (geom(node.layout), tuple(tree_geom(c, geom) for c in node.children))


def build(spec):
    """spec = (style dict, intrinsic dict, [child specs])"""
    style, intrinsic, kids = spec
    return Node(style, intrinsic, [build(k) for k in kids])


def walk(node):
    yield node
    for c in node.children:
        yield from walk(c)


def at(node, path):
    for i in path:
        node = node.children[i]
    return node
