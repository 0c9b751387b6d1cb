"""Reference table of the CSS properties: initial value and value set, written from
CSS 2.1 and the library's documented choices, plus the value alphabet."""
import functools

from . import ref_color, ref_units

NONE = None
STYLES = ["none", "hidden", "dotted", "dashed", "solid", "double", "groove", "ridge", "inset", "outset"]
WIDTHS = ["thin", "medium", "thick"]
CURSORS = ("auto crosshair default pointer move e-resize ne-resize nw-resize n-resize se-resize sw-resize "
           "s-resize w-resize text wait progress help").split()
DISPLAYS = ("none inline block list-item inline-block table inline-table table-row-group table-header-group "
            "table-footer-group table-row table-column-group table-column table-cell table-caption flex "
            "inline-flex grid inline-grid").split()
SIDES = ["top", "right", "bottom", "left"]

# name -> (initial canonical value, keyword list, value kinds)
T = {}


def _p(name, initial, keywords="", kinds=""):
    kw = keywords.split() if isinstance(keywords, str) else list(keywords)
    T[name] = (initial, frozenset(kw), frozenset(kinds.split()))


PX0 = ("unit", 0.0, "px")
for s in SIDES:
    _p(f"margin_{s}", PX0, "auto", "length percent signed")
    _p(f"padding_{s}", PX0, "", "length percent")
    _p(f"border_{s}_width", PX0, WIDTHS, "length")
    _p(f"border_{s}_style", NONE, STYLES)
    _p(f"border_{s}_color", ("derived", "color"), "transparent initial inherit unset revert", "color")
    _p(s, "auto", "auto inherit", "length percent signed")
_p("display", "inline", DISPLAYS)
_p("position", "static", "static relative absolute fixed")
_p("float", NONE, "left right none")
_p("clear", NONE, "none left right both")
_p("z_index", "auto", "auto", "integer")
_p("direction", "ltr", "rtl ltr")
_p("unicode_bidi", "normal", "normal embed bidi-override")
for s in ("width", "height"):
    _p(s, "auto", "auto", "length percent")
    _p(f"min_{s}", "auto", "auto", "length percent")
    _p(f"max_{s}", NONE, "none", "length percent")
_p("overflow", "visible", "visible hidden scroll auto inherit")
_p("clip", "auto", "auto inherit", "rect")
_p("visibility", "visible", "visible hidden collapse")
_p("quotes", "initial", "none initial inherit", "quotes")
_p("page_break_before", "auto", "auto always avoid left right inherit")
_p("page_break_after", "auto", "auto always avoid left right inherit")
_p("page_break_inside", "auto", "auto avoid inherit")
_p("orphans", ("int", 2), "inherit", "integer")
_p("widows", ("int", 2), "inherit", "integer")
_p("color", "<default>", "", "color")
_p("background_color", "<default>", "transparent", "color")
_p("text_indent", PX0, "inherit", "length percent signed")
_p("text_align", ("derived", "text_align"), "left right center justify inherit")
_p("text_decoration", NONE, "none underline overline line-through blink inherit")
_p("letter_spacing", "normal", "normal inherit", "length signed")
_p("word_spacing", "normal", "normal inherit", "length signed")
_p("text_transform", NONE, "capitalize uppercase lowercase none inherit")
_p("white_space", "normal", "normal pre nowrap pre-wrap pre-line inherit")
_p("caption_side", "top", "top bottom inherit")
_p("table_layout", "auto", "auto fixed inherit")
_p("border_collapse", "separate", "collapse separate inherit")
_p("border_spacing", ("spacing", PX0, PX0), "inherit", "spacing")
_p("empty_cells", "show", "show hide inherit")
_p("cursor", ("cursor", "auto"), "inherit", "cursor")
_p("outline_width", "medium", WIDTHS + ["inherit"], "length")
_p("outline_style", NONE, STYLES + ["inherit"])
_p("outline_color", "invert", "invert inherit", "color")

LONGHANDS = sorted(T)
DIRECTIONAL = {
    "margin": [f"margin_{s}" for s in SIDES],
    "padding": [f"padding_{s}" for s in SIDES],
    "border_width": [f"border_{s}_width" for s in SIDES],
    "border_style": [f"border_{s}_style" for s in SIDES],
    "border_color": [f"border_{s}_color" for s in SIDES],
}
UNKNOWN = "?"      # outside the stated domain: no verdict
REJECT = ("reject",)

ALL_KEYWORDS = sorted(set().union(*(k for _, k, _ in T.values())) | set(CURSORS))


def judge(name, v):
    """Canonical value that assigning the literal v to the longhand must store,
    REJECT, or UNKNOWN."""
    initial, keywords, kinds = T[name]
    if isinstance(v, bool) or isinstance(v, bytes):
        return UNKNOWN
    if v is None:
        return None if "none" in keywords else REJECT
    if isinstance(v, str):
        if v in keywords:
            return None if v == "none" else v
        if v != v.strip() and (v.strip() not in keywords or "cursor" in kinds):
            return UNKNOWN
    res = REJECT
    for kind in sorted(kinds):
        r = _KINDS[kind](v) if kind in _KINDS else REJECT
        if r is UNKNOWN:
            return UNKNOWN
        if r != REJECT:
            res = r
    if "length" in kinds and res != REJECT and res[0] == "unit":
        n, suffix = res[1], res[2]
        if suffix == "%" and "percent" not in kinds:
            return UNKNOWN
        if n < 0 and "signed" not in kinds:
            return UNKNOWN
    return res


def _length(v):
    if isinstance(v, (int, float)):
        if v != v or v in (float("inf"), float("-inf")):
            return REJECT
        return ("unit", v + 0.0, "px")
    if isinstance(v, str):
        if "_" in v or any(c.isdigit() and not c.isascii() for c in v) or any(c.isspace() for c in v):
            return UNKNOWN
        p = ref_units.parse(v)
        return ("unit", p[0], p[1]) if p else REJECT
    if _tag(v) == "!float":
        return REJECT
    if _tag(v) == "!unit":
        if v[2] in ref_units.LENGTH_SUFFIXES:
            return ("unit", v[1] + 0.0, v[2])
        return REJECT
    return REJECT


def _tag(v):
    return v[0] if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith("!") else None


def _integer(v):
    if isinstance(v, int):
        return ("int", v)
    if _tag(v) == "!float":
        return REJECT
    if isinstance(v, float):
        return ("int", int(v)) if v == int(v) else REJECT
    if isinstance(v, str):
        t = v[1:] if v[:1] in "+-" and v else v
        if t and t.isascii() and t.isdigit():
            return ("int", int(v))
        return REJECT
    return REJECT


def _color(v):
    t = _tag(v)
    if t == "!rgb":
        return ("rgb", v[1], v[2], v[3], (v[4] if len(v) > 4 else 1) + 0.0)
    if t == "!hsl":
        return ("hsl", v[1], v[2], v[3], (v[4] if len(v) > 4 else 1) + 0.0)
    if isinstance(v, str):
        r = ref_color.parse(v)
        if r == "?":
            return UNKNOWN
        return REJECT if r is None else tuple(round(x, 9) if isinstance(x, float) else x for x in r)
    return REJECT


def _rect(v):
    if _tag(v) == "!rect":
        ls = [_length(x) for x in v[1:]]
        # Rect(top, right, left, bottom)
        return ("rect", ls[0], ls[1], ls[3], ls[2])
    return REJECT if not (isinstance(v, str) and v.startswith("rect(")) else UNKNOWN


def _quotes(v):
    if _tag(v) == "!quotes":
        return ("quotes",) + tuple(tuple(x) for x in v[1:])
    if isinstance(v, (str, list, tuple)):
        if isinstance(v, str) and not any(c in v for c in "'\""):
            return REJECT
        return UNKNOWN
    return REJECT


def _cursor(v):
    if _tag(v) == "!cursor":
        return ("cursor",) + tuple(("uri", x[1]) if _tag(x) == "!uri" else x for x in v[1:])
    if isinstance(v, str):
        if v in CURSORS:
            return ("cursor", v)
        return UNKNOWN if "url(" in v or "," in v else REJECT
    return UNKNOWN if isinstance(v, (list, tuple)) and not _tag(v) else REJECT


def _spacing(v):
    if _tag(v) == "!spacing":
        ls = [_length(x) for x in v[1:]]
        return ("spacing", ls[0], ls[-1])
    r = _length(v) if not isinstance(v, (list, tuple)) or _tag(v) else UNKNOWN
    if r in (UNKNOWN, REJECT):
        return UNKNOWN if isinstance(v, str) and " " in v else r
    if r[1] < 0 or r[2] == "%":
        return UNKNOWN
    return ("spacing", r, r)


_KINDS = dict(length=_length, integer=_integer, color=_color, rect=_rect, quotes=_quotes,
              cursor=_cursor, spacing=_spacing)

# ------------------------------------------------------------ value alphabet
NUMBERS = [0, 1, 10, -1, 2.5, -3, -0.5, 0.0, 2]
NUM_TEXT = ["0", "1", "10", "2.5", "-3", "+4", ".5", "1e1", "1.", "-0"]
# far ends and fine grains
FAR = [1e-7, 0.0005, 0.999, 40000.5, 1234567.875, 2**31, -100000, 255, 256, 99999999999999, 9.995, 100, 101, 1000, 64, 300, 150, 3, 4, 5, 6, 7, 8, 9, 12, 16]
FAR_TEXT = ["0.0000001", "0.0005", "40000.5", "1234567.875", "99999999999999", "0.1234567890123", "-100000", "1e-7", "+0", "00012", "9.995", "2147483648",
            "3", "12", "64", "100", "1000"]
LENGTH_TEXT = [n + s for s in ref_units.LENGTH_SUFFIXES for n in ("1", "-2", "0.5", "12")]
UNIT_OBJS = [("!unit", n, s) for s in ref_units.LENGTH_SUFFIXES for n in (1, 2.5, -4)]
BAD_TEXT = ["", " ", "px", "%", "10p", "10xp", "1.2.3px", "--1px", "+-1", "1px2px", "px1", "10deg", "2rad", "1turn",
            "100grad", "inf", "nan", "-inf", "infpx", "nanpx", "infin", "1e999", "1e999px", "infinity", "10rem",
            "10q", "0x10", "0x10px", "foo", "none none", "no", "non", "autoo", "aut", "e", "e1", "1e", "1epx", ".", "-", "+",
            "-px", ".px", "block ", "normal;", "un-set", "inherited", "list_item", "inline_block"]
WRONG = [("!obj",), [], {}, (), set() and None, ("!float", "nan"), ("!float", "inf"), ("!float", "-inf"), None]
COLOR_TEXT = ["red", "RED", "Red", "rebeccapurple", "transparentt", "#fff", "#12ab", "#123456", "#12345678", "#12", "#12345", "#ggg",
              "#-1-1-1", "rgb(1,2,3)", "rgb(1, 2, 3)", "rgba(1,2,3,0.5)", "hsl(10,20%,30%)", "hsla(10,20%,30%,0.4)",
              "rgb(1,2)", "rgb(1,2,3", "rgbx1,2,3)", "rgb(a,b,c)", "rgba(1,2,3)", "hsl(1,2%)", "reddish", "#", "rgb", "rgb()"]
COLOR_OBJS = [("!rgb", 1, 2, 3), ("!rgb", 9, 8, 7, 0.5), ("!hsl", 10, 0.2, 0.3), ("!hsl", 10, 0.2, 0.3, 0.5)]
STRUCT_OBJS = [("!rect", ("!unit", 1, "px"), ("!unit", 2, "px"), ("!unit", 3, "em"), ("!unit", 4, "px")),
               ("!quotes", ("<", ">")), ("!quotes", ("<", ">"), ("{{", "}}")),
               ("!cursor", "move"), ("!cursor", ("!uri", "a.png"), "auto"), ("!cursor", ("!uri", "a"), ("!uri", "b")),
               ("!spacing", ("!unit", 1, "px")), ("!spacing", ("!unit", 1, "px"), ("!unit", 2, "em")), ("!uri", "x")]
ANGLES = [("!unit", 1, "deg"), ("!unit", 2, "rad")]
# every keyword misspelled in case, blanks and hyphens
MISSPELT = [m for k in ALL_KEYWORDS for m in (k.upper(), k.title(), k[0].upper() + k[1:], " " + k, k + " ", k.replace("-", "_"), k.replace("-", " "), k.replace("-", ""), k + "s", k[:-1])
            if m not in ALL_KEYWORDS]
FAR_UNITS = [n + s for s in ref_units.LENGTH_SUFFIXES for n in ("0", "0.0000001", "0.0005", "1234567.125", "100", "101", "-100.25")]
FAR_UNIT_OBJS = [("!unit", n, s) for s in ref_units.LENGTH_SUFFIXES for n in (0, 1e-7, 0.5, 1234567.5)]
ALPHABET = (ALL_KEYWORDS + NUMBERS + NUM_TEXT + LENGTH_TEXT + UNIT_OBJS + BAD_TEXT + WRONG + COLOR_TEXT + COLOR_OBJS
            + STRUCT_OBJS + ANGLES)
# values of the value sets inside containers
WRAPPED = [w for k in ALL_KEYWORDS for w in ([k], (k,))] + [w for k in ("auto", "none", "red", "#fff", "10px", "5", 10, 0, 2.5, "medium", "inherit", None)
                                                            for w in ([k, k], (k, k), {k: k}, [[k]], [k], (k,), {"value": k}, [k, 1, 2])] + [(1, 2, 3), [1, 2, 3, 4], (1, 2, 3, 0.5)]
EXTENDED = FAR + FAR_TEXT + FAR_UNITS + FAR_UNIT_OBJS + MISSPELT + WRAPPED


def _dedup(xs):
    out, seen = [], set()
    for x in xs:
        k = repr(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


ALPHABET = _dedup(ALPHABET)
_known = {repr(x) for x in ALPHABET}
EXTENDED = [x for x in _dedup(EXTENDED) if repr(x) not in _known]


@functools.lru_cache(maxsize=None)
def accepted(name, limit=None):
    """(literal, canonical) pairs of the alphabet that the longhand must accept,
    one literal per canonical value first."""
    res, seen = [], set()
    for v in ALPHABET:
        r = judge(name, v)
        if r is UNKNOWN or r == REJECT:
            continue
        if repr(r) in seen and limit:
            continue
        seen.add(repr(r))
        res.append((v, r))
    return res[:limit] if limit else res


@functools.lru_cache(maxsize=None)
def accepted_far(name):
    """Literals of the extended alphabet the longhand must accept."""
    return [v for v in EXTENDED if judge(name, v) is not UNKNOWN and judge(name, v) != REJECT]


def initial_of(name, state):
    """Initial value given the declared values."""
    init = T[name][0]
    if isinstance(init, tuple) and init[0] == "derived":
        if init[1] == "color":
            return state.get("color", T["color"][0])
        return "left" if state.get("direction", "ltr") == "ltr" else "right"
    return init


def value_of(name, state):
    return state[name] if name in state else initial_of(name, state)
