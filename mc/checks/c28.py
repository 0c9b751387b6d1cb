"""C28: the work of a layout, and of everything around it, grows with the size of its input, not exponentially."""
import sys

from colosseum import parser

from .. import core, omni, ref_css as rc
from ..world import CSS, Display, build, real, real_layout, walk

ID = "C28"
RULE = ("style: every row of an orthogonal array over all layout properties (all combinations of values of any two occur) given to every block of a chain, a row, a comb and a full binary tree of size n and of size 2n; "
        "ops: layouts, layouts again, after a change of the deepest and of the first leaf, after hiding and showing, on another display, in the other standard, changes, deletions, moves, resets and cleanings of the root and of the deepest box, "
        "on nine families of trees; text: values of every list-like kind with n and 2n items, and long malformed ones. The work is the number of source lines, calls and returns of the library executed "
        "(counted by a tracer); it may grow by a factor of at most 5 when the size doubles, and a run is stopped as soon as it exceeds that")
BOUNDS = dict(quick="841 rows x 4 families, n = 6; ops: n = 8, 16, 32 (64); one chain of 150 levels", thorough="the same rows x 4 families, n = 8; ops up to n = 128")
ASSUMPTIONS = ["quadratic growth (a box moves all its descendants) is allowed"]
SRC = core.REPO_SRC
FACTOR, SLACK = 5, 3000
DISP = (640, 480, 96)


class TooMuch(Exception):
    pass


def work(fn, limit=None):
    """Number of line, call and return events inside the library; None if over the limit."""
    n = 0

    def tr(frame, event, arg):
        nonlocal n
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        n += 1
        return local

    def local(frame, event, arg):
        nonlocal n
        n += 1
        if limit is not None and n > limit:
            raise TooMuch()
        return local

    old = sys.gettrace()
    sys.settrace(tr)
    try:
        fn()
    except TooMuch:
        return None
    finally:
        sys.settrace(old)
    return n


# ---------------------------------------------------------------------- trees
def chain(n, st, leaf):
    s = leaf()
    for i in range(n):
        s = (st(i), {}, [s])
    return s


def row(n, st, leaf):
    return (st(0), {}, [(st(i + 1), {}, [leaf()]) for i in range(n)])


def comb(n, st, leaf):
    s = leaf()
    for i in range(n):
        s = (st(i), {}, [leaf(), s] if i % 2 else [s, leaf()])
    return s


def full(n, st, leaf):
    """2n leaves or so: doubling n adds a level."""
    def go(k):
        return (st(k), {}, [go(k // 2), go(k // 2)] if k > 1 else [leaf()])
    return go(n)


SHAPES = {"chain": chain, "row": row, "comb": comb, "full": full}
B = {"display": "block"}


def block_leaf():
    return ({"display": "block", "height": 5, "margin_top": 2}, {}, [])


def text_leaf():
    return ({}, {"width": 20, "height": 5}, [])


# style by position: bare, or alternating kinds
STYLES = {
    "bare": lambda i: dict(B),
    "margins": lambda i: dict(B, margin_top=3 + i % 5, margin_bottom=2),
    "relative": lambda i: dict(B, position="relative", top=1, left=2),
    "auto": lambda i: dict(B, margin_left="auto", margin_right="auto", max_width=600, min_height=2),
    "edges": lambda i: dict(B, border_top_width=1, padding_left=1, padding_bottom=2),
    "fixed": lambda i: dict(B, height=30, width=("!unit", 90, "%")),
    "hidden": lambda i: dict(B) if i % 4 else dict(B, display="list-item", direction="rtl"),
    "limits": lambda i: dict(B, max_height=50, min_width=10, width=500 - i % 7),
    "percent": lambda i: dict(B, height=("!unit", 50, "%") if i % 2 else 40, padding_top=("!unit", 1, "%")),
}


def spec_of(shape, n, st, leaf=block_leaf):
    return SHAPES[shape](n, st, leaf)


ROWS = {"quick": omni.FLOW + omni.OFFSETS, "thorough": omni.FLOW + omni.OFFSETS}


def array(tier):
    return omni.made({"work": (True, lambda: omni.Trees("one", ROWS[tier], 2, share=0.5, displays=omni.DISPLAYS[:5], q=None))}, "work")


def cases(tier):
    size = array(tier).size
    for a in range(0, size, 20):
        yield ("style", a, min(a + 20, size), 6 if tier == "quick" else 8)
    for s in SHAPES:
        for st in STYLES:
            for leaf in ("block", "text"):
                if leaf == "text" and s == "comb":
                    continue
                for o in OPS:
                    yield ("ops", s, st, leaf, o, 32 if tier == "quick" else 64)
    for t in TEXTS:
        yield ("text", t)
    for p in rc.LONGHANDS:
        yield ("decl", p)
    yield ("deep", 150)


def _lay(node, disp=DISP, std="html5"):
    omni.lay_node(node, disp, std)


def _deepest(node):
    while node.children:
        node = node.children[-1]
    return node


def _first(node):
    while node.children:
        node = node.children[0]
    return node


def prepared(what):
    def go(node):
        _lay(node)
        return what(node)
    return go


def hide(node):
    n = _deepest(node).parent
    old = n.style.display
    n.style.display = "none"
    _lay(node)
    n.style.display = old
    _lay(node)


def set_then_lay(pick, name, v):
    def go(node):
        setattr(pick(node).style, name, v)
        _lay(node)
    return go


def simple(fn):
    return lambda node: fn(node)


# name -> (laid out before?, the operation measured)
OPS = {
    "first": (False, _lay), "again": (True, _lay), "html4": (True, lambda n: _lay(n, DISP, "html4")), "other": (True, lambda n: _lay(n, (333, 700, 72))),
    "change last": (True, set_then_lay(_deepest, "margin_top", 9)), "change first": (True, set_then_lay(_first, "margin_bottom", 9)),
    "change root": (True, set_then_lay(lambda n: n, "padding_left", 9)), "hide": (True, hide),
    "set root": (True, lambda n: setattr(n.style, "margin_top", 77)), "set last": (True, lambda n: setattr(_deepest(n).style, "margin_top", 77)),
    "delete": (True, lambda n: n.style.__delitem__("display")), "move": (True, lambda n: setattr(n.layout, "content_top", 50)),
    "move left": (True, lambda n: setattr(n.layout, "content_left", 50)), "reset": (True, lambda n: n.layout.reset()), "clean": (True, lambda n: setattr(n.layout, "dirty", False)),
    "intrinsic": (True, lambda n: setattr(n.intrinsic, "width", 50)), "read last": (True, lambda n: repr(_deepest(n).layout)),
    "copy": (True, lambda n: [setattr(k, "style", k.style.copy(k)) for k in walk(n)]),
}

TEXTS = {
    "quotes text": (parser.quotes, lambda n: " ".join(['"<"', '">"'] * n)),
    "quotes list": (parser.quotes, lambda n: ["<", ">"] * n),
    "quotes pairs": (parser.quotes, lambda n: [("<", ">")] * n),
    "cursor text": (parser.cursor, lambda n: ", ".join([f"url(a{i}.png)" for i in range(n)]) + ", auto"),
    "cursor list": (parser.cursor, lambda n: [f"url(a{i})" for i in range(n)] + ["move"]),
    "uri": (parser.uri, lambda n: "url(" + "a" * n + ")"),
    "uri blanks": (parser.uri, lambda n: "url(" + " " * n + "a" + " " * n + ")"),
    "digits": (parser.units, lambda n: "1" * n + "px"),
    "points": (parser.units, lambda n: "0." + "1" * n + "em"),
    "bad length": (parser.units, lambda n: "1" * n + "q"),
    "bad colour": (parser.color, lambda n: "#" + "f" * n),
    "rgb blanks": (parser.color, lambda n: "rgb(" + " " * n + "1,2,3)"),
    "bad rgb": (parser.color, lambda n: "rgb(" + "1," * n + "1"),
    "rect blanks": (parser.rect, lambda n: "rect(" + " " * n + "1px, 2px, 3px, 4px)"),
    "bad rect": (parser.rect, lambda n: "rect(" + "1px, " * n + "1px)"),
    "border blanks": (parser.border, lambda n: "1px" + " " * n + "solid"),
    "bad border": (parser.border, lambda n: " ".join(["solid"] * n)),
    "bad quotes": (parser.quotes, lambda n: '"<" ' * (2 * n + 1)),
    "open quotes": (parser.quotes, lambda n: '"' + "a'" * n),
    "bad cursor": (parser.cursor, lambda n: "url(" * n),
    "bad cursor list": (parser.cursor, lambda n: ["auto"] * (n + 2)),
    "cursor parentheses": (parser.cursor, lambda n: "(a)" * n),
    "cursor pairs": (parser.cursor, lambda n: "url(()" * n + ","),
    "border parentheses": (parser.border, lambda n: "(1)" * n + "("),
    "border open": (parser.border, lambda n: "rgb(" * n),
    "outline parentheses": (parser.outline, lambda n: "() " * n),
    "quotes mixed": (parser.quotes, lambda n: "'a\"" * n),
    "quotes escaped": (parser.quotes, lambda n: '"' + "\\" * n + "'"),
    "spacing": (parser.border_spacing, lambda n: "1px" + " " * n + "2px"),
    "bad spacing": (parser.border_spacing, lambda n: "1px " * n + "2q"),
}


def grows(small, large, rec, where):
    """Measures both; the second may take FACTOR times the first."""
    a = work(small)
    b = work(large, FACTOR * a + SLACK)
    rec.ops += 2
    if b is None:
        rec.fail(f"{where}: twice the size takes more than {FACTOR} times the {a} steps")
    rec.state((where, a, b))


def tried(fn, *a):
    def go():
        try:
            fn(*a)
        except ValueError:
            pass
    return go


def check(case, rec):
    kind = case[0]
    if kind == "style":
        _, a, b, n = case
        t = array("quick")
        for i in range(a, b):
            spec, disp, std, _ = t.get(i)
            style = dict(spec[0])
            for s in SHAPES:
                one, two = (build(spec_of(s, k, lambda i: dict(style))) for k in (n, 2 * n))
                grows(lambda: _lay(one, disp, std), lambda: _lay(two, disp, std), rec, f"{s} of {n} boxes with {style!r} on {disp}, {std}")
                grows(lambda: _lay(one, disp, std), lambda: _lay(two, disp, std), rec, f"{s} of {n} boxes with {style!r} on {disp}, {std}, again")
    elif kind == "ops":
        _, s, st, leaf, o, top = case
        before, fn = OPS[o]
        n = 8
        while n < top:
            nodes = [build(spec_of(s, k, STYLES[st], block_leaf if leaf == "block" else text_leaf)) for k in (n, 2 * n)]
            if before:
                for x in nodes:
                    _lay(x)
            grows(lambda: fn(nodes[0]), lambda: fn(nodes[1]), rec, f"{o} on a {s} of {n} boxes ({st}, {leaf})")
            n *= 2
    elif kind == "text":
        fn, make = TEXTS[case[1]]
        for n in (4, 16, 64, 256, 1024):
            grows(tried(fn, make(n)), tried(fn, make(2 * n)), rec, f"{case[1]} of {n} items")
        fn2 = tried(fn, make(20000)) if case[1] not in ("quotes text",) else tried(fn, make(2000))
        fn2()
        rec.ops += 1
    elif kind == "decl":
        # a declaration that changed very often is no slower than a new one
        p = case[1]
        vals = rc.accepted(p, 2)
        css = CSS()
        kinds = rc.T[p][2]
        many = [real(v) for v, _ in rc.accepted(p)]
        if "length" in kinds or "spacing" in kinds:
            many += [real(("!unit", k + 0.5, "px")) for k in range(1000)]
        elif "integer" in kinds:
            many += list(range(1000))
        elif "color" in kinds:
            many += [real(("!rgb", k % 256, k // 256, 7)) for k in range(1000)]

        def change(css, k=0):
            for v, _ in vals:
                setattr(css, p, real(v))
            if k:
                setattr(css, p, many[k % len(many)])
            if k % 7 == 0:
                delattr(css, p)

        def use(css):
            change(css)
            return css[p], css.keys()

        def render(css):
            return str(css), css.items(), css.copy()

        limits = []
        for fn in (use, render):
            fn(CSS())
            limits.append(work(lambda: fn(CSS())))
        for k in range(1500):
            change(css, k)
        for fn, a in zip((use, render), limits):
            b = work(lambda: fn(css), 2 * a + 500)
            rec.ops += 2
            if b is None:
                rec.fail(f"{p}: after 1500 changes it takes more than twice the {a} steps of a new declaration to use")
            rec.state((p, a, b))
        rec.ops += 1500
    elif kind == "deep":
        for st in STYLES:
            node = build(spec_of("chain", case[1], STYLES[st]))
            for _ in range(2):
                real_layout(Display(*DISP), node)
            rec.ops += 2
            if any(n.layout is None for n in walk(node)):
                rec.fail(f"a chain of {case[1]} boxes ({st}): some have no box")
            rec.state((st, len(list(walk(node)))))
