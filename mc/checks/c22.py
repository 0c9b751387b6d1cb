"""C22: layout changes nothing but boxes; trees do not influence each other."""
import sys
import threading
from itertools import combinations, permutations, product

from colosseum import units as real_units
from colosseum.constants import HTML4

from .. import omni
from .. import ref_css as rc
from ..core import pristine
from ..obs import snapshot
from ..world import CSS, Display, Node, build, build_explicit, call, canon, real, real_layout, tree_geom, walk

ID = "C22"
USES_PRISTINE = True
RULE = ("omni: pure on orthogonal arrays over all layout properties and intrinsic attributes of the nodes of a shape, display and standard, in which every combination of "
        "values of any two (single nodes: three) slots occurs, each also built of lengths and declarations shared with the trees of the rows before; "
        "pure: every tree of the pool (all value kinds, hidden, refused and mixed ones included) x display x standard x "
        "repetition (long: every longhand with each of its values on six hosts; again: every length property x every unit, the same length object on one display after another on six hosts; img: every image size; lim: every combination of limits): styles, listings, renderings, intrinsic sizes, links, display and shared lengths and colours are "
        "compared before and after; inter: every interleaving of the programs (layouts and changes) of two and three trees "
        "that share style declarations through copies and lengths by reference, each tree's geometries compared with those "
        "of the tree alone in an unused process; sched: two trees laid out by two threads under a controlled scheduler, every schedule with up "
        "to the bound of preemptions at any executed line of the library")
BOUNDS = dict(quick="pure: 18 trees x 3 displays x 2 standards; long: 66 longhands x up to 20 values x 6 hosts; 26 properties x 14 units x 2 x 6 pairs of displays; 1024 image sizes; 5^4 limits x 4; inter: 4 programs, all pairs of 4 + 4 steps and all triples of 3 steps; sched: 3 pairs, all schedules with 1 preemption, 2 preemptions on a grid of every 31st line",
              thorough="sched: all 1-preemption schedules of 6 pairs, 2 preemptions on a grid of every 7th line")

U = lambda n, s: ("!unit", n, s)  # noqa: E731
B = "block"
POOL = {
    "flow": ({"display": B, "padding_left": U(5, "%"), "color": "red"}, {}, [
        ({"display": B, "margin_top": U(10, "%"), "margin_left": "auto", "width": U(50, "%"), "background_color": "#123"}, {}, [
            ({"display": B, "height": U(1, "in"), "margin_top": 14, "border_top_width": "thick", "border_top_style": "solid"}, {}, [])]),
        ({"display": B, "height": 30, "margin_top": 8, "min_height": 40, "max_width": 300, "width": 500}, {}, [])]),
    "rel": ({"display": B}, {}, [({"display": B, "position": "relative", "left": U(5, "vw"), "top": 3, "height": 20}, {}, []),
                                 ({"display": B, "position": "relative", "right": U(5, "%"), "bottom": 2, "height": 20, "direction": "rtl"}, {}, [])]),
    "inline": ({"display": B, "margin_left": 5, "quotes": ("!quotes", ("<", ">"))}, {}, [
        ({"padding_left": 4, "margin_top": "auto", "margin_left": "auto"}, {"width": 40, "height": 12, "exact_width": False}, [])]),
    "image": ({"display": B}, {}, [({"margin_left": U(2, "%"), "width": 50}, {"is_replaced": True, "width": 40, "ratio": 2}, [])]),
    "image2": ({"display": B}, {}, [({}, {"is_replaced": True, "height": 40, "ratio": 2, "exact_height": False}, [])]),
    "hidden": ({"display": B}, {}, [({"display": "none", "margin_top": 9, "float": "left"}, {"width": 3}, [({"display": B, "height": 4}, {}, [])]),
                                    ({"display": B, "height": 10}, {}, [])]),
    "gone": ({"display": "none", "width": 20}, {}, [({"display": B}, {}, [])]),
    "float": ({"display": B}, {}, [({"display": B, "height": 10, "margin_left": "auto"}, {}, []), ({"display": B, "float": "left", "width": 5}, {}, [])]),
    "abs": ({"display": B, "margin_top": "auto"}, {}, [({"display": B, "position": "absolute", "left": 3}, {}, [])]),
    "fixed": ({"display": B, "position": "fixed", "width": U(50, "%")}, {}, []),
    "ib": ({"display": B}, {}, [({"display": "inline-block", "width": 9}, {"width": 4, "height": 4}, [])]),
    "mixed": ({"display": B}, {}, [({}, {"width": 4, "height": 4}, []), ({"display": B, "height": 3}, {}, [])]),
    "flex": ({"display": "flex", "width": 10}, {}, [({"display": B}, {}, [])]),
    "repblock": ({"display": B}, {}, [({"display": B, "width": 10}, {"is_replaced": True, "width": 4, "height": 4}, [])]),
    "clip": ({"display": B, "clip": "rect(1px,2px,3px,4px)", "cursor": "url(a), move", "border_spacing": "1px 2px", "outline_width": 3}, {}, [
        ({"display": B, "height": 5, "border_left_color": "blue", "text_align": "center", "z_index": 3}, {}, [])]),
    "limits": ({"display": B, "min_width": U(10, "%"), "max_height": 50, "margin_left": "auto", "margin_right": "auto", "width": 100}, {}, [
        ({"display": "list-item", "height": U(2, "cm"), "margin_bottom": U(3, "pc"), "padding_top": U(1, "vmin")}, {}, [])]),
    "rtl": ({"display": B, "direction": "rtl", "height": 99}, {}, [({"display": B, "width": 10, "height": U(50, "%"), "direction": "rtl", "margin_right": 3}, {}, [])]),
    "font": ({"display": B, "margin_top": U(1, "em"), "letter_spacing": U(2, "ex")}, {}, [({"display": B, "height": U(3, "ch")}, {}, [])]),
}
DISPLAYS = [(640, 480, 96), (640, 700, 192, {"thin": 3, "medium": 7, "thick": 26}), (1024, 480, 72, {"thin": 0, "medium": 1, "thick": 2})]
# every kind of length and a few keywords, tried on every longhand
TRY = [0, 7, -7, 2.5, U(5, "%"), U(-5, "%"), U(1, "in"), U(-1, "in"), U(3, "vw"), U(2, "vh"), U(1, "em"), "thin", "thick", "auto", "none", "inherit", 100000]
IMAGE = dict(iw=[None, 0, 40, 2.5], ih=[None, 0, 20, 7.25], ratio=[None, 2, 0.5, 3], w=["auto", 50, U(10, "%"), 0], h=["auto", 30, U(1, "in"), 0])
LIMITS = [None, 0, 4, 900, U(3, "%")]
LENGTHY = [p for p in rc.LONGHANDS if p.startswith(("margin", "padding")) or p.endswith("_width") and p.startswith("border")] + [
    "width", "height", "min_width", "max_width", "min_height", "max_height", "top", "right", "bottom", "left"]
EXPLICIT = sorted(set(rc.LONGHANDS) - {"display"})

INTR = [(f"intr:{k}", v) for k, v in (("width", [0, 5, 30.5, 700]), ("height", [0, 12, 300]), ("ratio", [2, 0.5]), ("is_replaced", [True]), ("exact_width", [False]), ("exact_height", [False]))]
PROPS = omni.FLOW + omni.OFFSETS + ["float", "overflow", "border_top_style"] + [k for k, _ in INTR]
WPOOLS = {**omni.WILD, **dict(INTR), "display": ["list-item", "block", "none", "inline", "list-item", "inline-block"], "float": ["left", "none", "none", "none"],
          "overflow": ["hidden", "visible"], "border_top_style": ["none", "solid"]}
OMNI = {n: (q, lambda n=n, share=share: omni.Trees(n.split()[0], PROPS, 3 if n.endswith("3") else 2, share=share, pools=WPOOLS, displays=omni.DISPLAYS + [(0, 480, 96), (0, 0, 0)]))
        for n, q, share in (("one", True, 0.4), ("pair", True, 0.5), ("three", True, 0.65), ("mixed", False, 0.75), ("one 3", True, 0.4))}
OMNI.update(omni.every_shape((4,), PROPS, quick=False, share=0.7, pools=WPOOLS, displays=omni.DISPLAYS))


def hosts(style, intr):
    """The style on a root, on a block with content, on text and on an image."""
    kid = ({"display": B, "height": 10, "margin_top": 3}, {}, [])
    blk = {"display": B, "height": 20}
    yield ({"display": B, **style}, {}, [kid])
    yield ({"display": B}, {}, [({"display": B, **style}, {}, [kid]), kid])
    yield ({"display": B}, {}, [(style, {"width": 9, "height": 8, **intr}, [])])
    yield ({"display": B}, {}, [(blk, {}, [(style, {"is_replaced": True, "width": 9, "ratio": 2, **intr}, [])]), kid])
    yield ({"display": B, "position": "relative"}, {}, [({"display": "list-item", "height": 5, "position": "relative", **style}, {}, [])])
    yield ({"display": B}, {}, [({"display": B, "float": "left", **style}, {}, []), ({"display": "none", **style}, {}, [])])


def cases(tier):
    yield from omni.cases(OMNI, tier, 60)
    for t in POOL:
        for d in range(len(DISPLAYS)):
            for std in ("html5", "html4"):
                yield ("pure", t, d, std)
    for p in rc.LONGHANDS:
        yield ("long", p, tier)
    for p in LENGTHY:
        yield ("again", p)
    for w, h in product(IMAGE["w"], IMAGE["h"]):
        yield ("img", w, h)
    for i, j in product(range(len(LIMITS)), repeat=2):
        yield ("lim", i, j)
    progs = sorted(PROGRAMS)
    for i, a in enumerate(progs):
        for b in progs[i:]:
            for left in combinations(range(8), 4):
                yield ("inter2", a, b, left)
    for trio in (("p0", "p1", "p2"), ("p1", "p2", "p3"), ("p0", "p0", "p3")):
        for order in orders((3, 3, 3)):
            if order[0] <= 1:
                yield ("inter3", trio, order)
    pairs = [("flow", "limits"), ("rel", "flow"), ("image", "flow"), ("flow", "flow"), ("inline", "rtl"), ("rel", "float")]
    for a, b in pairs[:3] if tier == "quick" else pairs:
        for k in range(16):
            yield ("sched1", a, b, k, 16)
        for k in range(32):
            yield ("sched2", a, b, 31 if tier == "quick" else 7, k, 32)


def orders(counts):
    """All interleavings of programs with the given numbers of steps."""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            for rest in orders(counts[:i] + (c - 1,) + counts[i + 1:]):
                yield (i,) + rest


# --------------------------------------------------------------------- purity
def intr(n):
    s = n.intrinsic
    return (s.width, s.height, s.exact_width, s.exact_height, s.ratio, s.is_replaced)


def observe(root):
    out = []
    for n in walk(root):
        out.append((id(n), id(n.parent), tuple(id(c) for c in n.children), id(n.style), id(n.intrinsic), intr(n),
                    snapshot(n.style)))
    return out


def registry():
    """Unit objects every user shares."""
    return [(k, canon(getattr(real_units, k))) for k in ("px", "em", "ex", "ch", "pt", "pc", "inch", "cm", "mm", "vh", "vw", "vmin", "vmax", "percent")]


def check_pure(case, rec):
    _, t, d, std = case
    pure(t, build(POOL[t]), d, std, rec)


def check_long(case, rec):
    """Every value of one longhand, on every host."""
    _, p, tier = case
    vals = [v for v, c in rc.accepted(p, 3)] + TRY
    for v in vals:
        if call(setattr, CSS(), p, real(v))[0] != "ok":
            continue
        extra = [{}] if tier == "quick" else [{}, {"width": 50, "margin_left": "auto", "min_width": 3}, {"height": 5, "max_height": 50, "direction": "rtl"}]
        for e in extra:
            for k, spec in enumerate(hosts({**e, p: v}, {})):
                pure(f"{p}: {v} on host {k}", build(spec), k % 3, "html5" if k % 2 else "html4", rec)


def check_again(case, rec):
    """One length of every unit as the value of one property of trees on one display after another."""
    p = case[1]
    pos = {"position": "relative"} if p in ("top", "right", "bottom", "left") else {}
    for u in rc.ref_units.LENGTH_SUFFIXES:
        for n in (10, 0.5):
            sh = Shared()
            for e in ({}, {"width": 900, "height": 900}, {"width": 1, "height": 1}, {"margin_left": "auto", "width": U(50, "%")}):
                if p in e:
                    continue
                for a, b in permutations(range(len(DISPLAYS)), 2):
                    for k, spec in enumerate(hosts({**e, **pos, p: U(n, u)}, {})):
                        for d in (a, b):
                            compare(spec, DISPLAYS[d], "html4" if k % 2 else "html5", sh, rec)
        rec.state((p, u))


def check_img(case, rec):
    _, w, h = case
    for iw, ih, ratio in product(IMAGE["iw"], IMAGE["ih"], IMAGE["ratio"]):
        intr = {k: x for k, x in (("width", iw), ("height", ih), ("ratio", ratio)) if x is not None}
        style = {k: x for k, x in (("width", w), ("height", h)) if x != "auto"}
        for rep in (True, False):
            if not rep and (iw is None or ih is None):
                continue
            spec = ({"display": B, "width": 300}, {}, [({"margin_left": "auto", **style}, {"is_replaced": rep, **intr}, [])])
            pure(f"{style} {intr} replaced {rep}", build(spec), 1, "html5", rec)


def check_lim(case, rec):
    _, i, j = case
    for k, l in product(range(len(LIMITS)), repeat=2):
        st = {n: LIMITS[x] for n, x in (("min_width", i), ("max_width", j), ("min_height", k), ("max_height", l)) if LIMITS[x] is not None}
        for e in ({}, {"width": 60}, {"height": 70}, {"width": U(50, "%"), "margin_left": "auto", "margin_right": "auto"}):
            spec = ({"display": B}, {}, [({"display": B, **st, **e}, {}, [({"display": B, "height": 10}, {}, [])]), ({"display": "list-item", **e, **st}, {}, [])])
            pure(f"{st} {e}", build(spec), 0, "html4", rec)


def pure(t, node, d, std, rec, times=3):
    disp = Display(*(d if isinstance(d, tuple) else DISPLAYS[d]))
    dview = lambda: (disp.content_width, disp.content_height, disp.dpi, dict(disp.fixed), sorted(vars(disp)))  # noqa: E731
    shared = []
    for n in walk(node):
        for k in sorted(n.style.keys()):
            v = n.style[k]
            shared.append((v, canon(v), str(v)))
    before, db, reg = observe(node), dview(), registry()
    for rep in range(times):
        try:
            if std == "html5":
                real_layout(disp, node)
            else:
                real_layout(disp, node, standard=HTML4)
        except Exception:
            pass
        rec.ops += 1
        after = observe(node)
        if after != before:
            for a, b in zip(after, before):
                if a != b:
                    rec.fail(f"{t}: layout {rep} changed a node from {b[5:]!r} to {a[5:]!r}")
            rec.fail(f"{t}: layout changed the tree")
        if dview() != db:
            rec.fail(f"{t}: layout changed the display: {dview()}")
        if registry() != reg:
            rec.fail(f"{t}: layout changed the units: {registry()}")
        for v, c, s in shared:
            if canon(v) != c or str(v) != s:
                rec.fail(f"{t}: layout changed the value {s} to {v}")
    rec.state((t, d, std, call(tree_geom, node)))


# --------------------------------------------------------------- interleavings
L0, L1, L2 = ("layout", 0), ("layout", 1), ("layout4", 0)
PROGRAMS = {
    "p0": ("flow", [L0, ("set", (0,), "margin_top", 77), L1, L0]),
    "p1": ("flow", [("set", (), "padding_left", U(1, "in")), L0, ("del", (0,), "width"), L1]),
    "p2": ("rel", [L1, ("set", (1,), "display", "none"), L0, L2]),
    "p3": ("image", [("intr", (0,), "width", 7), L0, ("set", (0,), "width", "auto"), L0]),
}


class Shared:
    """Trees built from one set of declarations (through copies) and one set of
    length objects (by reference)."""

    def __init__(self):
        self.css = {}
        self.len = {}

    def value(self, v):
        if isinstance(v, tuple) and v[:1] == ("!unit",):
            return self.len.setdefault(v, real(v))
        return real(v)

    def build(self, spec):
        style, intrinsic, kids = spec
        key = repr(style)
        if key not in self.css:
            c = CSS()
            for k, v in style.items():
                setattr(c, k, self.value(v))
            self.css[key] = c
        return Node(self.css[key], intrinsic, [self.build(k) for k in kids])


def step(node, op, shared, display):
    if op[0].startswith("layout"):
        kw = {"standard": HTML4} if op[0] == "layout4" else {}
        real_layout(display(op[1]), node, **kw)
        return tree_geom(node)
    n = node
    for i in op[1]:
        n = n.children[i]
    if op[0] == "set":
        setattr(n.style, op[2], shared.value(op[3]))
    elif op[0] == "del":
        delattr(n.style, op[2])
    else:
        setattr(n.intrinsic, op[2], op[3])
    return None


def compare(spec, disp, std, sh, rec):
    """The tree built of declarations and lengths that earlier trees used too gets the geometry of one built of new ones."""
    out = []
    for node in (sh.build(spec), build(spec)):
        try:
            real_layout(Display(*disp), node, *([HTML4] if std == "html4" else []))
            out.append(("ok", tree_geom(node)))
        except Exception as e:
            out.append(("raised", type(e).__name__))
        rec.ops += 1
    if out[0] != out[1]:
        rec.fail(f"{spec!r} on {disp}: built of lengths and declarations that trees on other displays use, it gets {out[0]!r}, alone {out[1]!r}")


_alone = {}


def alone(p):
    if p not in _alone:
        _alone[p] = pristine("run_alone", p)
    return _alone[p]


def run_alone(p):
    tree, prog = PROGRAMS[p]
    node, sh = build(POOL[tree]), Shared()
    return [step(node, op, sh, lambda i: Display(*DISPLAYS[i])) for op in prog]


def interleave(names, order, rec):
    sh = Shared()
    disps = [Display(*d) for d in DISPLAYS]
    nodes = [sh.build(POOL[PROGRAMS[p][0]]) for p in names]
    pos = [0] * len(names)
    trail = []
    for i in order:
        p = names[i]
        op = PROGRAMS[p][1][pos[i]]
        trail.append((i, op))
        got = step(nodes[i], op, sh, lambda k: disps[k])
        want = alone(p)[pos[i]]
        rec.ops += 1
        if got != want:
            rec.fail(f"trees {names} interleaved as {trail!r}: {got!r}, alone {want!r}")
        pos[i] += 1
        rec.state((names, tuple(pos), got))


# ------------------------------------------------------------------ schedules
class Sched:
    """Runs two functions on two threads, one at a time; control passes at given
    numbers of executed library lines."""

    def __init__(self, fns, switches):
        # switches: [(thread, line count)] in order: run thread until its count, then change
        self.fns, self.switches = fns, list(switches)
        self.locks = [threading.Semaphore(0), threading.Semaphore(0)]
        self.count = [0, 0]
        self.done = [False, False]
        self.result = [None, None]

    def tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.count[i] += 1
                if self.switches and self.switches[0] == (i, self.count[i]):
                    self.switches.pop(0)
                    self.switch(i)
            return local

        def glob(frame, event, arg):
            return local if "colosseum" in frame.f_code.co_filename else None

        return glob

    def switch(self, i):
        o = 1 - i
        if self.done[o]:
            return
        self.locks[o].release()
        self.locks[i].acquire()

    def body(self, i):
        self.locks[i].acquire()
        sys.settrace(self.tracer(i))
        try:
            self.result[i] = self.fns[i]()
        except Exception as e:
            self.result[i] = ("raised", type(e).__name__)
        finally:
            sys.settrace(None)
        self.done[i] = True
        self.locks[1 - i].release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,)) for i in (0, 1)]
        for t in ts:
            t.start()
        self.locks[0].release()
        for t in ts:
            t.join(30)
            if t.is_alive():
                raise RuntimeError("schedule did not finish")
        return self.result


def job(tree, d):
    node = tree

    def fn():
        real_layout(Display(*DISPLAYS[d]), node)
        return tree_geom(node)

    return fn


_solo = {}


def solo(t, d):
    """(number of library lines, result) of a layout alone under the scheduler."""
    if (t, d) not in _solo:
        _solo[t, d] = pristine("run_solo", t, d)
    return _solo[t, d]


def run_solo(t, d):
    s = Sched([job(build(POOL[t]), d), lambda: None], [])
    r = s.run()[0]
    return (s.count[0], r)


def schedule(a, b, switches, rec):
    sh = Shared()
    s = Sched([job(sh.build(POOL[a]), 0), job(sh.build(POOL[b]), 1)], switches)
    r = s.run()
    rec.ops += 1
    for i, (t, d) in enumerate(((a, 0), (b, 1))):
        if r[i] != solo(t, d)[1]:
            rec.fail(f"{a} and {b} laid out by two threads, control passed at lines {switches}: tree {i} gets {r[i]!r}, alone {solo(t, d)[1]!r}")
    rec.state((a, b, tuple(switches)))


def check(case, rec):
    kind = case[0]
    if kind == "omni":
        t = omni.made(OMNI, case[1])
        sh = Shared()
        for i in range(case[2], case[3]):
            spec, disp, std, _ = t.get(i)
            node = build_explicit(spec, EXPLICIT, i) if i % 3 == 0 else build(spec)
            pure(f"{spec!r}", node, disp, std, rec, 1)
            compare(spec, disp, std, sh, rec)
    elif kind == "pure":
        check_pure(case, rec)
    elif kind == "long":
        check_long(case, rec)
    elif kind == "again":
        check_again(case, rec)
    elif kind == "img":
        check_img(case, rec)
    elif kind == "lim":
        check_lim(case, rec)
    elif kind == "inter2":
        _, a, b, left = case
        interleave((a, b), [0 if i in left else 1 for i in range(8)], rec)
    elif kind == "inter3":
        interleave(case[1], case[2], rec)
    elif kind == "sched1":
        _, a, b, k, n = case
        for i in range(1 + k, solo(a, 0)[0] + 1, n):
            schedule(a, b, [(0, i)], rec)
    else:
        _, a, b, grid, k, n = case
        for i in range(1 + grid * k, solo(a, 0)[0] + 1, grid * n):
            for j in range(1, solo(b, 1)[0] + 1, grid):
                schedule(a, b, [(0, i), (1, j)], rec)
