"""Richly styled trees from orthogonal arrays, shared by the layout checks: every
property of every node of a shape is a slot, the display and the standard are too,
and all combinations of values of any t slots are laid out."""
from colosseum.constants import HTML4

from . import ref_layout as rl
from . import shapes
from .arrays import Array
from .world import Display, build, real_layout

U = lambda n, s: ("!unit", n, s)  # noqa: E731
SIDES = ("top", "right", "bottom", "left")
# values of the slots; all amounts are multiples of 1/64 px, reference sizes of
# percentages that would end exactly between two layout units are left out by snap()
HMARGIN = ["auto", 0, 5, 10.5, -20, 33, 100, 2000, 0.25, "auto", U(10, "%"), U(1, "in"), 1, U(5, "vw"), -1, 300, U(0.0078125, "in")]
VMARGIN = ["auto", 0, 1, 3, 6, 10.5, 12, 20, 31, 64, 100.25, 5000.25, 0.25, U(10, "%"), U(0.5, "in"), 2, 40]
BORDER = [0, 1, 2, 5, 0.5, "thin", "medium", "thick", 16, 100, U(0.125, "in"), 3, 10, U(0.0078125, "in")]
PADDING = [0, 1, 2, 3, 0.25, 7, 20, 64, U(10, "%"), U(5, "%"), U(1, "pc"), 300, 5, U(2, "vh"), U(0.0078125, "in")]
WIDTH = ["auto", 0, 1, 50, 100, 150.5, 300, 640, 1000, U(50, "%"), U(100, "%"), U(30, "vw"), U(2, "in"), 20, 10.5]
MINW = ["auto", 0, 10, 60, 150.5, 700, U(40, "%"), U(1, "in"), 2000]
MAXW = [0, 5, 80, 120, 400, 2000, U(25, "%"), U(3, "pc"), "none"]
HEIGHT = ["auto", 1, 3, 25.5, 60, 100, 480, 1000, U(50, "%"), U(100, "%"), U(10, "vh"), U(1, "in"), 10, 0.5]
MINH = ["auto", 0, 4, 55, 100, 600, U(1, "in"), 0.25, U(5, "vmin")]
MAXH = [1, 8, 40, 100.5, 700, U(12, "pt"), "none", U(20, "vmax")]
OFFX = ["auto", 0, 5, -7.5, 13, 100, U(10, "%"), U(-25, "%"), U(0.5, "in"), U(3, "vw"), 2000, 7]
OFFY = ["auto", 0, 4, -6, 9, 11.25, 200, U(0.5, "in"), U(10, "vh"), -300, 8]
POOLS = {"width": WIDTH, "min_width": MINW, "max_width": MAXW, "height": HEIGHT, "min_height": MINH, "max_height": MAXH,
         "left": OFFX, "right": OFFX, "top": OFFY, "bottom": OFFY, "direction": ["rtl", "ltr"], "display": ["list-item", "block"],
         "position": ["relative", "static"]}
for _s in SIDES:
    POOLS[f"margin_{_s}"] = HMARGIN if _s in ("left", "right") else VMARGIN
    POOLS[f"border_{_s}_width"] = BORDER
    POOLS[f"padding_{_s}"] = PADDING
HORIZONTAL = ["margin_left", "margin_right", "border_left_width", "border_right_width", "padding_left", "padding_right", "width", "min_width", "max_width", "direction"]
VERTICAL = ["margin_top", "margin_bottom", "border_top_width", "border_bottom_width", "padding_top", "padding_bottom", "height", "min_height", "max_height"]
OFFSETS = ["position", "left", "right", "top", "bottom"]
FLOW = HORIZONTAL + VERTICAL + ["display"]
DISPLAYS = [(640, 480, 96), (1024, 768, 96), (333, 700, 72), (50, 2000, 96), (2001, 999, 144), (640.5, 480.25, 96), (1, 1, 96), (320, 0, 300)]
SHAPES = {"one": (), "pair": ((),), "two": ((), ()), "three": ((), (), ()), "chain": (((),),), "mixed": ((), ((), ()), ()), "deep": ((((),), ()),),
          "grid": (((), ()), ((), ())), "fan6": ((), (), (), (), (), ()), "fan5 nest": ((), (), ((), ()), (), (), ())}
INLINE = ["margin_top", "margin_right", "margin_left", "border_top_width", "border_right_width", "border_bottom_width", "border_left_width",
          "padding_top", "padding_right", "padding_bottom", "padding_left"]

# values outside the reference's domain, for checks that compare real layouts with each other
WILD = {n: v + [-3, 0.25, 70000.5, U(2, "em"), U(-15, "%"), U(1, "cm")] for n, v in POOLS.items() if n.startswith("margin") or n in OFFSETS and n != "position"}
WILD.update({n: v + [0, 70000.5, U(30, "%"), U(1, "ex"), U(1, "mm"), -3, -70.25] for n, v in POOLS.items()
             if n.startswith("padding") or n in ("width", "height", "min_width", "max_width", "min_height", "max_height")})
WILD.update({n: v + [0.015625, 70000.5, U(1, "em"), -2] for n, v in POOLS.items() if n.startswith("border")})
WILD["display"] = ["list-item", "block", "none"]


class Trees:
    """The array of one shape. props: names for every node, or path -> names;
    text: paths of leaves that are inline boxes; extra: more slots, with keys of
    the form ('x', ...) left to the caller."""

    def __init__(self, shape, props, t, share=0.5, pools=(), text=(), displays=DISPLAYS[:1], stds=("html5", "html4"), extra=(), q=None, shares=()):
        self.tree = SHAPES[shape] if isinstance(shape, str) else shape
        self.paths = list(shapes.paths(self.tree))
        self.text = set(text)
        pools = {**POOLS, **dict(pools)}
        shares = {"direction": 0.7, "display": 0.7, **dict(shares)}
        slots = []
        for p in self.paths:
            names = props(p) if callable(props) else props
            if p in self.text:
                names = [n for n in names if n in INLINE or n in OFFSETS]
                slots += [((p, "iw"), [0, 5, 30.5, 700, 100], 0.3), ((p, "ih"), [3, 12.25, 400, 1, 60], 0.3)]
            for n in names:
                slots.append(((p, n), pools[n], {"position": 0.6 if p else 0.8, **shares}.get(n, share)))
        if len(displays) > 1:
            slots.append(("display", displays, 0.3))
        if len(stds) > 1:
            slots.append(("std", stds[1:], 0.5))
        slots += list(extra)
        self.displays, self.stds = displays, stds
        self.array = Array(slots, t, share, q)
        self.size = self.array.size
        self.slots = len(slots)

    def get(self, i):
        """(spec, display, standard, other slots) of row i"""
        row = self.array.row(i)
        styles, intr, other = {}, {}, {}
        for j, p in enumerate(self.paths):
            if p in self.text:
                styles[p], intr[p] = {}, {"width": 10 + j, "height": 8 + j}
            else:
                styles[p] = {"display": "block"}
                if shapes.is_leaf(self.tree, p) and p:
                    styles[p]["height"] = 10 + 3 * j
        for k, v in row.items():
            if isinstance(k, str) or k[0] == "x":
                other[k] = v
            elif k[1].startswith("intr:"):
                intr.setdefault(k[0], {})[k[1][5:]] = v
            elif k[1] in ("iw", "ih"):
                intr[k[0]]["width" if k[1] == "iw" else "height"] = v
            else:
                styles[k[0]][k[1]] = v
        return (shapes.make(self.tree, styles, (), intr), other.pop("display", self.displays[0]), other.pop("std", self.stds[0]), other)


def every_shape(sizes, props, t=2, quick=True, **k):
    """One family for every tree shape with that many nodes."""
    return {f"shape {tree!r}": (quick, lambda tree=tree: Trees(tree, props, t, **k)) for n in sizes for tree in shapes.trees(n, 9)}


def pct(v):
    return isinstance(v, tuple) and v[0] == "!unit" and v[2] == "%" or isinstance(v, str) and v.endswith("%")


def in_domain(spec, parent=None):
    """Percentage heights refer to an explicit height that no limit changes."""
    style, _, kids = spec
    if pct(style.get("height")) and parent is not None:
        ph = parent.get("height", "auto")
        if ph == "auto" or pct(ph) or "min_height" in parent or "max_height" in parent:
            return False
    return all(in_domain(k, style) for k in kids)


def bare(r):
    """Has no box a vertical margin? Then boxes without height are no trouble."""
    return not r[0][6][0] and not r[0][6][2] and all(bare(k) for k in r[1] if k is not None)


def flat(r, any_height=None):
    """Has some box other than the root no height (and some box a vertical margin),
    or a negative vertical margin, or some containing block (see K5) a negative width?"""
    if any_height is None:
        any_height = bare(r)
    if r[0][2] < 0 and r[1]:
        return True
    for k in r[1]:
        if k is None:
            continue
        (_, _, _, h, _, _, m, b, p) = k[0]
        if not any_height and h + b[0] + b[2] + p[0] + p[2] == 0 or m[0] < 0 or m[2] < 0 or flat(k, any_height):
            return True
    return False


def lay(spec, disp, std):
    return lay_node(build(spec), disp, std)


def lay_node(node, disp, std):
    if std == "html4":
        real_layout(Display(*disp), node, standard=HTML4)
    else:
        real_layout(Display(*disp), node)
    return node


ALLQ = ("K1", "K2", "K5", "K7")


def reference(spec, disp, std, quirks=frozenset()):
    """The reference geometry, or None outside the domain."""
    if not in_domain(spec):
        return None
    try:
        want = rl.root(spec, rl.Ctx(*disp), std, quirks)
    except rl.OutOfDomain:
        return None
    return None if flat(want) else want


def judge(spec, disp, std, rec, own=()):
    """Lay out and compare with the reference; deviations that are exactly known
    findings of other properties are theirs to report. False outside the domain."""
    want = reference(spec, disp, std)
    if want is None:
        return False
    now = reference(spec, disp, std, frozenset(ALLQ))
    if now is None:
        return False
    got = rl.geom_of(lay(spec, disp, std))
    rec.ops += 1
    if got == want:
        rec.state(got)
        return True
    d = rl.diff(got, want)
    if d is None:
        return True
    if got == now and not own:
        rec.state(got)
        return True
    ctx = rl.Ctx(*disp)
    for q in sorted(rl.subsets(ALLQ), key=lambda q: (bool(q - set(own)), len(q))):
        try:
            if got == rl.root(spec, ctx, std, q):
                if q <= set(own):
                    for k in q:
                        rec.known(k, d)
                rec.state(got)
                return True
        except rl.OutOfDomain:
            continue
    rec.fail(f"{d} ({std}, display {disp}) in {spec!r}")


def sweep(trees, a, b, rec, own=()):
    done = 0
    for i in range(a, b):
        spec, disp, std, _ = trees.get(i)
        try:
            if judge(spec, disp, std, rec, own):
                done += 1
        except Exception as e:
            raise type(e)(f"{e} (row {i}: {spec!r} on {disp}, {std})") from e
    if not done:
        rec.skip()


_made = {}


def cases(families, tier, step=150):
    """families: name -> (quick?, maker of Trees)"""
    for name in families:
        if tier == "quick" and not families[name][0]:
            continue
        n = made(families, name).size
        for a in range(0, n, step):
            yield ("omni", name, a, min(a + step, n))


def made(families, name):
    if name not in _made:
        _made[name] = families[name][1]()
    return _made[name]


def describe(families, tier):
    out = []
    for name, (quick, _) in families.items():
        if quick or tier == "thorough":
            t = made(families, name)
            out.append(f"{name}: {t.slots} slots, strength {t.array.t}, {t.size} rows")
    return "; ".join(out)
