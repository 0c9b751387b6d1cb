"""C12: immutability and equality of value objects."""
from itertools import combinations, permutations, product

from .. import ref_units as ru
from ..world import Quotes, Rect, Uri, canon, real, real_parser, real_units
from colosseum import wrappers

ID = "C12"
RULE = ("list: every sequence up to the depth bound of operations of the list interface on every list of the pool (both "
        "kinds, lengths 0-3), content, length, hash and rendering compared after each; eq: every pair of lists, quotes, "
        "rectangles, shorthand values and lengths of the pools; short: every shorthand class x every subset of keys in "
        "every order x every foreign key")
BOUNDS = dict(quick="operation sequences of depth <= 3 over 44 operations from 4 lists of 2 kinds; pools of 27-625 values, 252 lengths and angles",
              thorough="the same from all 85 lists of up to three items")

ITEMS = ["a", "b", 1, 1.0]
MUT = {}


def m(name):
    def d(fn):
        MUT[name] = fn
        return fn
    return d


for _n, _f in {
    "x[0]=": lambda x: x.__setitem__(0, "z"),
    "x[-1]=": lambda x: x.__setitem__(-1, "z"),
    "x[5]=": lambda x: x.__setitem__(5, "z"),
    "x[:]=": lambda x: x.__setitem__(slice(None), ["q"]),
    "x[0:1]=": lambda x: x.__setitem__(slice(0, 1), []),
    "x[::2]=": lambda x: x.__setitem__(slice(None, None, 2), ["q"] * len(x[::2])),
    "del x[0]": lambda x: x.__delitem__(0),
    "del x[-1]": lambda x: x.__delitem__(-1),
    "del x[:]": lambda x: x.__delitem__(slice(None)),
    "del x[9]": lambda x: x.__delitem__(9),
    "append": lambda x: x.append("z"),
    "append same": lambda x: x.append("a"),
    "extend": lambda x: x.extend(["z"]),
    "extend empty": lambda x: x.extend([]),
    "extend self": lambda x: x.extend(x),
    "insert 0": lambda x: x.insert(0, "z"),
    "insert end": lambda x: x.insert(len(x), "z"),
    "insert -1": lambda x: x.insert(-1, "z"),
    "pop": lambda x: x.pop(),
    "pop 0": lambda x: x.pop(0),
    "pop -1": lambda x: x.pop(-1),
    "remove": lambda x: x.remove("a"),
    "remove missing": lambda x: x.remove("nope"),
    "reverse": lambda x: x.reverse(),
    "sort": lambda x: x.sort(key=str),
    "sort rev": lambda x: x.sort(key=str, reverse=True),
    "sort plain": lambda x: x.sort(),
    "clear": lambda x: x.clear(),
    "iadd": lambda x: x.__iadd__(["z"]),
    "iadd empty": lambda x: x.__iadd__([]),
    "imul 2": lambda x: x.__imul__(2),
    "imul 0": lambda x: x.__imul__(0),
    "imul 1": lambda x: x.__imul__(1),
}.items():
    MUT[_n] = _f


def _iadd(x):
    x += ["z"]


def _imul(x):
    x *= 3


MUT["x += "] = _iadd
MUT["x *= "] = _imul
READ = {
    "copy": lambda x: x.copy(),
    "x + ": lambda x: x + ["z"],
    "x * ": lambda x: x * 2,
    "sorted": lambda x: sorted(x, key=str),
    "reversed": lambda x: list(reversed(x)),
    "slice": lambda x: x[0:2],
    "count": lambda x: x.count("a"),
    "iter": lambda x: [i for i in x],
    "in": lambda x: "a" in x,
}
OPS = sorted(MUT) + sorted(READ)
KINDS = {"ImmutableList": wrappers.ImmutableList, "Cursor": wrappers.Cursor}
SHORT = ["Outline", "BorderTop", "BorderRight", "BorderBottom", "BorderLeft", "Border"]
KEYS = {
    "Outline": ["outline_color", "outline_style", "outline_width"],
    "Border": ["border_width", "border_style", "border_color"],
}
for _s in ("Top", "Right", "Bottom", "Left"):
    KEYS["Border" + _s] = [f"border_{_s.lower()}_{k}" for k in ("width", "style", "color")]
# names near the valid ones: every part of one, and variations
NEAR = {n: sorted({k[i:j] for k in ks for i in range(len(k)) for j in range(i + 1, len(k) + 1) if i == 0 or j == len(k)}
                  | {v for k in ks for v in (k.upper(), k.title(), k + "_", "_" + k, k + "s", k.replace("_", "-"), k.replace("_", ""), k.split("_")[-1])}
                  | {"foo", "VALID_KEYS", "to_dict", "values", "x"}) for n, ks in KEYS.items()}
LEN = [(1, "px"), (2, "px"), (1, "em"), (1, "vmin"), (1, "vmax")]
UVALS = [0, 1, 2, -1, 0.5, 1.0, 1.5, 100, 1e-9, 1 + 2**-40, 2**53, 2**53 + 1, -0.0, 1e22]
UKINDS = ru.LENGTH_SUFFIXES + ["deg", "grad", "rad", "turn"]


def pool():
    return [t for d in range(4) for t in product(ITEMS, repeat=d)]


def cases(tier):
    for k in KINDS:
        for t in pool():
            yield ("index", k, t)
        for t in pool():
            yield ("eqlist", k, t)
    for k in SHORT:
        for r in range(4):
            for ks in combinations(range(3), r):
                for v in range(len(VALS)):
                    yield ("short", k, ks, v)
    for u in UKINDS:
        for v in UVALS:
            yield ("unit", v, u)
    for t in product(range(len(LEN)), repeat=4):
        yield ("rect", t)
    for d in (1, 2):
        for t in product(("<", ">", "ab"), repeat=2 * d):
            yield ("quotes", t)
    depth = 3
    for d in range(1, depth + 1):
        for ops in product(range(len(OPS)), repeat=d):
            yield ("ops", tuple(OPS[i] for i in ops), tier)


def view(x):
    return (list(x), len(x), hash(x), str(x), repr(x), tuple(x[i] for i in range(len(x))))


STARTS = [("a",), (), ("b", "a"), ("a", 1, "b")]
VALS = [("v0", "v1", "v2"), (None, 0, ""), (0, None, "v"), ("", False, None)]


def check(case, rec):
    kind = case[0]
    if kind == "ops":
        for kn, cls in KINDS.items():
            for start in STARTS if case[2] == "quick" else pool():
                x = cls(start)
                if list(x) != list(start):
                    rec.fail(f"{kn}({start!r}) holds {list(x)}")
                before = view(x)
                for name in case[1]:
                    rec.ops += 1
                    if name in MUT:
                        try:
                            MUT[name](x)
                            got = "no exception"
                        except TypeError:
                            got = None
                        except Exception as e:
                            got = type(e).__name__
                        if got and not (name == "x[::2]=" and not start):
                            rec.fail(f"{kn}({start!r}): {name} gives {got}, expected TypeError")
                    else:
                        r = READ[name](x)
                        if name == "copy" and (type(r) is not cls or r != x or list(r) != list(start) or hash(r) != hash(x)):
                            rec.fail(f"{kn}({start!r}).copy() is {r!r}")
                    if view(x) != before:
                        rec.fail(f"{kn}({start!r}): {name} changed it to {x!r}")
                rec.state((kn, start, case[1]))
    elif kind == "index":
        _, kn, t = case
        x = KINDS[kn](t)
        for i in range(-6, 7):
            rec.ops += 1
            try:
                got = ("ok", x[i])
            except IndexError:
                got = ("index",)
            want = ("ok", t[i]) if -len(t) <= i < len(t) else ("index",)
            if got != want:
                rec.fail(f"{kn}({t!r})[{i}] gives {got}, expected {want}")
        for i in range(-4, 5):
            for j in range(-4, 5):
                if list(x[i:j]) != list(t[i:j]):
                    rec.fail(f"{kn}({t!r})[{i}:{j}] gives {x[i:j]!r}")
        if len(x) != len(t) or list(x) != list(t):
            rec.fail(f"{kn}({t!r}) holds {list(x)}")
        src = list(t)
        y = KINDS[kn](src)
        src.append("later")
        if list(y) != list(t):
            rec.fail(f"{kn} follows changes of the list it was built from")
        rec.state(("index", kn, t))
    elif kind == "eqlist":
        _, kn, t = case
        x = KINDS[kn](t)
        for u in pool():
            y = KINDS[kn](u)
            rec.ops += 1
            if (x == y) is not (t == u) or (x != y) is (t == u):
                rec.fail(f"{kn}({t!r}) == {kn}({u!r}) is {x == y}")
            if t == u and hash(x) != hash(y):
                rec.fail(f"equal {kn}({t!r}) hash differently")
        rec.state(("eqlist", kn, t))
    elif kind == "rect":
        t = case[1]
        mk = lambda t: Rect(*[LEN[i][0] * getattr(real_units, LEN[i][1]) for i in t])
        a = mk(t)
        for u in product(range(len(LEN)), repeat=4):
            b = mk(u)
            rec.ops += 1
            if (a == b) is not (t == u) or (a != b) is (t == u):
                rec.fail(f"{a} == {b} is {a == b}")
        for o in (None, "x", str(a), tuple(t), Quotes([("<", ">")])):
            if a == o:
                rec.fail(f"{a} equals {o!r}")
        rec.state(("rect", t))
    elif kind == "unit":
        _, v, u = case
        a = real(("!unit", v, u))
        for w in UKINDS:
            for x in UVALS:
                b = real(("!unit", x, w))
                rec.ops += 1
                if (a == b) is not (u == w and v == x) or (a != b) is (u == w and v == x):
                    rec.fail(f"{v}{u} == {x}{w} is {a == b}, != is {a != b}")
        for o in (None, "x", str(a), (v, u), [a], Quotes([("<", ">")]), Rect(a, a, a, a), {}, str(v)):
            if a == o:
                rec.fail(f"{v}{u} equals {o!r}")
        if canon(a) != ("unit", v + 0.0, u):
            rec.fail(f"{v}{u} became {canon(a)!r} by comparisons")
        rec.state(case)
    elif kind == "quotes":
        t = case[1]
        mk = lambda t: Quotes([tuple(t[i:i + 2]) for i in range(0, len(t), 2)])
        a = mk(t)
        for d in (1, 2):
            for u in product(("<", ">", "ab"), repeat=2 * d):
                b = mk(u)
                rec.ops += 1
                if (a == b) is not (t == u) or (a != b) is (t == u):
                    rec.fail(f"{a} == {b} is {a == b}")
        text = " ".join(repr(x) for x in t)
        if not (real_parser.quotes(text) == a) or not (real_parser.quotes(list(t)) == a):
            rec.fail(f"quotes parsed from {text} differ from {a!r}")
        if len(a) != len(t) // 2:
            rec.fail(f"{a!r} has length {len(a)}")
        for i in range(len(a)):
            if (a.opening(i), a.closing(i)) != tuple(t[2 * i:2 * i + 2]):
                rec.fail(f"{a!r} level {i}: {a.opening(i)!r} {a.closing(i)!r}")
        for i in range(len(a), len(a) + 3):
            for f in (a.opening, a.closing):
                try:
                    f(i)
                    rec.fail(f"{a!r} has a level {i}")
                except IndexError:
                    pass
        for o in (None, "x", str(a), list(t)):
            if a == o:
                rec.fail(f"{a} equals {o!r}")
        rec.state(("quotes", t))
    else:
        _, kn, ks, vi = case
        cls = getattr(wrappers, kn)
        keys = [KEYS[kn][i] for i in ks]
        want = {k: VALS[vi][i] for i, k in enumerate(keys)}
        first = cls(**want)
        for p in permutations(keys):
            x = cls(**{k: want[k] for k in p})
            rec.ops += 1
            if dict(x.to_dict()) != want or x != first or not (x == first) or str(x) != str(first):
                rec.fail(f"{kn}{p} reports {dict(x.to_dict())}, expected {want}")
            for k in p:
                if getattr(x, k) != want[k]:
                    rec.fail(f"{kn}.{k} is {getattr(x, k)!r}")
        for other in SHORT:
            if other != kn:
                for k in [k for k in KEYS[other] + NEAR[kn] if k not in KEYS[kn]]:
                    for order in (0, 1):
                        kw = {**want, k: "w"} if order == 0 else {k: "w", **want}
                        rec.ops += 1
                        try:
                            y = cls(**kw)
                            rec.fail(f"{kn} accepts the key {k} of {other}: {y!r}")
                        except ValueError:
                            pass
                if not want and first == getattr(wrappers, other)():
                    rec.fail(f"empty {kn} equals empty {other}")
        # equality with every other subset and with changed values
        for r in range(4):
            for ls in combinations(range(3), r):
                o = {KEYS[kn][i]: VALS[vi][j] for j, i in enumerate(ls)}
                y = cls(**o)
                rec.ops += 1
                if (first == y) is not (o == want) or (first != y) is (o == want):
                    rec.fail(f"{first!r} == {y!r} is {first == y}")
        for k in keys:
            y = cls(**{**want, k: "other"})
            if first == y:
                rec.fail(f"{first!r} == {y!r}")
        for o in (None, "x", want):
            if first == o:
                rec.fail(f"{first!r} equals {o!r}")
        if dict(first.to_dict()) != want:
            rec.fail(f"{kn} changed by comparisons")
        d = first.to_dict()
        d["x"] = 1
        if dict(first.to_dict()) != want:
            rec.fail(f"{kn} follows changes of its to_dict() result")
        rec.state(("short", kn, ks, vi))
