"""C23: unsupported layout is refused, never silently skipped."""
from itertools import product

from colosseum.constants import HTML4

from ..world import Display, at, build, real_layout, tree_geom, walk

ID = "C23"
RULE = ("un: every unsupported feature x every place in every host tree x every other style of the pool x both standards: "
        "the layout must raise; after the feature is removed the tree lays out like a fresh one, also after several refused "
        "attempts; ok: the supported displays in the same places are laid out with a size; mix: every sequence up to the "
        "length bound of block, inline, inline replaced, hidden and unsupported children: laid out completely or refused. "
        "Dropped trailing inline-level children are known finding K6")
BOUNDS = dict(quick="54 features, 16 places, 18 styles, both standards; child sequences of length <= 4 over 6 kinds",
              thorough="child sequences of length <= 5 over 8 kinds, at two depths; pairs of features")

B = "block"
DISPLAY_BAD = ["inline-block", "inline-table", "table-row-group", "table-header-group", "table-footer-group", "table-row", "table-column-group",
               "table-column", "table-cell", "table-caption", "flex", "inline-flex", "grid", "inline-grid"]
FEATURES = [({"display": d}, {}) for d in DISPLAY_BAD] + [
    ({"float": "left"}, {}), ({"float": "right"}, {}), ({"position": "absolute"}, {}), ({"position": "fixed"}, {}), ({}, {"is_replaced": True})]
SIZED = {"width": 5, "height": 6}
FEATURES += [({"display": d}, {"is_replaced": True, **SIZED}) for d in DISPLAY_BAD]
FEATURES += [({"display": d, **s}, {**SIZED, **r}) for d in ("inline", "list-item")
             for s in ({"float": "left"}, {"float": "right"}, {"position": "absolute"}, {"position": "fixed"}) for r in ({}, {"is_replaced": True})]
FEATURES += [(s, {"is_replaced": True, **SIZED}) for s in ({"float": "left"}, {"position": "absolute"}, {"position": "fixed"}, {"display": "list-item"}, {"position": "relative"})]
STYLES = [{}, {"width": 50}, {"width": 50, "height": 20}, {"margin_left": "auto"}, {"margin_top": 5, "margin_bottom": 6}, {"left": 3, "top": 4},
          {"min_width": 10, "max_width": 90}, {"direction": "rtl"}, {"height": 0, "width": 0}, {"clear": "both"}, {"visibility": "hidden"},
          {"overflow": "hidden", "z_index": 1}, {"min_height": 5}, {"position": "relative"}, {"position": "relative", "left": 3, "top": -4, "width": 7},
          {"width": ("!unit", 50, "%"), "padding_left": ("!unit", 1, "in")}, {"border_top_width": "thick", "border_top_style": "solid"}, {"float": "none", "position": "static"}]
LEAF = ({"display": B, "height": 10}, {}, [])

B_ = {"display": B}


def hosts(me):
    """(name, spec, path of the node)"""
    yield "root", me, ()
    yield "root+kids", (me[0], me[1], [LEAF, LEAF]), ()
    yield "only", ({"display": B}, {}, [me]), (0,)
    yield "only+kid", ({"display": B}, {}, [(me[0], me[1], [LEAF])]), (0,)
    yield "first", ({"display": B}, {}, [me, LEAF]), (0,)
    yield "middle", ({"display": B}, {}, [LEAF, me, LEAF]), (1,)
    yield "last", ({"display": B}, {}, [LEAF, me]), (1,)
    yield "nested", ({"display": B}, {}, [({"display": B}, {}, [me]), LEAF]), (0, 0)
    yield "nested2", ({"display": B}, {}, [LEAF, ({"display": "list-item", "height": 40}, {}, [LEAF, me])]), (1, 1)
    yield "in inline", ({"display": B}, {}, [({}, {"width": 5, "height": 5}, [me])]), (0, 0)
    deep = me
    for i in range(6):
        deep = ({"display": B if i % 2 else "list-item"}, {}, [deep])
    yield "deep", deep, (0,) * 6
    deep = (B_, {}, [LEAF, me])
    for i in range(3):
        deep = (B_, {}, [LEAF, deep, LEAF])
    yield "deep2", deep, (1,) * 4
    yield "ninth", (B_, {}, [LEAF] * 8 + [me] + [LEAF] * 3), (8,)
    yield "twelfth", (B_, {}, [(B_, {}, [LEAF] * 11 + [me])]), (0, 11)
    yield "sized", ({"display": B, "width": 100, "height": 50, "position": "relative", "left": 3}, {}, [({"display": B, "min_height": 9, "max_width": 50}, {}, [me, LEAF])]), (0, 0)
    yield "after hidden", ({"display": B}, {}, [({"display": "none"}, {}, []), me, ({"display": "none"}, {}, [])]), (1,)


PLACES = [h[0] for h in hosts(LEAF)]
KINDS = {
    "b": ({"display": B, "height": 11}, {}, []),
    "i": ({}, {"width": 30, "height": 12}, []),
    "h": ({"display": "none"}, {}, []),
    "x": ({"display": "inline-block", "width": 13}, {}, []),
    "f": ({"display": B, "float": "left", "width": 14}, {}, []),
    "r": ({}, {"is_replaced": True, "width": 15, "height": 16}, []),
    "g": ({"display": "flex", "width": 17}, {}, []),
    "a": ({"display": B, "position": "absolute"}, {}, []),
}


def cases(tier):
    for f in range(len(FEATURES)):
        for s in range(len(STYLES)):
            for p in PLACES:
                yield ("un", f, s, p)
    for d in ("block", "list-item", "inline"):
        for s in range(len(STYLES)):
            for p in PLACES:
                yield ("ok", d, s, p)
    kinds = "bihxfr" if tier == "quick" else "bihxfrga"
    for n in range(1, 5 if tier == "quick" else 6):
        for seq in product(kinds, repeat=n):
            yield ("mix", "".join(seq), 0)
            if tier == "thorough" or n <= 3:
                yield ("mix", "".join(seq), 1)
    if tier == "thorough":
        for f, g in product(range(len(FEATURES)), repeat=2):
            yield ("pair", f, g)


def lay(node, std):
    """None when laid out, else the exception type."""
    try:
        if std == "html5":
            real_layout(Display(640, 480), node)
        else:
            real_layout(Display(640, 480), node, standard=HTML4)
        return None
    except Exception as e:
        return type(e).__name__


def dropped(spec, path=()):
    """Paths of the nodes known finding K6 loses: inline-level children (anything
    that is not block-level) after the last block-level child."""
    style, intr, kids = spec
    if style.get("display", "inline") == "none":
        return []
    out = []
    shown = [(i, k) for i, k in enumerate(kids) if k[0].get("display", "inline") != "none"]
    blockish = [k[0].get("display", "inline") in (B, "list-item", "table") for _, k in shown]
    container = style.get("display", "inline") in (B, "list-item", "inline-block", "table-cell", "table-caption") and not intr.get("is_replaced")
    tail = set()
    if container and any(blockish):
        for (i, k), b in zip(reversed(shown), reversed(blockish)):
            if b:
                break
            tail.add(i)
    for i, k in shown:
        if i in tail:
            out.append(path + (i,))
        else:
            out += dropped(k, path + (i,))
    return out


def under(path, roots):
    return any(path[: len(r)] == r for r in roots)


def feature_node(f, s):
    fs, fi = FEATURES[f]
    return ({"display": B, "height": 9, **STYLES[s], **fs}, dict(fi), [])


def check(case, rec):
    kind = case[0]
    if kind == "un":
        _, f, s, place = case
        me = feature_node(f, s)
        spec, path = next((h[1], h[2]) for h in hosts(me) if h[0] == place)
        for std in ("html5", "html4"):
            node = build(spec)
            r = lay(node, std)
            rec.ops += 1
            label = f"{FEATURES[f]} with {STYLES[s]} as {place}"
            if r is None:
                if under(path, dropped(spec)):
                    rec.known("K6", f"{label} is skipped")
                    return
                rec.fail(f"{label}: laid out without complaint ({std}): {tree_geom(node)!r}")
            rec.state((f, place, r))
            if lay(node, std) is None:
                rec.fail(f"{label}: accepted by the second layout ({std})")
            # removing the feature makes the tree layable again
            n = at(node, path)
            for k in FEATURES[f][0]:
                if k == "display":
                    n.style.display = B
                else:
                    delattr(n.style, k)
            if FEATURES[f][1]:
                n.intrinsic.is_replaced = False
            clean = ({k: v for k, v in me[0].items() if k not in FEATURES[f][0] or k == "display"}, {}, [])
            clean[0]["display"] = B
            want = next(h[1] for h in hosts(clean) if h[0] == place)
            ref = build(want)
            a, b = lay(node, std), lay(ref, std)
            rec.ops += 2
            if b is not None and place != "in inline":
                rec.fail(f"{want!r} refused: {b}")
            if (a is None) != (b is None) or a is None and tree_geom(node) != tree_geom(ref):
                rec.fail(f"{label}: after the feature is removed {a}, {tree_geom(node)!r}; a fresh tree {b}, {tree_geom(ref)!r}")
    elif kind == "pair":
        _, f, g = case
        spec = ({"display": B}, {}, [({"display": B}, {}, [feature_node(f, 0)]), ({"display": B}, {}, [feature_node(g, 1)])])
        node = build(spec)
        r = lay(node, "html5")
        rec.ops += 1
        if r is None:
            rec.fail(f"{FEATURES[f]} and {FEATURES[g]}: laid out without complaint")
        n = at(node, (0, 0))
        n.style.display = "none"
        if lay(node, "html5") is None:
            rec.fail(f"{FEATURES[g]} laid out once {FEATURES[f]} is hidden")
        at(node, (1, 0)).style.display = "none"
        r = lay(node, "html5")
        if r is not None:
            rec.fail(f"hidden {FEATURES[f]} and {FEATURES[g]} refused: {r}")
        rec.state((f, g))
    elif kind == "ok":
        _, d, s, place = case
        me = ({"display": d, "height": 9, **STYLES[s]}, {"width": 21, "height": 22} if d == "inline" else {}, [])
        spec, path = next((h[1], h[2]) for h in hosts(me) if h[0] == place)
        if d == "inline" and place in ("first", "middle", "last", "nested2", "root+kids", "only+kid", "deep2", "ninth", "twelfth", "sized"):
            return rec.skip()  # mixed children: mix
        node = build(spec)
        r = lay(node, "html5")
        rec.ops += 1
        if r is not None:
            rec.fail(f"{d} with {STYLES[s]} as {place} refused: {r}")
        complete(node, spec, rec, f"{d} with {STYLES[s]} as {place}", ())
        rec.state((d, place, s))
    else:
        _, seq, depth = case
        kids = [KINDS[k] for k in seq]
        spec = ({"display": B}, {}, kids)
        base = ()
        if depth:
            spec = ({"display": B}, {}, [LEAF, ({"display": B}, {}, kids), LEAF])
            base = (1,)
        for std in ("html5", "html4"):
            node = build(spec)
            r = lay(node, std)
            rec.ops += 1
            rec.state((seq, depth, r))
            if r is not None:
                if set(seq) <= set("bh") or set(seq) <= set("irh"):
                    rec.fail(f"children {seq} refused: {r}")
                continue
            lost = dropped(spec)
            for i, k in enumerate(seq):
                if k in "xfga" and not under(base + (i,), lost):
                    rec.fail(f"children {seq}: the unsupported child {i} is skipped")
            if any(under(base + (i,), lost) for i, k in enumerate(seq) if k in "xfgair"):
                # known only if the inline children really are lost
                if complete(node, spec, None, "", lost) and not any(k in "xfga" for k in seq):
                    continue
                rec.known("K6", f"children {seq}: those after the last block are skipped")
                complete(node, spec, rec, f"children {seq}", lost)
            else:
                complete(node, spec, rec, f"children {seq}", ())


def complete(node, spec, rec, label, lost, path=()):
    """Every displayed node (not below lost ones) has a box of its own size."""
    ok = True
    style, intr, kids = spec
    if style.get("display", "inline") == "none":
        return True
    if path and rec is not None and under(path, lost):
        return True
    b = node.layout
    want = intr.get("width") if style.get("display", "inline") == "inline" else style.get("height") if path else None
    if b is None:
        ok = False
    elif want is not None:
        have = b.content_width if style.get("display", "inline") == "inline" else b.content_height
        if style.get("display", "inline") != "inline" and ("min_height" in style or "max_height" in style):
            have = want
        ok = have == want
    if not ok:
        if rec is not None:
            rec.fail(f"{label}: node {path} was not laid out: {b!r}")
        return False
    return all([complete(c, k, rec, label, lost, path + (i,)) for i, (c, k) in enumerate(zip(node.children, kids))])
