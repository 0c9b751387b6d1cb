"""C01: every longhand x every value of the alphabet x every prior state."""
from .. import obs
from .. import ref_css as rc
from ..world import CSS, Node, call, canon, real

ID = "C01"
RULE = ("case = (longhand, literal value); inside a case every prior state of the longhand (unset, set to each of "
        "two other accepted values, set then deleted, another property declared, bound to a clean two-level tree) is "
        "built afresh and the value assigned through the attribute, the item and the update route; the outcome is "
        "compared with the reference table")
BOUNDS = dict(quick="66 longhands x alphabet of 290 values x 6 prior states x 3 routes, and 1000 more (far and fine numbers, misspelt keywords) on 2 prior states",
              thorough="as quick, with every accepted value of the longhand as prior state")
ASSUMPTIONS = ["values outside the stated domain (booleans, bytes, floats for integers, white space and non-ASCII digits "
               "in numbers, negative widths, percent borders) get no verdict"]


def cases(tier):
    for name in rc.LONGHANDS:
        for v in rc.ALPHABET:
            if rc.judge(name, v) is not rc.UNKNOWN:
                yield (name, v, tier)
        for v in rc.EXTENDED:
            if rc.judge(name, v) is not rc.UNKNOWN:
                yield (name, v, tier if tier == "thorough" else "brief")


ROUTES = {
    "attr": lambda css, n, v: setattr(css, n, v),
    "item": lambda css, n, v: css.__setitem__(n.replace("_", "-"), v),
    "update": lambda css, n, v: css.update(**{n: v}),
}


def check(case, rec):
    name, v, tier = case
    want = rc.judge(name, v)
    others = [a for a in rc.accepted(name, None if tier == "thorough" else 2)]
    other_prop = "overflow" if name != "overflow" else "visibility"
    other_val = "hidden"
    priors = [()] + [(("set", lit, c),) for lit, c in others] + [(("set",) + others[-1], ("del",))] + [(("other",),)]
    for prior in priors:
        for route, assign in ROUTES.items():
            if route == "update" and v is None:
                continue
            if tier == "brief" and (prior not in priors[:2] or (route == "attr") != (prior == ())):
                continue
            if route != "attr" and tier != "thorough" and prior not in priors[:2]:
                continue
            root = Node()
            child = Node()
            root.children.append(child)
            child.parent = root
            css, state = root.style, {}
            for step in prior:
                if step[0] == "set":
                    setattr(css, name, real(step[1]))
                    state[name] = step[2]
                elif step[0] == "del":
                    delattr(css, name)
                    state.pop(name, None)
                else:
                    setattr(css, other_prop, other_val)
                    state[other_prop] = other_val
            root.layout.dirty = False
            before = obs.snapshot(css)
            res = call(assign, css, name, real(v))
            rec.op()
            where = f"{name} = {v!r} via {route} after {prior!r}"
            if want == rc.REJECT:
                if res[0] == "ok":
                    rec.fail(f"{where}: accepted as {canon(getattr(css, name))!r}, must be refused")
                if not res[2]:
                    rec.fail(f"{where}: raised {res[1]} instead of ValueError")
                if obs.snapshot(css) != before:
                    rec.fail(f"{where}: refused, but the declaration changed from {before} to {obs.snapshot(css)}")
                if root.layout.dirty is not False or child.layout.dirty is not False:
                    rec.fail(f"{where}: refused, but the layout is dirty")
                rec.state((name, "reject", prior))
            else:
                if res[0] != "ok":
                    rec.fail(f"{where}: raised {res[1]}, must store {want!r}")
                state[name] = want
                for got in (getattr(css, name), css[name], css[name.replace("_", "-")]):
                    if canon(got) != want:
                        rec.fail(f"{where}: stored {canon(got)!r}, expected {want!r}")
                if route == "attr" or tier == "thorough":
                    obs.agree(css, state, rec, where)
                rec.state((name, want, len(prior)))
