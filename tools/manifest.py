"""Writes MANIFEST.json from the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, "/repo/src"]
sys.dont_write_bytecode = True
TECH = {
    "C01": "exhaustive enumeration of (longhand, value, prior state, route) on the real code against a reference value table",
    "C02": "explicit-state exploration of operation histories on the real declaration, replayed on a reference map",
    "C03": "exhaustive enumeration of shorthand values and prior states on the real code against a reference expansion",
    "C04": "explicit-state exploration of copy/change histories on the real code against independent reference maps",
    "C05": "explicit-state exploration of change histories on real node trees against a reference dirtiness model",
    "C06": "exhaustive enumeration of declarations, rendered and re-parsed by the real code",
    "C07": "exhaustive enumeration of a unit x magnitude x context grid against exact rational arithmetic",
    "C08": "exhaustive enumeration of all strings to a length bound and of parse/create histories against a reference grammar",
    "C09": "exhaustive enumeration of colour texts to bounds against a reference grammar and table",
    "C10": "exhaustive enumeration of a hue x saturation x lightness grid against exact rational arithmetic",
    "C11": "exhaustive enumeration of token sequences to a length bound against reference grammars",
    "C12": "exhaustive enumeration of operation sequences to a depth bound on the real immutable values",
    "C13": "explicit-state exploration of box operation sequences against a reference geometry model",
    "C14": "exhaustive cross product of horizontal styles against a reference solution of CSS 2.1 10.3.3",
    "C15": "exhaustive enumeration of trees and style deviations against a reference block-flow model",
    "C16": "explicit-state exploration of change/layout histories, every layout compared with a freshly built tree",
    "C17": "exhaustive enumeration of hidden sets and explicit-state exploration of hide/show histories against the pruned tree",
    "C18": "exhaustive enumeration of trees and offsets against a reference block-flow model with relative offsets",
    "C19": "exhaustive enumeration of root and child style deviations, displays and standards against a reference model",
    "C20": "exhaustive cross product of styles and intrinsic sizes against reference sizing rules",
    "C21": "exhaustive enumeration of length values in every slot of a tree pool, each compared with its pixel equivalent",
    "C22": "exhaustive exploration of interleavings of tree programs and of preemption-bounded thread schedules on the real code",
    "C23": "exhaustive enumeration of unsupported features, places and child sequences on the real code",
    "C24": "exhaustive enumeration of validators, bounds and sets of choices x value alphabets on the real code against a reference table",
    "C25": "exhaustive enumeration of inert properties, values, places and accompanying styles, each layout compared with the one without them",
    "C26": "exhaustive enumeration of values, pairs, shapes and displays on the real code, every box monitored for finite numbers",
    "C27": "exhaustive enumeration of refused values, names, printed values and boxes on the real code against reference lists and components",
    "C28": "exhaustive enumeration of styles, operations and texts at doubling sizes on the real code, every executed line and call counted",
}
checks = []
for cid, tech in sorted(TECH.items()):
    m = importlib.import_module("mc.checks." + cid.lower())
    assert m.ID == cid
    checks.append(dict(
        property=cid, quick_cmd=f"python3 mc/run.py {cid} --tier quick", thorough_cmd=f"python3 mc/run.py {cid} --tier thorough",
        evidence_file=f"evidence/{cid}.json", technique="model checking: " + tech, level="model_checking",
        level_note="Complete within the stated bounds, on the implementation itself (no abstraction to trust but the reference model in mc/). "
                   "Quick: " + m.BOUNDS["quick"] + ". Thorough: " + m.BOUNDS["thorough"] + ". Says nothing beyond these bounds, nor about inputs DESIGN.md lists as outside the statement."))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert props == [c["property"] for c in checks], (props, [c["property"] for c in checks])
json.dump(dict(version=1, setup_cmd="python3 -c \"import ast,glob; [ast.parse(open(f).read()) for f in glob.glob('mc/**/*.py', recursive=True)]\"",
               checks=checks, not_applicable=[],
               notes="No hooks in /repo: the checks drive the library through its public interface. Repairs are the 'fix:' commits; findings in known-findings.jsonl."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
