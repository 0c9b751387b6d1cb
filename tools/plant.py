"""Plant bugs: plant.py SPEC.py [id ...]

SPEC.py defines BUGS = {id: dict(prop, file, subs=[(old, new), ...], needs, breaks, demo)}. Each bug is made in a scratch copy
of /repo, kept under /verif/seeded/<id> when the tests still pass, the demonstration passes without it and fails with it, and
the changed lines are original ones. Prints which of these fail."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "--grep", "^base$"], text=True).split()[-1]
HELP = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
sys.dont_write_bytecode = True
from colosseum import CSS, units, parser, colors, wrappers, constants
from colosseum.constants import *
from colosseum.units import *
from colosseum.dimensions import Box, Size
from colosseum.engine import layout


class Display:
    def __init__(self, w=640, h=480, dpi=96):
        self.content_width, self.content_height, self.dpi = w, h, dpi

    def fixed_size(self, value):
        return {"thin": 1, "medium": 5, "thick": 10}[value]


class Node:
    def __init__(self, *children, intrinsic=None, **style):
        self.parent, self.children = None, list(children)
        self.intrinsic, self.layout = Size(self), Box(self)
        for k, v in (intrinsic or {}).items():
            setattr(self.intrinsic, k, v)
        style.setdefault("display", "block")
        self.style = CSS()
        self.style._node = self
        for k, v in style.items():
            setattr(self.style, k, v)
        for c in children:
            c.parent = self


def rejects(f, *a):
    try:
        f(*a)
    except ValueError:
        return True
    return False


'''


def one(bid, b):
    w = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        r = w + "/repo"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        files = b["subs"] if isinstance(b["subs"], dict) else {b["file"]: b["subs"]}
        base_ok = True
        for f, subs in files.items():
            p = f"{r}/src/colosseum/{f}"
            s = open(p).read()
            for old, new in subs:
                if s.count(old) != 1:
                    return bid, f"EDIT: {s.count(old)} matches of {old[:60]!r} in {f}"
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
        for f in files:
            orig = set(subprocess.check_output(["git", "-C", "/repo", "show", f"{BASE}:src/colosseum/{f}"], text=True).splitlines())
            gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            if not gone or not any(l in orig for l in gone if l.strip()):
                base_ok = False
        d = w + "/demo"
        os.mkdir(d)
        open(d + "/demo.py", "w").write(HELP + b["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        env = dict(os.environ, PYTHONPATH="")
        clean = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", env=env, capture_output=True, text=True)
        bad = subprocess.run(["bash", d + "/demo.sh"], cwd=r, env=env, capture_output=True, text=True)
        if clean.returncode != 0:
            return bid, "DEMO fails on the clean tree: " + clean.stderr[-300:]
        if bad.returncode == 0:
            return bid, "DEMO passes with the bug"
        if "AssertionError" not in bad.stderr and not b.get("raises"):
            return bid, "DEMO fails otherwise: " + bad.stderr[-300:]
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--no-header", "tests"], cwd=r,
                           env=dict(os.environ, PYTHONPATH=r + "/src"), capture_output=True, text=True)
        tail = t.stdout.strip().splitlines()[-1]
        if "747 passed, 2060 xfailed" not in tail:
            fl = [l for l in t.stdout.splitlines() if l.startswith("FAILED")]
            return bid, "TESTS: " + tail + " " + (fl[0][:150] if fl else "")
        # bugs in lines of our own fixes do not count, but are worth hunting
        out = f"{V}/seeded/{bid}" if base_ok else f"/tmp/extra/{bid}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(f"{d}/{f}", out)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
        return bid, "ok" if base_ok else "LINES not original: /tmp/extra"
    finally:
        shutil.rmtree(w)


bugs = runpy.run_path(sys.argv[1])["BUGS"]
want = sys.argv[2:] or list(bugs)
with ThreadPoolExecutor(6) as ex:
    for bid, msg in ex.map(lambda i: one(i, bugs[i]), want):
        print(bid, msg, flush=True)
