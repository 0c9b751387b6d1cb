"""Exploration core: partition the case space over worker processes, run every
case on the real code, merge counters, report.

A check module provides
  ID, RULE (text), HASH_SEEDS (optional list of PYTHONHASHSEED values the whole
  space is repeated under), ASSUMPTIONS (optional)
  cases(tier)            -> iterator over literal (ast.literal_eval-able) cases,
                            simplest first; deterministic
  check(case, rec)       -> drives the real code and the reference model, calls
                            rec.op(n)    n transitions executed on the real code and compared
                            rec.state(x) canonical state/outcome reached
                            rec.fail(m)  property broken
                            rec.known(k) deviation that is exactly known finding k
                            rec.skip()   case outside the stated domain
"""
import ast
import hashlib
import json
import os
import pickle
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
CASE_TIMEOUT = 60
MAX_VIOLATIONS = 5


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    pass


def h64(x):
    return hashlib.blake2b(repr(x).encode("utf8", "surrogatepass"), digest_size=8).digest()


class Recorder:
    def __init__(self, known_ids=()):
        self.ops = 0
        self.cases = 0
        self.skipped = 0
        self.states = set()
        self.knowns = {}
        self.violations = []
        self.samples = []
        self.known_ids = set(known_ids)
        self.case = None
        self._skip = False

    def op(self, n=1):
        self.ops += n

    def state(self, x):
        self.states.add(h64(x))

    def skip(self):
        self._skip = True

    def known(self, key, detail=None):
        if key not in self.known_ids:
            raise Violation(f"{key}: {detail}")
        e = self.knowns.setdefault(key, [0, None])
        e[0] += 1
        if e[1] is None:
            e[1] = f"{self.case!r}: {detail}"

    def fail(self, msg):
        raise Violation(msg)

    def eq(self, got, want, msg=""):
        if got != want:
            raise Violation(f"{msg}: got {got!r}, expected {want!r}")


def _alarm(*_):
    raise CaseTimeout(f"case did not end within {CASE_TIMEOUT} s")


def run_case(mod, case, rec):
    """Run one case; return None or a violation message."""
    rec.case = case
    rec._skip = False
    signal.alarm(CASE_TIMEOUT)
    try:
        mod.check(case, rec)
        return None
    except (Violation, CaseTimeout) as e:
        return str(e) or repr(e)
    except MemoryError:
        raise
    except Exception as e:  # the real code (or the use of its result) failed
        import traceback

        return "unexpected " + "".join(traceback.format_exception(e))[-3000:]
    finally:
        signal.alarm(0)


def load(check_id):
    import importlib

    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    import colosseum

    assert os.path.realpath(colosseum.__file__).startswith(os.path.realpath(REPO_SRC)), colosseum.__file__
    return importlib.import_module(f"mc.checks.{check_id.lower()}")


class Pristine:
    """Answers calls of a check module's functions in processes that have loaded
    the library but never used it, so that no state the library keeps between
    calls can reach an oracle. A helper process, forked before the first case,
    forks once per call."""

    def __init__(self, mod):
        self.mod = mod
        (r1, self.w), (self.r, w2) = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w), os.close(self.r)
                self.serve(os.fdopen(r1, "rb"), w2)
            finally:
                os._exit(0)
        os.close(r1), os.close(w2)
        self.rf = os.fdopen(self.r, "rb")

    def serve(self, inp, out):
        while True:
            try:
                name, args = pickle.load(inp)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(CASE_TIMEOUT - 10)
                code = 1
                try:
                    try:
                        res = ("ok", getattr(self.mod, name)(*args))
                    except Exception as e:
                        res = ("err", f"{type(e).__name__}: {e}")
                    data = pickle.dumps(res)
                    data = struct.pack("<Q", len(data)) + data
                    while data:
                        data = data[os.write(out, data):]
                    code = 0
                finally:
                    os._exit(code)
            if os.waitpid(pid, 0)[1]:
                data = pickle.dumps(("err", f"{name} did not end"))
                os.write(out, struct.pack("<Q", len(data)) + data)

    def __call__(self, name, *args):
        data = pickle.dumps((name, args))
        while data:
            data = data[os.write(self.w, data):]
        (n,) = struct.unpack("<Q", self.rf.read(8))
        kind, v = pickle.loads(self.rf.read(n))
        if kind == "err":
            raise RuntimeError("oracle: " + v)
        return v


PRISTINE = None


def pristine(name, *args):
    """Result of the check module's function name in an unused process."""
    return PRISTINE(name, *args)


def start(check_id):
    global PRISTINE
    mod = load(check_id)
    if getattr(mod, "USES_PRISTINE", False):
        # check modules import this file as mc.core, however it was started
        sys.modules["mc.core"].PRISTINE = PRISTINE = Pristine(mod)
    return mod


def worker(check_id, tier, shard, nshards, out):
    mod = start(check_id)
    signal.signal(signal.SIGALRM, _alarm)
    rec = Recorder(known_ids(check_id))
    for i, case in enumerate(mod.cases(tier)):
        if i % nshards != shard:
            continue
        rec.cases += 1
        msg = run_case(mod, case, rec)
        if rec._skip:
            rec.skipped += 1
        if msg is not None:
            rec.violations.append((i, repr(case), msg))
            if len(rec.violations) >= MAX_VIOLATIONS:
                break
        elif len(rec.samples) < 2 and not rec._skip and i % 7 == shard % 7:
            rec.samples.append(repr(case)[:600])
    with open(out + ".states", "wb") as f:
        f.write(b"".join(sorted(rec.states)))
    with open(out, "w") as f:
        json.dump(
            dict(
                cases=rec.cases,
                ops=rec.ops,
                skipped=rec.skipped,
                knowns=rec.knowns,
                violations=rec.violations,
                samples=rec.samples,
            ),
            f,
        )


def known_entries():
    res = []
    with open(os.path.join(VERIF, "known-findings.jsonl")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("{"):
                res.append(json.loads(line))
    return res


def known_ids(check_id):
    return [e["key"] for e in known_entries() if e["property"] == check_id and e["status"] == "known"]


def env_for(seed):
    e = dict(os.environ)
    e.update(
        PYTHONHASHSEED=str(seed),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX="/nonexistent/no-pycache",
        PYTHONUTF8="1",
    )
    e.pop("PYTHONPATH", None)
    return e


def main(check_id, tier, seed):
    t0 = time.time()
    mod_meta = subprocess.run(
        [PY, os.path.join(VERIF, "mc", "run.py"), check_id, "--meta"],
        env=env_for(0), capture_output=True, text=True,
    )
    if mod_meta.returncode != 0:
        print(mod_meta.stderr[-3000:], file=sys.stderr)
        return 2
    meta = json.loads(mod_meta.stdout.strip().splitlines()[-1])
    n = max(1, int(os.environ.get("VERIF_JOBS") or os.cpu_count() or 1))
    n = min(n, 16)
    seeds = meta["hash_seeds"]
    # Every hash seed gets the whole case space, divided over n shards.
    jobs = [(s, k) for s in seeds for k in range(n)]
    tmp = tempfile.mkdtemp(prefix="mc-")
    results, statefiles, running, errors = [], [], [], []
    try:
        pending = list(jobs)
        while pending or running:
            while pending and len(running) < n:
                s, k = pending.pop(0)
                out = os.path.join(tmp, f"{s}-{k}.json")
                p = subprocess.Popen(
                    [PY, os.path.join(VERIF, "mc", "run.py"), check_id, "--worker", str(k), str(n), out, "--tier", tier],
                    env=env_for(s), stderr=open(out + ".err", "w"),
                )
                running.append((p, s, k, out))
            for item in list(running):
                p, s, k, out = item
                if p.poll() is not None:
                    running.remove(item)
                    if p.returncode != 0 or not os.path.exists(out):
                        errors.append(open(out + ".err").read()[-3000:])
                    else:
                        r = json.load(open(out))
                        r["hash_seed"], r["shard"] = s, k
                        results.append(r)
                        statefiles.append(out + ".states")
            time.sleep(0.01)
        if errors:
            print("\n".join(errors[:2]), file=sys.stderr)
            return 2
        states = set()
        for f in statefiles:
            b = open(f, "rb").read()
            states.update(x for (x,) in struct.iter_unpack("8s", b))
        viol = sorted((tuple(v) + (r["hash_seed"], r["shard"]) for r in results for v in r["violations"]))
        knowns = {}
        for r in results:
            for k, (c, ex) in r["knowns"].items():
                e = knowns.setdefault(k, [0, ex])
                e[0] += c
        cov = dict(
            states=len(states),
            transitions=sum(r["ops"] for r in results),
            traces_validated_against_impl=sum(r["cases"] - r["skipped"] for r in results),
            samples=[x for r in results for x in r["samples"]][:8],
            out_of_domain_cases=sum(r["skipped"] for r in results),
            hash_seeds=seeds,
            exhaustive=not viol,
            bounds=meta["bounds"][tier],
            rule=meta["rule"],
            known_findings={k: v[0] for k, v in knowns.items()},
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check_id + ".json"), "w") as f:
            json.dump(
                dict(
                    property=check_id, tier=tier, seed=seed, level="model_checking",
                    coverage=cov, assumptions=meta["assumptions"],
                    wall_s=round(time.time() - t0, 2), violations=len(viol),
                ),
                f, indent=1,
            )
        entries = {e["key"]: e for e in known_entries()}
        for k in sorted(knowns):
            print(f"KNOWN-FINDING: property={check_id} {k} {entries[k]['what']} ({knowns[k][0]} explored cases)")
        print(
            f"{check_id} {tier}: states={cov['states']} transitions={cov['transitions']} "
            f"traces={cov['traces_validated_against_impl']} skipped={cov['out_of_domain_cases']} "
            f"wall={time.time() - t0:.1f}s"
        )
        if viol:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            idx, case, msg, hs, shard = viol[0]
            path = os.path.join(d, f"{check_id}.json")
            with open(path, "w") as f:
                json.dump(
                    dict(property=check_id, case=case, message=msg, hash_seed=hs, index=idx, shard=shard, shards=n, tier=tier,
                         replay=f"PYTHONHASHSEED={hs} {PY} {VERIF}/mc/run.py {check_id} --replay {path}",
                         others=[v[1:3] for v in viol[1:6]]),
                    f, indent=1,
                )
            print(f"case: {case}\n{msg}")
            print(f"VIOLATION property={check_id} replay={path}")
            return 1
        return 0
    finally:
        for p, *_ in running:
            p.kill()
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


def replay(check_id, path):
    mod = start(check_id)
    signal.signal(signal.SIGALRM, _alarm)
    d = json.load(open(path))
    case = ast.literal_eval(d["case"])
    rec = Recorder(known_ids(check_id))
    msg = run_case(mod, case, rec)
    if msg is None and "index" in d:
        # it takes what the same process did before
        print("holds alone; replaying the cases before it")
        for i, c in enumerate(mod.cases(d["tier"])):
            if i % d["shards"] == d["shard"]:
                msg = run_case(mod, c, rec)
                if i >= d["index"]:
                    break
    print(case, "->", msg or "holds")
    return 1 if msg else 0
