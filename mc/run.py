"""run.py ID [--tier quick|thorough]      decide property ID
   run.py ID --replay FILE               re-run one recorded counterexample"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import core  # noqa: E402


def main(argv):
    cid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--meta" in argv:
        m = core.load(cid)
        print(json.dumps(dict(
            hash_seeds=getattr(m, "HASH_SEEDS", [0]), rule=m.RULE, bounds=m.BOUNDS,
            assumptions=getattr(m, "ASSUMPTIONS", []))))
        return 0
    if "--worker" in argv:
        i = argv.index("--worker")
        core.worker(cid, tier, int(argv[i + 1]), int(argv[i + 2]), argv[i + 3])
        return 0
    if "--replay" in argv:
        return core.replay(cid, argv[argv.index("--replay") + 1])
    seed = int(os.environ.get("VERIF_SEED") or 0)
    return core.main(cid, tier, seed)


sys.exit(main(sys.argv[1:]))
