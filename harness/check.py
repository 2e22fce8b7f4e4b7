"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--case N]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def run():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case", type=int, help="replay this one case")
    # for the worker processes of a check
    ap.add_argument("--lane", type=int)
    ap.add_argument("--total", type=int)
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--out")
    a = ap.parse_args()
    import common

    modname = "p_" + a.property.lower()
    lane = a.lane if a.lane is not None else (a.case or 0) % common.LANES
    want = common.hash_seed(a.seed, lane)
    if os.environ.get("PYTHONHASHSEED") != want:
        env = dict(os.environ, PYTHONHASHSEED=want, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPYCACHEPREFIX="/opt/vp/no-pycache", PYTHONUTF8="1")
        env.pop("PYTHONPATH", None)
        os.execve(sys.executable, [sys.executable, *sys.argv], env)
    if a.lane is not None:
        return common.run_lane(modname, a.property, a.tier, a.seed, a.lane, a.total, a.deadline, a.out)
    if a.case is not None:
        import importlib

        ctx = common.Ctx(a.property, a.tier, a.seed)
        bad = common.run_case(importlib.import_module(modname), ctx, a.case)
        for line in ctx.log:
            print("  ", line)
        print(bad and (bad["message"] + "\n" + bad.get("traceback", "")) or "no violation")
        return 1 if bad else 0
    return common.main(modname, a.property, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(run())
