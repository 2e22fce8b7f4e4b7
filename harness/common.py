"""Shared machinery: the case runner, the evidence writer and the violation reporter.

A check is a set of *cases*.  Case number i of a property, at a seed, is a pure
function of (property, seed, i), so a violation is replayed by running that one case.
Every case executes the real colosseum code from $VERIF_REPO (default /repo) and
watches it with monitors; a monitor that is unhappy raises Violation.
"""
import collections
import hashlib
import json
import os
import pickle
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)


class Violation(Exception):
    """The code under test broke the property."""


class Skip(Exception):
    """The case cannot be judged (e.g. a rounding tie); it is counted, not decided."""


class HarnessError(Exception):
    pass


class Hang(BaseException):
    pass


def expect(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


def near(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    d = abs(a - b)
    return d <= 1e-6 or d <= 1e-9 * max(abs(a), abs(b))


class Ctx:
    """What the monitors of one check observed."""

    MAX_SAMPLES = 4

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.n = collections.Counter()  # monitor events, by kind
        self.sigs = set()  # signatures of distinct non-trivial cases
        self.samples = []
        self.known = collections.Counter()
        self.log = []  # trace of the current case
        self.nontrivial = False
        self.case_sig = []

    # -- called by the monitors -------------------------------------------------
    def count(self, kind, n=1):
        self.n[kind] += n

    def sig(self, *parts):
        """Declare the case non-trivial, with this as (part of) its signature."""
        self.case_sig.append(parts)

    def trace(self, *parts):
        self.log.append(" ".join(str(p) for p in parts)[:2000])
        if len(self.log) > 400:
            del self.log[:100]

    def known_finding(self, key):
        self.known[key] += 1


warnings.simplefilter("ignore")  # literal_eval warns about odd escapes in quotes


def rng_for(prop, seed, idx):
    return random.Random(f"{prop}/{seed}/{idx}")


def from_colosseum(exc):
    """True when the exception was raised by, or passed through, the code under test."""
    pkg = os.path.join(SRC, "colosseum") + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(pkg):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise Hang()


def run_case(mod, ctx, idx):
    """Returns None, or a dict describing the violation."""
    rng = rng_for(ctx.prop, ctx.seed, idx)
    ctx.log, ctx.case_sig = [], []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(240)
    try:
        try:
            mod.case(ctx, rng, idx)
        finally:
            signal.alarm(0)
    except Skip as s:
        ctx.count("skipped: " + str(s))
        return None
    except Violation as v:
        return {"message": str(v), "kind": "violation"}
    except Hang:
        return {"message": "the operation did not finish within 240 s", "kind": "hang"}
    except Exception as e:
        if isinstance(e, (HarnessError, ImportError, OSError)) and not from_colosseum(e):
            raise
        # Raised by the code under test, or by a monitor handed something that is not of
        # the documented kind (a size that is no number, a value without its parts).
        return {
            "message": f"unexpected {type(e).__name__}: {e}",
            "kind": "crash",
            "traceback": traceback.format_exc(),
        }
    ctx.count("cases")
    if ctx.case_sig:
        h = hashlib.blake2b(repr(ctx.case_sig).encode(), digest_size=8).hexdigest()
        if h not in ctx.sigs:
            ctx.sigs.add(h)
            if len(ctx.samples) < ctx.MAX_SAMPLES and ctx.log:
                ctx.samples.append({"case": idx, "trace": ctx.log[-40:]})
    return None


LANES = 8  # case i runs in lane i % LANES; each lane is a process with its own string hashing


def hash_seed(seed, lane):
    """Set order is part of what is explored; it follows the seed and the lane."""
    return str((seed * 1000 + lane) % 4294967296)


def run_lane(modname, prop, tier, seed, lane, total, deadline, path):
    """The body of a worker process: run the cases of a lane and leave the observations in a file."""
    import importlib

    ctx = Ctx(prop, tier, seed)
    bad = err = None
    try:
        mod = importlib.import_module(modname)
        for idx in range(lane, total, LANES):
            if time.time() > deadline:
                ctx.count("not run: out of time")
                break
            bad = run_case(mod, ctx, idx)
            if bad is not None:
                bad.update(property=prop, tier=tier, seed=seed, case=idx, trace=ctx.log)
                break
    except BaseException:
        err = traceback.format_exc()
    with open(path + ".part", "wb") as f:
        pickle.dump((dict(ctx.n), list(ctx.sigs), ctx.samples, dict(ctx.known), bad, err), f)
    os.rename(path + ".part", path)


def run_lanes(prop, tier, seed, total, deadline, jobs):
    """Run all lanes, at most `jobs` at a time; yields what each of them observed."""
    check = os.path.join(os.path.dirname(os.path.abspath(__file__)), "check.py")
    with tempfile.TemporaryDirectory(prefix="verif-lanes-") as tmp:
        todo, running = list(range(min(LANES, total))), {}
        try:
            while todo or running:
                while todo and len(running) < jobs:
                    lane = todo.pop(0)
                    path = os.path.join(tmp, str(lane))
                    env = dict(os.environ, PYTHONHASHSEED=hash_seed(seed, lane))
                    running[subprocess.Popen(
                        [sys.executable, check, prop, "--tier", tier, "--seed", str(seed), "--lane", str(lane),
                         "--total", str(total), "--deadline", repr(deadline), "--out", path], env=env)] = path
                for p in [p for p in running if p.poll() is not None]:
                    path = running.pop(p)
                    if not os.path.exists(path):
                        raise HarnessError(f"{prop}: a worker process ended abnormally ({p.returncode})")
                    with open(path, "rb") as f:
                        yield pickle.load(f)
                time.sleep(0.05)
        finally:
            for p in running:
                p.kill()
                p.wait()


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return {k["id"]: k for k in json.load(f)["findings"]}


def main(modname, prop, tier, seed):
    import importlib

    t0 = time.time()
    import colosseum

    where = os.path.dirname(os.path.abspath(colosseum.__file__))
    if where != os.path.abspath(os.path.join(SRC, "colosseum")):
        print(f"colosseum imported from {where}, not {SRC}", file=sys.stderr)
        return 2
    mod = importlib.import_module(modname)
    # VERIF_SCALE is for experiments with many planted changes; checks do not set it.
    total = max(50, int(mod.CASES[tier] * float(os.environ.get("VERIF_SCALE", "1"))))
    budget = 420 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "800"))
    deadline = t0 + budget
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    counts, sigs, samples, known, bads, errs = collections.Counter(), set(), [], collections.Counter(), [], []
    try:
        for n, s, sm, kn, bad, err in run_lanes(prop, tier, seed, total, deadline, jobs):
            counts.update(n)
            sigs.update(s)
            samples.extend(sm)
            known.update(kn)
            if bad:
                bads.append(bad)
            if err:
                errs.append(err)
    except HarnessError as e:
        print(e, file=sys.stderr)
        return 2
    cases = counts.get("cases", 0)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": cases + len(bads),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:4] or [b["trace"][-10:] for b in bads[:1]],
            "monitor_events": dict(sorted(counts.items())),
            "known_findings_seen": dict(known),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bads),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")
    if errs:
        print(errs[0], file=sys.stderr)
        if not bads:
            return 2
    listed = load_known()
    for key, n in sorted(known.items()):
        if key not in listed or listed[key]["property"] != prop:
            print(f"finding {key} is not listed for {prop}", file=sys.stderr)
            return 2
        print(f"KNOWN-FINDING: property={prop} {listed[key]['what']} (seen {n} times)")
    if bads:
        bad = min(bads, key=lambda b: b["case"])
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{seed}-{bad['case']}.json")
        with open(path, "w") as f:
            json.dump(bad, f, indent=1, default=str)
        print(f"{prop}: case {bad['case']}: {bad['message']}")
        if "traceback" in bad:
            print(bad["traceback"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if len(sigs) < 20:
        print(f"{prop}: the monitors observed only {len(sigs)} distinct cases", file=sys.stderr)
        return 2
    print(
        f"{prop}: held on {cases} cases ({len(sigs)} distinct non-trivial, "
        f"{sum(counts.values()) - cases} monitor events) in {evidence['wall_s']} s"
    )
    return 0
