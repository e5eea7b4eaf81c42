"""python -m qmon ID [--tier quick|thorough] [--jobs N]     run a check
python -m qmon --replay FILE                             run one recorded case again

Exit 0: held on everything explored.  1: violated (VIOLATION line).  3: inconclusive or an
error of the machinery (the monitors saw too little to decide)."""
import argparse
import importlib
import json
import multiprocessing
import os
import resource
import sys
import time
import traceback

from .core import (
    EVIDENCE,
    VERIF,
    CaseTimeout,
    Inconclusive,
    Obs,
    Violation,
    alarm,
    canon,
    digest,
)

CASE_SECONDS = 200
TIER_SECONDS = {"quick": 300, "thorough": 780}


def load(pid):
    return importlib.import_module("qmon.props.%s" % pid.lower())


def execute(mod, case):
    """-> (status, message, obs)"""
    obs = Obs()
    try:
        with alarm(getattr(mod, "CASE_SECONDS", CASE_SECONDS)):
            mod.run_case(case, obs)
        return "held", "", obs
    except Violation as v:
        return "violated", str(v), obs
    except CaseTimeout as e:
        # the cases of the quick tier take seconds: one that takes minutes hangs
        if _tier == "quick":
            return "violated", HANG + str(e), obs
        return "inconclusive", str(e), obs
    except (Inconclusive, MemoryError) as e:
        # ... and take megabytes: one that needs gigabytes has no answer either
        if _tier == "quick" and _limited and (isinstance(e, MemoryError) or isinstance(e.__cause__, MemoryError)):
            return "violated", HANG + "out of memory (%d GB): %s" % (MEMORY >> 30, e), obs
        return "inconclusive", "%s: %s" % (type(e).__name__, e), obs
    except Exception as e:
        if raised_by_sut(e):
            return "violated", "raised %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]), obs
        return "error", traceback.format_exc(), obs


HANG = "no answer: "
MEMORY = 6 << 30
_tier = "quick"
_limited = False


def limit_memory():
    """In a worker: what asks for too much gets MemoryError, and nothing else is ended for it."""
    global _limited
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, hard))
        _limited = True
    except (ValueError, OSError):
        pass


def raised_by_sut(e):
    """Whether the innermost frame that is either ours or the code under test's is theirs."""
    from .env import REPO

    theirs = False
    for frame, _ in traceback.walk_tb(e.__traceback__):
        name = os.path.abspath(frame.f_code.co_filename)
        if name.startswith(os.path.join(REPO, "")):
            theirs = True
        elif name.startswith(os.path.join(VERIF, "qmon", "")):
            theirs = False
    return theirs


_mod = None


def _work(arg):
    i, case = arg
    t = time.monotonic()
    status, msg, obs = execute(_mod, case)
    return i, status, msg, obs, time.monotonic() - t


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main(argv):
    ap = argparse.ArgumentParser(prog="qmon")
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        mod = load(rec["property"])
        status, msg, obs = execute(mod, rec["case"])
        print(status, msg, dict(obs))
        if status == "violated":
            print("VIOLATION property=%s replay=%s" % (rec["property"], a.replay))
            return 1
        return 0 if status == "held" else 3
    return check(a.property, a.tier, a.seed, a.jobs, a.verbose)


def workload(mod, tier, seed):
    """The cases of a run; the quick tier plays those of several seeds, each case once."""
    cases, known = [], set()
    for n in range(getattr(mod, "QUICK_SEEDS", 6) if tier == "quick" else 1):
        for case in mod.cases(tier, seed + 1000003 * n):
            key = digest(case)
            if key not in known:
                known.add(key)
                cases.append(case)
    return cases


def check(pid, tier, seed, jobs, verbose=False):
    global _mod, _tier
    _tier = tier
    start = time.monotonic()
    _mod = mod = load(pid)
    cases = workload(mod, tier, seed)
    if hasattr(mod, "prepare"):
        mod.prepare()
    findings = known_findings(pid)
    matched = {}
    totals = Obs()
    ran = held = 0
    distinct = set()
    seen = {}
    samples = []
    violations = []
    inconclusive = []
    errors = []
    slowest = []
    deadline = start + TIER_SECONDS[tier]
    cut = False
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(jobs, initializer=limit_memory, maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", None))
    try:
        it = pool.imap_unordered(_work, list(enumerate(cases)), chunksize=1)
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                cut = True
                break
            try:
                i, status, msg, obs, took = it.next(timeout=left)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                cut = True
                break
            ran += 1
            for k, v in obs.items():
                if k.startswith("distinct:"):
                    _, name, value = k.split(":")
                    seen.setdefault("distinct_" + name, set()).add(value)
                else:
                    totals.hit(k, v)
            slowest.append((took, i))
            case = cases[i]
            if status == "held":
                held += 1
                if not hasattr(mod, "nontrivial") or mod.nontrivial(case):
                    distinct.add(digest(case))
                    if len(samples) < 4 or (i % 997 == 0 and len(samples) < 8):
                        samples.append({"case": case if len(canon(case)) < 1500 else canon(case)[:1500], "observed": {k: v for k, v in obs.items() if not k.startswith("distinct:")}})
            elif status == "violated":
                k = next((k for k in findings if mod.is_known(k["key"], case, msg)), None) if findings else None
                if k is not None:
                    matched.setdefault(k["key"], (k, msg))
                    continue
                violations.append((i, msg))
                if len(violations) >= 3:
                    break
            elif status == "inconclusive":
                inconclusive.append((i, msg))
            else:
                errors.append((i, msg))
    finally:
        pool.terminate()
        pool.join()

    for k, v in seen.items():
        totals[k] = len(v)
    replays = []
    rdir = os.path.join(EVIDENCE, "replays")
    if violations:
        os.makedirs(rdir, exist_ok=True)
    for n, (i, msg) in enumerate(sorted(violations)):
        path = os.path.join(rdir, "%s-%d.json" % (pid, n))
        case, note = shrink(mod, cases[i], msg)
        with open(path, "w") as f:
            json.dump({"property": pid, "message": note, "original_message": msg, "case": case, "original_case": cases[i], "seed": seed, "tier": tier}, f, indent=1, default=str)
        replays.append((path, note))

    wall = time.monotonic() - start
    need = getattr(mod, "REQUIRED", {})
    missing = [k for k in need if totals.get(k, 0) < (need[k] if isinstance(need, dict) else 1)]
    coverage = {
        "evaluations": ran,
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": samples or [{"case": cases[0] if cases else None}],
        "held": held,
        "generated": len(cases),
        "inconclusive": len(inconclusive),
        "stopped_by_time_limit": cut,
        "monitor_observations": dict(sorted(totals.items())),
    }
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, "%s.json" % pid), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for k, (f, msg) in sorted(matched.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    print("%s %s seed=%d: %d of %d cases held (%d distinct), %.1fs; observed %s" % (pid, tier, seed, held, len(cases), len(distinct), wall, canon(dict(sorted(totals.items())))))
    if verbose:
        for took, i in sorted(slowest, reverse=True)[:5]:
            print("  slow %.2fs %s" % (took, canon(cases[i])[:300]))
    if violations:
        for path, msg in replays:
            print("  %s" % msg[:600])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for i, msg in errors[:3]:
            print("ERROR in case %s\n%s" % (canon(cases[i])[:400], msg), file=sys.stderr)
        return 3
    if inconclusive:
        for i, msg in inconclusive[:5]:
            print("INCONCLUSIVE %s: %s" % (canon(cases[i])[:300], msg), file=sys.stderr)
    if missing:
        print("INCONCLUSIVE: monitors saw too little of %s" % ", ".join(missing), file=sys.stderr)
        return 3
    if inconclusive and len(inconclusive) * 20 > ran or held * 2 < len(cases) and not cut or held == 0:
        return 3
    return 0


def shrink(mod, case, msg, seconds=15):
    """Drops gates from the recorded circuit while the monitor still objects."""
    if not isinstance(case, dict) or getattr(mod, "NO_SHRINK", False) or msg.startswith(HANG):
        return case, msg
    key = next((k for k in ("ops",) if isinstance(case.get(k), list)), None)
    holder = case
    if key is None and isinstance(case.get("spec"), dict) and isinstance(case["spec"].get("ops"), list):
        holder, key = case["spec"], "ops"
    if key is None:
        return case, msg
    end = time.monotonic() + seconds
    ops = list(holder[key])

    def attempt(new):
        c = json.loads(canon(case))
        (c if holder is case else c["spec"])[key] = new
        try:
            status, m, _ = execute(mod, c)
        except BaseException:
            return None
        return (c, m) if status == "violated" else None

    best, note = case, msg
    step = max(1, len(ops) // 2)
    while step >= 1:
        i = 0
        while i < len(ops) and time.monotonic() < end:
            new = ops[:i] + ops[i + step:]
            got = attempt(new)
            if got:
                ops, (best, note) = new, got
            else:
                i += step
        if step == 1 or time.monotonic() >= end:
            break
        step //= 2
    return best, note
