"""Runner: python lib/main.py <property> [tier] [--replay file]

Verdicts: 0 held on what was observed, 1 violated (VIOLATION line), 3 inconclusive
(the monitors did not see enough, or a watchdog fired), 2 error of the harness.
"""
import collections
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "checks"))

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import build  # noqa: E402


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


class Report:
    """What the monitors of one case observed."""

    def __init__(self, case):
        self.case = case
        self.violations = []
        self.obs = collections.Counter()
        self.keys = set()
        self.evaluations = 0
        self.sample = None
        self.error = None
        self.timeout = False

    def see(self, what, n=1):
        self.obs[what] += int(n)

    def evaluate(self, key=None, n=1):
        """One evaluation of the oracle; key when it was non-trivial."""
        self.evaluations += n
        if key is not None:
            self.keys.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])

    def violate(self, mechanism, message, **details):
        message = message() if callable(message) else message
        self.violations.append(
            {"mechanism": mechanism, "message": str(message)[:600], "details": details}
        )

    def check(self, ok, mechanism, message="", **details):
        if not ok:
            self.violate(mechanism, message, **details)
        return bool(ok)


MODULE = None
WATCHDOG = 120
UNUSABLE = (LookupError, TypeError, ValueError, AttributeError, ArithmeticError)


def in_repo(tb):
    return [
        f for f in traceback.extract_tb(tb)
        if os.path.realpath(f.filename).startswith(os.path.realpath(build.REPO) + os.sep)
    ]


def run_case(case):
    report = Report(case)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    # A limit of processor time, which the load of the machine does not change, and a
    # longer one of wall time for what waits.
    limit = getattr(MODULE, "WATCHDOG", WATCHDOG)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(3 * limit)
    t = time.time()
    before = len(build._dirs)
    try:
        MODULE.run(case, report)
    except CaseTimeout as exc:
        frames = in_repo(exc.__traceback__)
        if frames and getattr(MODULE, "TERMINATES", False):
            report.violate("does-not-end", "still in %s after %d s of processor time" % (
                frames[-1].name, limit))
        else:
            report.timeout = True
    except Exception as exc:  # noqa: BLE001
        frames = in_repo(exc.__traceback__)
        if frames:
            report.violate(
                "exception:" + type(exc).__name__,
                "%s raised in %s" % (
                    repr(exc)[:300],
                    " < ".join("%s:%s" % (os.path.basename(f.filename), f.name)
                               for f in reversed(frames[-4:]))),
            )
        elif isinstance(exc, UNUSABLE):
            # What the code returned is not what the oracle was promised (a column, a
            # shape or a type is missing).
            report.violate("unusable-result:" + type(exc).__name__, " ".join(
                traceback.format_exc().strip().splitlines()[-4:])[-500:])
        else:
            report.error = traceback.format_exc()
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        build.clean(before)
    report.wall = time.time() - t
    return report


def run_cases(cases):
    return [run_case(case) for case in cases]


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def known_findings():
    found = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                parts = line.split(None, 3)
                prop = parts[1].split("=", 1)[1]
                mech = parts[2].split("=", 1)[1]
                found[prop, mech] = parts[3].strip()
    return found


def main():
    global MODULE
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    replay = None
    if "--replay" in sys.argv:
        replay = sys.argv[sys.argv.index("--replay") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    start = time.time()
    try:
        MODULE = importlib.import_module(prop)
        if getattr(MODULE, "NEEDS_TRACKEDDY", True):
            build.import_trackeddy()
        if hasattr(MODULE, "prepare"):
            MODULE.prepare(tier, seed)
    except build.BuildError as exc:
        print("ERROR: the contour engine does not build:", exc)
        return 2

    if replay:
        cases = [json.load(open(replay))["case"]]
    else:
        cases = list(MODULE.cases(tier, seed))
    deadline = start + (700 if tier == "quick" else 6 * 3600)
    total = Report(None)
    samples, slow, timeouts, errors, done = [], 0.0, 0, [], 0
    violations = collections.OrderedDict()

    def absorb(report):
        nonlocal slow, timeouts, done
        done += 1
        slow = max(slow, report.wall)
        total.obs.update(report.obs)
        total.keys |= report.keys
        total.evaluations += report.evaluations
        if report.sample is not None and len(samples) < 6:
            samples.append(jsonable(report.sample))
        timeouts += report.timeout
        if report.error:
            errors.append((report.case, report.error))
        for v in report.violations:
            violations.setdefault(v["mechanism"], []).append((report.case, v))

    if jobs > 1 and len(cases) > 1 and not getattr(MODULE, "SERIAL", False):
        import multiprocessing as mp

        ctx = mp.get_context("fork")
        chunk = getattr(MODULE, "CHUNK", max(1, min(16, len(cases) // (jobs * 8))))
        with ctx.Pool(jobs, maxtasksperchild=getattr(MODULE, "MAXTASKS", None)) as pool:
            reports = pool.imap_unordered(
                run_cases, [cases[i:i + chunk] for i in range(0, len(cases), chunk)])
            while True:
                try:
                    for report in reports.next(timeout=max(1, deadline - time.time())):
                        absorb(report)
                except StopIteration:
                    break
                except mp.TimeoutError:
                    # a worker is stuck where no signal reaches it
                    timeouts += 1
                    break
                if time.time() > deadline:
                    break
            pool.terminate()
    else:
        for case in cases:
            absorb(run_case(case))
            if time.time() > deadline:
                break
    # Order of arrival depends on the schedule: report the first case in order.
    if hasattr(MODULE, "finish"):
        final = Report("finish")
        MODULE.finish(total, final, tier)
        for v in final.violations:
            violations.setdefault(v["mechanism"], []).append(("finish", v))
        total.obs.update(final.obs)

    missing = {
        k: (total.obs[k], n)
        for k, n in getattr(MODULE, "REQUIRED", {}).items() if total.obs[k] < n
    }
    if replay:
        missing = {}
    known = known_findings()
    status = 0
    new = 0
    for mech in sorted(violations):
        hits = violations[mech]
        case, v = sorted(hits, key=lambda h: json.dumps(jsonable(h[0]), sort_keys=True))[0]
        if (prop, mech) in known:
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (
                prop, known[prop, mech], len(hits)))
            continue
        new += len(hits)
        status = 1
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        name = hashlib.md5((prop + mech).encode()).hexdigest()[:8]
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (prop, name))
        with open(path, "w") as f:
            json.dump({
                "property": prop, "mechanism": mech, "case": jsonable(case),
                "message": v["message"], "details": jsonable(v["details"]),
                "hits": len(hits), "seed": seed, "tier": tier,
                "replay": "bash run.sh %s %s --replay %s" % (prop, tier, path),
            }, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s (%d cases): %s" % (mech, len(hits), v["message"]))
        print("  case:", json.dumps(jsonable(case))[:400])

    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.keys),
            "rule": MODULE.RULE,
            "samples": samples or [jsonable(cases[0])],
            "cases_run": done, "cases_planned": len(cases),
            "observed": dict(sorted(total.obs.items())),
            "watchdog_timeouts": timeouts, "slowest_case_s": round(slow, 2),
        },
        "assumptions": getattr(MODULE, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - start, 2),
        "violations": new,
    }
    if not replay:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print("%s %s seed=%d: %d cases, %d evaluations, %d distinct, %.1f s; %s" % (
        prop, tier, seed, done, total.evaluations, len(total.keys),
        time.time() - start, dict(sorted(total.obs.items()))))
    if status:
        return status
    if errors:
        print("ERROR: %d cases failed in the harness, first:\n%s\n%s" % (
            len(errors), errors[0][0], errors[0][1]))
        return 2
    if timeouts or missing or done < len(cases) and not total.keys:
        print("INCONCLUSIVE: timeouts=%d, too few observations: %s" % (timeouts, missing))
        return 3
    if not total.keys and not replay:
        print("INCONCLUSIVE: nothing observed")
        return 3
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code) if False else sys.exit(code)
