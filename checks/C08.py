"""C08: results depend only on the data and the settings."""
import json
import os
import pickle
import signal
import subprocess
import sys

import numpy as np

import build
import te

RULE = ("Each evaluation runs one analysis again, after other analyses (that found nothing, failed "
        "or were interrupted part way), by the same or another tracker, or in a fresh process with "
        "another hash seed, and compares every byte of the tables with the first result. Distinct "
        "non-trivial = (analysis, history) where the analysis found eddies.")
ASSUMPTIONS = ["interruptions are exceptions injected at the n-th call of a function the detection "
               "uses, as an interrupt would raise there"]
REQUIRED = {"repeated": 600, "siblings": 150, "nonempty": 300, "interrupted": 50, "failed": 60, "found_nothing": 40,
            "fresh_processes": 8, "cases": 130}
WATCHDOG = 300
# A new process for each case, so that what it first analyses is the first analysis
CHUNK = MAXTASKS = 1
HISTORIES = ["nothing", "other", "other_levels", "empty", "failed", "interrupted",
             "same_tracker", "same_tracker_levels", "same_tracker_failed", "generator",
             "sibling", "sibling_criteria", "sibling_grid"]


def cases(tier, seed):
    for k in range(8 if tier == "quick" else 40):
        yield {"seed": seed, "k": k, "mode": "process"}
    for k in range(170 if tier == "quick" else 2500):
        yield {"seed": seed, "k": k, "mode": "histories"}


def setup(seed, k):
    rng = te.rng_of(seed, 8, k)
    skip = bool(rng.random() < 0.8)
    lon, lat = te.grid(rng, small=True)
    kind = str(rng.choice(["gaussians", "smooth", "rough", "halo", "holes"]))
    steps = int(rng.integers(1, 4))
    f = te.field(rng, lon, lat, kind)
    data = np.stack([np.roll(f, t, axis=1) * (1 - 0.1 * t) for t in range(steps)])
    levels = [float(l) for l in te.levels_of(rng)]
    mode = str(rng.choice(["one_level", "snapshot", "track"]))
    filt = None if rng.random() < 0.7 else "space"
    nan = bool(rng.random() < 0.3)
    criteria = te.random_criteria(rng) if rng.random() < 0.4 else {}
    return dict(skip=skip, lon=lon, lat=lat, data=data, levels=levels, mode=mode, filt=filt,
                nan=nan, criteria=criteria)


def build_tracker(s):
    T = te.make(s["data"], s["lon"], s["lat"], filter=s["filt"], skip=s["skip"],
                criteria=s["criteria"], nan_treatment=s["nan"])
    T.S_filter_setup = {"filter_type": "convolution", "mode": "uniform", "kernel": 7}
    return T


def analyse(s, T=None):
    T = T or build_tracker(s)
    if s["mode"] == "one_level":
        found, discarded = te.one_level(T, s["levels"][0])
        return digest(found), digest(discarded, False)
    if s["mode"] == "snapshot":
        return (digest(te.snapshot(T, s["levels"])),)
    return (digest(te.track(T, s["levels"])),)


def digest(table, eddies=True):
    """Everything in a table, exactly."""
    if te.is_empty(table):
        return []
    flat = table.reset_index() if eddies else table.rename_axis("n").reset_index()
    flat = flat[[c for c in flat.columns if c != ""]]
    out = [sorted(map(str, flat.columns))]
    for c in sorted(flat.columns, key=str):
        out.append([repr(float(v)) if not isinstance(v, str) and v is not None
                    and np.ndim(v) == 0 and not hasattr(v, "dtype") or
                    (hasattr(v, "dtype") and v.dtype.kind in "fiu") else str(v)
                    for v in flat[c].values])
    return out


class Interrupted(BaseException):
    pass


def interrupted(s, rng, report):
    """Run an analysis which an exception leaves part way."""
    import trackeddy.trackeddy as module

    names = ["extract_contours", "fit_ellipse", "compute_similarity", "area_latlon_polygon",
             "eccentricity", "_mask_data_in_contour", "_detect_nearest", "_update_better_eddy",
             "_merge_reindex_eddies", "approx_RD_lat"]
    names = [n for n in names if hasattr(module, n)]
    name = str(rng.choice(names))
    left = [int(rng.choice([1, 1, 2, 3, 5, 9]))]
    original = getattr(module, name)
    kind = Interrupted if rng.random() < 0.5 else ValueError

    def wrapped(*a, **k):
        left[0] -= 1
        if left[0] <= 0:
            raise kind("injected")
        return original(*a, **k)

    setattr(module, name, wrapped)
    try:
        analyse(s)
    except (Interrupted, ValueError):
        report.see("interrupted_at_" + name)
        report.see("interrupted")
    finally:
        setattr(module, name, original)


def failing(s, rng, report):
    T = build_tracker(s)
    which = rng.integers(3)
    try:
        if which == 0:
            T.data2track = T.rawdata[0]
            T._detect_one_level(None)
        elif which == 1:
            T.identification_criteria = {}
            te.snapshot(T, s["levels"])
        else:
            T.identification_criteria["gaussian_fit"] = None
            T.skip_gaussian_fit = False
            te.snapshot(T, s["levels"])
    except Exception:  # noqa: BLE001
        report.see("failed")


def run(case, report):
    s = setup(case["seed"], case["k"])
    report.see("cases")
    if case["mode"] == "process":
        return processes(case, s, report)
    rng = te.rng_of(case["seed"], 88, case["k"])
    siblings = {h: sibling(s, h, rng) for h in HISTORIES if h.startswith("sibling")}
    alone = {h: fresh(t) for h, t in siblings.items()}
    first = analyse(s)
    tracker = build_tracker(s)
    for history in ["interrupted", "sibling", *rng.permutation(HISTORIES)[:4]]:
        history = str(history)
        other = setup(case["seed"], int(rng.integers(10**6)) + 10**6)
        if history == "other":
            analyse(other)
        elif history == "other_levels":
            analyse({**s, "levels": [-l for l in s["levels"]], "mode": "snapshot"})
        elif history == "empty":
            analyse({**s, "levels": [1e9], "mode": str(rng.choice(["one_level", "snapshot"]))})
            report.see("found_nothing")
        elif history == "failed":
            failing(other, rng, report)
        elif history == "interrupted":
            for _ in range(2):
                interrupted({**other, "mode": "snapshot", "skip": True}, rng, report)
        elif history.startswith("sibling"):
            # As s was analysed before it, it must give what it gives alone
            t = siblings[history]
            report.see("siblings")
            status, result = alone[history]
            if status == "error":
                report.violate("exception:alone", result)
                continue
            compare(report, result, analyse(t), "%s of the sibling (%s)" % (
                t["mode"], t["sibling"]), "sibling")
        elif history == "generator":
            from trackeddy.generator import field_generator

            x = np.linspace(0, 10, 30)
            field_generator.Generate_field(0.5, 0.5, 3, x, x).assemble_field(1, margin=2)
        T = None
        if history.startswith("same_tracker"):
            T = tracker
            if history.endswith("levels"):
                analyse({**s, "levels": s["levels"][::-1] + [0.22], "mode": "snapshot"}, T)
            elif history.endswith("failed"):
                try:
                    T._detect_snapshot(99, np.array([0.1]))
                except Exception:  # noqa: BLE001
                    report.see("failed")
            else:
                analyse(s, T)
        again = analyse(s, T)
        compare(report, first, again, "%s %s" % (s["mode"], history), history)
        report.see("repeated")
        nonempty = any(map(len, first))
        report.see("nonempty", nonempty)
        report.evaluate((case["k"], history) if nonempty else None)
    if case["k"] < 3:
        report.sample = {"mode": s["mode"], "levels": s["levels"], "skip": s["skip"],
                         "rows": [len(d[1]) if len(d) > 1 else 0 for d in first]}


def sibling(s, history, rng):
    """An analysis which differs from s in one thing only, so that a result kept under
    an incomplete key would be taken for the one of s or the other way round."""
    t = dict(s)
    kinds = {"sibling_grid": ["lon", "lat", "stretched"],
             "sibling_criteria": ["criteria", "skip", "filter"]}.get(
                 history, ["flipped", "mirrored", "rolled", "times", "negative"])
    kind = str(rng.choice(kinds))
    t["sibling"] = kind
    if kind == "lon":
        t["lon"] = s["lon"] + 7.25
    elif kind == "lat":
        t["lat"] = -s["lat"][::-1]
    elif kind == "stretched":
        t["lon"] = s["lon"][0] + (s["lon"] - s["lon"][0]) * 1.1
    elif kind == "criteria":
        t["criteria"] = te.random_criteria(rng)
    elif kind == "skip":
        t["skip"] = not s["skip"]
    elif kind == "filter":
        t["filt"] = None if s["filt"] else "space"
    elif kind == "flipped":
        t["data"] = np.ascontiguousarray(s["data"][:, ::-1])
    elif kind == "mirrored":
        t["data"] = np.ascontiguousarray(s["data"][:, :, ::-1])
    elif kind == "rolled":
        t["data"] = np.roll(s["data"], 3, axis=2)
    elif kind == "times":
        t["data"] = s["data"][::-1].copy()
    else:
        t["data"] = -s["data"]
    return t


def fresh(t):
    """The result of an analysis in a child of this process, which analysed nothing yet."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(read)
            signal.alarm(0)
            with os.fdopen(write, "wb") as f:
                try:
                    pickle.dump(("ok", analyse(t)), f)
                except Exception as exc:  # noqa: BLE001
                    pickle.dump(("error", repr(exc)[:300]), f)
            code = 0
        finally:
            os._exit(code)
    os.close(write)
    with os.fdopen(read, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the child that analyses died")
    return pickle.loads(data)


def compare(report, first, again, where, mech):
    if first == again:
        return
    for a, b in zip(first, again):
        if a != b:
            n = (len(a[1]) if a else 0, len(b[1]) if b else 0)
            report.violate("depends-on:" + mech, "%s: the result differs, %d rows then %d" % (
                where, *n))
            return
    report.violate("depends-on:" + mech, where)


def processes(case, s, report):
    """The same analysis in fresh processes with other hash seeds."""
    first = json.loads(json.dumps(analyse(s)))
    for seed in ("0", "1", "77"):
        env = dict(os.environ, PYTHONHASHSEED=seed, VERIF_REPO=build.REPO,
                   PYTHONPATH=os.path.dirname(os.path.abspath(build.__file__)))
        out = subprocess.run(
            [sys.executable, os.path.abspath(__file__), str(case["seed"]), str(case["k"])],
            env=env, capture_output=True, text=True, timeout=240)
        report.see("fresh_processes")
        if out.returncode:
            if "trackeddy/" in out.stderr.split("Traceback")[-1]:
                report.violate("process-failed", out.stderr[-400:])
                return
            raise RuntimeError(out.stderr[-2000:])
        again = json.loads(out.stdout.splitlines()[-1])
        compare(report, first, again, "%s in a process with hash seed %s" % (s["mode"], seed),
                "process")
        report.see("repeated")
        nonempty = any(map(len, first))
        report.see("nonempty", nonempty)
        report.evaluate((case["k"], "process", seed) if nonempty else None)


if __name__ == "__main__":
    # analysis number argv[2] of seed argv[1], in this fresh process
    build.import_trackeddy()
    print(json.dumps(analyse(setup(int(sys.argv[1]), int(sys.argv[2])))))
