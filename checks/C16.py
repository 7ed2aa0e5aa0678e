"""C16: offline storage writes each snapshot once and faithfully."""
import json
import os

import numpy as np
import pandas as pd

import build
import flows
import te

RULE = ("Each evaluation reads back one stored snapshot, or one run with nothing to store, and compares "
        "names of files, rows, order of vertices and every value with the snapshot analysed alone. "
        "Distinct non-trivial = (format, time, contents).")
ASSUMPTIONS = ["json keeps ten decimals, csv is read with its exact parser; hd5 needs pytables, which "
               "is not installed"]
REQUIRED = {"files": 450, "stored_eddies": 700, "csv": 200, "json": 120, "empty_snapshots": 100,
            "online": 25, "unknown_formats": 25, "direct": 40, "default_path": 20, "existing_files": 30,
            "fitted": 8, "late": 10, "killed": 4, "failed": 4, "stopped_with_files": 8, "long_contours": 20}
WATCHDOG = 240


def cases(tier, seed):
    for k in range(400 if tier == "quick" else 3000):
        yield {"seed": seed, "k": k}


def read(path, fmt):
    """The eddies of a stored snapshot."""
    if fmt == "csv":
        table = pd.read_csv(path, float_precision="round_trip")
        table = table.drop(columns=[c for c in table.columns if str(c).startswith("Unnamed")])
        return table
    raw = json.load(open(path))
    raw = {c: v for c, v in raw.items() if c}
    rows = {}
    for column, values in raw.items():
        for key, value in values.items():
            rows.setdefault(key, {})[column] = value
    out = []
    for key, row in rows.items():
        out.append({**dict(zip(("identifier", "time", "index"),
                               (int(float(v)) for v in key.strip("()").split(",")))), **row})
    return pd.DataFrame(out)


def same(a, b, fmt):
    (_, r, p), (_, s, q) = a, b
    keys = {k for k in r if not k.startswith("_")} | {k for k in s if not k.startswith("_")}
    keys.discard("time")
    if p.shape != q.shape:
        return "contour of %d vertices instead of %d" % (len(q), len(p))
    ok = np.array_equal(p, q) if fmt == "csv" else np.allclose(p, q, rtol=1e-9, atol=1e-9)
    if not ok:
        return "other contour"
    for k in sorted(keys):
        # what was not measured can be empty
        x, y = r.get(k, np.nan), s.get(k, np.nan)
        ok = x == y if fmt == "csv" else np.isclose(x, y, rtol=1e-9, atol=1e-9)
        if not (ok or np.isnan(x) and np.isnan(y)):
            return "%s %r instead of %r" % (k, y, x)
    if list(s["_index"]) != list(range(len(q))):
        return "rows numbered %s" % list(s["_index"])[:5]
    return None


def run(case, report):
    rng = te.rng_of(case["seed"], 16, case["k"])
    if case["k"] % 25 == 7:
        return late(rng, report)
    data, lon, lat, levels, kind = flows.movie(rng, nt=int(rng.integers(2, 6)))
    if case["k"] % 20 == 3:
        # contours of hundreds of vertices
        lon = 20 + 0.03 * np.arange(int(rng.integers(60, 140)))
        lat = -8 + 0.03 * np.arange(int(rng.integers(60, 140)))
        X, Y = np.meshgrid(lon, lat)
        kind, levels = "large", [0.2, 0.6]
        data = np.array([te.gauss(X, Y, lon.mean(), lat.mean() + 0.1 * t, 0.16 * np.ptp(lon),
                                  0.16 * np.ptp(lat), 0, 1.0) for t in range(len(data))])
    data[rng.random(len(data)) < 0.12] = 0
    fit = case["k"] % 20 == 0
    fmt = str(rng.choice(["csv", "json"], p=[0.6, 0.4]))

    def tracker():
        return flows.relax(te.make(data, lon, lat, skip=not fit))

    alone = [te.eddies(te.snapshot(tracker(), levels, t)) for t in range(len(data))]
    where = "%s movie of %d snapshots in %s" % (kind, len(data), fmt)
    folder = build.scratch()
    here = os.getcwd()
    mode = str(rng.choice(["offline", "offline", "offline", "default_path", "online", "unknown",
                           "direct", "existing", "stopped"]))
    T = None
    os.chdir(folder)
    try:
        T = tracker()
        out = folder
        if mode != "default_path":
            out = os.path.join(folder, "out put")
            os.mkdir(out)
            T.out_path = out
        T.out_format = fmt
        t0 = int(rng.integers(0, 2)) if len(data) > 1 else 0
        if mode == "online":
            te.track(T, levels)
            report.check(not os.listdir(out) and sorted(os.listdir(folder)) == ["out put"],
                         "online-writes", "%s: online tracking wrote %s" % (where, os.listdir(out)))
            report.see("online")
            report.evaluate(("online", case["k"]))
            return
        if mode == "unknown":
            bad = str(rng.choice(["parquet", "CSV", "txt", "xls", "netcdf", "js"]))
            T.out_format = bad
            refused = False
            try:
                te.track(T, levels, online_track=False)
            except ValueError:
                refused = True
            # nothing to lose when there are no eddies
            report.check(refused or not any(alone), "unknown-format", "%s: format %r lost %d eddies in "
                         "silence" % (where, bad, sum(map(len, alone))))
            report.see("unknown_formats")
            report.evaluate(("unknown", bad, case["k"]))
            return
        if mode == "direct":
            return direct(rng, report, alone, tracker, levels, out, fmt, where)
        if mode == "stopped":
            return stopped(rng, report, data, lon, lat, alone, levels, out, fmt, not fit, where)
        if mode == "existing":
            # a previous run left files with the same names
            for t in range(len(data)):
                if alone[t] and rng.random() < 0.7:
                    open(os.path.join(out, "identified_eddies_{0:05}.{1}".format(t, fmt)), "w").write(
                        "old\n" * 5000)
            report.see("existing_files")
        te.track(T, levels, online_track=False, t0=t0)
    finally:
        os.chdir(here)
    if mode == "existing":
        alone = [a if t >= t0 else [] for t, a in enumerate(alone)]
        for t in range(t0):
            p = os.path.join(out, "identified_eddies_{0:05}.{1}".format(t, fmt))
            if os.path.exists(p):
                os.remove(p)
    report.see("default_path", mode == "default_path")
    names = sorted(os.listdir(out))
    want = sorted("identified_eddies_{0:05}.{1}".format(t, fmt)
                  for t in range(t0, len(data)) if alone[t])
    report.check(names == want, "files", "%s: files %s, expected %s" % (where, names, want))
    for t in range(t0, len(data)):
        report.see("empty_snapshots", not alone[t])
        name = "identified_eddies_{0:05}.{1}".format(t, fmt)
        if alone[t] and name in names:
            compare(report, os.path.join(out, name), fmt, alone[t], t, "%s time %d" % (where, t))
            report.see("fitted", fit)
    if case["k"] < 4:
        report.sample = {"kind": kind, "mode": mode, "files": names}


def stopped(rng, report, data, lon, lat, alone, levels, out, fmt, skip, where):
    """A run which is killed, or whose data can not be read, while it analyses a snapshot; and
    its continuation."""
    import signal

    import dask.array
    from dask import delayed

    k = int(rng.integers(len(data)))
    killed = bool(rng.random() < 0.5)

    def load(t):
        if t == k:
            if killed:
                os.kill(os.getpid(), signal.SIGKILL)
            raise OSError("can not be read")
        return data[t]

    def analyse(lazy, t0):
        ds = te.dataset(data, lon, lat)
        if lazy:
            ds["ssh"] = (ds.ssh.dims, dask.array.stack([dask.array.from_delayed(
                delayed(load)(t), data[t].shape, data.dtype) for t in range(len(data))]))
        T = flows.relax(te.tracker(ds, skip=skip))
        T.out_path, T.out_format = out, fmt
        with dask.config.set(scheduler="synchronous"):
            te.track(T, levels, online_track=False, t0=t0)

    if killed:
        pid = os.fork()
        if not pid:
            try:
                analyse(True, 0)
            finally:
                os._exit(7)
        _, status = os.waitpid(pid, 0)
        gone = os.WIFSIGNALED(status)
    else:
        try:
            analyse(True, 0)
            gone = False
        except OSError:
            gone = True
    how = "%s, %s at snapshot %d" % (where, "killed" if killed else "unreadable", k)
    report.check(gone, "not-stopped", "%s: the run did not stop" % how)
    file = "identified_eddies_{0:05}.%s" % fmt

    def judge(upto, how):
        names = sorted(os.listdir(out))
        want = [file.format(t) for t in range(upto) if alone[t]]
        report.check(names == want, "stopped-files", "%s: files %s, expected %s" % (how, names, want))
        for t in range(upto):
            if file.format(t) in names and alone[t]:
                compare(report, os.path.join(out, file.format(t)), fmt, alone[t], t, how)

    judge(k, how)
    # and on from there
    analyse(False, k)
    judge(len(data), how + ", continued")
    report.see("killed" if killed else "failed")
    report.see("stopped_with_files", any(alone[:k]))


def late(rng, report):
    """Snapshots far into a long dataset."""
    t0 = int(rng.choice([99, 100, 255, 256, 364, 365, 730, 999, 1000, 9999, 10000, 32767, 99999, 100000]))
    t0 = max(0, t0 - int(rng.integers(0, 3)))
    n = int(rng.integers(2, 5))
    lon, lat = 30 + 0.2 * np.arange(14), -20 + 0.2 * np.arange(14)
    X, Y = np.meshgrid(lon, lat)
    f = te.gauss(X, Y, lon.mean(), lat.mean(), 0.4, 0.35, 0.3, 1.0)
    data = np.broadcast_to(f, (t0 + n, *f.shape))
    folder = build.scratch()
    T = flows.relax(te.make(data, lon, lat, skip=True))
    T.out_path = folder
    fmt = T.out_format = str(rng.choice(["csv", "json"]))
    end = t0 + int(rng.integers(1, n + 1))
    te.track(T, [0.4], t0=t0, tf=end, online_track=False)
    where = "snapshots %d to %d of %d in %s" % (t0, end, t0 + n, fmt)
    want = sorted("identified_eddies_{0:05}.{1}".format(t, fmt) for t in range(t0, end))
    names = sorted(os.listdir(folder))
    report.see("late")
    if report.check(names == want, "files", "%s: files %s, expected %s" % (where, names, want)):
        alone = te.eddies(te.snapshot(flows.relax(te.make(f, lon, lat, skip=True)), [0.4]))
        for t in range(t0, end):
            compare(report, os.path.join(folder, "identified_eddies_{0:05}.{1}".format(t, fmt)), fmt,
                    alone, t, where)


def compare(report, path, fmt, alone, t, where):
    try:
        table = read(path, fmt)
    except (ValueError, KeyError, pd.errors.ParserError) as exc:
        report.violate("unreadable", "%s: %s" % (where, repr(exc)[:300]))
        return
    if not report.check({"identifier", "time", "index", "contour_path_x"} <= set(table.columns),
                        "columns", "%s: columns %s" % (where, list(table.columns))):
        return
    found = te.eddies(table.set_index(["identifier", "time", "index"]))
    report.see("files")
    report.see(fmt)
    report.see("stored_eddies", len(found))
    report.check(set(table["time"].astype(int)) == {t}, "time", "%s: times %s" % (
        where, set(table["time"])))
    total = sum(len(p) for _, _, p in alone)
    report.check(len(table) == total, "rows", "%s: %d rows, %d vertices detected" % (
        where, len(table), total))
    if not report.check(len(found) == len(alone), "count", "%s: %d eddies stored, %d detected" % (
            where, len(found), len(alone))):
        return
    key = lambda e: (round(e[1]["level"], 6), round(e[2][0, 0], 6), round(e[2][0, 1], 6), len(e[2]))
    for a, b in zip(sorted(alone, key=key), sorted(found, key=key)):
        text = same(a, b, fmt)
        report.check(text is None, "altered", "%s: %s" % (where, text))
    report.see("long_contours", sum(len(p) > 128 for _, _, p in found))
    report.evaluate((fmt, t, len(found), total))


def direct(rng, report, alone, tracker, levels, out, fmt, where):
    """Storing a table, as a user can."""
    from trackeddy.utils import store_snapshot

    T = tracker()
    for t in range(len(alone)):
        table = te.snapshot(T, levels, t)
        if te.is_empty(table):
            continue
        table["time"] = t + 40
        table = table.reset_index().set_index(["identifier", "time", "index"])
        store_snapshot(table, out, t + 40, format=fmt)
        compare(report, os.path.join(out, "identified_eddies_{0:05}.{1}".format(t + 40, fmt)), fmt,
                alone[t], t + 40, "%s stored as time %d" % (where, t + 40))
        report.see("direct")
        try:
            store_snapshot(table, out, t, format="unknown")
        except ValueError:
            continue
        report.violate("unknown-format", "%s: store_snapshot accepts the format 'unknown'" % where)
