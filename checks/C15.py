"""C15: the time window is respected."""
import numpy as np

import flows
import te

RULE = ("Each evaluation tracks one window of a dataset and compares every eddy, identifier and time "
        "(shifted) with tracking a dataset cut to that window, while the snapshots outside it are "
        "poisoned or counted when read. Distinct non-trivial = (start, end, length) with eddies.")
ASSUMPTIONS = ["windows start and end inside the dataset; an end of zero is not used"]
REQUIRED = {"asked_by_date": 30, "asked_by_number": 150, "long_windows": 6, "empty_windows": 15, "windows": 500, "with_eddies": 250, "no_tf": 100, "single": 50, "late_start": 250,
            "offline": 40, "first_blank": 15}
WATCHDOG = 240


def cases(tier, seed):
    for k in range(320 if tier == "quick" else 3500):
        yield {"seed": seed, "k": k}


def run(case, report):
    import os

    import build

    rng = te.rng_of(case["seed"], 15, case["k"])
    if case["k"] % 40 == 1:
        return long_window(rng, report)
    nt = int(rng.integers(3, 8))
    data, lon, lat, levels, kind = flows.movie(rng, nt=nt)
    for _ in range(2):
        t0 = int(rng.integers(0, nt))
        tf = int(rng.integers(t0 + 1, nt + 1))
        given = bool(rng.random() < 0.7)
        if rng.random() < 0.1 and t0:
            # a window which holds nothing
            tf, given = int(rng.integers(1, t0 + 1)), True
            T = flows.relax(te.make(data, lon, lat, skip=True))
            offline = bool(rng.random() < 0.3)
            if offline:
                T.out_path = build.scratch()
            table = te.track(T, levels, t0=t0, tf=tf, online_track=not offline)
            name = "%s movie of %d, window t0=%d tf=%d" % (kind, nt, t0, tf)
            report.check(te.is_empty(table), "empty-window", "%s: %d eddies" % (
                name, len(te.eddies(table))))
            report.check(not offline or not os.listdir(T.out_path), "empty-window-stored",
                         "%s: a snapshot is stored" % name)
            report.see("empty_windows")
            report.see("windows")
            report.evaluate((t0, tf, nt, "empty"))
            continue
        end = tf if given else nt
        kw = {"t0": t0} if t0 or rng.random() < 0.5 else {}
        if given:
            kw["tf"] = tf
        d = data.copy()
        if rng.random() < 0.2:
            d[t0] = 0
            report.see("first_blank")
        cut = d[t0:end].copy()
        outside = np.ones(nt, bool)
        outside[t0:end] = False
        if rng.random() < 0.7:
            # other eddies outside of the window
            d[outside] = -d[outside][:, ::-1, ::-1]
        ds = te.dataset(d, lon, lat)
        dated = rng.random() < 0.5
        if dated:
            ds = ds.assign_coords(time=np.datetime64("2001-01-01") + 7 * np.arange(nt).astype("m8[D]"))
        name = "%s movie of %d, window %s" % (kind, nt, kw)
        T = flows.relax(te.tracker(ds, skip=True))
        C = flows.relax(te.make(cut, lon, lat, skip=True))
        if rng.random() < 0.12:
            # the window of what is stored
            T.out_path, C.out_path = build.scratch(), build.scratch()
            te.track(T, levels, online_track=False, **kw)
            te.track(C, levels, online_track=False)
            a = sorted(os.listdir(T.out_path))
            b = sorted(os.listdir(C.out_path))
            b = ["identified_eddies_{0:05}.csv".format(int(f.split("_")[-1].split(".")[0]) + t0)
                 for f in b]
            report.check(a == b, "stored-times", "%s: files %s, of the cut dataset %s" % (name, a, b))
            report.see("offline")
            report.see("windows")
            report.evaluate((t0, end, nt, "offline") if a else None)
            continue
        a = te.eddies(te.track(T, levels, **kw))
        b = te.eddies(te.track(C, levels))
        if rng.random() < 0.3:
            asked(report, rng, ds, d, lon, lat, levels, dated, name)
        times = sorted({int(k[1]) for k, _, _ in a})
        report.check(all(t0 <= t < end for t in times), "outside-window", "%s: times %s" % (name, times))
        x = sorted((int(k[0]), int(k[1]), te.content(r, p)) for k, r, p in a)
        y = sorted((int(k[0]), int(k[1]) + t0, te.content(r, p)) for k, r, p in b)
        if x != y:
            tx, ty = sorted({i[1] for i in x}), sorted({i[1] for i in y})
            report.violate("times" if tx != ty else "tracks", "%s: %d eddies at %s, of the cut dataset "
                           "%d at %s" % (name, len(x), tx, len(y), ty))
        report.see("windows")
        report.see("with_eddies", bool(a))
        report.see("no_tf", not given)
        report.see("single", end - t0 == 1)
        report.see("late_start", t0 > 0)
        report.evaluate((t0, end, nt, len(a)) if a else None)
        if case["k"] < 3:
            report.sample = {"window": kw, "snapshots": nt, "kind": kind, "times": times}


def asked(report, rng, ds, d, lon, lat, levels, dated, name):
    """One snapshot, asked for by its position or its date, is the one analysed."""
    t = int(rng.integers(len(d)))
    forms = [t, t - len(d), np.int64(t), np.int32(t), np.arange(len(d))[t]]
    if dated:
        day = str(ds.time.values[t])
        forms += [day[:10], day, day[:19]]
    alone = te.snapshot(flows.relax(te.make(d[t], lon, lat, skip=True)), levels)
    want = sorted(te.content(r, p) for _, r, p in te.eddies(alone))
    T = flows.relax(te.tracker(ds, skip=True))
    for form in rng.permutation(np.array(forms, object))[:3]:
        got = te.snapshot(T, levels, form)
        got = sorted(te.content(r, p) for _, r, p in te.eddies(got))
        report.check(got == want, "asked", "%s: snapshot %r is not number %d: %d eddies, expected %d" % (
            name, form, t, len(got), len(want)))
        report.see("asked_by_date" if isinstance(form, str) else "asked_by_number")
        report.evaluate((str(form), len(d), len(want)) if want else None)


def long_window(rng, report):
    """A year or more of snapshots, with one eddy which comes and goes."""
    nt = int(rng.choice([130, 260, 400]))
    lon, lat = 30 + 0.2 * np.arange(12), -20 + 0.2 * np.arange(12)
    X, Y = np.meshgrid(lon, lat)
    on = rng.random(nt) < 0.6
    peak = te.gauss(X, Y, lon.mean(), lat.mean(), 0.35, 0.35, 0, 1.0)
    data = np.zeros((nt, *X.shape))
    data[on] = peak
    t0 = int(rng.integers(0, nt - 60))
    tf = int(rng.integers(t0 + 1, nt + 1)) if rng.random() < 0.3 else None
    T = flows.relax(te.make(data, lon, lat, skip=True))
    times = sorted({int(k[1]) for k, _, _ in te.eddies(te.track(T, [0.4], t0=t0, tf=tf, ntimes=2))})
    want = [t for t in range(t0, tf or nt) if on[t]]
    report.check(times == want, "long-window", "window (%d, %s) of %d snapshots: eddies at %d times, there "
                 "are %d; first difference %s" % (t0, tf, nt, len(times), len(want),
                                                  sorted(set(times) ^ set(want))[:3]))
    report.see("long_windows")
    report.see("windows")
    report.evaluate((t0, tf, nt, "long"))
