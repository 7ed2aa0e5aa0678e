"""C18: treating missing data is the same as filling it beforehand."""
import numpy as np

import flows
import te

RULE = ("Each evaluation compares one result (filtered data, tables of a level, of a snapshot, or of "
        "tracks) of a field with missing data and the treatment enabled, with that of the field "
        "filled with zeros, bit by bit; or checks that nothing is filled when it is disabled. Distinct "
        "non-trivial = (operation, filter, missing pattern) with eddies or filtered points.")
ASSUMPTIONS = []
REQUIRED = {"filters": 100, "one_level": 80, "snapshot": 80, "track": 60, "disabled": 100,
            "eddies": 150, "missing_points": 20000, "eddies_touching_missing": 20}
WATCHDOG = 240


def cases(tier, seed):
    for k in range(600 if tier == "quick" else 6000):
        yield {"seed": seed, "k": k}


def run(case, report):
    rng = te.rng_of(case["seed"], 18, case["k"])
    if rng.random() < 0.4:
        data, lon, lat, levels, kind = flows.movie(rng, nt=3)
    else:
        lon, lat = te.grid(rng, small=True)
        kind = str(rng.choice(["gaussians", "smooth", "halo"]))
        f = te.field(rng, lon, lat, kind)
        data, levels = np.stack([f, np.roll(f, 1, 1)]), te.levels_of(rng)
    data = data + rng.choice([0, 0, 0.7, -3])
    shape = data.shape
    pattern = str(rng.choice(["points", "coast", "islands", "column", "snapshot"]))
    if pattern == "points":
        hole = rng.random(shape) < rng.choice([0.02, 0.1, 0.3])
    elif pattern == "coast":
        hole = np.zeros(shape, bool)
        hole[:, : shape[1] // 3] = True
        hole[:, :, -2:] = True
    elif pattern == "islands":
        from scipy import ndimage

        hole = np.broadcast_to(ndimage.gaussian_filter(rng.normal(size=shape[1:]), 2) > 0.1, shape)
    elif pattern == "column":
        hole = np.zeros(shape, bool)
        hole[:, :, int(rng.integers(shape[2]))] = True
        hole[:, int(rng.integers(shape[1]))] = True
    else:
        hole = np.zeros(shape, bool)
        hole[int(rng.integers(shape[0]))] = True
    bad = np.where(hole, np.nan, data)
    filled = np.where(hole, 0.0, data)
    filt = str(rng.choice(["none", "zonal", "meridional", "convolution"]))
    setup = {"filter_type": filt}
    if filt == "convolution":
        setup.update(mode="uniform", kernel=int(rng.integers(3, 12)))
    fit = rng.random() < 0.06

    def tracker(d, treat):
        T = te.make(d, lon, lat, skip=not fit, filter=None if filt == "none" else "space",
                    nan_treatment=treat)
        T.S_filter_setup = dict(setup)
        T.identification_criteria.update(max_area=1e3, eccentricity=0.95, ellipse_fit=0.6)
        return T

    op = str(rng.choice(["filters", "one_level", "snapshot", "track", "disabled"]))
    where = "%s with %s missing, filter %s" % (op, pattern, filt)
    A, B = tracker(bad, True), tracker(filled, bool(rng.random() < 0.5))
    t = int(rng.integers(len(data)))
    report.see(op)
    report.see("missing_points", hole[t].sum())
    if op in ("filters", "disabled"):
        if op == "disabled":
            A = tracker(bad, False)
        with te.quiet():
            for T in (A, B):
                T._filter_data_(T.rawdata.isel(time=t), filter=T.filter)
        a, b = A.data2track.values, B.data2track.values
        if op == "disabled":
            report.check(np.isnan(a[hole[t]]).all(), "filled-when-disabled",
                         "%s: %d missing points have values" % (where, np.isfinite(a[hole[t]]).sum()))
            if filt == "none":
                report.check(np.array_equal(a, bad[t], equal_nan=True), "changed-when-disabled", where)
        else:
            report.check(np.array_equal(a, b, equal_nan=True), "filtered",
                         "%s: %d points differ from those of the filled field" % (
                             where, (~((a == b) | np.isnan(a) & np.isnan(b))).sum()))
        report.evaluate((op, filt, pattern, case["k"]))
        return
    levels = [float(l) for l in levels]
    if op == "one_level":
        (a, da), (b, db) = (te.one_level(T, levels[0], t) for T in (A, B))
        na, nb = len(da), len(db)
        report.check(na == nb, "discarded", "%s: %d discarded, %d of the filled field" % (where, na, nb))
    elif op == "snapshot":
        a, b = (te.snapshot(T, levels, t) for T in (A, B))
    else:
        a, b = (te.track(T, levels) for T in (A, B))
    a, b = te.eddies(a), te.eddies(b)
    x = [(k, te.content(r, p)) for k, r, p in a]
    y = [(k, te.content(r, p)) for k, r, p in b]
    report.check(x == y, "eddies", "%s: %d eddies, %d of the filled field, %d in common" % (
        where, len(x), len(y), len({c for _, c in x} & {c for _, c in y})))
    report.see("eddies", len(a))
    for k, r, p in b:
        s = int(k[1]) if op == "track" else t
        X, Y = np.meshgrid(lon, lat)
        near = (np.abs(X - r["contour_x"]) < np.ptp(p[:, 0])) & (
            np.abs(Y - r["contour_y"]) < np.ptp(p[:, 1]))
        report.see("eddies_touching_missing", (near & hole[s]).any())
    report.evaluate((op, filt, pattern, repr(x)[:2000]) if a else None)
    if case["k"] < 6:
        report.sample = {"where": where, "eddies": len(a), "missing": int(hole.sum())}
