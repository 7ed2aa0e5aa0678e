"""C29: missing data and changes elsewhere do not affect an eddy."""
import numpy as np

import oracles
import te

RULE = ("Each evaluation is one eddy looked for again after the data away from it (and at other times) "
        "were changed or removed, or one reported contour whose vertices are located between grid points "
        "with data. Distinct non-trivial = (eddy, change).")
ASSUMPTIONS = ["away: further from the box around the contour than its own size and five cells",
               "single levels, or several levels when nothing else is left near the eddy"]
CHANGES = ["missing", "all_missing", "zero", "noise", "huge", "scattered_missing", "other_times",
           "eddies", "cut"]
REQUIRED = {"watched": 300, "fitted": 60, "levels": 40, "vertices": 3000, "contours_by_holes": 40,
            "curvilinear": 40, **{"change_" + c: 25 for c in CHANGES}}
WATCHDOG = 300


def cases(tier, seed):
    for k in range(80 if tier == "quick" else 1000):
        for change in CHANGES:
            yield {"seed": seed, "k": k, "kind": change}
    for k in range(260 if tier == "quick" else 3000):
        yield {"seed": seed, "k": k, "kind": "holes"}


def run(case, report):
    kind = case["kind"]
    rng = te.rng_of(case["seed"], 29, case["k"], (CHANGES + ["holes"]).index(kind))
    if kind == "holes":
        return holes(report, rng)
    n = int(rng.integers(34, 60))
    lon, lat = te.grid(rng, n=n)
    X, Y = np.meshgrid(lon, lat)
    f = te.field(rng, lon, lat, str(rng.choice(["gaussians", "smooth", "rough", "halo"])))
    # one to look at, near a side so that the rest of the field is away
    i0, j0 = rng.choice([0.22, 0.5, 0.78], 2)
    cx, cy = lon[0] + i0 * np.ptp(lon), lat[0] + j0 * np.ptp(lat)
    s = float(rng.choice([-1, 1]))
    w = rng.uniform(0.035, 0.06)
    near = np.exp(-(((X - cx) / np.ptp(lon)) ** 2 + ((Y - cy) / np.ptp(lat)) ** 2) / 2 / w**2)
    f = f * (1 - np.clip(4 * near, 0, 1)) * 0.8 + s * near
    curvi = bool(rng.random() < 0.25)
    skip = bool(rng.random() < 0.6)
    multi = bool(rng.random() < 0.25)
    level = s * float(rng.choice([0.3, 0.45, 0.2]))
    levels = [level, level * 1.4, level * 0.7] if multi else [level]
    crit = {"max_area": 40.0, "ellipse_fit": 0.8, "gaussian_fit": 0.6}
    if curvi:
        X, Y = te.rotate(lon, lat, float(rng.uniform(0, 6)))

    def detect(data, time=0):
        if curvi:
            T = te.tracker(te.dataset2d(data, X, Y), skip=skip, criteria=crit)
        else:
            T = te.make(data, lon, lat, skip=skip, criteria=crit)
        if multi:
            return te.eddies(te.snapshot(T, levels, time))
        return te.eddies(te.one_level(T, level, time)[0])

    before = detect(f)
    J, I = np.indices(f.shape)
    for key, row, path in before:
        # in grid points
        d = ((X[..., None] - path[:, 0]) ** 2 + (Y[..., None] - path[:, 1]) ** 2) if len(path) < 200 else None
        if d is None:
            continue
        k = np.array([np.unravel_index(np.argmin(d[..., v]), f.shape) for v in range(len(path))])
        lo, hi = k.min(0), k.max(0)
        away = int((hi - lo).max()) + 5
        keep = ((J >= lo[0] - away) & (J <= hi[0] + away) & (I >= lo[1] - away) & (I <= hi[1] + away))
        if (~keep).sum() < 30:
            continue
        if multi:
            # eddies of other levels compete with the one looked at when they are beside it
            others = [r for kk, r, _ in before if kk != key]
            if abs(row["maxima"]) < 0.9 or any(
                    np.hypot(r["maxima_x"] - row["maxima_x"], r["maxima_y"] - row["maxima_y"])
                    < 3 * np.ptp(path, axis=0).max() for r in others):
                continue
        g, time = changed(rng, kind, f, keep)
        after = detect(g, time)
        report.see("watched")
        report.see("change_" + kind)
        report.see("fitted", not skip)
        report.see("levels", multi)
        report.see("curvilinear", curvi)
        report.evaluate((kind, path.tobytes()[:64]))
        where = "%s, %d points away of %d, eddy of %d vertices at (%.3f, %.3f)%s" % (
            kind, (~keep).sum(), keep.size, len(path), row["contour_x"], row["contour_y"],
            ", several levels" if multi else "")
        same = [(r, p) for _, r, p in after if r["maxima_x"] == row["maxima_x"]
                and r["maxima_y"] == row["maxima_y"] and np.allclose(
                    [r["contour_x"], r["contour_y"]], [row["contour_x"], row["contour_y"]], atol=1e-9)]
        if not report.check(len(same) == 1, "lost", "%s: reported %d times" % (where, len(same))):
            continue
        r, p = same[0]
        diff = {c: (row[c], r.get(c)) for c in row if not c.startswith("_") and row[c] != r.get(c)}
        report.check(not diff and np.array_equal(p, path), "different", "%s: %s" % (where, diff))
        if report.sample is None and case["k"] < 3:
            report.sample = {"case": where}
        break


def changed(rng, kind, f, keep):
    g = f.copy()
    far = ~keep
    time = 0
    if kind == "missing":
        j, i = (int(rng.integers(s)) for s in f.shape)
        box = np.zeros(f.shape, bool)
        box[max(j - 12, 0):j + 12, max(i - 12, 0):i + 12] = True
        g[far & box] = np.nan
    elif kind == "all_missing":
        g[far] = np.nan
    elif kind == "zero":
        g[far] = 0
    elif kind == "noise":
        g[far] += rng.normal(size=far.sum())
    elif kind == "huge":
        g[far] *= -1e9
    elif kind == "scattered_missing":
        g[far & (rng.random(f.shape) < 0.3)] = np.nan
    elif kind == "other_times":
        # other snapshots
        other = [rng.normal(size=f.shape), np.full(f.shape, np.nan), -f, f * 1e6]
        time = int(rng.integers(3))
        stack = [other[int(rng.integers(4))] for _ in range(3)]
        stack[time] = g
        g = np.stack(stack)
    elif kind == "eddies":
        J, I = np.indices(f.shape)
        g = f.copy()
        for _ in range(8):
            j, i = (int(rng.integers(s)) for s in f.shape)
            bump = rng.choice([-2, 2]) * np.exp(-((J - j) ** 2 + (I - i) ** 2) / 2 / rng.uniform(1, 4) ** 2)
            g = np.where(far, g + bump, g)
    elif kind == "cut":
        # a wall all around
        g[far] = rng.choice([-5.0, 5.0])
    return g, time


def holes(report, rng):
    """Where missing data are beside the contours."""
    n = int(rng.integers(20, 40))
    lon, lat = te.grid(rng, n=n)
    f = te.field(rng, lon, lat, str(rng.choice(["gaussians", "smooth", "rough"])))
    pattern = str(rng.choice(["scattered", "blobs", "strip", "point", "coast"]))
    levels = (0.3, -0.3, 0.1, -0.1, 0.6)
    sea = te.altimetry(rng) if pattern == "coast" else None
    if sea is not None:
        f, lon, lat = sea
        levels = te.sea_levels(rng)
    elif pattern == "scattered":
        f[rng.random(f.shape) < rng.choice([0.01, 0.05, 0.2])] = np.nan
    elif pattern == "blobs":
        f[te.field(rng, lon, lat, "smooth") > rng.uniform(0.3, 0.7)] = np.nan
    elif pattern == "strip":
        f[:, int(rng.integers(n))] = np.nan
    else:
        # on top of the highest point
        f[np.unravel_index(np.argmax(np.abs(f)), f.shape)] = np.nan
    X, Y = np.meshgrid(lon, lat)
    T = te.make(f, lon, lat, skip=True)
    T.identification_criteria.update(max_area=40.0, ellipse_fit=0.5, eccentricity=0.97)
    for level in levels:
        level *= 1 + 1e-7
        E = oracles.EdgeMap(X, Y, f, level)
        for k, row, path in te.eddies(te.one_level(T, level)[0]):
            where = "%s, eddy at (%.3f, %.3f), level %g" % (pattern, row["contour_x"], row["contour_y"], level)
            report.evaluate((pattern, path.tobytes()[:64]))
            report.see("vertices", len(path))
            if not report.check(np.isfinite(path).all(), "missing-vertex", where):
                continue
            at = E.locate(path)
            report.check((at >= 0).all(), "vertex-in-missing-data", "%s: vertex %s" % (
                where, path[np.argmin(at)]))
            if (at >= 0).all():
                bad = E.walk(path, at)
                report.check(bad is None, "through-missing-data", "%s: between %s and %s" % (
                    where, path[bad or 0], path[(bad or 0) + 1]))
            inside = oracles.inside(path, X, Y)
            beside = E.rows[at[at >= 0], 3:5].astype(int)
            a = np.zeros(f.shape, bool)
            a[beside[:, 0], beside[:, 1]] = True
            from scipy import ndimage

            report.see("contours_by_holes", (np.isnan(f) & (ndimage.binary_dilation(
                a, iterations=2) | inside)).any())
            report.check(np.array_equal(path[0], path[-1]), "not-closed", where)
            report.check(np.isfinite(row["maxima"]), "missing-extremum", where)
