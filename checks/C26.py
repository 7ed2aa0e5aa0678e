"""C26: the layout of the dataset does not matter."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import xarray as xr

import audit
import oracles
import te

RULE = ("Each evaluation compares the eddies of one field in two layouts of its dataset. Distinct "
        "non-trivial = (field, layout) with eddies.")
ASSUMPTIONS = ["layouts which only rename or reorder give bit-identical tables (close ones after a "
               "filter, whose sums may be taken in another order)",
               "reversed axes start the contours elsewhere: there, eddies far from the criteria must be "
               "the same, and their measures agree closely",
               "rotated grids sample analytic fields: positions agree within a cell, sizes within 10 %"]
KINDS = ["order", "names", "two_d", "reversed", "rotated", "levels", "file", "static", "refused"]
REQUIRED = {"same": 400, "with_eddies": 250, "tracked": 60, "filtered": 60, "rotated_eddies": 40,
            "reversed_eddies": 50, "refusals": 60, "fitted": 60, "level_zero": 40, "negative": 40,
            **{"kind_" + k: 20 for k in KINDS}}
WATCHDOG = 300


def cases(tier, seed):
    for k in range(80 if tier == "quick" else 1200):
        for kind in KINDS:
            yield {"seed": seed, "k": k, "kind": kind}


def build(data, lon, lat, dims=("time", "lat", "lon"), order=None, mode="1d", cnames=None):
    """A dataset in one of the layouts. dims: names of time, y and x."""
    t, y, x = dims
    if mode == "1d":
        ds = xr.Dataset({"ssh": ((t, y, x), data)},
                        coords={t: np.arange(len(data)), y: lat, x: lon})
    else:
        cy, cx = cnames or ("lat", "lon")
        X, Y = np.meshgrid(lon, lat) if np.ndim(lon) == 1 else (lon, lat)
        ds = xr.Dataset({"ssh": ((t, y, x), data)}, coords={t: np.arange(len(data))})
        c = {cx: ((y, x), X), cy: ((y, x), Y)}
        ds = ds.assign(c) if mode == "2dvar" else ds.assign_coords(c)
    if order is not None:
        ds = ds.transpose(*[dims[k] for k in order])
    return ds


def others(ds, dims, rng):
    """The variables which files of altimetry and models hold besides."""
    t, y, x = dims
    shape = [ds.sizes[d] for d in dims]
    add = {
        x + "_bnds": ((x, "nv"), ds[x].values[:, None] + [-0.1, 0.1]),
        y + "_bnds": ((y, "nv"), ds[y].values[:, None] + [-0.1, 0.1]),
        t + "_bnds": ((t, "nv"), ds[t].values[:, None] + [0, 1]),
        "crs": ((), np.int32(-1)),
        "depth": ((y, x), rng.normal(size=shape[1:])),
        "err": (dims, rng.normal(size=shape)),
        "ugos": (dims, rng.normal(size=shape)),
        "latent_heat": (dims, rng.normal(size=shape)),
        "longwave": (dims, rng.normal(size=shape)),
        "relative_vorticity": (dims, rng.normal(size=shape)),
        "elongation": ((y, x), rng.normal(size=shape[1:])),
        "isolation": ((y, x), rng.normal(size=shape[1:])),
    }
    for name in rng.permutation(list(add))[: rng.integers(2, 10)]:
        ds[name] = add[name]
    return ds[list(rng.permutation(list(ds.data_vars)))]


def run(case, report):
    kind = case["kind"]
    rng = te.rng_of(case["seed"], 26, case["k"], KINDS.index(kind))
    report.see("kind_" + kind)
    if kind == "refused":
        return refused(report, rng)
    if kind == "rotated":
        return rotated(report, rng)
    lon, lat = te.grid(rng, n=int(rng.integers(18, 34)) + 14 * (kind == "reversed"))
    lat = lat[: len(lat) - int(rng.integers(0, 5))]
    nt = int(rng.choice([1, 2, 3]))
    fkind = str(rng.choice(["gaussians", "gaussians", "smooth", "rough", "holes", "halo"]))
    f = np.stack([te.field(rng, lon, lat, fkind)] * nt)
    if nt > 1:
        f = f * np.linspace(1, 0.8, nt)[:, None, None]
    levels = te.levels_of(rng)
    skip = bool(rng.random() < 0.7)
    filt = None
    setup = None
    if rng.random() < 0.3 and kind in ("order", "names", "two_d", "file", "static"):
        filt = "space"
        setup = {"filter_type": str(rng.choice(["zonal", "meridional", "convolution"]))}
        if setup["filter_type"] == "convolution":
            setup.update(mode="uniform", kernel=int(rng.choice([5, 8])))

    def tracker(ds, **kw):
        T = te.tracker(ds, skip=skip, filter=filt, **kw)
        T.identification_criteria.update(max_area=20.0)
        if setup:
            T.S_filter_setup = dict(setup)
        return T

    tracked = bool(rng.random() < 0.3) and kind != "static"
    time = int(rng.integers(nt))

    def result(T, lev=levels):
        if tracked:
            with te.quiet():
                return T.time_tracking(lin_levels=lev)
        with te.quiet():
            return T._detect_snapshot(time, lev)

    base_ds = build(f, lon, lat)
    where = "%s field, %s" % (fkind, "tracked" if tracked else "snapshot %d" % time)
    base = result(tracker(base_ds), np.asarray(levels))
    report.see("with_eddies", len(te.eddies(base)) > 0)
    report.see("filtered", filt is not None)
    report.see("fitted", not skip and len(te.eddies(base)) > 0)
    report.see("negative", any(r["eddy_sign"] < 0 for _, r, _ in te.eddies(base)))
    report.see("tracked", tracked)
    variants = []
    if kind == "order":
        for order in itertools.permutations(range(3)):
            variants.append(("order %s" % (order,), lambda o=order: build(f, lon, lat, order=o)))
        variants.append(("order, in 2-D", lambda: build(
            f, lon, lat, ("time", "y", "x"), order=list(rng.permutation(3)), mode="2dcoord")))
    elif kind == "names":
        for dims in [("time", "latitude", "longitude"), ("t", "y", "x"), ("time", "nav_lat", "nav_lon"),
                     ("time_counter", "lat", "lon"), ("t", "lat", "x"), ("time", "y", "lon")]:
            variants.append(("names %s" % (dims,), lambda d=dims: build(f, lon, lat, d)))
        for dims in [("time", "latitude", "longitude"), ("time", "lat", "lon")]:
            variants.append(("with other variables, %s" % (dims,), lambda d=dims: others(
                build(f, lon, lat, d), d, rng)))
    elif kind == "two_d":
        for mode in ("2dvar", "2dcoord"):
            for cn in [("lat", "lon"), ("latitude", "longitude"), ("nav_lat", "nav_lon")]:
                variants.append(("%s %s" % (mode, cn), lambda m=mode, c=cn: build(
                    f, lon, lat, ("time", "y", "x"), mode=m, cnames=c)))
            variants.append(("%s with other variables" % mode, lambda m=mode: others(
                build(f, lon, lat, ("time", "y", "x"), mode=m, cnames=("nav_lat", "nav_lon")),
                ("time", "y", "x"), rng)))
        variants.append(("2-D y and x on nlat and nlon", lambda: build(
            f, lon, lat, ("time", "nlat", "nlon"), mode="2dcoord", cnames=("yc_lat", "xc_lon"))))
    elif kind == "reversed":
        return flipped(report, rng, f, lon, lat, time)
    elif kind == "levels":
        forms = [list(levels), tuple(levels), np.array(levels), np.array(levels + [0.0]),
                 [0.0] + list(levels), [0] + list(levels) + [0.0], np.array(levels, ">f8")]
        for form in forms:
            report.see("level_zero", 0 in [float(v) for v in form])
            got = result(tracker(base_ds), form)
            same(report, base, got, "%s, levels as %r" % (where, form), True)
        return
    elif kind == "static":
        d2 = xr.Dataset({"ssh": (("lat", "lon"), f[time])}, coords={"lat": lat, "lon": lon})
        variants = [("no time", lambda: d2), ("no time, transposed", lambda: d2.transpose("lon", "lat")),
                    ("no time, 2-D", lambda: build(f[time:time + 1], lon, lat, ("time", "y", "x"),
                                                   mode="2dcoord").isel(time=0, drop=True))]
    elif kind == "file":
        folder = tempfile.mkdtemp(prefix="verif-c26-")
        try:
            path = os.path.join(folder, "field.nc")
            base_ds.to_netcdf(path)
            two = os.path.join(folder, "part*.nc")
            for i in range(nt):
                base_ds.isel(time=[i]).to_netcdf(os.path.join(folder, "part%d.nc" % i))
            forms = [("a file", path, {}), ("several files", two, {})]
            if nt == 1:
                forms = forms[:1]
            for name, p, kw in forms:
                T = tracker(p, **kw)
                got = result(T)
                T.Dataset.close()
                same(report, base, got, "%s, from %s" % (where, name), filt is None)
        finally:
            shutil.rmtree(folder)
        return
    for name, make in variants:
        ds = make()
        copy = ds.copy(deep=True)
        got = result(tracker(ds))
        same(report, base, got, "%s, %s" % (where, name), filt is None)
        report.check(ds.identical(copy), "dataset-modified", name)
    report.evaluate((f.tobytes()[:80], kind), len(variants) if len(te.eddies(base)) else 0)
    if case["k"] < 2:
        report.sample = {"case": where, "layouts": [n for n, _ in variants],
                         "eddies": len(te.eddies(base))}


def same(report, a, b, where, exact):
    report.see("same")
    A, B = te.eddies(a), te.eddies(b)
    if not report.check([k for k, _, _ in A] == [k for k, _, _ in B], "eddies",
                        "%s: eddies %s, of the plain layout %s" % (
                            where, [k for k, _, _ in B][:9], [k for k, _, _ in A][:9])):
        return
    if A:
        report.evaluate((te.content(A[0][1], A[0][2]), where))
    for (k, r, p), (_, s, q) in zip(A, B):
        if exact:
            good = te.content(r, p) == te.content(s, q)
        else:
            good = p.shape == q.shape and te.near(p, q, 1e-7, 1e-9) and all(
                te.near(r[c], s[c], 1e-4, 2e-4) for c in r if not c.startswith("_"))
        report.check(good, "measures", "%s: eddy %s differs: %s" % (where, k, {
            c: (r[c], s.get(c)) for c in r if not c.startswith("_") and r[c] != s.get(c)}))


def clear(row, path, criteria):
    """Far enough from the criteria for the start of the contour not to matter."""
    # the first vertex, which is given twice, weighs in the fit of the smallest ones
    status, info = audit.criteria_of(path, criteria)
    return len(path) > 20 and info.get("area_difference", 1) < 0.06 * criteria["ellipse_fit"] and all(s == audit.PASS for s in status.values()) and (
        min(row["contour_ellipse_error"], info["similarity"][0]) > criteria["ellipse_fit"] + 0.06)


def flipped(report, rng, f, lon, lat, time):
    level = float(rng.choice([0.3, 0.15, -0.2, -0.35])) * (1 + 1e-7)
    T0 = te.make(f, lon, lat, skip=True)
    T0.identification_criteria.update(max_area=20.0, ellipse_fit=0.75)
    crit = T0.identification_criteria
    a = te.eddies(te.one_level(T0, level, time)[0])
    for name, i, j in [("latitudes", -1, 1), ("longitudes", 1, -1), ("both", -1, -1)]:
        ds = build(f[:, ::i, ::j], lon[::j], lat[::i],
                   mode="1d" if rng.random() < 0.6 else "2dcoord",
                   dims=("time", "y", "x"))
        T = te.tracker(ds, skip=True)
        T.identification_criteria.update(crit)
        b = te.eddies(te.one_level(T, level, time)[0])
        both(report, a, b, crit, "%s descending" % name)
        both(report, b, a, crit, "%s ascending" % name)


def both(report, a, b, crit, where, moved=False):
    for k, r, p in a:
        if not clear(r, p, crit):
            continue
        report.see("reversed_eddies")
        report.see("same")
        report.evaluate((te.content(r, p), where))
        match = [(s, q) for _, s, q in b if q.shape == p.shape
                 and te.near(np.sort(q[:-1, 0]), np.sort(p[:-1, 0]), 1e-9, 1e-9)
                 and te.near(np.sort(q[:-1, 1]), np.sort(p[:-1, 1]), 1e-9, 1e-9)]
        report.see("matched", len(match) == 1)
        if not report.check(len(match) == 1, "eddies", "%s: eddy at (%r, %r) found %d times" % (
                where, r["contour_x"], r["contour_y"], len(match))):
            continue
        s, q = match[0]
        bad = [c for c in ("level", "eddy_sign", "maxima", "maxima_x", "maxima_y")
               if not te.near(r[c], s[c], 1e-13, 1e-13 * (c != "maxima" and c != "level"))]
        # the mean of the closed contour counts its first vertex twice
        step = np.sqrt((np.diff(p, axis=0) ** 2).sum(1)).max()
        bad += [c for c in ("contour_x", "contour_y")
                if abs(r[c] - s[c]) > 2 * np.abs(p - p.mean(0)).max() / len(p)]
        bad += [c for c in ("area_eddy", "radius_eddy") if not te.near(
            r[c], s[c], 1e-6 if not (moved or audit.near_origin(p)) else
            2 * audit.area_slack(p, 1.0) + 1e-3)]
        bad += [c for c in ("ellipse_params_a", "ellipse_params_b") if not te.near(r[c], s[c], 0.05)]
        if abs(r["contour_ellipse_error"] - s["contour_ellipse_error"]) > 0.06 + 2 * step / oracles.length(p):
            bad.append("contour_ellipse_error")
        report.check(not bad, "measures", "%s: eddy at (%r, %r) differs in %s" % (
            where, r["contour_x"], r["contour_y"], {c: (r[c], s[c]) for c in bad}))


def rotated(report, rng):
    """Eddies of an analytic field on a rotated grid."""
    lat0 = float(rng.choice([0.3, -10, 25, -40, 50]))
    lon0 = float(rng.choice([0, 180, -60, 359, 120]))
    limit = 2 * np.pi * oracles.rossby(abs(lat0) + 1) / 111
    w = float(min(0.8, 0.3 * limit))
    d = w / rng.uniform(5, 7)
    n = int(18 * w / d)
    lon, lat = lon0 + (np.arange(n) - n / 2) * d, lat0 + (np.arange(n) - n / 2) * d
    planted = []
    for _ in range(rng.integers(1, 5)):
        p = rng.uniform(-4.5, 4.5, 2) * w + [lon0, lat0]
        if all(np.hypot(*(p - q[0])) > 5.5 * w for q in planted):
            planted.append((p, rng.uniform(0.8, 1.2) * w, rng.choice([-1, 1])))

    def sample(X, Y):
        return sum(s * np.exp(-((X - p[0]) ** 2 + (Y - p[1]) ** 2) / 2 / (v * v)) for p, v, s in planted)

    X, Y = np.meshgrid(lon, lat)
    levels = [0.3, -0.3, 0.15, -0.15]
    # seen by the similarity of coarse contours otherwise
    crit = {"ellipse_fit": 0.7, "gaussian_fit": 0.6}
    skip = bool(rng.random() < 0.5)
    T = te.make(sample(X, Y), lon, lat, skip=skip, criteria=crit)
    a = te.eddies(te.snapshot(T, levels))
    angle = float(rng.choice([np.pi / 2, np.pi, -np.pi / 2, 0.3, 0.8, rng.uniform(0, 6.2)]))
    X2, Y2 = te.rotate(lon, lat, angle)
    T2 = te.tracker(te.dataset2d(sample(X2, Y2), X2, Y2, bool(rng.random() < 0.5)), skip=skip,
                    criteria=crit)
    b = te.eddies(te.snapshot(T2, levels))
    where = "%d features around (%g, %g), grid turned by %.2f" % (len(planted), lon0, lat0, angle)
    report.see("same")
    for p, v, s in planted:
        for name, found in (("regular", a), ("rotated", b)):
            near = [(r, q) for _, r, q in found
                    if np.hypot(r["maxima_x"] - p[0], r["maxima_y"] - p[1]) < 1.5 * d]
            report.see("rotated_eddies")
            report.evaluate((round(p[0], 6), round(p[1], 6), name, round(angle, 6)))
            if not report.check(len(near) == 1, "rotated:" + name, "%s: the one at %s found %d times" % (
                    where, p, len(near))):
                continue
            r, q = near[0]
            g = v * np.sqrt(2 * np.log(s / r["level"])) if s / r["level"] > 1 else 0
            true = oracles.polygon_area(oracles.ellipse_points(
                {"a": g, "b": g, "theta": 0, "centre": p}, 300))
            report.check(r["eddy_sign"] == s, "rotated-sign:" + name, where)
            report.check(abs(r["area_eddy"] / max(true, 1e-9) - 1) < 0.1, "rotated-area:" + name,
                         "%s: area %r, true %r" % (where, r["area_eddy"], true))
            report.check(np.hypot(r["contour_x"] - p[0], r["contour_y"] - p[1]) < 0.7 * d,
                         "rotated-centre:" + name, "%s: centre %s of %s" % (
                             where, (r["contour_x"], r["contour_y"]), p))
            if not skip:
                report.check(abs(r["gaussian_params_sigma_x"] / v - 1) < 0.15
                             and abs(r["gaussian_params_sigma_y"] / v - 1) < 0.15,
                             "rotated-gaussian:" + name, "%s: widths %r %r of %r" % (
                                 where, r["gaussian_params_sigma_x"], r["gaussian_params_sigma_y"], v))


def refused(report, rng):
    """Without recognisable coordinates there is nothing to place the eddies on."""
    f = rng.normal(size=(2, 8, 9))
    for dims in [("time", "a", "b"), ("time", "row", "b"), ("time", "lat", "b"), ("t", "a", "lon"),
                 ("p", "q", "r")]:
        ds = xr.Dataset({"ssh": (dims, f)}, coords={d: np.arange(n) for d, n in zip(dims, f.shape)})
        report.see("refusals")
        report.evaluate(("refused", dims))
        try:
            te.tracker(ds)
        except ValueError:
            continue
        report.violate("accepted", "a dataset with the dimensions %s" % (dims,))
    # coordinates with an impossible number of dimensions
    ds = xr.Dataset({"ssh": (("time", "y", "x"), f),
                     "lon": (("time", "y", "x"), f), "lat": (("time", "y", "x"), f)})
    report.see("refusals")
    try:
        te.tracker(ds)
    except ValueError:
        return
    report.violate("accepted", "three dimensional coordinates")
