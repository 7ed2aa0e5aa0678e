"""C17: the spatial filters remove exactly what they claim to."""
import numpy as np
import xarray as xr

import te

RULE = ("Each evaluation compares every point of one filtered snapshot with a naive computation of the "
        "definition of the filter. Distinct non-trivial = (filter, kernel, shape, missing data, layout).")
ASSUMPTIONS = ["mode 'gaussian' and filters in time are not implemented in the package",
               "equality up to rounding of the sums"]
REQUIRED = {"zonal": 120, "meridional": 120, "convolution": 200, "none": 60, "even_kernel": 80,
            "odd_kernel": 80, "missing": 150, "points": 100000, "refused": 60, "large_kernel": 15,
            "rotated": 60, "offset": 60, "default_kernel": 20}


def cases(tier, seed):
    for k in range(3000 if tier == "quick" else 7000):
        yield {"seed": seed, "k": k}


def uniform(f, kernel):
    """f minus the mean over its window, points beyond the edges counted as zeros."""
    size = kernel + 1 - kernel % 2
    h = size // 2
    pad = np.pad(f, h)
    win = np.lib.stride_tricks.sliding_window_view(pad, (size, size))
    ok = np.isfinite(win)
    with np.errstate(all="ignore"):
        return f - np.where(ok, win, 0).sum((2, 3)) / ok.sum((2, 3))


def run(case, report):
    rng = te.rng_of(case["seed"], 17, case["k"])
    small = rng.random() < 0.2
    ny, nx = (rng.integers(2, 8, 2) if small else rng.integers(8, 40, 2)).tolist()
    lon = rng.uniform(-180, 180) + 0.3 * np.arange(nx)
    lat = rng.uniform(-60, 40) + 0.3 * np.arange(ny)
    f = rng.normal(size=(2, ny, nx))
    kind = rng.integers(4)
    if kind == 1:
        f = f + rng.choice([5.0, -40.0, 1e3])
        report.see("offset")
    elif kind == 2:
        f = f + np.linspace(0, 20, nx)[None, None] - np.linspace(0, 9, ny)[None, :, None]
    elif kind == 3:
        f = f * 10.0 ** rng.integers(-5, 5)
    missing = rng.random() < 0.45
    if missing:
        hole = rng.random(f.shape) < rng.choice([0.03, 0.2, 0.6])
        if rng.random() < 0.3:
            hole[:, : max(1, ny // 3)] = True
        if rng.random() < 0.2:
            hole[:, :, : max(1, nx // 4)] = True
        f[hole] = np.nan
    nan = bool(rng.random() < 0.35)
    two = rng.random() < 0.25
    if two:
        X, Y = te.rotate(lon, lat, rng.uniform(0, 6))
        ds = te.dataset2d(f, X, Y, coords=bool(rng.random() < 0.5))
        names = ("y", "x")
        report.see("rotated")
    else:
        ds = te.dataset(f, lon, lat)
        names = ("lat", "lon")
    if rng.random() < 0.4:
        ds = ds.transpose(*rng.permutation(list(ds.ssh.dims)))
    T = te.tracker(ds, nan_treatment=nan)
    which = str(rng.choice(["zonal", "meridional", "convolution", "convolution", "none", "refused"]))
    if min(nx, ny) < 2:
        return
    T.filter = "space"
    kernel = None
    if which == "convolution":
        T.S_filter_setup = {"filter_type": "convolution"}
        if rng.random() < 0.8:
            T.S_filter_setup["mode"] = "uniform"
        kernel = 10
        if rng.random() < 0.85:
            kernel = int(rng.integers(1, 14))
            if rng.random() < 0.1:
                kernel = int(max(nx, ny) + rng.integers(0, 5))
                report.see("large_kernel")
            T.S_filter_setup["kernel"] = kernel
            report.see("even_kernel" if kernel % 2 == 0 else "odd_kernel")
        else:
            report.see("default_kernel")
            if rng.random() < 0.5:
                # as the tracker is built
                T.S_filter_setup = te.tracker(ds).S_filter_setup
    elif which in ("zonal", "meridional"):
        T.S_filter_setup = {"filter_type": which}
    elif which == "none":
        T.filter = None
    else:
        bad = str(rng.choice(["setup", "name"]))
        if bad == "setup":
            T.S_filter_setup = {"filter_type": str(rng.choice(["gaussian", "Zonal", "median", ""]))}
        else:
            T.filter = str(rng.choice(["spatial", "Space", "zonal", "lowpass"]))
        refused = False
        try:
            with te.quiet():
                T._detect_snapshot(0, np.array([0.1]))
        except ValueError:
            refused = True
        report.check(refused, "not-refused", "filter %r with setup %r is accepted" % (
            T.filter, T.S_filter_setup))
        report.see("refused")
        report.evaluate(("refused", T.filter, str(T.S_filter_setup)))
        return
    t = int(rng.integers(0, 2))
    where = "%s kernel %s, %d x %d, time %d%s%s" % (
        which, kernel, ny, nx, t, ", missing data" if missing else "", ", nan treatment" if nan else "")
    with te.quiet():
        snap = ds.ssh.isel(time=t)
        if rng.random() < 0.5:
            # through the detection
            T._detect_snapshot(t, np.array([1e30]))
        else:
            T._filter_data_(T.rawdata.isel(time=t), filter=T.filter)
    out = T.data2track
    if not report.check(set(out.dims) == set(names), "dimensions", "%s: %s" % (where, out.dims)):
        return
    out = out.transpose(*names).values
    raw = f[t]
    g = np.where(np.isfinite(raw), raw, 0.0) if nan else raw
    with np.errstate(all="ignore"):
        if which == "zonal":
            want = g - mean(g, 0)
        elif which == "meridional":
            want = g - mean(g, 1)
        elif which == "convolution":
            want = uniform(g, kernel)
        else:
            want = g
    scale = np.nanmax(np.abs(g)) if np.isfinite(g).any() else 1
    report.see(which)
    report.see("missing", missing)
    report.see("points", g.size)
    report.evaluate((which, kernel, ny, nx, bool(missing), nan, two))
    a, b = np.isnan(out), np.isnan(want)
    if not report.check(not (a & ~b).any(), "points-lost", "%s: %d points with data became missing" % (
            where, (a & ~b).sum())):
        return
    if not report.check(not (b & ~a).any(), "points-invented",
                        "%s: %d points without data have a value" % (where, (b & ~a).sum())):
        return
    if which == "none":
        report.check(np.array_equal(out, want, equal_nan=True), "values:none", where)
        return
    err = np.abs(out - want)
    err[b] = 0
    worst = np.unravel_index(np.argmax(err), err.shape)
    report.check(err[worst] <= 1e-11 * scale * max(nx, ny), "values:" + which,
                 "%s: at %s %r instead of %r (data %r)" % (where, worst, out[worst], want[worst], g[worst]))
    if case["k"] < 5:
        report.sample = {"filter": where, "largest_difference": float(err[worst])}


def mean(g, axis):
    ok = np.isfinite(g)
    return np.expand_dims(np.where(ok, g, 0).sum(axis) / ok.sum(axis), axis)
