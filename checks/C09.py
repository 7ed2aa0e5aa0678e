"""C09: inputs are never modified."""
import copy
import os
import random
import sys

import numpy as np
import pandas as pd

import build
import te

RULE = ("Each evaluation takes the bytes, type, layout, attributes and index of every input of one "
        "operation before and after it (arrays are given write protected half of the times, so that a "
        "write raises where it happens). Distinct non-trivial = (operation, protected, inputs).")
REQUIRED = {"operations": 600, "protected": 250, "eddies": 60, "tables": 60, "datasets": 300}
ASSUMPTIONS = ["loading lazy data of a dataset into memory is not a modification"]

OPS = ["track", "snapshot", "one_level", "offline", "filters", "contours", "area", "ellipse",
       "frechet", "similarity", "eccentricity", "gaussian", "surface", "align", "tables", "store",
       "eddy", "construct", "generator"]


def cases(tier, seed):
    for r in range(140 if tier == "quick" else 400):
        for op in OPS:
            yield {"op": op, "seed": seed, "k": r}


def state(x):
    """Everything observable of an input."""
    import xarray as xr

    if isinstance(x, xr.Dataset):
        return ("ds", sorted((str(k), state(x[k])) for k in x.variables),
                sorted(map(str, x.data_vars)), sorted(map(str, x.coords)), repr(x.attrs),
                sorted((str(k), v) for k, v in x.sizes.items()))
    if isinstance(x, xr.DataArray):
        return ("da", x.dims, state(np.asarray(x.values)), repr(x.attrs), x.name,
                sorted(map(str, x.coords)), repr(sorted(x.encoding.items())))
    if isinstance(x, np.ndarray):
        return ("a", x.dtype.str, x.shape, x.strides if x.base is None else None, x.tobytes()
                if x.dtype != object else repr(x.tolist()))
    if isinstance(x, pd.DataFrame):
        return ("df", list(map(str, x.columns)), [repr(i) for i in x.index], list(map(str, x.index.names)),
                [(str(x[c].dtype), [repr(v) for v in x[c].values]) for c in x.columns])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [state(v) for v in x])
    if isinstance(x, dict):
        return ("dict", [(repr(k), state(v)) for k, v in x.items()])
    return repr(x)


def protect(x, on):
    import xarray as xr

    if not on:
        return x
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, xr.Dataset):
        for v in x.variables.values():
            if isinstance(v._data, np.ndarray):
                v._data.flags.writeable = False
    elif isinstance(x, (list, tuple)):
        for v in x:
            protect(v, on)
    return x


def run(case, report):
    import trackeddy.geometry as g
    import trackeddy.trackeddy as tt
    import trackeddy.utils as u

    rng = te.rng_of(case["seed"], 9, case["k"], OPS.index(case["op"]))
    op = case["op"]
    on = bool(rng.random() < 0.5)

    def watch(name, function, *inputs):
        before = [state(i) for i in inputs]
        for i in inputs:
            protect(i, on)
        try:
            out = function()
        finally:
            for n, (i, b) in enumerate(zip(inputs, before)):
                report.check(state(i) == b, "modified:" + name, "%s modified its input %d (%s)%s" % (
                    name, n, type(i).__name__, difference(b, state(i))))
        report.see("operations")
        report.see("protected", on)
        report.see("op_" + name)
        report.evaluate((name, on, case["k"]))
        return out

    lon, lat = te.grid(rng, small=True)
    kind = str(rng.choice(["gaussians", "smooth", "halo", "holes", "rough"]))
    f = te.field(rng, lon, lat, kind)
    X, Y = np.meshgrid(lon, lat)
    if rng.random() < 0.3:
        # layouts of memory which tempt conversions in place
        f = np.asfortranarray(f)
    levels = te.levels_of(rng)
    if op in ("track", "snapshot", "one_level", "offline", "filters", "construct"):
        if rng.random() < 0.3:
            ds = te.dataset2d(np.stack([f, f * 0.9]), *te.rotate(lon, lat, 0.3),
                              coords=bool(rng.random() < 0.5))
        else:
            ds = te.dataset(np.stack([f, f * 0.9]), lon, lat)
        if rng.random() < 0.5:
            ds = ds.transpose(*rng.permutation(list(ds.ssh.dims)))
        # attributes of some parts, none of others
        for part in (ds, ds.ssh, *(ds[c] for c in ("lon", "lat", "time"))):
            if rng.random() < 0.5:
                part.attrs[str(rng.choice(["units", "title", "long_name", "_FillValue"]))] = "x"
        if rng.random() < 0.3:
            ds["ssh"] = ds.ssh.astype("f4")
        report.see("datasets")
        nan = bool(rng.random() < 0.5)
        filt = [None, "space"][int(rng.random() < 0.5)]
        setup = [{"filter_type": "convolution", "mode": "uniform", "kernel": int(rng.integers(3, 9))},
                 {"filter_type": "zonal"}, {"filter_type": "meridional"}][rng.integers(3)]
        lev = np.array(levels + [0.0]) if rng.random() < 0.5 else list(levels + [0.0])
        criteria = te.random_criteria(rng)
        criteria["max_area"] = 100.0

        def tracker():
            T = tt.TrackEddy(dataset=ds, variable="ssh", nan_treatment=nan)
            T.filter, T.S_filter_setup = filt, setup
            T.identification_criteria = criteria
            T.skip_gaussian_fit = bool(case["k"] % 4)
            return T

        def go():
            T = tracker()
            with te.quiet():
                if op == "track":
                    return T.time_tracking(lin_levels=lev)
                if op == "snapshot":
                    return T._detect_snapshot(1, lev)
                if op == "one_level":
                    T._filter_data_(T.rawdata.isel({T.coords["time"]: 0}).squeeze(), filter=filt)
                    return T._detect_one_level(levels[0])[0]
                if op == "filters":
                    T._filter_data_(T.rawdata.isel({T.coords["time"]: 0}).squeeze(), filter="space")
                    return T.data2track
                if op == "offline":
                    T.out_path = build.scratch()
                    T.time_tracking(lin_levels=lev, online_track=False)
            return T

        out = watch(op, go, ds, lev, setup, criteria)
        if op == "filters" and not on:
            # nor does writing on the result reach the dataset
            before = state(ds)
            try:
                out.values[...] = 7.5
            except ValueError:
                pass
            report.check(state(ds) == before, "aliased:filters", "the filtered data alias the dataset")
        elif isinstance(out, pd.DataFrame):
            report.see("eddies", len(te.eddies(out)))
        if case["k"] == 0 and report.sample is None:
            report.sample = {"op": op, "levels": levels, "dims": list(ds.ssh.dims), "protected": on}
        return
    if op == "contours":
        Z = f.copy()
        watch(op, lambda: g.extract_contours(X, Y, Z, 0.1), X, Y, Z)
        M = rng.random(Z.shape) < 0.1
        import trackeddy._cntr as cntr

        watch("engine", lambda: cntr.Cntr(X, Y, Z, M).trace(0.1), X, Y, Z, M)
        return
    contours, _ = g.extract_contours(X, Y, np.where(np.isfinite(f), f, 0) + 0.0,
                                     0.1 + 1e-7)
    contours = [np.array(c) for c in contours if len(c) > 8] or [
        np.array(te.gauss and __import__("oracles").ellipse_points(
            {"a": 2, "b": 1, "theta": 0.4, "centre": np.array([3.0, 4.0])}, 20))]
    c = contours[int(rng.integers(len(contours)))]
    d = contours[int(rng.integers(len(contours)))][::-1].copy()
    if op == "area":
        watch(op, lambda: g.area_latlon_polygon(c), c)
    elif op == "ellipse":
        x, y = c[:, 0].copy(), c[:, 1].copy()

        def fit():
            try:
                return g.fit_ellipse(x, y)
            except np.linalg.LinAlgError:
                return None

        watch(op, fit, x, y)
    elif op == "frechet":
        if rng.random() < 0.3:
            c, d = np.repeat(c, 40, axis=0)[:400], np.repeat(d, 40, axis=0)[:350]
        watch(op, lambda: g.frdist(c, d), c, d)
        cl, dl = c.tolist(), d.tolist()
        watch(op + "_lists", lambda: g.frdist(cl, dl), cl, dl)
    elif op == "similarity":
        watch(op, lambda: g.compute_similarity(c, d), c, d)
        watch("length", lambda: g.arc_length(c), c)
    elif op == "eccentricity":
        a, b = np.array(-2.0), np.array(1.0)
        watch(op, lambda: g.eccentricity(a, b), a, b)
    elif op == "gaussian":
        p = np.array([1.0, 2, 0.5, 0.4, 0.3])
        Z = f.copy()
        watch(op, lambda: g.gaussian((X, Y, 2.0), *p), X, Y, p)
        watch("residual", lambda: g.gaussian_residual(p, (X, Y, 2.0), Z), p, X, Y, Z)
    elif op == "surface":
        from trackeddy.eddy import Eddy

        e = Eddy(c, 0.1)
        e.eddy_maxima = np.array([[1.0], [lat.mean()], [lon.mean()]])
        e.ellipse_params = np.array([0.5, 0.4, 0.2])
        Z = te.gauss(X, Y, lon.mean(), lat.mean(), 0.5, 0.4, 0.2, 1)
        Z[rng.random(Z.shape) < 0.1] = np.nan
        watch(op, lambda: g.Fit_Surface(e, Z, X, Y)._fitting(), X, Y, Z, c, e.eddy_maxima,
              e.ellipse_params)
    elif op == "align":
        if hasattr(g, "align_curve"):
            watch(op, lambda: g.align_curve(d, c), c, d)
    elif op == "eddy":
        from trackeddy.eddy import Eddy

        T = te.make(f, lon, lat, skip=True)
        T.identification_criteria.update(max_area=1e4, eccentricity=0.99, ellipse_fit=0.5)
        e = Eddy(c, 0.1)
        e.identifier = 3
        e.contour_center = c.mean(0)
        e.ellipse_params = np.array([1.0, 0.5, 0.1])
        e.eddy_maxima = np.array([[1.0], [2.0], [3.0]])
        e.gaussian_params = np.arange(5.0)
        watch(op, lambda: (e.to_dict(), e.to_table(), e.to_table(["level", "contour"])),
              c, e.contour_center, e.ellipse_params, e.eddy_maxima, e.gaussian_params, e.__dict__)
    elif op in ("tables", "store"):
        T = te.make(np.stack([f, np.roll(f, 1, 1)]), lon, lat, skip=True)
        T.identification_criteria.update(max_area=1e4, eccentricity=0.95, ellipse_fit=0.6)
        a, b = te.snapshot(T, levels, 0), te.snapshot(T, levels, 1)
        if te.is_empty(a) or te.is_empty(b):
            return
        report.see("tables")
        a["time"], b["time"] = 0, 1
        a = a.reset_index().set_index(["identifier", "time", "index"]).sort_index()
        b = b.reset_index().set_index(["identifier", "time", "index"]).sort_index()
        if op == "tables":
            watch("track_online", lambda: u.track_online(a, b, 1, 5), a, b)
            watch("unlink", lambda: u.unlink_eddies_in_previous_times(a, 1, 5), a)
        else:
            path = build.scratch()
            for fmt in ("csv", "json"):
                watch("store_" + fmt, lambda: u.store_snapshot(a, path, 3, format=fmt), a)
    elif op == "generator":
        from trackeddy.generator import field_generator as fg

        x, y = np.linspace(0, 5, 20), np.linspace(0, 6, 25)
        random.seed(int(rng.integers(10**6)))

        def go():
            G = fg.Generate_field(0.3, 0.4, 3, x, y, ["", "Nint", "int"][rng.integers(3)])
            G.assemble_field(2, margin=3)

        watch(op, go, x, y)


def difference(a, b):
    a, b = repr(a), repr(b)
    n = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
    return ": ...%s... became ...%s..." % (a[max(n - 60, 0):n + 60], b[max(n - 60, 0):n + 60])
