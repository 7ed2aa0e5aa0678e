"""C19: tracking completes on any field."""
import os

import numpy as np
import pandas as pd

import build
import te

RULE = ("Each evaluation is one run (detection of a level or snapshot, tracking, storage) on a hostile "
        "field, watched for exceptions, time-outs and malformed results. Distinct non-trivial = (kind of "
        "field, operation, settings, rows).")
ASSUMPTIONS = ["fields are finite or missing (no infinities), grids have at least two rows and columns",
               "a run that has not ended after 200 s of processor time (they take about one) is taken "
               "as one which does not end"]
KINDS = ["noise", "quantised", "plateau", "constant", "zero", "missing", "all_missing", "ridge", "island",
         "checker", "spike", "tiny_scale", "huge_scale", "tiny_grid", "line", "gradient", "steps",
         "integers", "float32", "rings", "gaussians", "denormal", "level_values", "single_point",
         "mixed_scale", "symmetric", "large_grid", "ridges", "altimetry"]
REQUIRED = {"runs": 700, "with_eddies": 100, "fitted": 15, "tracked": 100,
            **{"kind_" + k: 10 for k in KINDS}}
WATCHDOG = 200
TERMINATES = True


def cases(tier, seed):
    for k in range(46 if tier == "quick" else 420):
        for kind in KINDS:
            if kind == "large_grid" and k % 3:
                continue
            yield {"seed": seed, "k": k, "kind": kind}


def hostile(rng, kind, lon, lat):
    X, Y = np.meshgrid(lon, lat)
    shape = X.shape
    w, h = np.ptp(lon), np.ptp(lat)
    x, y = (X - lon.mean()) / w, (Y - lat.mean()) / h
    r = np.hypot(x, y)
    if kind == "large_grid":
        # eddies of hundreds of cells beside the borders
        f = np.zeros(shape)
        s = rng.uniform(0.12, 0.17)
        near = rng.uniform(1.6, 2.2) * s
        for p in rng.permutation([(-1, -1), (1, 1), (-1, 1), (1, -1)])[: rng.integers(1, 4)]:
            f += te.gauss(x, y, *(p * (0.5 - near)), s, s * rng.uniform(0.9, 1.1), 0, rng.choice([-1, 1]))
        return f
    if kind in ("noise", "quantised", "plateau", "gaussians", "ridges"):
        return te.field(rng, lon, lat, kind)
    if kind == "constant":
        return np.full(shape, rng.choice([0.3, -0.3, 1.0, 1e-8]))
    if kind == "zero":
        return np.zeros(shape) * rng.choice([1, -1])
    if kind == "all_missing":
        return np.full(shape, np.nan)
    if kind == "missing":
        f = te.field(rng, lon, lat, "smooth")
        f[rng.random(shape) < rng.choice([0.02, 0.2, 0.5, 0.9])] = np.nan
        return f
    if kind == "ridge":
        return np.exp(-((x * np.cos(1) + y * np.sin(1)) / rng.uniform(0.02, 0.2)) ** 2)
    if kind == "line":
        f = np.zeros(shape)
        if rng.random() < 0.5:
            f[shape[0] // 2, 2:-2] = rng.uniform(0.3, 1)
        else:
            for i in range(2, min(shape) - 2):
                f[i, i] = 1
        return f
    if kind == "island":
        f = np.exp(-(r / 0.25) ** 2) * rng.choice([-1, 1])
        f[r < rng.uniform(0.05, 0.2)] = rng.choice([0.0, np.nan])
        return f
    if kind == "checker":
        i, j = np.indices(shape)
        return ((i + j) % 2) * 2.0 - 1
    if kind == "spike":
        f = 1e-3 * rng.normal(size=shape)
        for _ in range(5):
            f[rng.integers(1, shape[0] - 1), rng.integers(1, shape[1] - 1)] = rng.choice([-1, 1, 1e6])
        return f
    if kind == "single_point":
        f = np.zeros(shape)
        f[tuple(rng.integers(0, s) for s in shape)] = 1
        return f
    if kind == "gradient":
        return x * rng.normal() + y * rng.normal()
    if kind == "steps":
        return np.floor(4 * te.field(rng, lon, lat, "smooth")) / 4
    if kind == "integers":
        return np.round(5 * te.field(rng, lon, lat, "smooth")).astype(int)
    if kind == "float32":
        return te.field(rng, lon, lat, "smooth").astype("f4")
    if kind == "rings":
        return np.cos(r * rng.uniform(15, 60))
    if kind == "level_values":
        # many grid values exactly at the levels
        return rng.choice([0.1, 0.3, -0.1, -0.3, 0.2, 0.4, 0.0], shape)
    if kind == "mixed_scale":
        return te.field(rng, lon, lat, "smooth") * 10.0 ** (8 * x)
    if kind == "symmetric":
        return np.exp(-((np.round(x * 20) / 20) ** 2 + (np.round(y * 20) / 20) ** 2) / 0.02)
    return te.field(rng, lon, lat, str(rng.choice(["smooth", "gaussians"])))


def run(case, report):
    kind = case["kind"]
    rng = te.rng_of(case["seed"], 19, case["k"], KINDS.index(kind))
    if kind == "tiny_grid":
        ny, nx = rng.integers(2, 6, 2)
        lon, lat = 10 + 0.2 * np.arange(nx), rng.choice([0, 40]) + 0.2 * np.arange(ny)
    else:
        lon, lat = te.grid(rng, n=int(rng.integers(12, 26)))
        if kind == "large_grid":
            lon = np.linspace(lon[0], lon[0] + 8, int(rng.integers(200, 340)))
            lat = np.linspace(-6, 2, int(rng.integers(200, 340)))
        lat = lat[: len(lat) - int(rng.integers(0, 4))]
        if rng.random() < 0.15:
            lon = np.sort(lon[0] + np.ptp(lon) * rng.random(len(lon)))
    sea = te.altimetry(rng, int(rng.integers(12, 45))) if kind == "altimetry" else None
    if sea is not None:
        f, lon, lat = sea
    else:
        f = hostile(rng, kind, lon, lat)
    scale = 1.0
    if kind == "tiny_scale":
        scale = 10.0 ** rng.integers(-40, -6)
    elif kind == "huge_scale":
        scale = 10.0 ** rng.integers(6, 40)
    elif kind == "denormal":
        scale = 10.0 ** float(rng.choice([-310, -300, 150, 290]))
    f = f * scale
    levels = [float(l * scale) for l in te.levels_of(rng)]
    if sea is not None:
        levels = te.sea_levels(rng)
    if kind == "large_grid":
        levels = [0.3, -0.3][:: rng.choice([-1, 1])]
    if rng.random() < 0.2:
        levels += [0.0]
    if rng.random() < 0.1:
        levels = [float(rng.normal() * scale * 100) for _ in range(3)]
    skip = bool(rng.random() < 0.75) or kind == "large_grid"
    criteria = {}
    if rng.random() < 0.6:
        criteria = {"max_area": 1e4, "eccentricity": float(rng.choice([0.85, 1.0])),
                    "ellipse_fit": float(rng.choice([0.01, 0.5, 5.0])),
                    "gaussian_fit": float(rng.choice([0, 0.5]))}
    op = str(rng.choice(["one_level", "snapshot", "track", "offline"], p=[0.3, 0.3, 0.3, 0.1]))
    data = f
    if op in ("track", "offline"):
        data = np.stack([f, f[::-1], np.zeros_like(f), f])
    filt = None
    setup = {}
    if rng.random() < 0.25 and np.issubdtype(np.asarray(f).dtype, np.floating):
        filt = "space"
        setup = {"filter_type": str(rng.choice(["zonal", "meridional", "convolution"]))}
        if setup["filter_type"] == "convolution":
            setup["kernel"] = int(rng.integers(2, 8))
    two = kind not in ("tiny_grid",) and rng.random() < 0.15
    if two:
        X, Y = te.rotate(lon, lat, float(rng.choice([0.4, np.pi / 2, np.pi, 2.2])))
        T = te.tracker(te.dataset2d(data, X, Y), skip=skip, filter=filt, criteria=criteria,
                       nan_treatment=bool(rng.random() < 0.3))
    else:
        ds = te.dataset(data, lon, lat)
        ds["ssh"] = (ds.ssh.dims, np.asarray(data)[None] if np.ndim(data) == 2 else np.asarray(data))
        T = te.tracker(ds, skip=skip, filter=filt, criteria=criteria,
                       nan_treatment=bool(rng.random() < 0.3))
    T.S_filter_setup = setup or T.S_filter_setup
    if op == "one_level":
        table, discarded = te.one_level(T, levels[0])
        report.check(isinstance(discarded, (list, pd.DataFrame)), "malformed", type(discarded))
    elif op == "snapshot":
        table = te.snapshot(T, levels)
    elif op == "track":
        table = te.track(T, levels, ntimes=int(rng.integers(0, 4)))
    else:
        T.out_path = build.scratch()
        T.out_format = str(rng.choice(["csv", "json"]))
        table = te.track(T, levels, online_track=False)
        report.see("stored", len(os.listdir(T.out_path)))
    report.check(isinstance(table, pd.DataFrame), "malformed", "%s of %s returns a %s" % (
        op, kind, type(table)))
    found = te.eddies(table)
    report.see("runs")
    report.see("kind_" + kind)
    report.see("with_eddies", bool(found))
    report.see("fitted", not skip and bool(found))
    report.see("tracked", op in ("track", "offline"))
    report.evaluate((kind, op, skip, filt, two, len(found), case["k"]))
    if case["k"] == 0 and kind in KINDS[:4]:
        report.sample = {"kind": kind, "operation": op, "levels": levels, "eddies": len(found)}
