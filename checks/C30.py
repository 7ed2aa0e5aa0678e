"""C30: eddies do not depend on where the data are read from."""
import hashlib
import os

import numpy as np
import xarray as xr

import build
import flows
import te

RULE = ("Each evaluation compares one analysis (tracking, or snapshot) of data given as files, as a "
        "pattern of files, or in lazily loaded pieces with that of the same data in memory, bit by "
        "bit. Distinct non-trivial = (source, operation, pieces) with eddies.")
ASSUMPTIONS = ["netCDF files (classic or 4) whose times increase from file to file"]
REQUIRED = {"runs": 250, "with_eddies": 120, "files": 60, "patterns": 60, "lazy": 50, "packed": 40,
            "missing": 60, "options": 30, "altimetry": 15}
WATCHDOG = 240


def cases(tier, seed):
    for k in range(330 if tier == "quick" else 3000):
        yield {"seed": seed, "k": k}


def digest(folder):
    out = {}
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name), "rb") as f:
            out[name] = hashlib.md5(f.read()).hexdigest()
    return out


def run(case, report):
    import dask

    from trackeddy.trackeddy import TrackEddy

    dask.config.set(scheduler="synchronous")
    rng = te.rng_of(case["seed"], 30, case["k"])
    sea = te.altimetry(rng, n=int(rng.integers(24, 40))) if rng.random() < 0.15 else None
    if sea:
        f, lon, lat = sea
        levels, kind = te.sea_levels(rng), "altimetry"
        data = np.stack([f, np.roll(f, 1, 1), f])
        report.see("altimetry")
    else:
        data, lon, lat, levels, kind = flows.movie(rng, nt=int(rng.integers(2, 7)))
        if rng.random() < 0.4:
            data = data.copy()
            hole = rng.random(data.shape[1:]) < 0.02
            data[:, hole] = np.nan
    nt = len(data)
    ds = te.dataset(data, lon, lat)
    name = str(rng.choice(["ssh", "sla", "adt"]))
    ds = ds.rename(ssh=name)
    if rng.random() < 0.5:
        ds = ds.assign_coords(time=np.datetime64("1999-12-20", "ns")
                              + np.arange(nt) * np.timedelta64(int(rng.choice([1, 5, 30])), "D"))
    if rng.random() < 0.3:
        # another variable beside
        ds["u"] = ds[name] * 2
    if rng.random() < 0.3:
        ds = ds.transpose(*rng.permutation(["time", "lat", "lon"]))
    source = str(rng.choice(["file", "pattern", "pattern", "lazy"]))
    folder = build.scratch()
    # one reference of time for all the files
    encoding = {"time": {"units": "days since 1999-01-01"}} if ds.time.dtype.kind == "M" else {}
    if rng.random() < 0.4:
        big = float(np.nanmax(np.abs(data))) or 1.0
        encoding[name] = {"dtype": "i2", "scale_factor": big / 30000, "_FillValue": -32768}
        report.see("packed")
    form = str(rng.choice(["NETCDF4", "NETCDF3_CLASSIC"]))
    pieces = [ds]
    if source == "pattern" and nt > 1:
        cut = sorted(rng.choice(np.arange(1, nt), int(rng.integers(1, nt)), replace=False))
        pieces = [ds.isel(time=slice(a, b)) for a, b in zip([0, *cut], [*cut, nt])]
    for n, piece in enumerate(pieces):
        piece.to_netcdf(os.path.join(folder, "part_%03d.nc" % n), format=form, encoding={
            k: dict(v) for k, v in encoding.items()})
    paths = [os.path.join(folder, n) for n in sorted(os.listdir(folder))]
    # the data as they are in the files, in memory
    memory = []
    for path in paths:
        with xr.open_dataset(path) as part:
            memory.append(part.load())
    memory = xr.concat(memory, "time", data_vars="minimal") if len(memory) > 1 else memory[0]
    before = digest(folder)
    kw = {}
    if rng.random() < 0.4:
        kw["nan_treatment"] = True
    options = {}
    if source != "lazy" and rng.random() < 0.3:
        options = [{"decode_times": False}, {"chunks": {"time": 1}}, {"engine": "netcdf4"},
                   {"parallel": False}][rng.integers(4)]
        report.see("options")
    filt = "space" if rng.random() < 0.2 else None
    op = str(rng.choice(["track", "track", "snapshot", "offline"]))
    fit = rng.random() < 0.06

    def analyse(given, **more):
        T = flows.relax(TrackEddy(given, name, **kw, **more))
        T.filter, T.skip_gaussian_fit = filt, not fit
        T.S_filter_setup = {"filter_type": str("convolution"), "mode": "uniform", "kernel": 9}
        try:
            if op == "snapshot":
                return te.eddies(te.snapshot(T, levels, nt - 1))
            if op == "track":
                return te.eddies(te.track(T, levels))
            out = T.out_path = build.scratch()
            te.track(T, levels, online_track=False)
            return [(n, open(os.path.join(out, n)).read()) for n in sorted(os.listdir(out))]
        finally:
            T.Dataset.close()

    want = analyse(memory)
    if source == "lazy":
        pieces = {"time": int(rng.integers(1, nt + 1))}
        if rng.random() < 0.5:
            pieces.update(lat=int(rng.integers(5, 20)), lon=int(rng.integers(5, 20)))
        given = memory.chunk(pieces)
        report.see("lazy")
    else:
        pieces = len(paths)
        given = paths[0] if source == "file" else os.path.join(folder, "part_*.nc")
        if source == "file":
            report.see("files")
        else:
            report.see("patterns")
    got = analyse(given, **options)
    where = "%s of %d snapshots from %s (%s) %s %s" % (kind, nt, source, pieces, op, options)
    report.see("runs")
    report.see("with_eddies", bool(want))
    report.see("missing", bool(np.isnan(data).any()))
    report.evaluate((source, op, repr(pieces), len(want), case["k"]) if want else None)
    a = want if op == "offline" else [(k, te.content(r, p)) for k, r, p in want]
    b = got if op == "offline" else [(k, te.content(r, p)) for k, r, p in got]
    if a != b:
        lost = [k for k, _ in a if k not in [q for q, _ in b]]
        report.violate("differs", "%s: %d eddies (or files), %d of the data in memory; lost %s" % (
            where, len(b), len(a), lost[:5]))
    report.check(digest(folder) == before, "files-changed", where)
    if case["k"] < 3:
        report.sample = {"source": source, "pieces": repr(pieces), "operation": op, "eddies": len(want)}
