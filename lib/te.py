"""Helpers to drive trackeddy through its public interface, and workloads."""
import contextlib
import io
import warnings

import numpy as np
import pandas as pd
import xarray as xr

warnings.simplefilter("ignore")


def rng_of(*key):
    """A generator for a case, independent of the order the cases run in."""
    return np.random.default_rng([k & 0xFFFFFFFF for k in key])


def gauss(X, Y, x0, y0, a, b, theta, amp):
    dx, dy = X - x0, Y - y0
    u = dx * np.cos(theta) + dy * np.sin(theta)
    v = -dx * np.sin(theta) + dy * np.cos(theta)
    return amp * np.exp(-(u**2) / (2 * a * a) - v**2 / (2 * b * b))


def dataset(data, lon, lat):
    data = np.asarray(data, float)
    if data.ndim == 2:
        data = data[None]
    return xr.Dataset(
        {"ssh": (("time", "lat", "lon"), data)},
        coords={"time": np.arange(len(data)), "lat": lat, "lon": lon},
    )


def tracker(ds, variable="ssh", filter=None, skip=False, criteria=None, **kw):
    from trackeddy.trackeddy import TrackEddy

    T = TrackEddy(dataset=ds, variable=variable, **kw)
    T.filter = filter
    T.skip_gaussian_fit = skip
    if criteria:
        T.identification_criteria.update(criteria)
    return T


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def make(data, lon, lat, **kw):
    return tracker(dataset(data, lon, lat), **kw)


def track(T, levels, **kw):
    with quiet():
        return T.time_tracking(lin_levels=np.asarray(levels, float), **kw)


def snapshot(T, levels, time=0):
    with quiet():
        return T._detect_snapshot(time, np.asarray(levels, float))


def one_level(T, level, time=0):
    """(identified, discarded) at one level, as the examples of the package do."""
    with quiet():
        data = T.rawdata
        if T.coords["time"]:
            data = data.isel({T.coords["time"]: time})
        T._filter_data_(data.squeeze(), filter=T.filter)
        return T._detect_one_level(level)


SCALARS = [
    "level", "area_eddy", "radius_eddy", "ellipse_params_a", "ellipse_params_b",
    "ellipse_params_theta", "contour_ellipse_error", "ellipse_eccen", "contour_x",
    "contour_y", "eddy_sign", "maxima", "maxima_y", "maxima_x",
]
GAUSS = ["gaussian_params_" + k for k in ("x", "y", "sigma_x", "sigma_y", "theta")]


def is_empty(table):
    return not isinstance(table, pd.DataFrame) or table.empty or not len(table)


def eddies(table):
    """Split a table of eddies: list of (identifier, dict of scalars, contour)."""
    if is_empty(table):
        return []
    flat = table.reset_index()
    out = []
    scal = [c for c in flat.columns if c not in
            ("identifier", "time", "index", "contour_path_x", "contour_path_y")]
    keys = ["identifier"] + (["time"] if "time" in flat.columns else [])
    for key, g in flat.groupby(keys, sort=True):
        path = np.c_[g["contour_path_x"].values.astype(float),
                     g["contour_path_y"].values.astype(float)]
        # what was not measured (no Gaussian fit) is None
        row = {c: float(g[c].iloc[0]) for c in scal
               if c != "" and g[c].iloc[0] is not None}
        row["_index"] = g["index"].values.astype(int)
        row["_constant"] = all(
            g[c].nunique(dropna=False) == 1 for c in scal if c != "")
        out.append((key if len(keys) > 1 else key[0] if isinstance(key, tuple) else key,
                    row, path))
    return out


def content(row, path):
    """Hashable exact content of an eddy, without its identifier."""
    return (
        tuple(sorted((k, repr(v)) for k, v in row.items() if not k.startswith("_"))),
        path.tobytes(),
    )


def near(a, b, rtol=1e-9, atol=1e-12):
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


# ---------------------------------------------------------------- workloads
def grid(rng, small=False, n=None, width=None, lat_max=60):
    nx, ny = (n, n) if n else rng.integers(14, 34 if small else 46, 2)
    lon0 = float(rng.choice([-180, -60, 0, -3, 10, 100, 176, 200, 356, rng.uniform(-180, 360)]))
    lat0 = float(np.clip(rng.choice([-70, -40, -10, -3, 0, 20, 50, rng.uniform(-70, 65)]),
                         -lat_max - 5, lat_max))
    if width:
        w = width
    else:
        # of the size the eddies can have at this latitude
        from oracles import rossby

        w = float(np.clip(rng.uniform(1.5, 7) * 2 * np.pi * rossby(lat0) / 111, 0.4, 9))
    lon = lon0 + np.linspace(0, w, int(nx))
    lat = lat0 + np.linspace(0, w * rng.uniform(0.6, 1.4), int(ny))
    return lon, lat


KINDS = ["gaussians", "smooth", "rough", "noise", "quantised", "plateau", "halo", "holes",
         "ridges"]


def field(rng, lon, lat, kind):
    """A hostile or realistic field, with values of order one."""
    from scipy import ndimage

    X, Y = np.meshgrid(lon, lat)
    shape = X.shape
    lon, lat = np.sort(lon), np.sort(lat)
    w, h = lon[-1] - lon[0], lat[-1] - lat[0]
    d = rng.normal(size=shape)
    if kind == "noise":
        return d
    if kind == "rough":
        d = ndimage.gaussian_filter(d, rng.uniform(0.7, 1.3))
    elif kind in ("gaussians", "halo"):
        d = np.zeros(shape)
        for _ in range(rng.integers(1, 7)):
            d += gauss(X, Y, rng.uniform(lon[0], lon[-1]), rng.uniform(lat[0], lat[-1]),
                       rng.uniform(0.04, 0.2) * abs(w), rng.uniform(0.04, 0.2) * abs(h),
                       rng.uniform(0, 3.1), rng.choice([-1, 1]) * rng.uniform(0.4, 1.4))
        if kind == "halo":
            # small peaks around a big one: many eddies of a level near one of another
            x0, y0 = rng.uniform(lon[0], lon[-1]), rng.uniform(lat[0], lat[-1])
            d += gauss(X, Y, x0, y0, 0.18 * w, 0.18 * h, 0, 0.5)
            for k in range(rng.integers(2, 5)):
                t = rng.uniform(0, 2 * np.pi)
                d += gauss(X, Y, x0 + 0.1 * w * np.cos(t), y0 + 0.1 * h * np.sin(t),
                           0.04 * w, 0.04 * h, 0, rng.uniform(0.2, 0.6))
    elif kind == "ridges":
        # elongated, up to the width of a cell
        d = np.zeros(shape)
        cell = max(abs(w) / shape[1], abs(h) / shape[0])
        for _ in range(rng.integers(1, 5)):
            b = cell * rng.uniform(0.8, 2)
            d += gauss(X, Y, rng.uniform(lon[0], lon[-1]), rng.uniform(lat[0], lat[-1]),
                       b * rng.uniform(2, 16), b, rng.choice([0, np.pi / 2, rng.uniform(0, 3.1)]),
                       rng.choice([-1, 1]) * rng.uniform(0.6, 1.4))
    else:
        d = ndimage.gaussian_filter(d, rng.uniform(1.4, 3.5))
    d = d / max(np.abs(d).max(), 1e-30)
    if kind == "quantised":
        d = np.round(d * 8) / 8
    elif kind == "plateau":
        d = np.clip(d, -0.45, 0.45)
    elif kind == "holes":
        d[ndimage.gaussian_filter(rng.normal(size=shape), 1.6) > 0.12] = np.nan
    return d


_sea = {}


def altimetry(rng, n=None):
    """(field, lon, lat) of a region of the altimetry the package comes with (land is
    missing, values are multiples of 1e-4), or None without that file."""
    import os

    import build

    path = os.path.join(build.REPO, "input/dt_global_allsat_phy_l4_20160901.nc")
    if "sla" not in _sea:
        if os.path.exists(path):
            with xr.open_dataset(path, engine="netcdf4") as ds:
                _sea["sla"] = ds["sla"].values[0].astype(float)
                _sea["lon"] = ds["longitude"].values.astype(float)
                _sea["lat"] = ds["latitude"].values.astype(float)
        else:
            _sea["sla"] = None
    if _sea["sla"] is None:
        return None
    J, I = _sea["sla"].shape
    for _ in range(50):
        ny, nx = (n, n) if n else rng.integers(24, 60, 2)
        j, i = int(rng.integers(40, J - ny - 40)), int(rng.integers(0, I - nx))
        f = _sea["sla"][j:j + ny, i:i + nx]
        if np.isfinite(f).mean() > 0.5:
            return f.copy(), _sea["lon"][i:i + nx].copy(), _sea["lat"][j:j + ny].copy()
    return None


def sea_levels(rng):
    """Levels of altimetry: some of its multiples, or between them."""
    off = 5e-5 if rng.random() < 0.6 else 0.0
    l = rng.choice([0.05, 0.1, 0.15, 0.2, 0.3, 0.4], int(rng.integers(1, 4)), replace=False)
    l = l * (1 if rng.random() < 0.5 else -1) if rng.random() < 0.5 else l * rng.choice([-1, 1], len(l))
    return [float(v) for v in l + off]


def levels_of(rng, n=None):
    pool = [[0.3, 0.1], [0.1, 0.3, -0.1, -0.3], [-0.2, 0.2], [0.2, 0.4, 0.6], [0.15],
            [-0.5, -0.3, -0.15], [0.6, 0.4, 0.2]]
    return list(pool[int(rng.integers(len(pool)))])


def dataset2d(data, X, Y, coords=True):
    """A dataset on a curvilinear grid, with 2-D coordinates (or variables)."""
    data = np.asarray(data, float)
    if data.ndim == 2:
        data = data[None]
    ds = xr.Dataset({"ssh": (("time", "y", "x"), data)}, coords={"time": np.arange(len(data))})
    c = {"lon": (("y", "x"), X), "lat": (("y", "x"), Y)}
    return ds.assign_coords(c) if coords else ds.assign(c)


def rotate(lon, lat, angle):
    """A regular grid turned about its centre."""
    X, Y = np.meshgrid(lon, lat)
    cx, cy = X.mean(), Y.mean()
    dx, dy = X - cx, Y - cy
    c, s = np.cos(angle), np.sin(angle)
    return cx + c * dx - s * dy, cy + s * dx + c * dy


def random_criteria(rng):
    return {
        "ellipse_fit": float(rng.choice([0.5, 0.7, 0.8, 0.9, 0.95])),
        "eccentricity": float(rng.choice([0.3, 0.6, 0.8, 0.95])),
        "gaussian_fit": float(rng.choice([0.3, 0.6, 0.9, 0.95])),
        "max_area": float(rng.choice([0.3, 1, 3, 2 * np.pi, 20])),
    }
