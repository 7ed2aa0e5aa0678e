"""C06: the extremum and the sign of an eddy are those of the field inside its contour."""
import numpy as np

import oracles
import te

RULE = ("Each evaluation compares the extremum, its position and the sign of one reported eddy "
        "with the field over the grid points its contour encloses (point in polygon of another "
        "library). Distinct non-trivial = (extremum, position, vertices).")
ASSUMPTIONS = ["the sign is judged when the mean over the points strictly inside and the mean "
               "including those beside the contour agree"]
REQUIRED = {"eddies": 600, "negative": 150, "rotated": 60, "descending": 60, "large": 40,
            "origin": 25, "sign_judged": 400, "filtered": 20}


def cases(tier, seed):
    for k in range(2500 if tier == "quick" else 9000):
        yield {"seed": seed, "k": k}


def run(case, report):
    rng = te.rng_of(case["seed"], 6, case["k"])
    layout = str(rng.choice(["plain", "rotated", "descending", "large", "origin"]))
    lon, lat = te.grid(rng)
    if layout == "large":
        lon = np.linspace(0, rng.uniform(30, 70), rng.integers(30, 70)) + rng.choice([-180, 0, 150])
        lat = np.linspace(-25, 25, rng.integers(25, 60)) + rng.choice([0, 30, -40])
    elif layout == "origin":
        w = rng.uniform(3, 30)
        lon = np.linspace(-w / 2, w / 2, rng.integers(20, 60)) + rng.choice([0, 0, 180, 360])
        lat = np.linspace(-w / 2, w / 2, rng.integers(20, 60))
    kind = str(rng.choice(["gaussians", "smooth", "rough", "halo", "holes", "plateau", "ring"]))
    X, Y = np.meshgrid(lon, lat)
    if kind == "ring":
        # a contour around a basin deeper than the level, or a rim higher inside
        r = np.hypot((X - lon.mean()) / np.ptp(lon), (Y - lat.mean()) / np.ptp(lat))
        f = np.exp(-(r / 0.2) ** 2) * 0.9 - rng.uniform(0.5, 3) * np.exp(
            -(r / rng.uniform(0.05, 0.12)) ** 2)
        f = f + 0.05 * te.field(rng, lon, lat, "smooth")
    else:
        f = te.field(rng, lon, lat, kind)
    sea = te.altimetry(rng) if rng.random() < 0.15 and layout in (
        "plain", "descending", "rotated") else None
    if sea is not None:
        f, lon, lat = sea
        kind = "altimetry"
    if rng.random() < 0.5:
        f = -f
    f = f * 10.0 ** rng.integers(-2, 3)
    scale = np.nanmax(np.abs(f))
    if not scale > 0:
        return
    if layout == "descending":
        if rng.random() < 0.5:
            lat, f = lat[::-1], f[::-1]
        else:
            lon, f = lon[::-1], f[:, ::-1]
    if layout == "rotated":
        X, Y = te.rotate(lon, lat, rng.uniform(0, 2 * np.pi))
        T = te.tracker(te.dataset2d(f, X, Y), skip=True)
    else:
        X, Y = np.meshgrid(lon, lat)
        T = te.make(f, lon, lat, skip=True)
    filtered = rng.random() < 0.1
    if filtered:
        T.filter = "space"
        T.S_filter_setup = {"filter_type": str(rng.choice(["zonal", "meridional"]))}
    T.identification_criteria.update(
        max_area=1e4, eccentricity=float(rng.choice([0.85, 0.97])),
        ellipse_fit=float(rng.choice([0.6, 0.85])))
    levels = te.levels_of(rng)
    if sea is not None:
        levels = [l / np.nanmax(np.abs(sea[0])) for l in te.sea_levels(rng)]
        report.see("altimetry")
    for level in levels:
        found, _ = te.one_level(T, level * scale)
        Z = np.array(T.data2track.values)
        for key, row, path in te.eddies(found):
            audit(report, row, path, X, Y, Z, "eddy %s at level %g, %s %s" % (
                key, level, layout, kind))
            report.see("eddies")
            report.see(layout)
            report.see("filtered", filtered)
            if report.sample is None and case["k"] < 4:
                report.sample = {"layout": layout, "kind": kind, "maxima": row["maxima"],
                                 "position": [row["maxima_x"], row["maxima_y"]],
                                 "vertices": len(path)}


def audit(report, row, path, X, Y, Z, where):
    value, px, py, sign = row["maxima"], row["maxima_x"], row["maxima_y"], row["eddy_sign"]
    d = np.hypot(X - px, Y - py)
    j, i = np.unravel_index(np.argmin(d), d.shape)
    step = np.hypot(np.abs(np.diff(X, axis=1)).max() + np.abs(np.diff(X, axis=0)).max(),
                    np.abs(np.diff(Y, axis=1)).max() + np.abs(np.diff(Y, axis=0)).max())
    if not report.check(d[j, i] <= 1e-9 * step + 1e-12 * abs(px), "not-a-grid-point",
                        "%s: extremum at (%r, %r)" % (where, px, py)):
        return
    report.check(Z[j, i] == value, "value",
                 "%s: extremum %r, the field there is %r" % (where, value, Z[j, i]))
    m = oracles.inside(path, X, Y) & np.isfinite(Z)
    if not m[j, i]:
        q = oracles.densify(path, 4)
        away = np.hypot(q[:, 0] - px, q[:, 1] - py).min()
        report.check(away <= step, "outside", "%s: extremum %.3f cells away from the contour" % (
            where, away / step))
    report.check(sign in (-1, 1), "sign-value", "%s: sign %r" % (where, sign))
    if m.any():
        worst = (sign * Z[m]).max()
        report.check(worst <= sign * value, "not-extreme",
                     "%s: extremum %r of sign %r, but %r inside" % (where, value, sign, sign * worst))
        near = grow(m) & np.isfinite(Z)
        a, b = Z[m].mean(), Z[near].mean()
        # the points added beside the contour are not more than those of one ring
        lo = min(a, b, (Z[m].sum() + np.minimum(Z[near & ~m], 0).sum()) / near.sum())
        hi = max(a, b, (Z[m].sum() + np.maximum(Z[near & ~m], 0).sum()) / near.sum())
        if lo > 0 or hi < 0:
            report.see("sign_judged")
            report.check(sign == np.sign(a), "sign",
                         "%s: sign %r, mean inside %r" % (where, sign, a))
    report.see("negative", sign < 0)
    report.see("beside", not m[j, i])
    report.evaluate((round(value, 9), round(px, 6), round(py, 6), len(path)))


def grow(m):
    from scipy import ndimage

    return ndimage.binary_dilation(m, np.ones((3, 3)), iterations=1)
