"""C20: areas are true areas on the sphere."""
import numpy as np

import audit
import oracles
import te

RULE = ("Each evaluation compares the area of a polygon (cap, quadrangle, ellipse, star, contour) "
        "with an independent one: closed forms, or Green's theorem along its edges. Distinct "
        "non-trivial = (kind, place, size, number of vertices).")
ASSUMPTIONS = ["simple polygons of less than a hemisphere with at least 48 vertices (contours: any), "
               "edges straight in longitude and latitude",
               "an error of the discretisation of 12/n^2 (150/n^2 around (0, 0) and (180, 0), where the "
               "azimuths turn the fastest) is allowed"]
KINDS = ["cap", "quad", "ellipse", "star", "contour"]
REQUIRED = {"at_origin": 60, "at_antipode": 60, "date_line": 60, "holds_pole": 40, "large": 100,
            "tiny": 60, "clockwise": 300, "vertex_on_origin": 20, "open_list": 20,
            **{"kind_" + k: 40 for k in KINDS}}
R = 6378.137


def cases(tier, seed):
    for k in range(1600 if tier == "quick" else 20000):
        for kind in KINDS:
            if kind == "contour" and k % 4:
                continue
            yield {"seed": seed, "k": k, "kind": kind}


def cap(lon0, lat0, rho, n, phase=0.0):
    """Small circle, longitudes in one piece unless it holds a pole."""
    t = np.linspace(0, 2 * np.pi, n) + phase
    p0 = np.deg2rad(lat0)
    lat = np.arcsin(np.clip(np.sin(p0) * np.cos(rho) + np.cos(p0) * np.sin(rho) * np.cos(t), -1, 1))
    lon = np.arctan2(np.sin(t) * np.sin(rho) * np.cos(p0), np.cos(rho) - np.sin(p0) * np.sin(lat))
    path = np.c_[lon0 + np.rad2deg(lon), np.rad2deg(lat)]
    path[-1] = path[0]
    return path


def run(case, report):
    from trackeddy.geometry import area_latlon_polygon

    kind = case["kind"]
    rng = te.rng_of(case["seed"], 20, case["k"], KINDS.index(kind))
    n = int(rng.choice([48, 60, 90, 150, 300, 600, 2500]))
    place = int(rng.integers(8))
    lon0, lat0 = [(0, 0), (180, 0), (180, 30), (-180, -45), (0, 50), (rng.uniform(-180, 360), 0),
                  (rng.uniform(-180, 360), rng.uniform(-70, 70)), (rng.choice([-180, 360, 540]), 0)
                  ][place]
    lon0, lat0 = float(lon0), float(lat0)
    size = float(10.0 ** rng.uniform(-2, 1))  # degrees
    jitter = 0.0 if rng.random() < 0.3 else float(rng.choice([1, 0.3]) * size)
    lon0, lat0 = lon0 + rng.uniform(-1, 1) * jitter, lat0 + rng.uniform(-1, 1) * jitter
    pole = False
    if kind == "contour":
        return contour(report, rng, lon0, lat0)
    if kind == "cap":
        rho = np.deg2rad(size if rng.random() < 0.7 else rng.uniform(10, 85))
        if rng.random() < 0.3:
            lat0 = float(rng.choice([-1, 1]) * (90 - rng.uniform(0, 2) * np.rad2deg(rho)))
            lat0 = float(np.clip(lat0, -90, 90))
        pole = abs(lat0) + np.rad2deg(rho) >= 90
        path = cap(lon0, lat0, rho, n, rng.uniform(0, 6))
        true = 2 * np.pi * R**2 * (1 - np.cos(rho))
    elif kind == "quad":
        lat0 = float(np.clip(lat0, -70, 70))
        w, h = size * rng.uniform(0.5, 3), size * rng.uniform(0.5, 2)
        lo, hi = max(lat0 - h, -89), min(lat0 + h, 89)
        box = np.array([[lon0 - w, lo], [lon0 + w, lo], [lon0 + w, hi], [lon0 - w, hi],
                        [lon0 - w, lo]])
        path = oracles.densify(box, max(n // 4, 12))
        if rng.random() < 0.4:
            box = path
        true = R**2 * np.deg2rad(2 * w) * (np.sin(np.deg2rad(hi)) - np.sin(np.deg2rad(lo)))
    else:
        lat0 = float(np.clip(lat0, -70, 70))
        if kind == "ellipse":
            path = oracles.ellipse_points(
                {"a": size, "b": size * rng.uniform(0.2, 1), "theta": rng.uniform(0, 3.2),
                 "centre": np.array([lon0, lat0])}, n, rng.uniform(0, 6))
        else:
            t = np.linspace(0, 2 * np.pi, n)
            arms = int(rng.integers(2, 6))
            r = size * (1 + 0.5 * np.cos(arms * t + rng.uniform(0, 6)))
            path = np.c_[lon0 + r * np.cos(t), lat0 + r * np.sin(t)]
        path[-1] = path[0]
        true = oracles.polygon_area(path)
    path = roll(path, int(rng.integers(n)))
    if rng.random() < 0.5:
        path = path[::-1]
        report.see("clockwise")
    if kind != "cap" and rng.random() < 0.15:
        # a vertex exactly on the reference point of the integral
        target = np.array([[0.0, 0.0], [180.0, 0.0], [-180.0, 0.0]][rng.integers(3)])
        path = path - path[0] + target
        true = oracles.polygon_area(path)
        report.see("vertex_on_origin")
    got = area_latlon_polygon(path)
    where = "%s of %d vertices around (%.4f, %.4f), size %.4g" % (
        kind, len(path), *path.mean(0), size)
    slack = 5e-5 + (150.0 if audit.near_origin(path) else 12.0) / len(path) ** 2
    report.evaluate((kind, round(lon0, 6), round(lat0, 6), round(size, 6), n))
    report.see("kind_" + kind)
    report.see("holds_pole", pole)
    c = path.mean(0)
    r = np.abs(path - c).max()
    report.see("at_origin", not pole and abs((c[0] + 180) % 360 - 180) < r and abs(c[1]) < r)
    report.see("at_antipode", not pole and abs(c[0] % 360 - 180) < r and abs(c[1]) < r)
    report.see("date_line", not pole and np.ptp(np.sign((path[:, 0] % 360) - 180)) > 0
               and abs(c[0] % 360 - 180) < r)
    report.see("large", size > 5)
    report.see("tiny", size < 0.03)
    report.check(np.ndim(got) == 0 and np.isfinite(got), "not-a-number", "%s: area %r" % (where, got))
    report.check(abs(got - true) <= slack * true, "area",
                 "%s: area %r, true %r (error %.2g %%)" % (where, got, true,
                                                          100 * abs(got / true - 1)))
    report.check(0 <= got <= 2 * np.pi * R**2 * (1 + 1e-9), "range", "%s: area %r" % (where, got))
    exact = 1e-5 * true + 1e-6
    if audit.near_origin(path):
        # rounding of the colatitude, and edges through the reference point itself
        exact = slack * true
    for name, other in [("direction", path[::-1]), ("first-vertex", roll(path, n // 3)),
                        ("whole-turns", path + [360.0 * rng.choice([-2, -1, 1, 2]), 0]),
                        ("mirror", path * [1, -1])]:
        a = area_latlon_polygon(other)
        report.see("invariance")
        report.check(abs(a - got) <= exact, name, "%s: area %r, changed %r" % (where, got, a))
    if rng.random() < 0.1:
        # what is given is not modified, and its memory layout does not matter
        report.see("open_list")
        copy = np.asfortranarray(path)
        area_latlon_polygon(copy)
        report.check(np.array_equal(copy, path), "modified", where)
    if case["k"] < 2:
        report.sample = {"polygon": where, "area": float(got), "true": float(true)}


def roll(path, k):
    p = np.roll(path[:-1], k, axis=0)
    return np.vstack((p, p[:1]))


def contour(report, rng, lon0, lat0):
    """The area reported for an eddy is that of its contour."""
    lat0 = float(np.clip(lat0, -60, 60))
    h = 0.6 * oracles.rossby(abs(lat0)) * 2 * np.pi / 111
    h = float(np.clip(h, 0.15, 4))
    n = int(rng.integers(30, 60))
    lon = lon0 + np.linspace(-h, h, n)
    lat = lat0 + np.linspace(-h, h, n)
    X, Y = np.meshgrid(lon, lat)
    w = h * rng.uniform(0.15, 0.35)
    f = te.gauss(X, Y, lon0 + rng.uniform(-0.2, 0.2) * h, lat0 + rng.uniform(-0.2, 0.2) * h,
                 w * rng.uniform(1, 1.5), w, rng.uniform(0, 3.1), 1.0)
    T = te.make(f, lon, lat, skip=True)
    found = te.eddies(te.snapshot(T, [float(rng.choice([0.2, 0.4, 0.6]))]))
    report.see("kind_contour")
    for _, row, path in found:
        true = oracles.polygon_area(path)
        report.evaluate(("contour", round(true, 3)))
        slack = audit.area_slack(path, true)
        report.check(abs(row["area_eddy"] - true) <= slack, "area-of-eddy",
                     "eddy at (%.3f, %.3f), %d vertices: area %r, true %r" % (
                         *path.mean(0), len(path), row["area_eddy"], true))
        report.check(abs(row["radius_eddy"] - np.sqrt(row["area_eddy"] / np.pi)) < 1e-6,
                     "radius-of-eddy", row["radius_eddy"])
    if rng.random() < 0.02:
        report.sample = {"contour": len(found)}
