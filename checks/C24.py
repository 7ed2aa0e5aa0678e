"""C24: the size limit follows the Rossby radius of deformation."""
import numpy as np

import audit
import oracles
import te

RULE = ("Each evaluation is one latitude of the deformation radius, or one planted round feature whose "
        "size is a known fraction of the limit at its latitude, watched for acceptance or rejection for "
        "its size. Distinct non-trivial = (latitude, fraction, limit).")
ASSUMPTIONS = ["features between 80 degrees south and north, sizes of 0.3 to 3 times the limit, "
               "of a planted size never closer to it than 4 %; those reported are analysed again with the "
               "limit a millionth above and below their own size"]
REQUIRED = {"latitudes": 3000, "accepted": 150, "rejected": 150, "south": 100, "high_latitude": 60,
            "equator": 40, "close_to_limit": 80, "discarded_rows": 150, "both": 60, "coarse": 100,
            "coarse_rejected": 40, "limit_max_area": 300}


def cases(tier, seed):
    yield {"seed": seed, "k": -1}
    for k in range(1500 if tier == "quick" else 12000):
        yield {"seed": seed, "k": k}


def radius_of(report, seed):
    from trackeddy.physics import approx_RD_lat

    rng = te.rng_of(seed, 24)
    lats = np.sort(np.r_[np.linspace(0, 90, 3001), rng.uniform(0, 90, 500), 1e-9, 1e-3])
    south = np.asarray(approx_RD_lat(-lats), float)
    r = np.asarray(approx_RD_lat(lats), float)
    report.see("latitudes", len(lats))
    report.evaluate("latitudes", len(lats))
    report.check(r.shape == lats.shape and np.isfinite(r).all(), "not-finite", r)
    report.check((r > 0).all(), "not-positive", "at latitude %s" % lats[~(r > 0)][:3])
    report.check((south == r).all(), "asymmetric", "at latitude %s" % lats[south != r][:3])
    report.check(abs(r[0] - 260) < 1e-9, "equator", "radius at the equator %r" % r[0])
    bad = np.diff(r) > 1e-12
    report.check(not bad.any(), "increasing", "at latitude %s" % lats[1:][bad][:3])
    for lat in lats[::50]:
        for v in (float(lat), np.float64(-lat), np.float32(lat), np.array(lat)):
            one = approx_RD_lat(v)
            report.check(np.isclose(one, r[lats == lat][0], rtol=1e-4), "scalar",
                         "at latitude %r: %r" % (v, one))
    # the radius the limit is for is the one of the whole package
    report.sample = {"radius at 0, 30, 60, 90": [float(approx_RD_lat(v)) for v in (0, 30, 60, 90)]}


def run(case, report):
    if case["k"] < 0:
        return radius_of(report, case["seed"])
    from trackeddy.physics import approx_RD_lat

    rng = te.rng_of(case["seed"], 24, case["k"])
    lat0 = float(rng.choice([0, 2, -2, 5, -10, 20, -35, 50, -65, 78, rng.uniform(-78, 78)]))
    lon0 = float(rng.choice([0, 100, 180, -180, rng.uniform(-180, 360)]))
    limit = float(rng.choice([0.4, 1, 3, 2 * np.pi, 9]))
    rd = float(approx_RD_lat(lat0))
    # larger than that its latitude would vary too much
    limit = min(limit, 1500 / rd)
    limit = float(min(limit, 0.1 * (90 - abs(lat0)) * 111 / rd))
    fractions = [float(rng.choice([0.35, 0.7, 0.9, 0.96])), float(rng.choice([1.04, 1.1, 1.5, 2.5]))]
    coarse = rng.random() < 0.15
    if coarse:
        # a handful of vertices: only sizes far from the limit can be judged
        fractions = [float(rng.choice([0.3, 0.45])), float(rng.choice([2.2, 3]))]
    if rng.random() < 0.4 or coarse:
        fractions = [fractions[int(rng.integers(2))]]
    level = float(rng.choice([0.2, 0.35, 0.5])) * float(rng.choice([-1, 1]))
    grow = np.sqrt(2 * np.log(1 / abs(level)))
    dlat = limit * rd / 111.32  # radius at the limit, in degrees of latitude
    cos = np.cos(np.deg2rad(lat0))
    planted, lons = [], []
    for n, q in enumerate(fractions):
        # true area of the planted contour, at its place
        x = lon0 + n * 8 * max(fractions) * dlat / max(cos, 0.15)
        r = q * dlat
        for _ in range(4):
            path = circle(x, lat0, r)
            true = np.sqrt(oracles.polygon_area(path) / np.pi)
            r *= q * limit * float(approx_RD_lat(path[:, 1].mean())) / true
        planted.append({"x": x, "y": lat0, "r": r, "q": q, "radius": true})
    # at high latitudes the ellipses are elongated: allow for it, the size is what is judged
    big = max(p["r"] for p in planted)
    small = min(p["r"] for p in planted)
    step = small / (rng.uniform(1.0, 1.8) if coarse else rng.uniform(5, 7))
    while (3.2 * big / step) ** 2 * len(planted) > 60000:
        step *= 1.15
    room = 1.6 * big + (2 * step if coarse else 0)
    lo = lon0 - room / cos
    hi = planted[-1]["x"] + room / cos
    lon = np.arange(lo, hi, step / cos)
    lat = lat0 + np.arange(-room, room + step, step)
    X, Y = np.meshgrid(lon, lat)
    f = np.zeros(X.shape)
    for p in planted:
        f += np.exp(-(((X - p["x"]) * cos) ** 2 + (Y - p["y"]) ** 2) / 2 / (p["r"] / grow) ** 2)
    f *= np.sign(level)
    T = te.make(f, lon, lat, skip=True)
    T.identification_criteria.update(max_area=limit, eccentricity=0.9999, ellipse_fit=0.5)
    table, discarded = te.one_level(T, level)
    found = te.eddies(table)
    for _, row, path in found:
        audit.at_the_limits(report, T, level, row, path, ["max_area"], "latitude %.2f" % lat0)
    rejected = discarded if hasattr(discarded, "reason") else None
    where = "latitude %.2f, limit %.3g radii of %.4g km, sizes %s of it" % (
        lat0, limit, rd, [p["q"] for p in planted])
    report.see("both", len(planted) == 2)
    for p in planted:
        near = [row for _, row, path in found
                if abs(row["contour_x"] - p["x"]) < 0.3 * p["r"] / cos
                and abs(row["contour_y"] - p["y"]) < 0.3 * p["r"]]
        # the centre, average of the vertices, is up to half a step off
        far = max(abs(np.log(float(approx_RD_lat(lat0 + s)) / rd)) for s in (-step / 2, step / 2))
        if abs(p["q"] - 1) < 0.015 + far:
            report.see("too_close")
            continue
        report.evaluate((round(lat0, 6), round(p["q"], 6), round(limit, 6)))
        report.see("south", lat0 < 0)
        report.see("high_latitude", abs(lat0) > 60)
        report.see("equator", abs(lat0) < 3)
        report.see("close_to_limit", abs(p["q"] - 1) < 0.05)
        if coarse:
            report.see("coarse")
            mine = [] if rejected is None else [
                str(r["reason"]) for _, r in rejected.iterrows()
                if abs(float(r["contour_x"]) - p["x"]) < p["r"] / cos
                and abs(float(r["contour_y"]) - p["y"]) < p["r"]]
            if p["q"] < 1:
                report.check("area" not in mine, "rejected", "%s (coarse): discarded for %s" % (
                    where, mine))
            else:
                report.check(not found, "accepted", "%s (coarse): reported" % where)
                report.check(not mine or mine == ["area"], "reason", "%s (coarse): discarded for %s" % (
                    where, mine))
                report.see("coarse_rejected", bool(mine))
            continue
        if p["q"] < 1:
            report.see("accepted")
            report.check(len(near) == 1, "rejected", "%s: the one of %.2f of the limit is reported "
                         "%d times (discarded %s)" % (where, p["q"], len(near), reasons(rejected)))
            for row in near:
                report.check(row["radius_eddy"] <= limit * float(approx_RD_lat(row["contour_y"])) * (
                    1 + 1e-9), "over-the-limit", "%s: radius %r" % (where, row["radius_eddy"]))
        else:
            report.see("rejected")
            report.check(not near, "accepted", "%s: the one of %.2f of the limit is reported" % (
                where, p["q"]))
            mine = [] if rejected is None else [
                r for _, r in rejected.iterrows()
                if abs(float(r["contour_x"]) - p["x"]) < 0.3 * p["r"] / cos
                and abs(float(r["contour_y"]) - p["y"]) < 0.3 * p["r"]]
            if report.check(len(mine) == 1, "not-discarded", "%s: discarded %d times: %s" % (
                    where, len(mine), reasons(rejected))):
                report.see("discarded_rows")
                report.check(str(mine[0]["reason"]) == "area", "reason", "%s: discarded for %s" % (
                    where, mine[0]["reason"]))
                true = p["radius"]
                report.check(abs(float(mine[0]["radius_eddy"]) / true - 1) < 0.03, "radius",
                             "%s: radius %r, true %r" % (where, mine[0]["radius_eddy"], true))
    if case["k"] < 3:
        report.sample = {"case": where, "reported": len(found), "discarded": reasons(rejected)}


def reasons(table):
    return [] if table is None else [str(r) for r in table["reason"]]


def circle(x, y, r):
    t = np.linspace(0, 2 * np.pi, 300)
    return np.c_[x + r * np.cos(t) / np.cos(np.deg2rad(y)), y + r * np.sin(t)]
