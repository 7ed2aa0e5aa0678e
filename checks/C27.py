"""C27: detection commutes with the symmetries of the problem."""
import numpy as np
from scipy import ndimage

import audit
import te
from C26 import both

RULE = ("Each evaluation compares the eddies of one field with those of the field moved, multiplied, "
        "changed in sign or mirrored. Distinct non-trivial = (field, symmetry) with eddies.")
ASSUMPTIONS = ["multiplication by a power of two is exact in floating point, and so must be the result; "
               "the other symmetries start contours elsewhere or round otherwise: eddies far from the "
               "criteria must be the same, and their measures agree closely",
               "areas are compared within their discretisation, which depends on the longitude"]
KINDS = ["power", "factor", "shift", "sign", "mirror_y", "mirror_x", "transposed_time"]
REQUIRED = {"exact_tables": 200, "exact_eddies": 150, "matched": 200, "fitted": 15, "tracked": 40,
            "moved_to_0": 5, "moved_across": 5, "tiny_factor": 30, "huge_factor": 25, "limited": 80,
            "shifted_fits": 30, "reversed_eddies": 150, **{"kind_" + k: 60 for k in KINDS}}
WATCHDOG = 300


def cases(tier, seed):
    for k in range(100 if tier == "quick" else 2000):
        for kind in KINDS:
            yield {"seed": seed, "k": k, "kind": kind}


def run(case, report):
    kind = case["kind"]
    rng = te.rng_of(case["seed"], 27, case["k"], KINDS.index(kind))
    report.see("kind_" + kind)
    if kind == "power":
        return power(report, rng, case)
    if kind == "transposed_time":
        return times(report, rng)
    if rng.random() < 0.12:
        return isolated(report, rng, kind)
    lon, lat = te.grid(rng, n=int(rng.integers(30, 46)))
    fk = str(rng.choice(["gaussians", "smooth", "halo", "holes"]))
    f = te.field(rng, lon, lat, fk)
    crit = {"max_area": 20.0, "ellipse_fit": 0.75, "eccentricity": 0.85, "gaussian_fit": 0.8}
    if rng.random() < 0.3:
        # the limit divides the eddies of the field
        crit["max_area"] = float(rng.uniform(0.2, 3))
        report.see("limited")
    there, back, g, lon2, lat2, factor = transform(rng, kind, f, lon, lat, 1.0, report)
    for level in np.array([0.3, 0.15, -0.2, -0.35]) * (1 + 1e-7):
        a = te.eddies(te.one_level(te.make(f, lon, lat, skip=True, criteria=crit), level)[0])
        b = te.eddies(te.one_level(te.make(g, lon2, lat2, skip=True, criteria=crit), level * factor)[0])
        report.see("found", len(a))
        if kind == "sign" and fk == "holes":
            # missing data are low for the engine whatever the sign: a cell with one of them at a corner
            # is a saddle for one sign only
            a = [e for e in a if far_from(f, lon, lat, e[2])]
            b = [e for e in b if far_from(f, lon, lat, e[2])]
        both(report, [(k, *there(r, p)) for k, r, p in a], b, crit, "%s of %s" % (kind, fk), True)
        both(report, [(k, *back(r, p)) for k, r, p in b], a, crit, "undone %s of %s" % (kind, fk), True)
    if case["k"] < 2:
        report.sample = {"symmetry": kind, "field": fk, "eddies": [len(a), len(b)]}


def far_from(f, lon, lat, path):
    """No missing data at the corners of the cells of the contour, or next to them."""
    i = np.clip(np.rint((path[:, 1] - lat[0]) / (lat[1] - lat[0])).astype(int), 0, len(lat) - 1)
    j = np.clip(np.rint((path[:, 0] - lon[0]) / (lon[1] - lon[0])).astype(int), 0, len(lon) - 1)
    gone = ndimage.binary_dilation(np.isnan(f), np.ones((5, 5)))
    return not gone[i, j].any()


def transform(rng, kind, f, lon, lat, level, report):
    """Expected eddies there and back, and the changed problem."""
    sx = sy = v = 1.0
    dx = 0.0
    if kind == "shift":
        dx = float(rng.choice([-lon.mean(), -lon.mean(), 180 - lon.mean(), -180 - lon.mean(), 360, -360, 10, 0.37,
                               -77.7]))
        report.see("moved_to_0", abs(lon.mean() + dx) < 1)
        report.see("moved_across", np.ptp(np.sign(lon + dx)) > 0)
    elif kind == "factor":
        v = float(rng.choice([3.0, 0.1, 1e-3, 7e5, 1e-9, 1 / 3]))
        report.see("tiny_factor", v < 1e-2)
        report.see("huge_factor", v > 10)
    elif kind == "sign":
        v = -1.0
    elif kind == "mirror_y":
        sy = -1.0
    elif kind == "mirror_x":
        sx = -1.0

    def move(r, p, dx, v):
        r = dict(r)
        for c in ("contour_x", "maxima_x", "gaussian_params_x"):
            if c in r:
                r[c] = sx * r[c] + dx
        for c in ("contour_y", "maxima_y", "gaussian_params_y"):
            if c in r:
                r[c] = sy * r[c]
        r["maxima"], r["level"] = r["maxima"] * v, r["level"] * v
        r["eddy_sign"] = r["eddy_sign"] * np.sign(v)
        return r, p * [sx, sy] + [dx, 0]

    g = f * v
    lon2, lat2 = lon + dx, lat
    if sy < 0:
        lat2, g = -lat[::-1], g[::-1]
    if sx < 0:
        lon2, g = -lon[::-1], g[:, ::-1]
    return (lambda r, p: move(r, p, dx, v)), (lambda r, p: move(r, p, -dx, 1 / v)), g, lon2, lat2, level * v


def power(report, rng, case):
    """Times a power of two: exactly the same table."""
    lon, lat = te.grid(rng, n=int(rng.integers(20, 36)))
    fk = str(rng.choice(te.KINDS))
    nt = int(rng.choice([1, 1, 3]))
    f = np.stack([te.field(rng, lon, lat, fk) * s for s in np.linspace(1, 0.85, nt)])
    levels = np.array(te.levels_of(rng))
    skip = bool(rng.random() < 0.5)
    e = int(rng.choice([-60, -30, -12, -3, 1, 5, 17, 40]))
    v = 2.0 ** e
    crit = dict(te.random_criteria(rng), max_area=20.0)
    filt = "space" if rng.random() < 0.2 else None
    tables = []
    for w in (1.0, v):
        T = te.make(f * w, lon, lat, skip=skip, criteria=crit, filter=filt)
        T.S_filter_setup = {"filter_type": str(["zonal", "meridional"][case["k"] % 2])}
        tables.append(te.track(T, levels * w) if nt > 1 else te.snapshot(T, levels * w))
    a, b = (te.eddies(t) for t in tables)
    report.see("exact_tables")
    report.see("exact_eddies", len(a))
    report.see("tracked", nt > 1)
    report.see("fitted", len(a) if not skip else 0)
    report.see("tiny_factor", e < -10)
    report.see("huge_factor", e > 10)
    report.evaluate((fk, e, f.tobytes()[:64]) if a else None)
    where = "%s, times 2^%d" % (fk, e)
    if not report.check([k for k, _, _ in a] == [k for k, _, _ in b], "power-eddies",
                        "%s: eddies %s, before %s" % (where, [k for k, _, _ in b][:9],
                                                      [k for k, _, _ in a][:9])):
        return
    for (k, r, p), (_, s, q) in zip(a, b):
        r = dict(r, maxima=r["maxima"] * v, level=r["level"] * v)
        diff = {c: (r[c], s.get(c)) for c in r if not c.startswith("_") and r[c] != s.get(c)}
        report.check(not diff and np.array_equal(p, q), "power-measures",
                     "%s: eddy %s differs in %s" % (where, k, diff))


def isolated(report, rng, kind):
    """Isolated features, through all levels, with their Gaussian fit and tracks."""
    lat0 = float(rng.choice([0.4, 12, -33, 50]))
    lon0 = float(rng.choice([0, 170, -120, 355]))
    from oracles import rossby

    w = float(min(0.8, 0.25 * 2 * np.pi * rossby(abs(lat0) + 1) / 111))
    d = w / rng.uniform(5, 7)
    lon, lat = lon0 + np.arange(0, 18 * w, d), lat0 - 9 * w + np.arange(0, 18 * w, d)
    X, Y = np.meshgrid(lon, lat)
    f = np.zeros(X.shape)
    n = 0
    for cx, cy in [(4.5, -4.5), (13.5, -4.5), (4.5, 4.5), (13.5, 4.5)]:
        if rng.random() < 0.7:
            f += te.gauss(X, Y, lon0 + cx * w + rng.uniform(-1, 1) * d, lat0 + cy * w + rng.uniform(-1, 1) * d,
                          w * rng.uniform(1, 1.5), w, rng.uniform(0, 3.1),
                          rng.choice([-1, 1]) * rng.uniform(0.8, 1.2))
            n += 1
    levels = np.array([0.15, 0.3, -0.15, -0.3])
    # the levels far from the similarities of each other and of the criteria
    crit = {"ellipse_fit": 0.7, "gaussian_fit": 0.6}
    level = 1.0
    there, _, g, lon2, lat2, factor = transform(rng, kind, f, lon, lat, level, report)
    f3, g3 = np.stack([f, f * 0.9]), np.stack([g, g * 0.9])
    A = te.eddies(te.track(te.make(f3, lon, lat, criteria=crit), levels))
    B = te.eddies(te.track(te.make(g3, lon2, lat2, criteria=crit), levels * factor))
    report.see("tracked")
    where = "%s of %d features around (%g, %g)" % (kind, n, lon0, lat0)
    report.check(len(A) == len(B), "tracks", "%s: %d eddies, before %d" % (where, len(B), len(A)))
    for k, r, p in A:
        r, p = there(r, p)
        near = [s for kk, s, _ in B if kk[1] == k[1]
                and np.hypot(s["maxima_x"] - r["maxima_x"], s["maxima_y"] - r["maxima_y"]) < 0.5 * w]
        report.see("matched", len(near) == 1)
        report.see("shifted_fits")
        report.evaluate((kind, round(r["maxima_x"], 6), round(r["maxima_y"], 6)))
        if not report.check(len(near) == 1, "tracks", "%s: the one at (%g, %g) found %d times" % (
                where, r["maxima_x"], r["maxima_y"], len(near))):
            continue
        s = near[0]
        bad = [c for c in ("maxima", "maxima_x", "maxima_y", "eddy_sign")
               if not te.near(r[c], s[c], 1e-12, 1e-12 * (c != "maxima"))]
        # the widths of the Gaussian do not depend on the level kept
        from oracles import canonical, signed

        u = canonical([r[c] for c in te.GAUSS])
        t = canonical([s[c] for c in te.GAUSS])
        if kind in ("mirror_x", "mirror_y"):
            u[4] = -u[4]
        bad += ["gaussian_params"] * bool(
            np.hypot(*(u[:2] - t[:2])) > 0.9 * np.hypot(d, d)
            or np.abs(u[2:4] / t[2:4] - 1).max() > 0.12
            or abs(signed(u[4] - t[4])) * (u[2] / u[3] - 1) > 0.12)
        if abs(s["level"] - r["level"]) < 1e-9 * abs(r["level"]):
            if not te.near(r["area_eddy"], s["area_eddy"], 2 * audit.area_slack(p, 1.0) + 1e-3):
                bad.append("area_eddy")
            bad += [c for c in ("ellipse_params_a", "ellipse_params_b")
                    if not te.near(r[c], s[c], 0.02)]
        report.check(not bad, "track-measures", "%s: differs in %s" % (
            where, {c: (r.get(c, u), s.get(c, t)) for c in bad}))


def times(report, rng):
    """A movie and the same one played from another time label have the same tracks."""
    lon, lat = te.grid(rng, n=int(rng.integers(20, 32)))
    f = te.field(rng, lon, lat, "gaussians")
    movie = np.stack([f * s for s in (1, 0.95, 0.9)])
    crit = {"max_area": 20.0, "ellipse_fit": 0.75}
    tables = []
    for t0 in (np.arange(3), np.arange(3) * 86400 + 7, np.array(["2000-01-01", "2000-01-08", "2000-02-01"],
                                                            "datetime64[ns]")):
        ds = te.dataset(movie, lon, lat).assign_coords(time=t0)
        tables.append(te.eddies(te.track(te.tracker(ds, skip=True, criteria=crit), [0.3, -0.3])))
    report.see("tracked")
    report.see("exact_tables", 2)
    report.see("exact_eddies", len(tables[0]))
    report.evaluate(("times", f.tobytes()[:64]) if tables[0] else None)
    for other in tables[1:]:
        report.check([(k, te.content(r, p)) for k, r, p in tables[0]]
                     == [(k, te.content(r, p)) for k, r, p in other], "time-labels",
                     "the tracks depend on the values of the time coordinate")
