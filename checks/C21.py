"""C21: the ellipse fit is exact for ellipses and follows the data."""
import numpy as np

import oracles
import te

RULE = ("Each evaluation is one set of points given to the ellipse fit: its centre, axes, orientation "
        "and curve are compared with the ellipse the points were taken from (or, for noisy points and "
        "contours, with an independent least squares), then again after a change of the points. "
        "Distinct non-trivial = (centre, axes, angle, sampling).")
ASSUMPTIONS = ["the whole ellipse is sampled, with 6 points or more; centres up to 360 degrees away and "
               "sizes from 0.001 to 100 degrees (distance over size up to 1e5)",
               "tilts so small that the package takes them as none (conic cross term under 0.1 %) are "
               "only held to that precision"]
KINDS = ["exact", "noisy", "uneven", "circle", "aligned", "contour"]
REQUIRED = {"tilted": 200, "nearly_aligned": 40, "far": 100, "few_points": 60, "elongated": 60,
            "repeated_first": 200, "fit": 2000, "detected": 40,
            **{"kind_" + k: 60 for k in KINDS}}


def cases(tier, seed):
    for k in range(2000 if tier == "quick" else 25000):
        for kind in KINDS:
            if kind == "contour" and k % 4:
                continue
            yield {"seed": seed, "k": k, "kind": kind}


def sample(rng, kind, closed):
    n = int(rng.choice([6, 8, 12, 20, 45, 120, 500]))
    ratio = float(rng.choice([1.02, 1.1, 1.3, 1.7, 3, 10, 40]))
    size = float(10.0 ** rng.uniform(-3, 2))
    theta = float(rng.uniform(-np.pi / 2, np.pi / 2))
    if kind == "circle":
        ratio = 1.0
    if kind == "aligned":
        theta = float(rng.choice([0, np.pi / 2, 1e-9, -1e-9, 1e-5, 1e-4, np.pi / 2 - 1e-4, np.pi / 4,
                                  -np.pi / 4]))
    far = float(min(rng.choice([0, 1, 30, 180, 360]), 1e5 * size))
    centre = rng.uniform(-1, 1, 2) * far
    true = {"a": size * ratio, "b": size, "theta": theta % np.pi, "centre": centre}
    if kind == "uneven":
        t = np.sort(rng.uniform(0, 2 * np.pi, n))
        # sampled all around
        t = (t + np.linspace(0, 2 * np.pi, n, endpoint=False)) / 2 if n < 40 else t
        t = t * (1 if n >= 40 else 1)
        if np.diff(np.r_[t, t[0] + 2 * np.pi]).max() > 2.5:
            t = np.linspace(0, 2 * np.pi, n, endpoint=False) + 0.3 * rng.uniform(0, 1, n)
    else:
        t = np.linspace(0, 2 * np.pi, n, endpoint=False) + rng.uniform(0, 6)
    u, v = true["a"] * np.cos(t), true["b"] * np.sin(t)
    c, s = np.cos(theta), np.sin(theta)
    p = np.c_[centre[0] + u * c - v * s, centre[1] + u * s + v * c]
    if kind == "noisy":
        p = p + size * rng.choice([0.003, 0.02]) * rng.normal(size=p.shape)
    if closed:
        p = np.vstack((p, p[:1]))
    return p, true, far / size


def geometry(curve, params):
    """The ellipse described by the curve and by the parameters."""
    return curve[:-1].mean(0), params[0], params[1], params[2]


def run(case, report):
    from trackeddy.geometry import eccentricity, fit_ellipse

    kind = case["kind"]
    rng = te.rng_of(case["seed"], 21, case["k"], KINDS.index(kind))
    report.see("kind_" + kind)
    if kind == "contour":
        return detected(report, rng)
    closed = bool(rng.random() < 0.7)
    p, true, remote = sample(rng, kind, closed)
    # Rounding: of the points relative to the size, amplified by the elongation.
    aspect = true["a"] / true["b"]
    tol = (1e-9 + 3e-13 * remote) * aspect**2 * 10
    copy = p.copy()
    curve, par = fit_ellipse(p[:, 0], p[:, 1])
    where = "%s, %d points, axes %.4g %.4g, angle %.6g, centre (%.4g, %.4g)" % (
        kind, len(p), true["a"], true["b"], true["theta"], *true["centre"])
    report.see("fit")
    report.check(np.array_equal(copy, p), "modified", where)
    if kind == "noisy":
        ref = oracles.ellipse_fit(p)
        if ref is None:
            return
        true, tol = ref, max(tol, 1e-5)
        aspect = true["a"] / true["b"]
    # the package considers that the conic x^2, xy, y^2 is aligned when its cross term is
    # under 0.1 % of one of the others
    th = true["theta"]
    ia, ib = true["a"] ** -2, true["b"] ** -2
    A = np.cos(th) ** 2 * ia + np.sin(th) ** 2 * ib
    C = np.sin(th) ** 2 * ia + np.cos(th) ** 2 * ib
    B = 2 * np.sin(th) * np.cos(th) * (ia - ib)
    cross = min(abs(B / A), abs(B / C))
    loose = 0.0
    if cross < 1.1e-3:
        loose = 4e-3 * aspect
        report.see("nearly_aligned")
    elif aspect > 1.01:
        report.see("tilted")
    report.see("far", remote > 100)
    report.see("few_points", len(p) < 10)
    report.see("elongated", aspect > 2.5)
    report.see("repeated_first", closed)
    report.evaluate((np.round(p[:2] / true["b"], 9).tobytes(), len(p)))
    compare(report, where, p, curve, par, true, tol, loose, aspect, "")
    e = eccentricity(par[0], par[1])
    report.check(np.ndim(e) == 0 and 0 <= e <= 1 and abs(
        e**2 - (1 - (par[1] / par[0]) ** 2)) < 1e-9, "eccentricity",
        "%s: eccentricity %r of axes %s" % (where, e, par[:2]))
    report.check(eccentricity(par[0], par[0]) == 0, "eccentricity-of-circle", where)
    # changes of the points
    turn = float(rng.choice([np.pi / 2, 0.7, 2.5, np.pi]))
    factor = float(2.0 ** rng.integers(-6, 7))
    shift = rng.uniform(-5, 5, 2) * true["b"]
    c, s = np.cos(turn), np.sin(turn)
    M = np.array([[c, -s], [s, c]])
    cen = true["centre"]
    order = rng.permutation(len(p))
    for name, q, t2, lo in [
        ("order", p[order], true, loose),
        ("translated", p + shift, dict(true, centre=cen + shift), loose),
        ("rotated", (p - cen) @ M.T + cen, dict(true, theta=(th + turn) % np.pi), 4e-3 * aspect),
        ("scaled", (p - cen) * factor + cen, dict(true, a=true["a"] * factor, b=true["b"] * factor),
         loose),
        ("mirrored", (p - cen) * [1, -1] + cen, dict(true, theta=(-th) % np.pi), loose),
    ]:
        k2, p2 = fit_ellipse(q[:, 0], q[:, 1])
        report.see("changed")
        if name == "scaled" and remote / factor > 1e6:
            continue
        # the angle of the turned ellipse may be small
        if name == "rotated" and aligned(dict(t2)) > 1.2e-3:
            lo = 0.0
        compare(report, where, q, k2, p2, t2,
                tol * max(1, 10 / min(factor, 1) if name == "scaled" else 10), lo, aspect,
                ":" + name)
    if case["k"] < 2:
        report.sample = {"points": where, "fitted": par, "true": true}


def aligned(t):
    ia, ib, th = t["a"] ** -2, t["b"] ** -2, t["theta"]
    A = np.cos(th) ** 2 * ia + np.sin(th) ** 2 * ib
    C = np.sin(th) ** 2 * ia + np.cos(th) ** 2 * ib
    B = 2 * np.sin(th) * np.cos(th) * (ia - ib)
    return min(abs(B / A), abs(B / C))


def compare(report, where, p, curve, par, true, tol, loose, aspect, how):
    ok = report.check
    tol = tol + loose
    ok(np.shape(curve) == np.shape(p), "curve-size" + how,
       "%s: curve of shape %s" % (where, np.shape(curve)))
    ok(np.isfinite(curve).all() and np.isfinite(par).all(), "not-finite" + how,
       "%s: %s" % (where, par))
    size = true["a"]
    ok(np.abs(curve[0] - curve[-1]).max() < 1e-9 * (size + np.abs(curve).max()), "curve-open" + how,
       where)
    cen = curve[:-1].mean(0)
    ok(np.abs(cen - true["centre"]).max() < tol * size, "centre" + how,
       "%s: centre %s, true %s" % (where, cen, true["centre"]))
    ok(par[0] >= par[1] > 0, "order-of-axes" + how, "%s: axes %s" % (where, par[:2]))
    ok(abs(par[0] / true["a"] - 1) < tol and abs(par[1] / true["b"] - 1) < tol, "axes" + how,
       "%s: axes %s, true %s" % (where, par[:2], (true["a"], true["b"])))
    if aspect > 1.01:
        d = abs(oracles.signed(par[2] - true["theta"]))
        ok(d < (tol + loose) / (1 - 1 / aspect) + 1e-9, "angle" + how,
           "%s: angle %r" % (where, par[2]))
    ok(-np.pi <= par[2] <= np.pi, "angle-range" + how, "%s: angle %r" % (where, par[2]))
    # the curve lies on the ellipse, all around it
    d = curve - true["centre"]
    c, s = np.cos(true["theta"]), np.sin(true["theta"])
    u = (d[:, 0] * c + d[:, 1] * s) / true["a"]
    v = (-d[:, 0] * s + d[:, 1] * c) / true["b"]
    ok(np.abs(np.hypot(u, v) - 1).max() < 4 * (tol + loose) * aspect, "curve-off" + how,
       "%s: curve up to %.2g off the ellipse" % (where, np.abs(np.hypot(u, v) - 1).max()))
    turns = np.unwrap(np.arctan2(v, u))
    ok(abs(abs(turns[-1] - turns[0]) - 2 * np.pi) < 0.1, "curve-turns" + how, where)


def detected(report, rng):
    """The ellipse of eddies is that of their contour."""
    lon, lat = te.grid(rng, n=int(rng.integers(24, 40)))
    f = te.field(rng, lon, lat, str(rng.choice(["gaussians", "smooth", "holes"])))
    T = te.make(f, lon, lat, skip=True)
    T.identification_criteria.update(max_area=20.0)
    for _, row, path in te.eddies(te.snapshot(T, [0.2, -0.2, 0.4])):
        ref = oracles.ellipse_fit(path)
        if ref is None or ref["cond"] > 1e4:
            continue
        report.see("detected")
        report.evaluate(("contour", round(ref["a"], 9)))
        tol = 0.03 if ref["bratio"] < 5e-3 else 1e-3
        report.check(np.allclose([row["ellipse_params_a"], row["ellipse_params_b"]],
                                 [ref["a"], ref["b"]], rtol=tol), "axes-of-eddy",
                     "axes %s, of its contour %s" % (
                         (row["ellipse_params_a"], row["ellipse_params_b"]), (ref["a"], ref["b"])))
        if ref["a"] / ref["b"] > 1.1:
            d = abs(oracles.signed(row["ellipse_params_theta"] - ref["theta"]))
            report.check(d < 5e-3 * (1 if tol < 0.01 else 4), "angle-of-eddy", "angle %r, of its contour %r" % (
                row["ellipse_params_theta"], ref["theta"]))
        report.check(abs(row["ellipse_eccen"] - np.sqrt(1 - (ref["b"] / ref["a"]) ** 2)) < 0.02,
                     "eccentricity-of-eddy", row["ellipse_eccen"])
