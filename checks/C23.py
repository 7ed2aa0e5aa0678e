"""C23: the Gaussian fit is bounded, improves on its guess and recovers Gaussians."""
import numpy as np

import oracles
import te

RULE = ("Each evaluation is one fit: its parameters against their bounds, the misfit against that of "
        "the first guess, the fitted surface against the Gaussian of the parameters, and, when the "
        "data are a Gaussian, the parameters against its own. Distinct non-trivial = (parameters).")
ASSUMPTIONS = ["recovery is asked of Gaussians with widths of 3 grid steps or more and an axes ratio up "
               "to 1.7 whose guess comes from a contour at 2 to 80 % of the amplitude",
               "misfit = standard deviation times mean of the absolute difference over the data"]
KINDS = ["clean", "noisy", "missing", "other", "swapped", "rotated", "detected"]
REQUIRED = {"fits": 900, "recovered": 400, "improved": 500, "round_guess": 30, "negative": 200,
            "angle_zero": 30, "eddies": 40, "tiny": 60, "huge": 60,
            **{"kind_" + k: 40 for k in KINDS}}


def cases(tier, seed):
    for k in range(220 if tier == "quick" else 3500):
        for kind in KINDS:
            if kind == "detected" and k % 2:
                continue
            yield {"seed": seed, "k": k, "kind": kind}


def misfit(data, X, Y, amp, par):
    g = te.gauss(X, Y, par[0], par[1], par[2], par[3], par[4], amp)
    r = np.abs((data - g) / amp)
    return np.nanstd(r) * np.nanmean(r)


def fit_of(guess, level, data, X, Y):
    from trackeddy.eddy import Eddy
    from trackeddy.geometry import Fit_Surface

    amp, x, y, a, b, th = guess
    t = np.linspace(0, 2 * np.pi, 30)
    eddy = Eddy(np.c_[x + a * np.cos(t), y + b * np.sin(t)], level)
    eddy.eddy_maxima = [amp, y, x]
    eddy.ellipse_params = np.array([a, b, th])
    with te.quiet():
        return Fit_Surface(eddy, data, X, Y)._fitting()


def run(case, report):
    kind = case["kind"]
    rng = te.rng_of(case["seed"], 23, case["k"], KINDS.index(kind))
    report.see("kind_" + kind)
    if kind == "detected":
        return detected(report, rng)
    sign = float(rng.choice([-1, 1]))
    unit = 10.0 ** float(rng.choice([-7, -3, -1, 0, 0, 2, 6]))
    amp = sign * unit * rng.uniform(0.5, 2)
    b = float(10.0 ** rng.uniform(-1.5, 0.7))
    a = b * float(rng.choice([1, 1.15, 1.4, 1.7]))
    th = float(rng.choice([0, rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5), np.pi / 2]))
    step = b / rng.uniform(3, 8)
    x0, y0 = float(rng.choice([0, 10, -170, 359, rng.uniform(-180, 360)])), float(rng.uniform(-60, 60))
    frac = float(rng.choice([0.02, 0.1, 0.2, 0.35, 0.6, 0.8]))
    grow = np.sqrt(2 * np.log(1 / frac))
    half = a * grow + max(3 * step, 0.5 * a * grow)
    dy = step * float(rng.choice([1, 1, 0.7]))
    lon = x0 + np.arange(-half, half + step, step) + rng.uniform(-0.5, 0.5) * step
    lat = y0 + np.arange(-half, half + dy, dy) + rng.uniform(-0.5, 0.5) * dy
    X, Y = np.meshgrid(lon, lat)
    if kind == "swapped":
        X, Y = X.T.copy(), Y.T.copy()
    if rng.random() < 0.3:
        X, Y = X[::-1, :], Y[::-1, :]
    angle = 0.0
    if kind == "rotated":
        angle = float(rng.uniform(0, 6))
        dx, dy2 = X - x0, Y - y0
        X, Y = (x0 + np.cos(angle) * dx - np.sin(angle) * dy2,
                y0 + np.sin(angle) * dx + np.cos(angle) * dy2)
    true = np.array([x0, y0, a, b, th])
    f = te.gauss(X, Y, *true, amp)
    inner = np.abs(f) >= frac * abs(amp) * 0.8
    recover = kind in ("clean", "swapped", "rotated")
    if kind == "noisy":
        f = f + 0.05 * abs(amp) * rng.normal(size=f.shape)
    elif kind == "other":
        # not a Gaussian at all
        f = amp * (0.6 + 0.4 * te.field(rng, lon, lat, "smooth").reshape(f.shape))
    # the data given to the fit are those inside the contour
    mask = rng.random() < 0.7
    data = np.where(inner, f, np.nan) if mask else f.copy()
    if kind == "missing":
        data[rng.random(data.shape) < rng.choice([0.05, 0.3, 0.6])] = np.nan
        if not np.isfinite(data).sum() > 5:
            return
    if np.isnan(data).all():
        return
    top = np.unravel_index(np.nanargmax(sign * data), data.shape)
    guess = [data[top], X[top], Y[top], a * grow * rng.uniform(0.97, 1.03),
             b * grow * rng.uniform(0.97, 1.03), th + (rng.uniform(-0.03, 0.03) if th else 0)]
    if guess[3] < guess[4]:
        guess[3], guess[4] = guess[4], guess[3]
    if guess[0] == 0:
        return
    keep = data.copy()
    surface, par = fit_of(guess, frac * amp, data, X, Y)
    where = "%s: gaussian %s, amplitude %.4g, guess %s" % (
        kind, np.round(true, 5).tolist(), amp, np.round(guess, 6).tolist())
    report.see("fits")
    report.see("negative", sign < 0)
    report.see("angle_zero", th == 0)
    report.see("round_guess", a == b)
    report.see("tiny", unit < 1e-5)
    report.see("huge", unit > 1e5)
    report.evaluate(tuple(np.round(np.asarray(par, float), 9)))
    ok = report.check
    ok(np.array_equal(keep, data, equal_nan=True), "modified", where)
    if not ok(np.shape(par) == (5,) and np.isfinite(par).all(), "parameters",
              "%s: fitted %r" % (where, par)):
        return
    gx = max(np.abs(np.diff(X, axis=i)).max() for i in (0, 1))
    gy = max(np.abs(np.diff(Y, axis=i)).max() for i in (0, 1))
    bounded(ok, where, par, guess[1:3], guess[3:], gx, gy)
    ok(np.shape(surface) == X.shape and np.allclose(
        surface, te.gauss(X, Y, *par, guess[0]), rtol=1e-7, atol=1e-9 * abs(guess[0])), "surface",
        "%s: the surface is not the Gaussian of %s" % (where, par))
    m0 = misfit(data, X, Y, guess[0], guess[1:])
    m1 = misfit(data, X, Y, guess[0], par)
    report.see("improved", m1 < 0.9 * m0)
    ok(m1 <= m0 * (1 + 1e-6) + 1e-12, "worse-than-guess",
       "%s: misfit %r, of the guess %r" % (where, m1, m0))
    if recover:
        report.see("recovered")
        # a Gaussian with its widths exchanged and turned a quarter is the same
        par = oracles.canonical(par)
        # the extremum of the data is up to half a cell off the centre
        cell = np.hypot(step, dy)
        ok(np.hypot(*(par[:2] - true[:2])) < 0.72 * cell, "centre", "%s: fitted %s" % (where, par))
        ok(np.abs(par[2:4] / true[2:4] - 1).max() < 0.1, "widths", "%s: fitted %s" % (where, par))
        # with an angle near zero the bounds are tight around the guess
        turn = abs(oracles.signed(par[4] - true[4]))
        ok(turn * (a / b - 1) < 0.08, "angle", "%s: fitted %s" % (where, par))
    if recover and rng.random() < 0.3:
        f2 = float(2.0 ** rng.integers(-20, 20))
        par2 = oracles.canonical(
            fit_of([guess[0] * f2] + guess[1:], frac * amp * f2, data * f2, X, Y)[1])
        ok(np.allclose(par, par2, rtol=1e-6, atol=1e-6 * b), "scale",
           "%s: fitted %s, data times %g %s" % (where, par, f2, par2))
    if case["k"] < 2:
        report.sample = {"fit": where, "fitted": par, "misfit": [m0, m1]}


def bounded(ok, where, par, extremum, ellipse, gx, gy):
    ok(abs(par[0] - extremum[0]) <= gx * (1 + 1e-6) and abs(par[1] - extremum[1]) <= gy * (1 + 1e-6),
       "centre-out-of-bounds", "%s: fitted centre %s, extremum %s, steps %r %r" % (
           where, par[:2], extremum, gx, gy))
    for n, (p, e) in enumerate(zip(par[2:], ellipse)):
        lim = 0.7 * abs(e) if e != 0 else 1e-4
        ok(abs(p - e) <= lim * (1 + 1e-6) + 1e-12, ("width" if n < 2 else "angle") + "-out-of-bounds",
           "%s: fitted %r, of the ellipse %r" % (where, p, e))


def detected(report, rng):
    lon, lat = te.grid(rng, n=int(rng.integers(26, 44)))
    f = te.field(rng, lon, lat, str(rng.choice(["gaussians", "gaussians", "smooth", "halo", "holes"])))
    unit = 10.0 ** float(rng.integers(-4, 4))
    X, Y = np.meshgrid(lon, lat)
    layout = str(rng.choice(["plain", "rotated", "swapped"]))
    if layout == "plain":
        T = te.make(f * unit, lon, lat)
    else:
        X, Y = te.rotate(lon, lat, rng.uniform(0, 6)) if layout == "rotated" else (X.T, Y.T)
        T = te.tracker(te.dataset2d(f * unit if layout == "rotated" else f.T * unit, X, Y))
    crit = float(rng.choice([0.3, 0.6, 0.8]))
    T.identification_criteria.update(max_area=20.0, gaussian_fit=crit)
    gx = max(np.abs(np.diff(X, axis=i)).max() for i in (0, 1))
    gy = max(np.abs(np.diff(Y, axis=i)).max() for i in (0, 1))
    for _, row, path in te.eddies(te.snapshot(T, np.array([0.3, 0.15, -0.3, -0.15]) * unit)):
        par = [row[c] for c in te.GAUSS]
        where = "%s eddy at (%.3f, %.3f)" % (layout, row["maxima_x"], row["maxima_y"])
        report.see("eddies")
        report.evaluate(tuple(np.round(par, 9)))
        bounded(report.check, where, np.array(par), (row["maxima_x"], row["maxima_y"]),
                [row["ellipse_params_" + c] for c in ("a", "b", "theta")], gx, gy)
        report.check(crit <= row["contour_gaussian_error"] <= 1, "similarity-range",
                     "%s: similarity %r" % (where, row["contour_gaussian_error"]))
        # the similarity cannot exceed the best one to the level line of the Gaussian
        ratio = row["maxima"] / row["level"]
        if not report.check(ratio > 1, "level-above-extremum", "%s: %r at level %r" % (
                where, row["maxima"], row["level"])):
            continue
        g = np.sqrt(2 * np.log(ratio))
        line = {"centre": np.array(par[:2]), "a": par[2] * g, "b": par[3] * g, "theta": par[4]}
        best = best_similarity(path, line)
        slack = 0.03 + 3 * np.hypot(gx, gy) / oracles.length(path)
        report.check(row["contour_gaussian_error"] <= best + slack, "similarity-overstated",
                     "%s: similarity %r, at best %r" % (where, row["contour_gaussian_error"], best))
        report.see("similarity_checked")


def best_similarity(path, line):
    """Similarity to an ellipse, as if both curves started at the best vertex: bounded by the
    largest distance from a vertex to the other curve."""
    q = oracles.ellipse_points(line, 400)
    d = np.sqrt(((path[:, None] - q[None]) ** 2).sum(-1))
    hausdorff = max(d.min(1).max(), 0)
    L = np.sqrt(oracles.length(path) * oracles.length(q))
    return max(1 - hausdorff / (L / np.sqrt(2)), 0)
