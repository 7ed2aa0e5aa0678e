"""C22: curve similarity is the discrete Frechet similarity."""
import numpy as np

import oracles
import te

RULE = ("Each evaluation compares the distance (or similarity) of one pair of curves with an "
        "independent dynamic program, and with itself after exchanging, moving, scaling or turning "
        "the curves. Distinct non-trivial = the curves.")
ASSUMPTIONS = ["curves of 2 to 900 vertices; when both have more than 300 the package subsamples "
               "them, which may change the distance by at most what the dropped vertices are away "
               "from the kept ones before them"]
KINDS = ["walk", "closed", "near", "nested", "integers", "far", "line", "contour"]
REQUIRED = {"short": 500, "over_300_one": 40, "over_300_both": 40, "long_and_short": 20,
            "zero": 300, "similar": 200, "dissimilar": 100, "lists": 100, "eddies": 20, "exact": 600,
            **{"kind_" + k: 30 for k in KINDS}}


def cases(tier, seed):
    for k in range(260 if tier == "quick" else 4000):
        for kind in KINDS:
            if kind == "contour" and k % 4:
                continue
            yield {"seed": seed, "k": k, "kind": kind, "big": k % 6 == 0}


def curve(rng, kind, n):
    t = np.linspace(0, 2 * np.pi, n)
    if kind == "walk":
        return np.cumsum(rng.normal(size=(n, 2)), axis=0)
    if kind == "integers":
        return rng.integers(-3, 4, (n, 2)).astype(float)
    if kind == "line":
        return np.c_[np.linspace(0, 1, n), rng.uniform(-1, 1) * np.ones(n)]
    r = 1 + 0.2 * np.cos(rng.integers(2, 5) * t + rng.uniform(0, 6))
    p = np.c_[r * np.cos(t), r * np.sin(t)]
    p[-1] = p[0]
    return p


def dropped(P, Q):
    """Curves as subsampled and the largest distance from a dropped vertex to the kept one."""
    c, loss = 2, 0.0
    a, b = np.asarray(P, float), np.asarray(Q, float)
    while len(a) > 300 and len(b) > 300:
        for x in (a, b):
            keep = (np.arange(len(x)) // c) * c
            loss = loss + np.sqrt(((x - x[keep]) ** 2).sum(1)).max()
        a, b = a[::c], b[::c]
        c += 1
    return loss


def run(case, report):
    from trackeddy.geometry import compute_similarity, frdist

    kind = case["kind"]
    rng = te.rng_of(case["seed"], 22, case["k"], KINDS.index(kind))
    report.see("kind_" + kind)
    if kind == "contour":
        return detected(report, rng)
    if case["big"]:
        n, m = [(301, 299), (305, 310), (420, 330), (900, 20), (3, 850), (302, 301), (620, 305), (160, 170), (250, 280), (300, 300)][
            rng.integers(10)]
    else:
        n, m = (int(v) for v in rng.choice([2, 3, 5, 8, 13, 20, 40, 80], 2))
    P = curve(rng, kind, n)
    if kind == "near":
        Q = P + 0.05 * rng.normal(size=P.shape)
        if rng.random() < 0.5:
            Q = np.repeat(Q, 2, axis=0)[rng.integers(2):]
    elif kind == "nested":
        Q = curve(rng, kind, m) * rng.uniform(0.3, 1.5)
    elif kind == "far":
        Q = curve(rng, kind, m) + rng.normal(size=2) * 100
    else:
        Q = curve(rng, kind, m)
    scale = float(10.0 ** rng.uniform(-3, 3))
    P, Q = P * scale, Q * scale
    p0, q0 = P.copy(), Q.copy()
    lists = rng.random() < 0.2
    d = frdist(P.tolist(), Q.tolist()) if lists else frdist(P, Q)
    where = "%s of %d and %d vertices" % (kind, len(P), len(Q))
    ref = oracles.frechet(P, Q)
    loss = dropped(P, Q)
    tol = 1e-9 * (abs(ref) + np.abs(P).max() * 1e-3 + 1e-12)
    report.evaluate((P.tobytes()[:64], Q.tobytes()[:64], n, m))
    report.see("lists", lists)
    report.see("short", max(len(P), len(Q)) <= 80)
    report.see("over_300_one", max(len(P), len(Q)) > 300 and loss == 0)
    report.see("over_300_both", min(len(P), len(Q)) > 300)
    report.see("long_and_short", max(len(P), len(Q)) > 800)
    report.see("exact", loss == 0)
    report.check(np.ndim(d) == 0 and np.isfinite(d) and d >= 0, "not-a-distance",
                 "%s: %r" % (where, d))
    report.check(abs(d - ref) <= loss + tol, "distance",
                 "%s: distance %r, true %r (subsampling may change it by %.3g)" % (
                     where, d, ref, loss))
    report.check(np.array_equal(P, p0) and np.array_equal(Q, q0), "modified", where)
    report.check(abs(frdist(Q, P) - d) <= tol, "symmetry",
                 "%s: %r, exchanged %r" % (where, d, frdist(Q, P)))
    z = frdist(P, P.copy())
    report.see("zero")
    report.check(z == 0, "not-zero", "%s: distance to itself %r" % (where, z))
    # backwards both
    report.check(loss > 0 or abs(frdist(P[::-1], Q[::-1]) - d) <= tol, "reversed", where)
    L = np.sqrt(oracles.length(P) * oracles.length(Q))
    if not L > 0:
        return
    s = compute_similarity(P, Q)
    sref = max(1 - d / (L / np.sqrt(2)), 0)
    report.see("similar", s > 0.3)
    report.see("dissimilar", s == 0)
    report.check(np.ndim(s) == 0 and 0 <= s <= 1, "range", "%s: similarity %r" % (where, s))
    report.check(abs(s - sref) < 0.51e-4 + 1e-9, "similarity",
                 "%s: similarity %r of distance %r and length %r" % (where, s, d, L))
    report.check(abs(round(float(s), 4) - float(s)) < 1e-12, "rounding", "%s: %r" % (where, s))
    report.check(abs(compute_similarity(Q, P) - s) < 1.01e-4, "similarity-symmetry", where)
    report.check(compute_similarity(P, P.copy()) == 1, "similarity-to-itself", where)
    f = float(2.0 ** rng.integers(-5, 6))
    t = rng.uniform(0, 6)
    M = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
    move = rng.normal(size=2) * scale
    for name, a, b in [("scaled", P * f, Q * f), ("moved", P + move, Q + move),
                       ("turned", P @ M.T, Q @ M.T), ("mirrored", P * [1, -1], Q * [1, -1])]:
        report.see("changed")
        v = compute_similarity(a, b)
        report.check(abs(v - s) < 1.01e-4, "similarity:" + name,
                     "%s: similarity %r, %s %r" % (where, s, name, v))
    if case["k"] < 2:
        report.sample = {"curves": where, "distance": float(d), "similarity": float(s)}


def detected(report, rng):
    """The similarity reported for an eddy is the one of its contour and its ellipse or Gaussian."""
    from trackeddy import geometry

    lon, lat = te.grid(rng, n=int(rng.integers(24, 46)))
    f = te.field(rng, lon, lat, str(rng.choice(["gaussians", "smooth"])))
    T = te.make(f, lon, lat, skip=True)
    T.identification_criteria.update(max_area=20.0, ellipse_fit=0.6)
    for _, row, path in te.eddies(te.snapshot(T, [0.2, -0.2, 0.4])):
        fit = oracles.ellipse_fit(path)
        if fit is None or fit["cond"] > 1e4 or fit["bratio"] < 5e-3:
            continue
        low, high = oracles.aligned_similarity(path, fit)
        report.see("eddies")
        report.evaluate(("eddy", round(low, 6), len(path)))
        report.check(low - 0.02 - (high - low) <= row["contour_ellipse_error"] <= high + 0.02 + (
            high - low), "similarity-of-eddy", "similarity %r, of its contour (%r, %r)" % (
            row["contour_ellipse_error"], low, high))
