"""C10: merging levels keeps the best version of each eddy and loses none."""
import collections
import contextlib

import numpy as np

import flows
import oracles
import te

RULE = ("Each evaluation checks the transition made by one more level: eddies of the list before, "
        "eddies of the level alone, and eddies of the longer list, compared exactly (every value and "
        "vertex). Distinct non-trivial = transitions with eddies on both sides, by their contents.")
ASSUMPTIONS = ["pairs whose distance equals the radius, or with two eddies at the same distance, are "
               "only checked for membership"]
REQUIRED = {"transitions": 500, "nontrivial": 250, "added": 60, "kept": 250, "replaced": 40,
            "rejected": 100, "several_to_one": 5, "fitted": 40, "crowds": 2, "both_signs": 60}
WATCHDOG = 300


def cases(tier, seed):
    for k in range(700 if tier == "quick" else 4000):
        yield {"seed": seed, "k": k}


def better(a, b):
    return (a["contour_ellipse_error"] > b["contour_ellipse_error"]
            and a["contour_gaussian_error"] > b["contour_gaussian_error"])


def run(case, report):
    rng = te.rng_of(case["seed"], 10, case["k"])
    # real fits, none, or the first guess in place of the fit (cheap, varied similarities)
    fit = str(rng.choice(["real", "guess", "none"], p=[0.05, 0.88, 0.07]))
    lon, lat = te.grid(rng, n=int(rng.integers(16, 27)))
    lat = lat[: len(lat) - int(rng.integers(0, 5))]
    kind = str(rng.choice(["gaussians", "gaussians", "smooth", "halo", "cluster", "crater", "crater",
                           "both"]))
    if kind == "cluster":
        # one wide dome which breaks up in several peaks, or peaks which merge
        X, Y = np.meshgrid(lon, lat)
        w, h = np.ptp(lon), np.ptp(lat)
        f = te.gauss(X, Y, lon.mean(), lat.mean(), 0.22 * w, 0.22 * h, 0, 0.6)
        n = rng.integers(2, 6)
        for q in range(n):
            t = 2 * np.pi * q / n + rng.uniform(0, 0.5)
            f += te.gauss(X, Y, lon.mean() + 0.15 * w * np.cos(t), lat.mean() + 0.15 * h * np.sin(t),
                          0.07 * w, 0.07 * h * rng.uniform(0.8, 1.2), 0, rng.uniform(0.3, 0.8))
        f *= rng.choice([-1, 1]) / np.abs(f).max()
    elif kind == "both":
        # round peaks of both signs on lopsided feet: inner levels are better than outer ones
        X, Y = np.meshgrid(lon, lat)
        w, h = np.ptp(lon), np.ptp(lat)
        f = np.zeros(X.shape)
        for q, sign in enumerate(rng.permutation([1, -1, 1, -1])):
            x0 = lon[0] + w * (0.27 + 0.46 * (q % 2))
            y0 = lat[0] + h * (0.27 + 0.46 * (q // 2))
            t = rng.uniform(0, 2 * np.pi)
            f += sign * te.gauss(X, Y, x0, y0, 0.07 * w, 0.07 * h, 0, 0.8)
            f += sign * te.gauss(X, Y, x0 + 0.13 * w * np.cos(t), y0 + 0.13 * h * np.sin(t),
                                 0.05 * w, 0.05 * h, 0, rng.uniform(0.15, 0.3))
    elif kind == "crater":
        # the inner and the outer contour of a rim both reach its summit
        X, Y = np.meshgrid(lon, lat)
        x, y = (X - lon.mean()) / np.ptp(lon), (Y - lat.mean()) / np.ptp(lat)
        r, t = np.hypot(x, y * rng.uniform(0.8, 1.25)), np.arctan2(y, x)
        R, w = rng.uniform(0.22, 0.32), rng.uniform(0.05, 0.09)
        rim = np.exp(-((r - R) ** 2) / 2 / w**2)
        f = rng.uniform(0.2, 0.5) / (1 + np.exp((r - R) / 0.02)) + 0.6 * rim
        f += rng.uniform(0.05, 0.2) * rim * np.cos(t - rng.uniform(0, 6))
        f *= rng.choice([-1, 1]) / np.abs(f).max()
    else:
        f = te.field(rng, lon, lat, kind)
    if not np.abs(f).max() > 0:
        return
    if case["k"] % 230 == 11:
        # more eddies than a byte can number
        data, lon, lat = flows.crowd(rng)
        f, kind, fit = data[0], "crowd", "none"
        report.see("crowds")
    n = int(rng.integers(2, 5))
    levels = [float(l) for l in rng.choice([0.08, 0.15, 0.2, 0.3, 0.4, 0.5, 0.6, 0.75], n,
                                          replace=False)]
    s = rng.random()
    if s < 0.25:
        levels = [-l for l in levels]
    elif s < 0.5:
        levels = [l * rng.choice([-1, 1]) for l in levels]
    if kind in ("cluster", "crater"):
        levels = list(np.abs(levels) * np.sign(f.flat[np.abs(f).argmax()]))
    if kind == "both":
        levels = [float(l * s) for l in rng.choice([0.08, 0.15, 0.3, 0.5], 2, replace=False)
                  for s in (1, -1)]
        rng.shuffle(levels)
    elif rng.random() < 0.5:
        levels = sorted(levels, reverse=bool(rng.random() < 0.5))
    if rng.random() < 0.1:
        levels.append(levels[0])
    T = te.make(f, lon, lat, skip=fit == "none")
    T.identification_criteria.update(
        ellipse_fit=float(rng.choice([0.5, 0.7, 0.85])), gaussian_fit=float(rng.choice([0.1, 0.3, 0.8] if fit == "real" else [0.02, 0.1])),
        eccentricity=0.993, max_area=float(rng.choice([2 * np.pi, 30])))
    with first_guess(fit == "guess"):
        chain(case, report, T, levels, kind, fit)


@contextlib.contextmanager
def first_guess(on):
    """Leave the first guess as the fitted Gaussian."""
    import types

    import trackeddy.geometry as g

    if not on or not hasattr(g, "least_squares"):
        yield
        return
    original = g.least_squares
    g.least_squares = lambda fun, x0, *a, **k: types.SimpleNamespace(x=np.array(x0, float))
    try:
        yield
    finally:
        g.least_squares = original


def chain(case, report, T, levels, kind, fit):
    before = None
    for m in range(len(levels)):
        after = te.eddies(te.snapshot(T, levels[: m + 1]))
        alone = te.eddies(te.one_level(T, levels[m])[0])
        ids = [k for k, _, _ in after]
        report.check(ids == list(range(len(ids))), "identifiers", "levels %s: identifiers %s" % (
            levels[: m + 1], ids))
        for k, row, path in after:
            report.check(row["_constant"] and list(row["_index"]) == list(range(len(path))),
                         "mixed-rows", "levels %s: rows of eddy %s" % (levels[: m + 1], k))
        transition(report, before or [], alone, after, levels[: m + 1])
        report.see("fitted", fit == "real")
        before = after
    if case["k"] < 4:
        report.sample = {"kind": kind, "levels": levels, "eddies": len(after), "fit": fit}


def transition(report, J, S, R, levels):
    report.see("transitions")
    report.see("both_signs", len({r["eddy_sign"] for _, r, _ in J}) > 1 and bool(S))
    where = "levels %s (%d eddies, %d at the last level, %d reported)" % (
        levels, len(J), len(S), len(R))
    cj = [te.content(r, p) for _, r, p in J]
    cs = [te.content(r, p) for _, r, p in S]
    reported = collections.Counter(te.content(r, p) for _, r, p in R)
    allowed = collections.Counter(cj) + collections.Counter(cs)
    for c in reported:
        if not report.check(c in allowed, "altered", "%s: an eddy reported is of none of them: %s" % (
                where, dict(c[0]))):
            return
    if J and S:
        report.see("nontrivial")
        report.evaluate((hash_of(cj), hash_of(cs)))
    else:
        report.evaluate(None)
    groups = collections.defaultdict(list)
    unsure = set()
    free = []
    for n, (_, s, _) in enumerate(S):
        if not J:
            free.append(n)
            continue
        d = np.array([oracles.haversine(s["maxima_y"], s["maxima_x"], j["maxima_y"], j["maxima_x"])
                      for _, j, _ in J])
        k = int(np.argmin(d))
        ties = np.flatnonzero(d <= d[k] + 1e-6)
        tie = len(ties) > 1
        if abs(d[k] - s["radius_eddy"]) < 1e-6 * s["radius_eddy"] + 1e-9 or tie and (
                d[k] < s["radius_eddy"]):
            unsure.update([("j", int(t)) for t in ties] + [("s", n)])
        elif d[k] < s["radius_eddy"]:
            groups[k].append(n)
        else:
            free.append(n)
    def has(c):
        return reported[c] > 0

    both = collections.Counter(cj) & collections.Counter(cs)
    if both:
        # a repeated level: the versions cannot be told apart
        report.check(sum(reported.values()) >= len(J), "lost", where)
        return
    for n in free:
        report.see("added", bool(J))
        report.check(has(cs[n]), "not-added", "%s: eddy at (%.3f, %.3f) of the last level is lost" % (
            where, S[n][1]["maxima_x"], S[n][1]["maxima_y"]))
    for k in range(len(J)):
        if ("j", k) in unsure or any(("s", n) in unsure for n in groups[k]):
            report.see("unsure")
            continue
        j = J[k][1]
        members = groups[k]
        rivals = [n for n in members if better(S[n][1], j)]
        kept = has(cj[k])
        chosen = [n for n in members if has(cs[n])]
        detail = "%s: eddy at (%.3f, %.3f) level %g similarities (%.4f, %.4f), versions of the last " \
            "level %s" % (where, j["maxima_x"], j["maxima_y"], j["level"], j["contour_ellipse_error"],
                          j["contour_gaussian_error"],
                          [(S[n][1]["contour_ellipse_error"], S[n][1]["contour_gaussian_error"])
                           for n in members])
        report.check(kept or chosen, "lost", detail)
        report.check(kept + len(chosen) <= 1, "duplicated", detail)
        report.see("several_to_one", len(members) > 1)
        if not rivals:
            report.check(kept, "replaced-by-worse", detail)
            report.see("kept")
            report.see("rejected", len(members))
        else:
            report.check(not kept, "better-rejected", detail)
            report.see("replaced")
            for n in chosen:
                report.check(n in rivals, "replaced-by-worse", detail)
                report.check(not any(better(S[o][1], S[n][1]) for o in members), "not-the-best", detail)
    if not unsure:
        want = len(free) + len(J)
        report.check(sum(reported.values()) == want, "count", "%s: expected %d eddies" % (where, want))


def hash_of(contents):
    import hashlib

    return hashlib.md5(repr(sorted(map(repr, contents))).encode()).hexdigest()
