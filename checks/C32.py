"""C32: filled contours and masked fields of the contour engine."""
import numpy as np

import te
from oracles import EdgeMap

RULE = ("Each evaluation is one region between two levels, filled in one piece or in chunks: membership of "
        "thousands of points (close to the sides of every cell) and its area; or the lines of a masked "
        "field, vertex by vertex. Distinct non-trivial = (shape, levels, chunks, polygons).")
ASSUMPTIONS = ["levels closer than 1e-4 of the range to a grid value are not generated",
               "cells where four sides cross the same level count as either version of the saddle"]
REQUIRED = {"filled": 1500, "chunked": 1000, "masked": 250, "holes": 200, "points": 300000, "inside": 100000,
            "lines_masked": 150, "line_vertices": 5000, "saddles": 300}


def cases(tier, seed):
    for k in range(1200 if tier == "quick" else 20000):
        yield {"seed": seed, "k": k}


def make(rng):
    ny, nx = rng.integers(2, 26, 2)
    lon = float(rng.uniform(-180, 300)) + np.cumsum(rng.uniform(0.05, 0.3, nx))
    lat = float(rng.uniform(-80, 60)) + np.cumsum(rng.uniform(0.05, 0.3, ny))
    kind = str(rng.choice(["noise", "smooth", "quantised", "gaussians", "checker", "steps"]))
    X, Y = np.meshgrid(lon, lat)
    if kind == "checker":
        Z = ((np.arange(ny)[:, None] + np.arange(nx)) % 2) + 0.3 * rng.normal(size=(ny, nx))
    elif kind == "steps":
        Z = np.round(3 * np.sin(X * 3) * np.cos(Y * 2)) / 3
    elif kind == "noise" or min(ny, nx) < 8:
        Z = rng.normal(size=(ny, nx))
    else:
        Z = te.field(rng, lon, lat, kind)
    if rng.random() < 0.3:
        Z = Z * 10.0 ** rng.integers(-9, 9)
    how = int(rng.integers(4))
    if how == 1:
        X, Y, Z = X[::-1], Y[::-1], Z[::-1]
    elif how == 2:
        X, Y, Z = X[:, ::-1], Y[:, ::-1], Z[:, ::-1]
    elif how == 3:
        X, Y = te.rotate(lon, lat, float(rng.uniform(0, 6)))
    return kind, np.array(X), np.array(Y), np.array(Z, float)


def split(xy, codes):
    """Rings of a compound polygon."""
    starts = np.flatnonzero(np.asarray(codes) == 1)
    return [xy[a:b] for a, b in zip(starts, np.append(starts[1:], len(xy)))]


def crossings(rings, P):
    """How many rings contain each point (rays towards positive x)."""
    n = np.zeros(len(P), int)
    for r in rings:
        a, b = r, np.roll(r, -1, axis=0)
        keep = a[:, 1] != b[:, 1]
        a, b = a[keep], b[keep]
        if not len(a):
            continue
        y = P[:, 1][:, None]
        over = (a[:, 1] > y) != (b[:, 1] > y)
        x = a[:, 0] + (y - a[:, 1]) * (b[:, 0] - a[:, 0]) / (b[:, 1] - a[:, 1])
        n += ((over & (x > P[:, 0][:, None])).sum(1)) % 2
    return n


def shoelace(r):
    x, y = r[:, 0] - r[0, 0], r[:, 1] - r[0, 1]
    return 0.5 * np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))


def cells(X, Y, Z, zones, lo, hi):
    """Area between the levels of the cells without saddles, area of the saddles, points
    beside the sides with whether they are inside, for the zones which exist."""
    area = saddles = 0.0
    nsaddles = 0
    P, inside = [], []
    scale = np.ptp(Z)
    for j, i in np.argwhere(zones):
        q = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]
        x, y, z = (np.array([A[c] for c in q]) for A in (X, Y, Z))
        centre = np.array([x.mean(), y.mean()])
        cut = [((z > l) != (np.roll(z, -1) > l)).sum() for l in (lo, hi)]
        poly = []
        for k in range(4):
            a, b = k, (k + 1) % 4
            if lo < z[a] < hi:
                poly.append((x[a], y[a]))
            for l in ((lo, hi) if z[b] > z[a] else (hi, lo)):
                if (z[a] > l) != (z[b] > l):
                    t = (l - z[a]) / (z[b] - z[a])
                    poly.append((x[a] + t * (x[b] - x[a]), y[a] + t * (y[b] - y[a])))
            for t in (0.03, 0.27, 0.52, 0.81, 0.96):
                v = z[a] + t * (z[b] - z[a])
                if min(abs(v - lo), abs(v - hi)) < 1e-3 * scale:
                    continue
                p = np.array([x[a] + t * (x[b] - x[a]), y[a] + t * (y[b] - y[a])])
                P.append(p + 1e-7 * (centre - p))
                inside.append(lo < v < hi)
        whole = abs(shoelace(np.column_stack([x, y])))
        if max(cut) == 4:
            saddles += whole
            nsaddles += 1
        elif poly:
            area += abs(shoelace(np.array(poly)))
    return area, saddles, nsaddles, np.array(P).reshape(-1, 2), np.array(inside, bool)


def run(case, report):
    from trackeddy import _cntr

    rng = te.rng_of(case["seed"], 32, case["k"])
    kind, X, Y, Z = make(rng)
    scale = np.ptp(Z)
    if not scale > 0:
        return
    mask = None
    if rng.random() < 0.45:
        pattern = int(rng.integers(4))
        mask = rng.random(Z.shape) < (0.03, 0.1, 0.3)[int(rng.integers(3))]
        if pattern == 1:
            mask[:] = False
            mask[rng.integers(Z.shape[0]), :] = True
        elif pattern == 2:
            mask[:] = False
            j, i = (int(rng.integers(s)) for s in Z.shape)
            mask[max(j - 3, 0):j + 2, max(i - 2, 0):i + 3] = True
        elif pattern == 3:
            mask[:] = False
    bad = np.zeros(Z.shape, bool) if mask is None else mask
    zones = ~(bad[1:, 1:] | bad[:-1, 1:] | bad[1:, :-1] | bad[:-1, :-1])
    if mask is None:
        engine = _cntr.Cntr(X, Y, Z)
    else:
        engine = _cntr.Cntr(X, Y, Z, mask.astype(rng.choice(["bool", "i1"])))
    for _ in range(3):
        pool = np.sort(rng.uniform(Z.min() - 0.1 * scale, Z.max() + 0.1 * scale, 2))
        if min(np.abs(Z - l).min() for l in pool) > 1e-4 * scale and pool[1] - pool[0] > 1e-3 * scale:
            break
    else:
        return
    lo, hi = (float(l) for l in pool)
    area, saddles, n, P, inside = cells(X, Y, Z, zones, lo, hi)
    report.see("saddles", n)
    where = "%s field %s, levels %.4g to %.4g%s" % (kind, Z.shape, lo, hi,
                                                  "" if mask is None else ", %d masked" % mask.sum())
    if mask is not None:
        report.see("masked")
        # the order of calls must not matter
        if rng.random() < 0.5:
            lines(report, engine, X, Y, Z, bad, zones, lo, where)
    for nchunk in [0] + [int(v) for v in rng.choice([1, 2, 3, 4, 7, 12, 40, 1000], 2, replace=False)]:
        how = where + ", chunks of %d" % nchunk
        res = engine.trace(lo, hi, nchunk)
        polys, codes = res[:len(res) // 2], res[len(res) // 2:]
        report.see("filled")
        report.see("chunked", nchunk > 0)
        report.evaluate((Z.shape, round(lo, 4), round(hi, 4), nchunk, len(polys)))
        if not report.check(all(len(p) == len(c) for p, c in zip(polys, codes))
                            and all(len(c) and c[0] == 1 and set(c.tolist()) <= {1, 2, 79} for c in codes),
                            "malformed", how):
            continue
        total = 0.0
        count = np.zeros(len(P), int)
        for p, c in zip(polys, codes):
            rings = split(p, c)
            report.see("holes", len(rings) - 1)
            sizes = [shoelace(r) for r in rings]
            total += abs(sum(sizes))
            # inside of the outline and of none of the holes
            count += crossings(rings, P) % 2
            report.check(np.isfinite(p).all(), "not-finite", how)
        wrong = np.flatnonzero(count != inside)
        report.see("points", len(P))
        report.see("inside", int(inside.sum()))
        report.check(len(wrong) == 0, "membership", lambda: "%s: %d of %d points wrong, the first (%.6f, %.6f) is "
                     "covered %d times and should be %s" % (how, len(wrong), len(P), *P[wrong[0]], count[wrong[0]],
                                                            "inside" if inside[wrong[0]] else "outside"))
        tol = 1e-9 * zones.size + 1e-6 * area
        report.check(area - tol <= total <= area + saddles + tol, "area", lambda: "%s: the polygons cover %.9g, "
                     "expected %.9g to %.9g" % (how, total, area, area + saddles))
        if report.sample is None and len(polys) > 2 and case["k"] < 40:
            report.sample = {"case": how, "polygons": len(polys), "area": total}
    if mask is not None:
        lines(report, engine, X, Y, Z, bad, zones, hi, where)


def lines(report, engine, X, Y, Z, bad, zones, level, where):
    """Lines of one level: each crossing of a side of the zones which exist, once."""
    res = engine.trace(level)
    found = res[:len(res) // 2]
    report.see("lines_masked")
    sides = {}
    ny, nx = Z.shape
    for (a, b, ok) in (
            (np.s_[:, :-1], np.s_[:, 1:], np.pad(zones, ((0, 1), (0, 0))) | np.pad(zones, ((1, 0), (0, 0)))),
            (np.s_[:-1, :], np.s_[1:, :], np.pad(zones, ((0, 0), (0, 1))) | np.pad(zones, ((0, 0), (1, 0))))):
        za, zb = Z[a], Z[b]
        cross = ((za > level) != (zb > level)) & ok
        t = (level - za[cross]) / (zb[cross] - za[cross])
        x = X[a][cross] + t * (X[b][cross] - X[a][cross])
        y = Y[a][cross] + t * (Y[b][cross] - Y[a][cross])
        for p in zip(np.round(x, 7), np.round(y, 7)):
            sides[p] = sides.get(p, 0)
    expected = np.array(sorted(sides)).reshape(-1, 2)
    got = []
    for p in found:
        got.append(p[:-1] if len(p) > 1 and np.array_equal(p[0], p[-1]) else p)
    got = np.concatenate(got) if got else np.zeros((0, 2))
    report.see("line_vertices", len(got))
    report.evaluate((where, level))
    if not report.check(len(got) == len(expected), "lines-count", "%s: %d vertices of lines at %.4g, %d crossings"
                        % (where, len(got), level, len(expected))):
        return
    if len(got):
        from scipy.spatial import cKDTree

        d, k = cKDTree(expected).query(got)
        report.check(d.max() < 1e-6 and len(set(k.tolist())) == len(k), "lines-place", "%s: a vertex is %.3g away "
                     "from the crossings of %.4g" % (where, d.max(), level))
