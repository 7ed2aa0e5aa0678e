"""C02: completeness and exactness of the contours of complete fields."""
import numpy as np

import te
from oracles import EdgeMap

RULE = ("One evaluation is one contour vertex compared with the independently computed crossing "
        "of its grid edge; a case is a field (noise, smooth, quantised, checkerboard saddles, "
        "plateaus, thin grids) on a regular, irregular, descending or rotated grid and a level "
        "which is no grid value. Distinct non-trivial = (grid shape, number of contours, number of "
        "closed ones, saddles) combinations with at least one contour.")
ASSUMPTIONS = ["levels closer than 1e-7 of the range to a grid value are not generated"]
REQUIRED = {"vertices": 20000, "closed": 300, "open": 300, "saddle_cells": 200}


def cases(tier, seed):
    n = 4000 if tier == "quick" else 20000
    for k in range(n):
        yield {"seed": seed, "k": k}


def make(rng):
    kind = str(rng.choice(["noise", "smooth", "quantised", "saddle", "plateau", "thin",
                           "gaussians", "wide"]))
    if kind == "thin":
        ny, nx = [(2, 30), (30, 2), (2, 2), (3, 40), (2, 5)][int(rng.integers(5))]
    else:
        ny, nx = rng.integers(2, 40, 2)
    if kind == "wide":
        ny, nx = 5, 200
    lon = float(rng.uniform(-180, 300)) + np.cumsum(rng.uniform(0.05, 0.3, nx))
    lat = float(rng.uniform(-80, 60)) + np.cumsum(rng.uniform(0.05, 0.3, ny))
    how = int(rng.integers(5))
    if how == 1:
        lat = lat[::-1]
    if how == 2:
        lon = lon[::-1]
    X, Y = np.meshgrid(lon, lat)
    if how == 3:
        a = rng.uniform(0, 1.2)
        X, Y = X * np.cos(a) - Y * np.sin(a), X * np.sin(a) + Y * np.cos(a)
    if kind == "saddle":
        Z = ((np.arange(ny)[:, None] + np.arange(nx)) % 2) + 0.3 * rng.normal(size=(ny, nx))
    elif kind == "thin" or min(ny, nx) < 8:
        Z = rng.normal(size=(ny, nx))
    else:
        Z = te.field(rng, lon, lat, "noise" if kind == "wide" else kind)
    if rng.random() < 0.2:
        Z = Z * 10.0 ** rng.integers(-8, 8)
    lo, hi = Z.min(), Z.max()
    for _ in range(50):
        level = float(rng.uniform(lo, hi))
        if np.abs(Z - level).min() > 1e-7 * (hi - lo):
            return X, Y, Z, level, kind, how
    return X, Y, Z, None, kind, how


def run(case, report):
    from trackeddy.geometry import extract_contours

    rng = te.rng_of(case["seed"], 2, case["k"])
    X, Y, Z, level, kind, how = make(rng)
    if level is None:
        report.see("no_level")
        return
    segments, codes = extract_contours(X, Y, Z, level)
    E = EdgeMap(X, Y, Z, level)
    up = Z > level
    sad = ((up[:-1, :-1] == up[1:, 1:]) & (up[1:, :-1] == up[:-1, 1:])
           & (up[:-1, :-1] != up[1:, :-1])).sum()
    report.see("saddle_cells", sad)
    report.see("contours", len(segments))
    report.check(len(segments) == len(codes), "codes", "as many codes as contours")
    used = np.zeros(len(E.rows), int)
    turn = set()
    n_closed = 0
    rows = E.rows
    for s in segments:
        s = np.asarray(s)
        k = E.locate(s)
        report.evaluate(n=len(s))
        report.see("vertices", len(s))
        if (k < 0).any():
            report.violate("misplaced-vertex", "vertex %s is on no crossing of level %r (%s)" % (
                s[np.argmax(k < 0)], level, kind))
            return
        closed = len(s) > 1 and np.array_equal(s[0], s[-1])
        n_closed += closed
        report.see("closed" if closed else "open")
        body = k[:-1] if closed else k
        np.add.at(used, body, 1)
        if not closed:
            report.check(E.border(k[0]) and E.border(k[-1]) and len(s) > 1, "open-inside",
                         "contour of %d vertices ends inside the grid at %s / %s (%s)" % (
                             len(s), s[0], s[-1], kind))
        bad = E.walk(s, k)
        report.check(bad is None, "jump", "vertices %s and %s do not share a cell (%s)" % (
            bad, bad, kind) if bad is not None else "")
        # the side of the high values
        d = np.diff(s, axis=0)
        hi = rows[k[:-1], 5:7].astype(int)
        to = np.c_[X[hi[:, 0], hi[:, 1]], Y[hi[:, 0], hi[:, 1]]] - s[:-1]
        c = d[:, 0] * to[:, 1] - d[:, 1] * to[:, 0]
        c = c[np.abs(c) > 1e-9 * E.scale**2]
        side = set(np.sign(c).tolist())
        report.check(len(side) <= 1, "twisted", "high values on both sides of one contour (%s)"
                     % kind)
        if closed:
            turn |= side
    if (used != 1).any():
        n = int(np.argmax(used != 1))
        report.violate("lost-crossing" if used[n] == 0 else "repeated-crossing",
                       "crossing at %s is on %d contours (%d of %d wrong, %s)" % (
                           rows[n, :2], used[n], (used != 1).sum(), len(used), kind))
    report.check(len(turn) <= 1, "orientation",
                 "closed contours around high and low values turn the same way (%s)" % kind)
    if len(segments):
        report.evaluate((Z.shape, len(segments), n_closed, int(sad)), 0)
    if case["k"] < 3:
        report.sample = {"kind": kind, "shape": Z.shape, "level": level,
                         "contours": len(segments), "closed": n_closed,
                         "crossings": len(rows)}
