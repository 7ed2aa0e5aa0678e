"""C05: each contour becomes one eddy or is discarded once, with its true reason."""
import numpy as np
import pandas as pd
from scipy.optimize import linear_sum_assignment

import audit
import oracles
import te

RULE = ("Each evaluation is the fate of one contour: matched one to one to the eddies and the "
        "discarded contours reported at its level, and its criteria recomputed independently. "
        "Distinct non-trivial = (fate, vertices, centre).")
ASSUMPTIONS = ["values within the margins of the independent computation of a limit are not judged",
               "contours shrunk to a point relative to their coordinates can be ignored"]
REQUIRED = {"identified": 150, "area": 50, "open_contour": 100, "ellipse_area": 100,
            "eccentricity": 30, "similarity": 20, "gaussian_check": 10, "eddy_is_island": 3,
            "ellipse_fit_failed": 20, "judged": 800, "limit_max_area": 150, "limit_eccentricity": 150, "limit_ellipse_fit": 150,
            "limit_gaussian_fit": 15, "several_levels": 60}
WATCHDOG = 240
GEOMETRIC = ["area", "open_contour", "ellipse_fit_failed", "ellipse_area", "eccentricity",
             "similarity"]


def cases(tier, seed):
    for k in range(1500 if tier == "quick" else 6000):
        yield {"seed": seed, "k": k}


def run(case, report):
    from trackeddy.geometry import extract_contours

    rng = te.rng_of(case["seed"], 5, case["k"])
    skip = bool(rng.random() < 0.75)
    lon, lat = te.grid(rng, small=True)
    kind = str(rng.choice(["gaussians", "smooth", "rough", "halo", "holes", "plateau",
                           "quantised", "island", "ridges"]))
    if kind == "island":
        # land (zero) inside an annulus of high values
        X, Y = np.meshgrid(lon, lat)
        w = np.ptp(lon)
        r = np.hypot(X - lon.mean(), Y - lat.mean()) / w
        f = np.exp(-((r - 0.25) ** 2) / 2 / 0.05**2) * rng.choice([-1, 1])
        f[r < 0.2] = 0
        f = f + 0.0
    else:
        f = te.field(rng, lon, lat, kind)
    sea = te.altimetry(rng, 28) if rng.random() < 0.15 else None
    if sea is not None:
        f, lon, lat = sea
        kind = "altimetry"
    if rng.random() < 0.4:
        f = f * 10.0 ** rng.integers(-3, 4)
    scale = np.nanmax(np.abs(f))
    if not scale > 0:
        return
    criteria = te.random_criteria(rng) if rng.random() < 0.6 else {}
    T = te.make(f, lon, lat, skip=skip, criteria=criteria)
    crit = T.identification_criteria
    X, Y = np.meshgrid(lon, lat)
    levels = [float(l * scale) for l in te.levels_of(rng)]
    if sea is not None:
        levels = [float(l * scale / np.nanmax(np.abs(sea[0]))) for l in te.sea_levels(rng)]
        report.see("altimetry")
    if len(levels) > 1:
        report.see("several_levels")
    for level in levels:
        one(case, report, T, crit, X, Y, f, level, skip, kind, extract_contours)


def one(case, report, T, crit, X, Y, f, level, skip, kind, extract_contours):
    identified, discarded = te.one_level(T, level)
    for _, row, path in te.eddies(identified)[:1]:
        audit.at_the_limits(report, T, level, row, path, ["max_area", "eccentricity", "ellipse_fit"]
                            + ["gaussian_fit"] * (not skip), "level %r of a %s field" % (level, kind))
    contours, _ = extract_contours(T.X, T.Y, np.array(T.data2track.values), level)
    where = "level %r of a %s field" % (level, kind)
    if np.isfinite(f).all() and not np.isclose(f, level, rtol=0, atol=1e-12 * abs(level)).any():
        n = len(oracles.contours(X, Y, f, level))
        report.check(len(contours) == n, "contour-count",
                     "%s: %d contours, %d by another engine" % (where, len(contours), n))
    fates = []
    for key, row, path in te.eddies(identified):
        fates.append(("identified", row, path))
    ids = sorted({k for k, _, _ in te.eddies(identified)})
    report.check(ids == list(range(len(ids))), "identifiers", "%s: %s" % (where, ids))
    if isinstance(discarded, pd.DataFrame) and len(discarded):
        report.check(sorted(discarded.index) == list(range(len(discarded))), "discarded-numbers",
                     "%s: %s" % (where, list(discarded.index)[:20]))
        for _, row in discarded.iterrows():
            fates.append((str(row["reason"]), row, None))
    sure, maybe = [], []
    for c in contours:
        c = np.asarray(c, float)
        if not np.isfinite(c).all():
            maybe.append(c)
            continue
        off = np.abs(c.mean(0) - c[0]) / (1e-5 * np.abs(c[0]) + 1e-8)
        if off.max() > 3:
            sure.append(c)
        elif off.max() > 0.3:
            maybe.append(c)
    every = sure + maybe
    # match the fates with the contours
    size = max(np.ptp(X), np.ptp(Y))
    A = np.array([[*np.nanmean(c, 0), np.sqrt(oracles.polygon_area(c)) / 111]
                  if np.array_equal(c[0], c[-1]) else [*np.nanmean(c, 0), np.nan]
                  for c in every])
    A = A.reshape(-1, 3) if len(every) else np.zeros((0, 3))
    B = np.array([[r["contour_x"], r["contour_y"], np.sqrt(float(r["area_eddy"])) / 111]
                  for _, r, _ in fates], float).reshape(-1, 3)
    used = {}
    if len(A) and len(B):
        cost = np.hypot(A[:, None, 0] - B[None, :, 0], A[:, None, 1] - B[None, :, 1]) / size
        da = np.abs(A[:, None, 2] - B[None, :, 2]) / (np.nanmax(A[:, 2]) + 1e-12)
        cost = np.where(np.isfinite(cost), cost, 1e3)
        cost += 1e-3 * np.where(np.isfinite(da), da, 1)
        i, j = linear_sum_assignment(cost)
        used = {b: a for a, b in zip(i, j) if (
            np.hypot(*(A[a, :2] - B[b, :2])) < 1e-7 * size + 1e-11 * np.abs(A[a, :2]).max()
            or not np.isfinite(every[a]).all())}
    for j, (reason, row, _) in enumerate(fates):
        report.check(j in used, "fate-without-contour",
                     "%s: %s at (%.4f, %.4f) belongs to no contour, or to one already reported" % (
                         where, reason, row["contour_x"], row["contour_y"]))
        report.check(abs(float(row["level"]) - level) <= 1e-12 * abs(level), "other-level",
                     "%s: %s reported at level %r" % (where, reason, row["level"]))
    taken = set(used.values())
    for i in range(len(sure)):
        report.check(i in taken, "contour-without-fate",
                     "%s: contour of %d vertices at %s is neither identified nor discarded" % (
                         where, len(sure[i]), sure[i].mean(0)))
    for j, i in used.items():
        reason, row, path = fates[j]
        c = every[i]
        report.see(reason)
        if not np.isfinite(c).all():
            report.check(reason != "identified", "missing-data", "%s: identified through NaN" % where)
            continue
        if path is not None:
            report.check(np.array_equal(path, c), "other-contour",
                         "%s: the eddy at %s has the contour of another" % (where, c.mean(0)))
        closed = np.array_equal(c[0], c[-1])
        if not closed and np.allclose(c[0], c[-1], rtol=1e-4, atol=1e-7):
            continue
        status, info = audit.criteria_of(c, crit)
        if closed and audit.UNSURE in status.values():
            own = audit.exact(c, crit)[0]
            status = {k: own.get(k, s) if s == audit.UNSURE else s for k, s in status.items()}
            report.see("close_to_a_limit")
        detail = "%s: contour of %d vertices at %s %s" % (
            where, len(c), np.round(c.mean(0), 4),
            {k: v for k, v in info.items() if k not in ("ellipse", "centre")})
        report.evaluate((reason, len(c), round(float(c[:, 0].mean()), 6)))
        if not closed:
            # the size of a contour which is not closed is not defined
            report.check(reason in ("area", "open_contour"), "missed:open_contour",
                         "%s %s although it is not closed" % (detail, reason))
            report.see("judged")
            continue
        if reason == "identified" or reason not in GEOMETRIC:
            last = len(GEOMETRIC)
        else:
            last = GEOMETRIC.index(reason)
        fit_known = status.get("ellipse_fit_failed") == audit.PASS
        for n, name in enumerate(GEOMETRIC):
            s = status.get(name)
            if n < last:
                report.check(s != audit.FAIL, "missed:" + name,
                             "%s %s although it fails %s" % (detail, reason, name))
            elif n == last:
                report.check(s != audit.PASS, "wrong:" + name,
                             "%s discarded for %s, which it satisfies" % (detail, name))
        if reason in ("gaussian_check", "gaussian_fit_failed"):
            report.check(not skip, "gaussian-not-skipped", detail)
        elif reason == "eddy_is_island":
            m = oracles.inside(c, X, Y) & np.isfinite(f)
            v = f[m]
            report.check(not (len(v) and (v > 0).all() or len(v) and (v < 0).all()
                              and (f[np.isfinite(f)] < 0).all()), "wrong:island",
                         "%s discarded as island" % detail)
        elif reason not in GEOMETRIC and reason != "identified":
            report.violate("unknown-reason", "%s: %r" % (detail, reason))
        if reason == "gaussian_check":
            report.check(float(row["contour_gaussian_error"]) < crit["gaussian_fit"],
                         "wrong:gaussian", "%s discarded with a similarity of %r" % (
                             detail, row["contour_gaussian_error"]))
        if reason != "identified":
            a = info["area"]
            report.check(abs(float(row["area_eddy"]) - a) <= audit.area_slack(c, a) + 1e-6,
                         "area", "%s area %r" % (detail, row["area_eddy"]))
        if fit_known or reason in ("area", "open_contour"):
            report.see("judged")
        if report.sample is None and case["k"] < 4:
            report.sample = {"kind": kind, "level": level, "contour_vertices": len(c), "fate": reason}
