"""Reference evaluation of the identification criteria of one contour."""
import numpy as np

import oracles
from oracles import EdgeMap

PASS, FAIL, UNSURE = "pass", "fail", "unsure"


def judge(value, limit, slack):
    """value <= limit, unless too close to tell."""
    if not np.isfinite(value):
        return FAIL
    if value <= limit - slack:
        return PASS
    if value >= limit + slack:
        return FAIL
    return UNSURE


def near_origin(path):
    """Close to (0, 0) or (180, 0), where the areas of trackeddy are the least accurate."""
    path = np.asarray(path, float)
    c = path.mean(0)
    r = np.abs(path - c).max()
    return np.hypot((c[0] + 90) % 180 - 90, c[1]) < 4 * r


def area_slack(path, area):
    """Discretisation error of the area: worst around (0, 0) or (180, 0)."""
    n = len(path)
    return area * (0.004 + 60.0 / n**2) * (4 if near_origin(path) else 1) + 1e-9


def criteria_of(path, criteria):
    """Status of the geometric criteria, in the order they are applied."""
    path = np.asarray(path, float)
    out = {}
    info = {}
    if not np.isfinite(path).all():
        # NaN vertices: the contour runs into missing data
        return {"missing": FAIL}, info
    area = oracles.polygon_area(path)
    radius = np.sqrt(area / np.pi)
    centre = path.mean(0)
    limit = criteria["max_area"] * oracles.rossby(centre[1])
    info.update(area=area, radius=radius, centre=centre)
    coarse = len(path) < 40 and near_origin(path)
    out["area"] = UNSURE if coarse else judge(radius, limit, 0.02 * limit + 1e-9)
    gap = np.abs(path[0] - path[-1]).max()
    out["open_contour"] = PASS if gap == 0 else (
        FAIL if gap > 2e-8 + 2e-5 * np.abs(path).max() else UNSURE)
    fit = oracles.ellipse_fit(path)
    info["ellipse"] = fit
    if fit is None or fit["cond"] > 3e5:
        out["ellipse_fit_failed"] = UNSURE
        return out, info
    out["ellipse_fit_failed"] = PASS
    rel = []
    for ph in (0.0, 0.37, 0.71):
        e = oracles.ellipse_points(fit, len(path), ph * 2 * np.pi / max(len(path) - 1, 1))
        ea = oracles.polygon_area(e)
        rel.append(abs(area - ea) / max(ea, 1e-300))
    rtol = 0.1 * criteria["ellipse_fit"]
    info["area_difference"] = rel[0]
    s = [judge(r, rtol, 0.15 * rtol + 1e-6) for r in rel]
    out["ellipse_area"] = s[0] if len(set(s)) == 1 and not coarse else UNSURE
    ecc = np.sqrt(max(1 - (fit["b"] / fit["a"]) ** 2, 0))
    info["eccentricity"] = ecc
    out["eccentricity"] = judge(ecc, criteria["eccentricity"], 2e-3)
    low, high = oracles.aligned_similarity(path, fit)
    info["similarity"] = (low, high)
    spread = 0.02 + (high - low)
    lim = criteria["ellipse_fit"]
    out["similarity"] = (PASS if low >= lim + spread else
                         FAIL if high <= lim - spread else UNSURE)
    return out, info


ORDER = ["area", "open_contour", "ellipse_fit_failed", "ellipse_area", "eccentricity",
         "similarity", "eddy_is_island", "gaussian_fit_failed", "gaussian_check"]


def audit_eddy(report, row, path, X, Y, Z, criteria, skip, levels, maps=None, where=""):
    """Check one reported eddy against the field it was found in (C04)."""
    ok = report.check
    vals = np.array([v for k, v in row.items() if not k.startswith("_")], float)
    if not ok(np.isfinite(vals).all() and np.isfinite(path).all(), "not-finite",
              "%s %s" % (where, {k: v for k, v in row.items()
                              if not k.startswith("_") and not np.isfinite(v)})):
        return
    ok(row["_constant"], "mixed-rows", "%s rows of one eddy disagree" % where)
    lev = row["level"]
    ok(any(abs(lev - l) <= 1e-12 * max(1, abs(l)) for l in levels) and lev != 0, "level",
       "%s level %r not requested" % (where, lev))
    ok(np.array_equal(path[0], path[-1]) and len(path) > 3, "not-closed",
       "%s contour of %d vertices from %s to %s" % (where, len(path), path[0], path[-1]))
    E = maps[lev] if maps is not None and lev in maps else EdgeMap(X, Y, Z, lev)
    if maps is not None:
        maps[lev] = E
    touching = np.isclose(Z, lev, rtol=0, atol=1e-9 * (np.nanmax(np.abs(Z)) + 1e-300)).any()
    if not touching:
        k = E.locate(path)
        if ok((k >= 0).all(), "not-a-contour", "%s vertex %s is not on the level %r" % (
                where, path[np.argmin(k)], lev)):
            bad = E.walk(path, k)
            ok(bad is None, "incomplete-contour", "%s vertices %s do not share a cell" % (
                where, bad))
            ok(len(set(k[:-1].tolist())) == len(k) - 1, "repeated-vertex",
               "%s the contour passes twice by the same edge" % where)
    status, info = criteria_of(path, criteria)
    for name, s in status.items():
        ok(s != FAIL, "criterion:" + name, "%s reported although %s fails: %s" % (
            where, name, {k: v for k, v in info.items() if k != "ellipse"}))
    # values of the contour reported with it
    area = info["area"]
    dense = area_slack(path, area)
    ok(abs(row["area_eddy"] - area) <= dense + 1e-9, "area",
       "%s area %r, its contour encloses %r" % (where, row["area_eddy"], area))
    ok(np.isclose(row["radius_eddy"], np.sqrt(row["area_eddy"] / np.pi), rtol=1e-9), "radius",
       "%s radius %r of area %r" % (where, row["radius_eddy"], row["area_eddy"]))
    scale = np.abs(path).max()
    ok(np.allclose([row["contour_x"], row["contour_y"]], path.mean(0), atol=1e-9 * scale), "centre",
       "%s centre %s of a contour centred at %s" % (
           where, (row["contour_x"], row["contour_y"]), path.mean(0)))
    fit = info["ellipse"]
    if fit is not None and fit["cond"] < 1e4:
        tol = 0.03 if fit["bratio"] < 5e-3 else 2e-3
        ok(np.allclose([row["ellipse_params_a"], row["ellipse_params_b"]],
                       [fit["a"], fit["b"]], rtol=tol), "ellipse-axes",
           "%s axes %s, of its contour %s" % (
               where, (row["ellipse_params_a"], row["ellipse_params_b"]), (fit["a"], fit["b"])))
        if fit["a"] / fit["b"] > 1.1:
            d = abs(oracles.signed(row["ellipse_params_theta"] - fit["theta"]))
            ok(d < 0.02, "ellipse-angle", "%s angle %r, of its contour %r" % (
                where, row["ellipse_params_theta"], fit["theta"]))
        low, high = info["similarity"]
        step = 0.03 + (high - low)
        ok(low - step <= row["contour_ellipse_error"] <= high + step, "ellipse-similarity",
           "%s similarity %r, of its contour %r" % (where, row["contour_ellipse_error"],
                                                  info["similarity"]))
    own, vals = exact(path, criteria)
    for name, s in own.items():
        ok(s != FAIL, "criterion:" + name, "%s reported although %s fails: %s" % (where, name, vals))
    ok(np.isclose(row["area_eddy"], vals["area"], rtol=1e-7), "area",
       "%s area %r, of its contour %r" % (where, row["area_eddy"], vals["area"]))
    if "params" in vals and fit is not None and fit["cond"] < 1e6:
        ok(np.allclose([row["ellipse_params_" + c] for c in "ab"], vals["params"][:2], rtol=1e-5),
           "ellipse-axes", "%s axes %s, of its contour %s" % (
               where, [row["ellipse_params_" + c] for c in "ab"], vals["params"]))
    if "similarity" in vals:
        ok(abs(row["contour_ellipse_error"] - vals["similarity"]) < 2e-3, "ellipse-similarity",
           "%s similarity %r, of its contour %r" % (where, row["contour_ellipse_error"],
                                                  vals["similarity"]))
    ratio = row["ellipse_params_b"] / row["ellipse_params_a"]
    ok(0 < ratio <= 1 + 1e-12 and np.isclose(
        row["ellipse_eccen"], np.sqrt(max(1 - ratio**2, 0)), atol=1e-7), "eccentricity",
       "%s eccentricity %r of axes %r %r" % (where, row["ellipse_eccen"],
                                             row["ellipse_params_a"], row["ellipse_params_b"]))
    ok(row["ellipse_eccen"] <= criteria["eccentricity"] + 1e-9, "criterion:eccentricity",
       "%s eccentricity %r" % (where, row["ellipse_eccen"]))
    ok(row["contour_ellipse_error"] >= criteria["ellipse_fit"] - 1e-9, "criterion:similarity",
       "%s similarity to the ellipse %r" % (where, row["contour_ellipse_error"]))
    if skip:
        ok("gaussian_params_x" not in row, "gaussian-not-skipped",
           "%s has a Gaussian although the fit is skipped" % where)
    else:
        ok(row["contour_gaussian_error"] >= criteria["gaussian_fit"] - 1e-9,
           "criterion:gaussian", "%s similarity to the Gaussian %r" % (
               where, row["contour_gaussian_error"]))
        if ok("gaussian_params_x" in row, "gaussian-missing", where):
            s = gaussian_similarity(row, path, X, Y)
            if s is not None:
                report.see("gaussians_compared")
                ok(abs(s - row["contour_gaussian_error"]) < 0.02, "gaussian-similarity",
                   "%s similarity to the Gaussian %r, of the one reported %r" % (
                       where, row["contour_gaussian_error"], s))
    report.evaluate((round(area, 3), len(path), round(lev, 6)))


def exact(path, criteria):
    """The same criteria by the functions of the package, which have properties of their own.

    Values, and which criteria are met: no margin is needed but for rounding."""
    from trackeddy import geometry, physics

    path = np.asarray(path, float)
    vals, out = {}, {}
    vals["area"] = area = float(geometry.area_latlon_polygon(path))
    limit = criteria["max_area"] * float(physics.approx_RD_lat(path.mean(0)[1]))
    out["area"] = _sharp(np.sqrt(area / np.pi), limit)
    try:
        ellipse, params = geometry.fit_ellipse(path[:, 0], path[:, 1])
    except np.linalg.LinAlgError:
        out["ellipse_fit_failed"] = FAIL
        return out, vals
    out["ellipse_fit_failed"] = PASS
    vals["params"] = np.asarray(params, float)
    other = float(geometry.area_latlon_polygon(ellipse))
    out["ellipse_area"] = _sharp(abs(area - other), 1e-8 + 0.1 * criteria["ellipse_fit"] * other)
    vals["eccentricity"] = float(geometry.eccentricity(*vals["params"][:2]))
    out["eccentricity"] = _sharp(vals["eccentricity"], criteria["eccentricity"])
    if hasattr(geometry, "align_curve") and np.isfinite(ellipse).all():
        vals["similarity"] = float(geometry.compute_similarity(
            path, geometry.align_curve(ellipse, path)))
        out["similarity"] = _sharp(-vals["similarity"], -criteria["ellipse_fit"], 2e-4)
    return out, vals


def _sharp(value, limit, slack=0):
    slack += 1e-7 * abs(limit) + 1e-12
    return UNSURE if abs(value - limit) <= slack else PASS if value < limit else FAIL


def gaussian_similarity(row, path, X, Y):
    """Similarity of the contour with the one of the Gaussian reported with it."""
    from trackeddy.geometry import compute_similarity, extract_contours

    x, y, sx, sy, t = (row["gaussian_params_" + c] for c in ("x", "y", "sigma_x", "sigma_y", "theta"))
    if not row["level"] / row["maxima"] > 0:
        return None
    u = (X - x) * np.cos(t) + (Y - y) * np.sin(t)
    v = (Y - y) * np.cos(t) - (X - x) * np.sin(t)
    G = row["maxima"] * np.exp(-(u / sx) ** 2 / 2 - (v / sy) ** 2 / 2)
    curves = extract_contours(X, Y, G, row["level"])[0]
    if len(curves) != 1 or not np.array_equal(curves[0][0], curves[0][-1]):
        return None
    c = curves[0]
    # within the part of the grid on which it was fitted
    margin = 2 * np.array([np.abs(np.diff(X)).max(), np.abs(np.diff(Y, axis=0)).max()])
    if (c.min(0) < path.min(0) - margin).any() or (c.max(0) > path.max(0) + margin).any():
        return None
    return float(compute_similarity(path, c))


def at_the_limits(report, T, level, row, path, names, where):
    """The same analysis with each limit just on one side or the other of what was measured."""
    import te
    from trackeddy.physics import approx_RD_lat

    keep = T.identification_criteria
    for name in names:
        if name == "max_area":
            value = row["radius_eddy"] / float(approx_RD_lat(path.mean(0)[1]))
            out, within, reason = value * (1 - 1e-6), value * (1 + 1e-6), "area"
        elif name == "eccentricity":
            value = row["ellipse_eccen"]
            out, within, reason = value * (1 - 1e-6) - 1e-9, value * (1 + 1e-6) + 1e-9, "eccentricity"
        elif name == "ellipse_fit":
            # four digits, and a larger one tolerates more difference of areas
            value = row["contour_ellipse_error"]
            if value < keep[name]:
                continue
            out, within, reason = value + 5e-5, value - 5e-5, "similarity"
        else:
            value = row["contour_gaussian_error"]
            out, within, reason = value + 5e-5, value - 5e-5, "gaussian_check"
        for limit, inside in ((within, True), (out, False)):
            if name == "ellipse_fit" and limit < keep[name]:
                continue
            T.identification_criteria = dict(keep, **{name: limit})
            try:
                found, discarded = te.one_level(T, level)
            finally:
                T.identification_criteria = keep
            mine = [r for _, r, p in te.eddies(found) if np.array_equal(p, path)]
            report.see("limit_" + name)
            report.evaluate((name, inside, round(limit, 9)))
            text = "%s: %s is %r, limit %r" % (where, name, value, limit)
            if inside:
                report.check(len(mine) == 1, "limit:" + name, "%s: reported %d times" % (text, len(mine)))
                continue
            report.check(not mine, "limit:" + name, "%s: reported" % text)
            rows = [] if not hasattr(discarded, "reason") else [
                str(d["reason"]) for _, d in discarded.iterrows()
                if np.allclose([d["contour_x"], d["contour_y"]], path.mean(0), rtol=1e-12, atol=1e-12)
                and (not np.isfinite(d["area_eddy"])
                     or np.isclose(float(d["area_eddy"]), row["area_eddy"], rtol=1e-6))]
            report.check(rows == [reason], "limit-reason:" + name, "%s: discarded for %s" % (text, rows))
