"""C07: every isolated Gaussian is found once, with its true parameters."""
import numpy as np

import oracles
import te

RULE = ("Each evaluation compares one planted Gaussian with the eddy reported for it (count, sign, "
        "amplitude, position, widths, orientation, area, radius). Distinct non-trivial = planted "
        "(position, widths, orientation, amplitude).")
ASSUMPTIONS = ["widths of 4 to 9 grid cells, separations of 7 widths, axes ratio up to 1.7 "
               "(eccentricity 0.81, criterion 0.85), contours within 0.8 of the size limit"]
REQUIRED = {"planted": 300, "fitted": 150, "negative": 100, "several": 60, "polar": 30,
            "date_line": 30, "greenwich": 20, "tiny_units": 20, "huge_units": 20}
WATCHDOG = 300


def cases(tier, seed):
    for k in range(330 if tier == "quick" else 3000):
        yield {"seed": seed, "k": k}


def run(case, report):
    rng = te.rng_of(case["seed"], 7, case["k"])
    fit = bool(rng.random() < 0.6)
    lat0 = float(rng.choice([0, 0.3, -10, 15, -30, 38, -50, 60, rng.uniform(-60, 60)]))
    lon0 = float(rng.choice([0, -180, 180, 360, 90, -77, rng.uniform(-180, 360)]))
    rows, cols = [(1, 1), (1, 1), (1, 2), (2, 1), (2, 2)][rng.integers(5)]
    limit = 2 * np.pi * oracles.rossby(abs(lat0) + 2) / 111
    base = float(min(rng.uniform(0.2, 1.2), 0.8 * limit / 2.2 / 1.2))
    dx = base / rng.uniform(4, 8)
    gap = 7 * 1.5 * base
    W, H = gap * cols + 2 * base, gap * rows + 2 * base
    lon = lon0 - W / 2 + np.arange(0, W, dx)
    lat = lat0 - H / 2 + np.arange(0, H, dx * rng.choice([1, 1, 0.8]))
    dy = lat[1] - lat[0]
    X, Y = np.meshgrid(lon, lat)
    unit = 10.0 ** float(rng.choice([-6, -3, -2, 0, 0, 1, 3, 6]))
    planted = []
    f = np.zeros(X.shape)
    for r in range(rows):
        for c in range(cols):
            ratio = rng.uniform(1, 1.7)
            b = base * rng.uniform(0.85, 1.15) / np.sqrt(ratio)
            e = {"x": lon0 + (c - (cols - 1) / 2) * gap + rng.uniform(-0.3, 0.3) * base,
                 "y": lat0 + (r - (rows - 1) / 2) * gap + rng.uniform(-0.3, 0.3) * base,
                 "a": b * ratio, "b": b, "theta": rng.uniform(-np.pi / 2, np.pi / 2),
                 "amp": unit * rng.choice([-1, 1]) * rng.uniform(0.8, 1.3)}
            planted.append(e)
            f += te.gauss(X, Y, e["x"], e["y"], e["a"], e["b"], e["theta"], e["amp"])
    if rng.random() < 0.3:
        # far below every level
        f = f + 1e-4 * unit * rng.normal(size=f.shape)
    fr = rng.choice([0.1, 0.15, 0.2, 0.3, 0.4, 0.5, 0.6], rng.integers(1, 4), replace=False)
    levels = np.concatenate([fr, -fr]) * unit
    levels = levels[rng.permutation(len(levels))]
    if rng.random() < 0.3:
        levels = np.sort(levels)
    T = te.make(f, lon, lat, skip=not fit)
    if rng.random() < 0.5:
        found = te.eddies(te.snapshot(T, levels))
    else:
        found = te.eddies(te.track(T, levels))
    where = "%d gaussians around (%.2f, %.2f)" % (len(planted), lon0, lat0)
    report.check(len(found) == len(planted), "count", "%s: %d eddies reported at %s" % (
        where, len(found), [(round(r["maxima_x"], 2), round(r["maxima_y"], 2), r["level"])
                            for _, r, _ in found]))
    for e in planted:
        near = [(row, path) for _, row, path in found
                if np.hypot(row["maxima_x"] - e["x"], row["maxima_y"] - e["y"]) < 2 * base]
        report.evaluate((round(e["x"], 6), round(e["a"], 6), round(e["theta"], 6), e["amp"]))
        report.see("planted")
        report.see("fitted", fit)
        report.see("negative", e["amp"] < 0)
        report.see("several", len(planted) > 1)
        report.see("polar", abs(e["y"]) > 45)
        report.see("date_line", abs(abs(lon0) - 180) < 1)
        report.see("greenwich", abs(lon0) < 1)
        report.see("tiny_units", unit < 1e-4)
        report.see("huge_units", unit > 1e4)
        if not report.check(len(near) == 1, "not-once", "%s: %s found %d times" % (
                where, e, len(near))):
            continue
        compare(report, e, *near[0], dx, dy, fit, where)
    if case["k"] < 4:
        report.sample = {"planted": planted, "levels": levels, "found": len(found)}


def compare(report, e, row, path, dx, dy, fit, where):
    def ok(good, mech, text, *args):
        report.check(good, mech, "%s: %s, planted %s" % (where, text % args, e))

    step = max(dx, dy)
    ok(row["eddy_sign"] == np.sign(e["amp"]), "sign", "sign %r", row["eddy_sign"])
    # the highest grid point is at most half a cell from the centre
    drop = 1 - np.exp(-0.5 * (0.75 * step / e["b"]) ** 2) + 2e-3
    ok(abs(row["maxima"] / e["amp"] - 1) < drop, "amplitude", "extremum %r", row["maxima"])
    ok(abs(row["maxima_x"] - e["x"]) < 1.01 * dx + 0.05 * e["a"]
       and abs(row["maxima_y"] - e["y"]) < 1.01 * dy + 0.05 * e["a"], "extremum-position",
       "extremum at (%r, %r)", row["maxima_x"], row["maxima_y"])
    ok(np.hypot(row["contour_x"] - e["x"], row["contour_y"] - e["y"]) < 0.6 * step, "centre",
       "centre (%r, %r)", row["contour_x"], row["contour_y"])
    grow = np.sqrt(2 * np.log(e["amp"] / row["level"]))
    a, b = e["a"] * grow, e["b"] * grow
    true = oracles.ellipse_points({"a": a, "b": b, "theta": e["theta"],
                                   "centre": np.array([e["x"], e["y"]])}, 400)
    area = oracles.polygon_area(true)
    small = 1.2 * (step / b) ** 2
    ok(abs(row["area_eddy"] / area - 1) < 0.03 + small, "area", "area %r, true %r",
       row["area_eddy"], area)
    ok(abs(row["radius_eddy"] / np.sqrt(area / np.pi) - 1) < 0.02 + small, "radius",
       "radius %r, true %r", row["radius_eddy"], np.sqrt(area / np.pi))
    ok(abs(row["ellipse_params_a"] / a - 1) < 0.03 + small
       and abs(row["ellipse_params_b"] / b - 1) < 0.03 + small, "axes", "ellipse axes %r %r",
       row["ellipse_params_a"], row["ellipse_params_b"])
    turn = abs(oracles.signed(row["ellipse_params_theta"] - e["theta"]))
    ok(turn * (a / b - 1) < 0.03 + small, "ellipse-angle", "ellipse angle %r",
       row["ellipse_params_theta"])
    ok(abs(row["ellipse_eccen"] - np.sqrt(1 - (b / a) ** 2)) < 0.05 + small
       or a / b < 1.1, "eccentricity", "eccentricity %r", row["ellipse_eccen"])
    ok(row["contour_ellipse_error"] > 0.9, "ellipse-similarity", "similarity %r",
       row["contour_ellipse_error"])
    if not fit:
        return
    row = dict(row)
    for k, v in zip(te.GAUSS, oracles.canonical([row[k] for k in te.GAUSS])):
        row[k] = v
    ok(np.hypot(row["gaussian_params_x"] - e["x"], row["gaussian_params_y"] - e["y"]) < 0.72 * np.hypot(dx, dy),
       "gaussian-position", "gaussian at (%r, %r)", row["gaussian_params_x"],
       row["gaussian_params_y"])
    ok(abs(row["gaussian_params_sigma_x"] / e["a"] - 1) < 0.08
       and abs(row["gaussian_params_sigma_y"] / e["b"] - 1) < 0.08, "gaussian-widths",
       "gaussian widths %r %r", row["gaussian_params_sigma_x"], row["gaussian_params_sigma_y"])
    turn = abs(oracles.signed(row["gaussian_params_theta"] - e["theta"]))
    ok(turn * (a / b - 1) < 0.08, "gaussian-angle", "gaussian angle %r",
       row["gaussian_params_theta"])
    ok(row["contour_gaussian_error"] > 0.85, "gaussian-similarity", "similarity %r",
       row["contour_gaussian_error"])
