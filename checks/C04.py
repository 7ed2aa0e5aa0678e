"""C04: reported eddies meet the criteria and agree with their own contour."""
import numpy as np

import audit
import te

RULE = ("Each evaluation audits one reported eddy (criteria recomputed from its contour by an "
        "independent ellipse fit, spherical area and Frechet program; contour compared with the "
        "crossings of the field). Distinct non-trivial = (area, vertices, level) of the eddies.")
ASSUMPTIONS = ["values within the margins of the independent computation of a limit are not judged",
               "contour geometry is not compared when a grid value equals the level"]
REQUIRED = {"eddies": 250, "with_gaussian": 40, "tracked": 30}
WATCHDOG = 240


def cases(tier, seed):
    n = 1300 if tier == "quick" else 12000
    for k in range(n):
        yield {"seed": seed, "k": k}


def run(case, report):
    rng = te.rng_of(case["seed"], 4, case["k"])
    skip = bool(rng.random() < 0.8)
    gauss_ok = not skip
    lon, lat = te.grid(rng, small=gauss_ok)
    kind = str(rng.choice(["gaussians", "smooth", "rough", "halo", "holes", "plateau", "ridges"]
                          if skip else ["gaussians", "smooth", "halo"]))
    f = te.field(rng, lon, lat, kind)
    sea = te.altimetry(rng, None if skip else 30) if rng.random() < 0.15 else None
    if sea is not None:
        f, lon, lat = sea
        kind = "altimetry"
    if rng.random() < 0.3:
        f = f * 10.0 ** rng.integers(-3, 4)
    scale = np.nanmax(np.abs(f))
    if not scale > 0:
        return
    levels = [l * scale for l in te.levels_of(rng)]
    if sea is not None:
        levels = [l * scale / np.nanmax(np.abs(sea[0])) for l in te.sea_levels(rng)]
    criteria = {}
    if rng.random() < 0.6:
        criteria = {
            "ellipse_fit": float(rng.choice([0.5, 0.7, 0.8, 0.9, 0.95])),
            "eccentricity": float(rng.choice([0.3, 0.6, 0.8, 0.95])),
            "gaussian_fit": float(rng.choice([0.3, 0.6, 0.9, 0.95])),
            "max_area": float(rng.choice([0.3, 1, 3, 2 * np.pi, 20])),
        }
    layout = rng.random()
    if layout < 0.15:
        lat, f = lat[::-1], f[::-1]
    X, Y = np.meshgrid(lon, lat)
    data = f
    tracked = rng.random() < 0.15
    if tracked:
        data = np.stack([f, np.roll(f, 1, axis=1)])
    T = te.make(data, lon, lat, skip=skip, criteria=criteria)
    crit = T.identification_criteria
    if tracked:
        table = te.track(T, levels + [0.0])
    else:
        table = te.snapshot(T, levels + [0.0])
    found = te.eddies(table)
    maps = {}
    for key, row, path in found:
        t = key[1] if tracked else 0
        Z = data[t] if tracked else f
        audit.audit_eddy(report, row, path, X, Y, Z, crit, skip, levels,
                         maps.setdefault(t, {}), "eddy %s of %s field" % (key, kind))
        report.see("eddies")
        report.see("with_gaussian", not skip)
        report.see("tracked", tracked)
        report.see("custom_criteria", bool(criteria))
        report.see("kind_" + kind)
        if len(path) > 150:
            report.see("long_contours")
    if case["k"] < 4:
        report.sample = {"kind": kind, "shape": f.shape, "levels": levels, "criteria": criteria,
                         "skip_gaussian": skip, "eddies": len(found)}
