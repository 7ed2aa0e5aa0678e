"""C12: eddies keep their identifier while they can be followed."""
import numpy as np

import flows
import oracles
import te

RULE = ("Each evaluation is one linking decision of a recorded table of tracks, replayed with the "
        "specification (nearest track in reach, closest eddy wins, others start tracks), or one planted "
        "eddy followed along its planted trajectory. Distinct non-trivial = decisions.")
ASSUMPTIONS = ["decisions with distances equal to 1e-6 are not judged",
               "last position of a track = the last row the table holds of it before that time"]
REQUIRED = {"links": 1500, "births": 1500, "disputed": 30, "planted_steps": 150, "far_pairs": 100,
            "date_line": 50, "kind_crowd": 3}
WATCHDOG = 240


def cases(tier, seed):
    for k in range(700 if tier == "quick" else 5000):
        yield {"seed": seed, "k": k, "mode": "movie"}
    for k in range(90 if tier == "quick" else 1000):
        yield {"seed": seed, "k": k, "mode": "planted"}


def run(case, report):
    rng = te.rng_of(case["seed"], 12, case["k"], len(case["mode"]))
    if case["mode"] == "planted":
        return planted(case, report, rng)
    data, lon, lat, levels, kind = flows.movie(rng, nt=int(rng.integers(4, 10)))
    if case["k"] % 230 == 7:
        data, lon, lat = flows.crowd(rng, nt=3)
        levels, kind = [0.4, -0.4], "crowd"
    ntimes = int(rng.choice([0, 1, 2, 3, 5, 5, 8]))
    T = flows.relax(te.make(data, lon, lat, skip=True))
    table = te.track(T, levels, ntimes=ntimes)
    flows.check_links(report, table, ntimes, "%s movie %d" % (kind, case["k"]))
    n = len(te.eddies(table))
    report.see("date_line", n if abs(abs(lon[0]) - 180) < 5 else 0)
    report.see("kind_" + kind)
    if case["k"] < 4:
        report.sample = {"kind": kind, "levels": levels, "ntimes": ntimes, "shape": data.shape, "eddies": n}


def planted(case, report, rng):
    """Well separated eddies moving by less than their radius keep one identifier each."""
    lat0 = float(rng.choice([0, -15, 20, 30, -38]))
    lon0 = float(rng.choice([0, 180, -180, 60, 359]))
    limit = 2 * np.pi * oracles.rossby(abs(lat0) + 3) / 111
    s = float(min(0.5, 0.8 * limit / 2.2))
    dx = s / rng.uniform(3, 5)
    n = int(rng.integers(1, 4))
    nt = int(rng.integers(3, 8))
    lane = 7 * s
    frac = rng.choice([0.05, 0.3, 0.6, 0.8])
    level = 0.2
    r = s * np.sqrt(2 * np.log(1 / level))
    # the radius of the equivalent circle in km, the step in degrees of the shortest
    x = lon0 + np.arange(-4 * s, frac * r * nt + 5 * s, dx)
    y = lat0 + np.arange(-4 * s, lane * (n - 1) + 4 * s, dx)
    X, Y = np.meshgrid(x, y)
    sign = rng.choice([-1, 1])
    data = np.zeros((nt, *X.shape))
    paths = []
    for q in range(n):
        back = rng.random() < 0.5
        where = []
        for t in range(nt):
            k = nt - 1 - t if back else t
            cx, cy = lon0 + frac * r * k, lat0 + lane * q
            data[t] += te.gauss(X, Y, cx, cy, s, s, 0, sign * 1.0)
            where.append((cx, cy))
        paths.append(where)
    T = te.make(data, x, y, skip=True)
    table = te.track(T, [sign * level])
    found = te.eddies(table)
    per_time = {}
    for key, row, path in found:
        per_time.setdefault(int(key[1]), []).append((int(key[0]), row))
    name = "%d planted eddies around (%g, %g), steps of %.2f radius" % (n, lon0, lat0, frac)
    for t in range(nt):
        if not report.check(len(per_time.get(t, [])) == n, "planted-count", "%s: time %d has %d" % (
                name, t, len(per_time.get(t, [])))):
            return
    for where in paths:
        ids = []
        for t, (cx, cy) in enumerate(where):
            best = min(per_time[t], key=lambda e: np.hypot(e[1]["maxima_x"] - cx, e[1]["maxima_y"] - cy))
            ids.append(best[0])
            report.see("planted_steps")
            report.evaluate((case["k"], t, round(cy, 3)))
        report.check(len(set(ids)) == 1, "planted-broken", "%s: one eddy has the identifiers %s" % (name, ids))
    ids = {i for t in per_time for i, _ in per_time[t]}
    report.check(len(ids) == n, "planted-shared", "%s: %d identifiers" % (name, len(ids)))
    report.see("far_pairs", n * (n - 1) // 2 * nt)
    flows.check_links(report, table, 5, name)
