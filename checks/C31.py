"""C31: the diagnostic figures show what was detected."""
import matplotlib

matplotlib.use("Agg")
import numpy as np
from matplotlib.colors import to_rgba

import te

RULE = ("Each evaluation is one figure of a detection: everything drawn on its axes is read back and "
        "compared with the tables it was given. Distinct non-trivial = (figure, eddies, discarded).")
ASSUMPTIONS = ["what is drawn is read from the lines and markers of the axes, whatever their order",
               "marks on the corner of the grid stand for the legend"]
REQUIRED = {"level_figures": 150, "multilevel_figures": 150, "eddies": 200, "discarded": 500,
            "nothing_identified": 15, "nothing_discarded": 8, "reasons": 300, "legends": 60,
            "several_levels": 12, "empty_tables": 5}
WATCHDOG = 240


def cases(tier, seed):
    for k in range(240 if tier == "quick" else 2500):
        for mode in ("level", "multilevel"):
            yield {"seed": seed, "k": k, "mode": mode}


def marks(ax):
    """(points, colour) of everything drawn on axes."""
    out = []
    for line in ax.lines:
        out.append((np.asarray(line.get_xydata(), float).reshape(-1, 2), to_rgba(line.get_color())[:3]))
    for c in ax.collections:
        offsets = np.asarray(c.get_offsets(), float) if type(c).__name__ == "PathCollection" else []
        colours = c.get_facecolors() if len(offsets) else []
        for n, p in enumerate(offsets):
            out.append((p.reshape(1, 2), tuple(colours[n % len(colours)][:3])))
    return out


def key(p):
    return tuple(np.round(np.asarray(p, float), 9))


def run(case, report):
    import matplotlib.pyplot as plt

    rng = te.rng_of(case["seed"], 31, case["k"], len(case["mode"]))
    sea = te.altimetry(rng, n=int(rng.integers(24, 36))) if rng.random() < 0.15 else None
    if sea:
        f, lon, lat = sea
        levels = te.sea_levels(rng)
    else:
        lon, lat = te.grid(rng, small=True)
        f = te.field(rng, lon, lat, str(rng.choice(["gaussians", "smooth", "halo", "holes", "rough",
                                                    "ridges"])))
        levels = te.levels_of(rng)
        if rng.random() < 0.15:
            f = te.gauss(*np.meshgrid(lon, lat), lon.mean(), lat.mean(), 0.1 * np.ptp(lon),
                         0.1 * np.ptp(lon), 0, 1.0)
            levels = [0.3, 0.4]
    if rng.random() < 0.3:
        X, Y = te.rotate(lon, lat, 0.4)
        T = te.tracker(te.dataset2d(f, X, Y), skip=True)
    else:
        T = te.make(f, lon, lat, skip=True)
    if rng.random() < 0.5:
        T.identification_criteria.update(max_area=50.0, eccentricity=0.95, ellipse_fit=0.6)
    plt.close("all")
    try:
        if case["mode"] == "level":
            one(report, rng, T, float(rng.choice(levels + [3.0], p=[0.9 / len(levels)] * len(levels) + [0.1])),
                plt)
        else:
            several(report, rng, T, levels + ([0.25, 0.35, 0.45, 0.5] if rng.random() < 0.3 else []), plt)
    finally:
        plt.close("all")


def one(report, rng, T, level, plt):
    found, discarded = te.one_level(T, level)
    eddies = te.eddies(found)
    rows = [r for _, r in discarded.iterrows()] if len(discarded) else []
    before = found.copy(), discarded.copy() if len(discarded) else None
    with te.quiet():
        T.plot_eddy_detection_in_level(found, discarded, **(
            {"markersize": 2} if rng.random() < 0.3 else {}))
    report.check(found.equals(before[0]) and (before[1] is None or discarded.equals(before[1])),
                 "table-changed", "the figure of a level changes its tables")
    axes = [a for a in plt.gcf().axes]
    where = "level %r: %d eddies, %d discarded" % (level, len(eddies), len(rows))
    if not report.check(len(axes) >= 2, "axes", where):
        return
    corner = key((T.X[0, 0], T.Y[0, 0]))
    left = {key(p) for pts, _ in marks(axes[0]) for p in pts} - {corner}
    want = {key(p) for _, _, path in eddies for p in path}
    want |= {key((r["contour_x"], r["contour_y"])) for _, r, _ in eddies}
    want -= {corner}
    report.check(want <= left, "identified-not-drawn", "%s: %d of %d points of the eddies are not drawn" % (
        where, len(want - left), len(want)))
    report.check(left <= want, "drawn-not-identified", "%s: %d points drawn are of no eddy" % (
        where, len(left - want)))
    colour = {}
    right = {}
    for pts, c in marks(axes[1]):
        for p in pts:
            right.setdefault(key(p), set()).add(c)
    right.pop(corner, None)
    centres = {key((r["contour_x"], r["contour_y"])): r["reason"] for r in rows}
    centres = {k: v for k, v in centres.items() if np.isfinite(k).all() and k != corner}
    drawn = {k for k in right if np.isfinite(k).all()}
    report.check(set(centres) <= drawn, "discarded-not-drawn", "%s: %d are not drawn" % (
        where, len(set(centres) - drawn)))
    report.check(drawn <= set(centres), "drawn-not-discarded", "%s: %d points" % (
        where, len(drawn - set(centres))))
    for p, reason in centres.items():
        if len(right.get(p, ())) == 1:
            colour.setdefault(str(reason), set()).update(right[p])
            report.see("reasons")
    for reason, c in colour.items():
        report.check(len(c) == 1, "colours", "%s: %s in %d colours" % (where, reason, len(c)))
    flat = [c for s in colour.values() for c in s]
    report.check(len(flat) == len(set(flat)), "colours", "%s: two reasons in the same colour: %s" % (
        where, {r: sorted(c) for r, c in colour.items()}))
    legend = {to_rgba(l.get_color())[:3] for a in axes for l in a.lines
              if not l.get_label().startswith("_")}
    report.check(not legend or set(flat) <= legend, "legend", "%s: a colour is not in the legend" % where)
    report.see("level_figures")
    report.see("eddies", len(eddies))
    report.see("discarded", len(rows))
    report.see("nothing_identified", not eddies)
    report.see("nothing_discarded", not rows)
    report.evaluate(("level", len(eddies), len(rows), round(level, 6), len(left)) if eddies or rows else None)
    if report.case["k"] < 2:
        report.sample = {"figure": where, "reasons": sorted(colour)}


def several(report, rng, T, levels, plt):
    table = te.snapshot(T, levels)
    eddies = te.eddies(table)
    if len(eddies) > 12:
        # a figure of some of them: only those are drawn
        some = [k for k, _, _ in eddies][:: 2][:12]
        table = table.loc[some]
        eddies = te.eddies(table)
    before = table.copy()
    with te.quiet():
        T.plot_eddy_detection_multilevel(table)
    report.check(table.equals(before), "table-changed", "the figure of several levels changes its table")
    ax = plt.gcf().axes[0]
    where = "levels %s: %d eddies" % (levels, len(eddies))
    drawn = {}
    for pts, c in marks(ax):
        for p in pts:
            drawn.setdefault(key(p), set()).add(c)
    want = {key(p) for _, _, path in eddies for p in path}
    report.check(want <= set(drawn), "identified-not-drawn", "%s: %d of %d vertices are not drawn" % (
        where, len(want - set(drawn)), len(want)))
    report.check(set(drawn) <= want, "drawn-not-identified", "%s: %d points" % (
        where, len(set(drawn) - want)))
    # one colour for each level
    paths = {}
    for pts, c in marks(ax):
        if len(pts) > 2:
            paths.setdefault(frozenset(key(p) for p in pts), set()).add(c)
    colour = {}
    for _, row, path in eddies:
        c = paths.get(frozenset(key(p) for p in path))
        if c:
            colour.setdefault(row["level"], set()).update(c)
    for level, c in colour.items():
        report.check(len(c) == 1, "colours", "%s: level %r in %d colours" % (where, level, len(c)))
    flat = [c for s in colour.values() for c in s]
    report.check(len(flat) == len(set(flat)), "colours", "%s: two levels in the same colour" % where)
    legend = {}
    for line in ax.lines:
        try:
            legend[float(line.get_label())] = to_rgba(line.get_color())[:3]
        except ValueError:
            continue
    for level, c in legend.items():
        known = [s for l, s in colour.items() if np.isclose(l, level, rtol=1e-4)]
        report.see("legends")
        report.check(known and c in known[0], "legend", "%s: the legend of %r has the colour of another" % (
            where, level))
    report.see("multilevel_figures")
    report.see("eddies", len(eddies))
    report.see("several_levels", len(colour) > 1)
    report.see("empty_tables", not eddies)
    report.evaluate(("several", len(eddies), len(colour), len(want)) if eddies else None)
