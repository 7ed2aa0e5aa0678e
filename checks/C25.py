"""C25: generated fields are the sum of their eddies."""
import random

import numpy as np

import te

RULE = ("Each evaluation compares one generated field (or helper Gaussian) with the sum of the Gaussians "
        "the generator lists, on its own axes. Distinct non-trivial = (shape, mode, eddies, seed).")
ASSUMPTIONS = ["positions drawn for each call in the 'interaction' mode are not listed: there, fields of "
               "a single eddy are compared with the Gaussian centred on their extremum",
               "ending is counted in random draws: more than 25000 draws per eddy and time is endless"]
REQUIRED = {"fields": 250, "times": 400, "not_square": 120, "no_margin": 40, "crowded": 6,
            "no_interaction": 80, "interaction": 30, "helpers": 60, "reconstructed": 200,
            "negative_axes": 40, "seeded": 60, "eddies": 600, "moving": 40}
WATCHDOG = 300
TERMINATES = True


class Endless(Exception):
    pass


def cases(tier, seed):
    for k in range(1000 if tier == "quick" else 5000):
        yield {"seed": seed, "k": k, "kind": "crowded" if k % 80 == 0 else
               "helper" if k % 4 == 1 else "field"}


class counting:
    """Count the random draws and stop an endless generation."""

    def __init__(self, limit):
        self.limit, self.n = limit, 0

    def __enter__(self):
        self.old = random.randint

        def randint(a, b):
            self.n += 1
            if self.n > self.limit:
                raise Endless()
            return self.old(a, b)

        random.randint = randint
        return self

    def __exit__(self, *_):
        random.randint = self.old


def listed(g, margin):
    X, Y = np.meshgrid(g.x, g.y)
    out = np.zeros(X.shape)
    for e in g.eddies.values():
        ix, iy = e["loc"][0]
        # its angles turn clockwise
        out += te.gauss(X, Y, g.x[ix + margin], g.y[iy + margin], *e["radius"], -e["angle"],
                        e["amp"])
    return out


def run(case, report):
    from trackeddy.generator.field_generator import Generate_field

    rng = te.rng_of(case["seed"], 25, case["k"])
    if case["kind"] == "helper":
        return helper(report, rng)
    nx, ny = (int(v) for v in rng.integers(3, 60, 2))
    if rng.random() < 0.2:
        ny = nx
    lo = float(rng.choice([0, -10, -180, 5]))
    w, h = rng.uniform(2, 40, 2)
    x, y = lo + np.linspace(0, w, nx), rng.uniform(-40, 20) + np.linspace(0, h, ny)
    if rng.random() < 0.3:
        x, y = x.tolist(), y.tolist()
    n = int(rng.choice([0, 1, 2, 3, 6]))
    a, b = rng.uniform(0.03, 0.1, 2) * w
    margin = int(rng.choice([0, 1, 7, 50]))
    opt = str(rng.choice(["", "no_interaction", "Nint", "interaction", "int"]))
    times = int(rng.choice([1, 1, 2, 4]))
    if case["kind"] == "crowded":
        n, opt, times = int(rng.integers(3, 6)), str(rng.choice(["no_interaction", "Nint"])), 1
        a = b = w
    limit = 25000 * max(n, 1) * (times + 2)
    where = "%d eddies of %.3g x %.3g on %d x %d, margin %d, mode %r, %d times" % (
        n, a, b, nx, ny, margin, opt, times)
    ok = report.check
    s = int(rng.integers(1 << 30))
    random.seed(s)
    try:
        with counting(limit) as c:
            g = Generate_field(a, b, n, x, y, opt)
            ok(len(g.eddies) == n, "number", "%s: lists %d" % (where, len(g.eddies)))
            data = g.assemble_field(times, margin=margin)
    except Endless:
        report.violate("endless", "%s: still drawing positions after %d draws" % (where, limit))
        return
    report.see("fields")
    report.see("crowded", case["kind"] == "crowded")
    report.see("draws", c.n)
    report.see("not_square", nx != ny)
    report.see("no_margin", margin == 0)
    report.see("no_interaction", opt in ("no_interaction", "Nint"))
    report.evaluate((nx, ny, margin, opt, n, s))
    if not ok(np.shape(data) == (times, ny + 2 * margin, nx + 2 * margin), "shape",
              "%s: shape %s" % (where, np.shape(data))):
        return
    ok(np.isfinite(data).all(), "not-finite", where)
    if n:
        if not ok(len(g.x) == nx + 2 * margin and len(g.y) == ny + 2 * margin, "axes",
                  "%s: axes of %d and %d" % (where, len(g.x), len(g.y))):
            return
        ok(np.allclose([g.x[0], g.x[-1], g.y[0], g.y[-1]], [x[0], x[-1], y[0], y[-1]]), "extent",
           "%s: from %s to %s" % (where, (g.x[0], g.y[0]), (g.x[-1], g.y[-1])))
        ok(np.ptp(np.diff(g.x)) < 1e-9 * w and np.ptp(np.diff(g.y)) < 1e-9 * h, "spacing", where)
    for e in g.eddies.values():
        report.see("eddies")
        ok(0.9 * a <= e["radius"][0] <= 1.1 * a and 0.9 * b <= e["radius"][1] <= 1.1 * b, "radius",
           "%s: radii %s" % (where, e["radius"]))
        ok(0.7 <= abs(e["amp"]) <= 1.3, "amplitude", "%s: amplitude %s" % (where, e["amp"]))
        ok(0 <= e["loc"][0][0] < nx and 0 <= e["loc"][0][1] < ny, "position",
           "%s: at %s" % (where, e["loc"]))
    if opt in ("interaction", "int"):
        report.see("interaction")
        if n == 1:
            (e,) = g.eddies.values()
            X, Y = np.meshgrid(g.x, g.y)
            for t in range(times):
                report.see("times")
                j, i = np.unravel_index(np.argmax(np.abs(data[t])), data[t].shape)
                ref = te.gauss(X, Y, X[j, i], Y[j, i], *e["radius"], -e["angle"], e["amp"])
                ok(np.allclose(data[t], ref, atol=1e-9), "sum", "%s, time %d" % (where, t))
                ok(margin <= i < nx + margin and margin <= j < ny + margin, "in-the-margin",
                   "%s: centred at %s" % (where, (i, j)))
        return
    if n == 0:
        ok(not data.any(), "sum", where)
        return
    ref = listed(g, margin)
    for t in ([times - 1] if opt else range(times)):
        report.see("times")
        off = np.abs(data[t] - ref).max()
        ok(off < 1e-9, "sum", "%s, time %d: up to %.3g from the sum of the listed eddies" % (
            where, t, off))
    report.see("negative_axes", any(e["amp"] < 0 for e in g.eddies.values()))
    again = g.reconstruct_field(margin=margin)
    report.see("reconstructed")
    ok(np.shape(again) == data[-1].shape and np.allclose(again, data[-1], atol=1e-12),
       "reconstruction", where)
    if opt and times == 1 and case["kind"] == "field":
        # every time of its own
        for _ in range(2):
            try:
                with counting(limit):
                    one = g.assemble_field(1, margin=margin)
            except Endless:
                report.violate("endless", where)
                return
            report.see("times")
            ok(one.shape == data.shape, "shape-again", "%s: %s" % (where, one.shape))
            ok(np.allclose(one[0], listed(g, margin), atol=1e-9), "sum-again", where)
    if case["kind"] == "field":
        random.seed(s)
        with counting(limit):
            g2 = Generate_field(a, b, n, x, y, opt)
            ok(np.array_equal(g2.assemble_field(times, margin=margin), data), "seed", where)
        report.see("seeded")
    if case["k"] < 6:
        report.sample = {"field": where, "eddies": list(g.eddies.values())[:2], "draws": c.n}


def helper(report, rng):
    from trackeddy.generator.gaussian_field_functions import makeGaussian, moveGaussian

    size = int(rng.integers(3, 80))
    fwhm = float(rng.choice([1, 3, 10.5, rng.uniform(0.5, 30)]))
    centre = None if rng.random() < 0.3 else rng.uniform(-5, size + 5, 2)
    g = makeGaussian(size, fwhm, centre) if centre is not None else makeGaussian(size, fwhm)
    c = (size // 2, size // 2) if centre is None else centre
    X, Y = np.meshgrid(np.arange(size), np.arange(size))
    ref = 0.5 ** (((X - c[0]) ** 2 + (Y - c[1]) ** 2) / (fwhm / 2) ** 2)
    where = "size %d, width %g, centre %s" % (size, fwhm, centre)
    report.see("helpers")
    report.evaluate((size, fwhm, tuple(c)))
    report.check(np.shape(g) == (size, size) and np.allclose(g, ref, atol=1e-12, rtol=1e-9),
                 "helper", where)
    nt = int(rng.integers(1, 5))
    path = rng.uniform(0, size, (nt, 2))
    m = moveGaussian(size, fwhm, path, nt)
    report.see("moving")
    good = np.shape(m) == (nt, size, size) and all(
        np.allclose(m[t], 0.5 ** (((X - path[t, 0]) ** 2 + (Y - path[t, 1]) ** 2) / (fwhm / 2) ** 2),
                    atol=1e-12) for t in range(nt))
    report.check(good, "moving-helper", where)
