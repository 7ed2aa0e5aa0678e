"""C03: no accumulation of memory, decided on traced allocations."""
import gc
import os
import sys
import tracemalloc

import numpy as np

import build
import te

RULE = ("One evaluation is one repetition of an operation whose traced memory is compared, after "
        "a garbage collection, with that of the repetitions before it (the engine is compiled so "
        "that all its allocations are traced). Distinct non-trivial = (operation, outcome sizes).")
ASSUMPTIONS = ["allocations of numpy, pandas and Python are those tracemalloc sees",
               "growth below 48 bytes per contouring and 800 to 3000 bytes per detection is not a leak "
               "(interned numbers, caches)"]
REQUIRED = {"repetitions": 3000, "blocks": 25}
WATCHDOG = 240


def prepare(tier, seed):
    # replace the engine by one whose allocations are traced
    here = os.path.dirname(build.__file__)
    path = build.build_engine(build.PLAIN + ["-include", os.path.join(here, "rawmalloc.h")])
    module = build.load_engine(path)
    import trackeddy

    sys.modules["trackeddy._cntr"] = module
    trackeddy._cntr = module
    import trackeddy.geometry as g

    for name, value in list(vars(g).items()):
        if getattr(value, "__name__", "") == "trackeddy._cntr":
            setattr(g, name, module)


OPS = ["contours_many", "contours_none", "contours_nan", "contours_two", "contours_mask",
       "contours_fail", "engine_init", "engine_kept", "contours_big", "snapshot", "snapshot_gauss",
       "snapshot_empty", "snapshot_fail", "filters", "tracking", "eddy"]


def cases(tier, seed):
    for r in range(2 if tier == "quick" else 12):
        for op in OPS:
            yield {"op": op, "seed": seed, "k": r, "scale": 1 if tier == "quick" else 4}


def operation(op, rng):
    """(function to repeat, number of repetitions, bytes allowed per repetition)"""
    import trackeddy.geometry as g
    import trackeddy._cntr as cntr

    ny, nx = rng.integers(10, 30, 2)
    X, Y = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
    Z = rng.normal(size=(ny, nx))
    if op == "contours_many":
        return (lambda: len(g.extract_contours(X, Y, Z, 0.1)[0])), 150, 48
    if op == "contours_none":
        return (lambda: len(g.extract_contours(X, Y, Z, 1e9)[0])), 150, 48
    if op == "contours_nan":
        Z[rng.random(Z.shape) < 0.2] = np.nan
        return (lambda: len(g.extract_contours(X, Y, Z, 0.1)[0])), 150, 48
    if op == "contours_big":
        X, Y = np.meshgrid(np.arange(150.0), np.arange(120.0))
        Z = rng.normal(size=X.shape)
        return (lambda: len(g.extract_contours(X, Y, Z, 0.1)[0])), 10, 2000
    if op == "contours_two":
        return (lambda: len(cntr.Cntr(X, Y, Z).trace(-0.2, 0.4, 3))), 150, 48
    if op == "contours_mask":
        mask = (rng.random(Z.shape) < 0.2).astype(np.int8)
        return (lambda: len(cntr.Cntr(X, Y, Z, mask).trace(0.1))), 150, 48
    if op == "contours_fail":
        def fail():
            n = 0
            for bad in ((X, Y, Z[:, 1:]), (X, Y, [1.0]), (X, Y, Z[None]), (X, Y, Z, Z[1:]),
                        (X[1:], Y, Z)):
                try:
                    cntr.Cntr(*bad)
                except (ValueError, TypeError):
                    n += 1
            try:
                cntr.Cntr(X, Y, Z).trace("level")
            except TypeError:
                n += 1
            return n
        return fail, 100, 48
    if op == "engine_init":
        def init():
            c = cntr.Cntr(X, Y, Z)
            for _ in range(3):
                c.__init__(X, Y, Z)
            return len(c.trace(0.1))
        return init, 100, 48
    if op == "engine_kept":
        c = cntr.Cntr(X, Y, Z)
        return (lambda: len(c.trace(float(rng.normal())))), 200, 48
    lon, lat = np.linspace(30, 36, 30), np.linspace(10, 16, 30)
    f = te.field(rng, lon, lat, "gaussians" if "gauss" in op else "smooth")
    if op == "snapshot":
        T = te.make(f, lon, lat, skip=True)
        return (lambda: len(te.snapshot(T, [0.2, -0.2, 0.4]))), 8, 1500
    if op == "snapshot_gauss":
        T = te.make(f, lon, lat)
        return (lambda: len(te.snapshot(T, [0.2, -0.2]))), 4, 2500
    if op == "snapshot_empty":
        T = te.make(f, lon, lat, skip=True)
        return (lambda: len(te.snapshot(T, [5.0, -5.0]))), 30, 800
    if op == "snapshot_fail":
        T = te.make(f, lon, lat, skip=True)
        good = dict(T.identification_criteria)

        def fail():
            # a failure in the middle of a level, after eddies were identified
            T.identification_criteria = {k: v for k, v in good.items() if k != "eccentricity"}
            try:
                te.snapshot(T, [0.2, -0.2])
            except KeyError:
                pass
            return 1
        return fail, 15, 1500
    if op == "filters":
        T = te.make(f, lon, lat, filter="space", nan_treatment=True)

        def filters():
            for setup in ({"filter_type": "zonal"}, {"filter_type": "meridional"},
                          {"filter_type": "convolution", "mode": "uniform", "kernel": 4}):
                T.S_filter_setup = setup
                T._filter_data_(T.rawdata.isel(time=0), filter="space")
            return T.data2track.size
        return filters, 25, 800
    if op == "tracking":
        T = te.make(np.stack([f, f, f]), lon, lat, skip=True)
        return (lambda: len(te.track(T, [0.3, -0.3]))), 5, 3000
    from trackeddy.eddy import Eddy

    path = rng.normal(size=(20, 2))

    def eddy():
        e = Eddy(path, 0.1)
        e.identifier = 0
        e.ellipse_params = np.array([2.0, 1.0, 0.1])
        e.contour_center = np.array([1.0, 2.0])
        e.eddy_maxima = np.array([[1.0], [2.0], [3.0]])
        return len(e.to_table(["identifier", "contour", "level", "contour_center"]))
    return eddy, 60, 400


def run(case, report):
    if not tracemalloc.is_tracing():
        tracemalloc.start(1)
    rng = te.rng_of(case["seed"], 3, case["k"], OPS.index(case["op"]))
    f, n, allowed = operation(case["op"], rng)
    n *= case["scale"]
    out = None
    for _ in range(max(3, n // 5)):
        out = f()
    used = []
    blocks = 5
    while True:
        while len(used) < blocks:
            gc.collect()
            used.append(tracemalloc.get_traced_memory()[0])
            for _ in range(n):
                f()
            report.see("repetitions", n)
            report.see("blocks")
        gc.collect()
        growth = np.diff(used + [tracemalloc.get_traced_memory()[0]]) / n
        # a leak grows in every block; caches fill up, ever slower
        least = float(np.sort(growth[-4:])[0])
        if least <= allowed or blocks >= 25:
            break
        blocks += 10
        report.see("confirmations")
    report.evaluate((case["op"], out), blocks * n)
    report.check(least <= allowed, "growth:" + case["op"],
                 "%s retains %.0f bytes per repetition (blocks of %d: %s)" % (
                     case["op"], least, n, np.round(growth).tolist()))
    report.sample = {"op": case["op"], "bytes_per_repetition": np.round(growth, 1).tolist(),
                     "repetitions_per_block": n}
    tracemalloc.stop()
