"""C33: analyses which run at the same time do not mix."""
import sys
import threading
import time as clock
import types

import numpy as np

import build
import flows
import te

RULE = ("Each evaluation is one analysis (level, snapshot or tracking, with its own tracker and data) run while "
        "others run in other threads, compared bit by bit with itself run alone. Threads are made to change at "
        "random calls of the analysis. Distinct non-trivial = (interleaving of the group, analysis) with eddies.")
ASSUMPTIONS = ["each thread has its own tracker: sharing one is not promised to work"]
REQUIRED = {"analyses": 400, "with_eddies": 150, "discards": 1000, "switches": 20000, "together": 250,
            "interleavings": 40, "tracked": 80, "fitted": 40, "failing": 15}
WATCHDOG = 240
TOOL = 3


def codes():
    """The code of all functions of the package, wherever they are kept."""
    seen, todo = {}, []
    for name, module in list(sys.modules.items()):
        if name.split(".")[0] == "trackeddy" and module is not None:
            todo += list(vars(module).values())
    visited = set()
    while todo:
        f = todo.pop()
        if id(f) in visited:
            continue
        visited.add(id(f))
        if isinstance(f, type) and f.__module__.split(".")[0] == "trackeddy":
            todo += list(vars(f).values())
        elif isinstance(f, types.CodeType):
            if f.co_filename.startswith(build.REPO):
                seen[f] = None
            todo += list(f.co_consts)
        elif isinstance(f, (types.FunctionType, staticmethod, classmethod, types.MethodType)):
            f = getattr(f, "__func__", f)
            todo.append(f.__code__)
            todo += [c.cell_contents for c in f.__closure__ or () if c.cell_contents is not None]
    return list(seen)


def cases(tier, seed):
    for k in range(90 if tier == "quick" else 1200):
        yield {"seed": seed, "k": k}


def job(rng):
    """(function which analyses, description); each call makes its own tracker."""
    op = str(rng.choice(["level", "level", "snapshot", "track", "offline", "failing"],
                        p=[0.3, 0.2, 0.15, 0.2, 0.07, 0.08]))
    skip = bool(rng.random() < 0.8)
    if op in ("track", "offline"):
        data, lon, lat, levels, kind = flows.movie(rng, nt=int(rng.integers(2, 4)))
        skip = True
    else:
        lon, lat = te.grid(rng, small=True)
        kind = str(rng.choice(["gaussians", "smooth", "rough", "halo"]))
        data = te.field(rng, lon, lat, kind)
        levels = te.levels_of(rng)
    crit = te.random_criteria(rng) if rng.random() < 0.3 else {"max_area": 40.0, "ellipse_fit": 0.6}
    filt = "space" if rng.random() < 0.2 else None
    kernel = int(rng.choice([3, 5]))

    def analyse():
        T = te.make(data, lon, lat, skip=skip, criteria=crit, filter=filt)
        T.S_filter_setup = {"filter_type": "convolution", "mode": "uniform", "kernel": kernel}
        if op == "level":
            d = T.rawdata
            T._filter_data_(d.isel({T.coords["time"]: 0}).squeeze() if T.coords["time"] else d, filter=filt)
            found, lost = T._detect_one_level(levels[0])
            return text(found), text(lost)
        if op == "snapshot":
            return text(T._detect_snapshot(0, np.array(levels))), None
        if op == "failing":
            # half of the work, then an error
            T._detect_snapshot(0, np.array(levels))
            try:
                T._filter_data_(T.rawdata, filter="none")
            except ValueError as e:
                return str(e), None
            return "no error", None
        if op == "offline":
            import os

            T.out_path = build.scratch()
            last = T.time_tracking(lin_levels=np.array(levels), online_track=False)
            files = {}
            for n in sorted(os.listdir(T.out_path)):
                with open(os.path.join(T.out_path, n)) as f:
                    files[n] = f.read()
            return text(last), files
        return text(T.time_tracking(lin_levels=np.array(levels))), None

    return analyse, op, "%s of a %s field %s%s" % (op, kind, data.shape, "" if skip else ", fitted"), skip


def text(table):
    return table.to_csv(float_format="%.17g") if hasattr(table, "to_csv") else repr(table)


def run(case, report):
    rng = te.rng_of(case["seed"], 33, case["k"])
    n = int(rng.choice([2, 3, 4, 8]))
    jobs = [job(rng) for _ in range(n * 2)]
    events = []
    inside = [0]
    chance = np.random.default_rng(case["k"])
    draws = chance.random(20000)
    rate = float(rng.choice([0.05, 0.3, 0.8]))

    def called(code, offset):
        events.append(threading.get_ident())
        d = draws[len(events) % len(draws)]
        if d < rate:
            clock.sleep(0 if d < rate * 0.9 else 2e-4)

    with te.quiet():
        alone = [j[0]() for j in jobs]
        watch = sys.monitoring
        interval = sys.getswitchinterval()
        together = [None] * len(jobs)
        most = [0] * len(jobs)
        lock = threading.Lock()
        start = threading.Barrier(n)

        def work(i):
            start.wait()
            for q in (i, i + n):
                with lock:
                    inside[0] += 1
                try:
                    together[q] = jobs[q][0]()
                except BaseException as e:
                    together[q] = e
                most[q] = inside[0]
                with lock:
                    inside[0] -= 1

        try:
            watch.use_tool_id(TOOL, "switches")
            watch.register_callback(TOOL, watch.events.PY_START, called)
            for code in codes():
                watch.set_local_events(TOOL, code, watch.events.PY_START)
            sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4, 5e-3])))
            threads = [threading.Thread(target=work, args=(i,)) for i in range(n)]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            sys.setswitchinterval(interval)
            for code in codes():
                watch.set_local_events(TOOL, code, 0)
            watch.register_callback(TOOL, watch.events.PY_START, None)
            watch.free_tool_id(TOOL)
        # and nothing is left behind by them
        again = jobs[0][0]()
    ids = {}
    order = [ids.setdefault(e, len(ids)) for e in events]
    switches = int((np.diff(order) != 0).sum()) if order else 0
    report.see("switches", switches)
    report.see("interleavings", switches > 10)
    report.see("events", len(events))
    interleaving = hash(tuple(order))
    for q, (_, op, name, skip) in enumerate(jobs):
        where = "%s, %d threads, %d switches between them" % (name, n, switches)
        a, b = alone[q], together[q]
        report.see("analyses")
        report.see("together", most[q] > 1)
        report.see("with_eddies", a[0].count("\n") > 3)
        report.see("tracked", op in ("track", "offline"))
        report.see("fitted", not skip)
        report.see("failing", op == "failing")
        if a[1] and isinstance(a[1], str):
            report.see("discards", a[1].count("\n"))
        report.evaluate((interleaving, q))
        if isinstance(b, BaseException):
            report.violate("raises", "%s: %s: %s" % (where, type(b).__name__, str(b)[:150]))
        else:
            report.check(a == b, "mixed", lambda: "%s: %d and %d lines of eddies, %s discarded" % (
                where, a[0].count("\n"), b[0].count("\n"), "same" if a[1] == b[1] else "other"))
    report.check(again == alone[0], "left-behind", "%s, after the threads" % jobs[0][2])
    if case["k"] < 2:
        report.sample = {"threads": n, "analyses": [j[2] for j in jobs][:4], "events": len(events),
                         "switches": switches}
