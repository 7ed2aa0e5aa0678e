"""C11: the table of tracks holds every detected eddy exactly once."""
import collections

import numpy as np

import flows
import te

RULE = ("Each evaluation compares one time of the table of tracks with that snapshot analysed alone "
        "by a new tracker (multisets of contents: every value and vertex), and the keys of its rows. "
        "Distinct non-trivial = times with eddies, by their contents.")
ASSUMPTIONS = []
REQUIRED = {"times": 900, "eddies": 1500, "tracks": 500, "empty_snapshots": 60, "fitted": 10, "crowds": 3}
WATCHDOG = 240


def cases(tier, seed):
    for k in range(300 if tier == "quick" else 4000):
        yield {"seed": seed, "k": k}


def run(case, report):
    rng = te.rng_of(case["seed"], 11, case["k"])
    data, lon, lat, levels, kind = flows.movie(rng)
    fit = case["k"] % 25 == 0
    if case["k"] % 75 == 13:
        data, lon, lat = flows.crowd(rng, nt=3)
        levels, kind = [[0.4], [0.3, 0.5, -0.4]][rng.integers(2)], "crowd"
        report.see("crowds")
    if fit:
        data = data[:3]
    filt = "space" if rng.random() < 0.15 else None

    def tracker():
        T = te.make(data, lon, lat, skip=not fit, filter=filt)
        T.S_filter_setup = {"filter_type": "convolution", "mode": "uniform", "kernel": 15}
        return flows.relax(T)

    ntimes = int(rng.integers(0, 6))
    table = te.track(tracker(), levels, ntimes=ntimes)
    where = "%s movie of %d snapshots" % (kind, len(data))
    tracked = flows.contents(table)
    alone = tracker()
    fresh = rng.random() < 0.3
    for t in range(len(data)):
        if fresh:
            alone = tracker()
        found = te.eddies(te.snapshot(alone, levels, t))
        want = collections.Counter(te.content(r, p) for _, r, p in found)
        have = collections.Counter(c for _, c in tracked.get(t, []))
        report.see("times")
        report.see("eddies", len(found))
        report.see("empty_snapshots", not found)
        report.see("fitted", fit and bool(found))
        lost, extra = want - have, have - want
        report.check(not lost, "lost", "%s time %d: %d of %d eddies detected are not in the table" % (
            where, t, sum(lost.values()), len(found)))
        report.check(not extra, "extra", "%s time %d: %d eddies of the table are not detected, or altered"
                     % (where, t, sum(extra.values())))
        report.evaluate((t, repr(sorted(map(hash, want)))) if found else None)
    if not te.is_empty(table):
        report.check(list(table.index.names) == ["identifier", "time", "index"], "index-names",
                     "%s: %s" % (where, table.index.names))
        report.check(not table.index.duplicated().any(), "duplicated-rows",
                     "%s: two eddies share an identifier and a time" % where)
        for key, row, path in te.eddies(table):
            report.check(row["_constant"] and list(row["_index"]) == list(range(len(path))),
                         "row-numbers", "%s eddy %s: rows numbered %s..." % (
                             where, key, list(row["_index"])[:6]))
        ids = sorted(set(map(int, table.index.get_level_values("identifier"))))
        report.check(ids == list(range(len(ids))), "identifiers", "%s: %s" % (where, ids[:30]))
        report.see("tracks", len(ids))
        times = set(map(int, table.index.get_level_values("time")))
        report.check(times <= set(range(len(data))), "times", "%s: %s" % (where, times))
    if case["k"] < 4:
        report.sample = {"kind": kind, "levels": levels, "ntimes": ntimes, "shape": data.shape,
                         "eddies_per_time": [len(tracked.get(t, [])) for t in range(len(data))]}
