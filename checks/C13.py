"""C13: tracks do not depend on later snapshots."""
import numpy as np

import flows
import te

RULE = ("Each evaluation compares one prefix of a run (identifiers, times, every value and vertex) "
        "with the tracking of only those snapshots, by the same end time or by a dataset cut there. "
        "Distinct non-trivial = prefixes with eddies.")
ASSUMPTIONS = []
REQUIRED = {"prefixes": 700, "with_eddies": 500, "by_tf": 200, "by_cut": 200, "altered_future": 150}
WATCHDOG = 240


def cases(tier, seed):
    for k in range(260 if tier == "quick" else 3500):
        yield {"seed": seed, "k": k}


def table_of(table, upto):
    out = sorted((int(key[0]), int(key[1]), te.content(row, path), tuple(row["_index"]))
                 for key, row, path in te.eddies(table) if key[1] < upto)
    return out


def run(case, report):
    rng = te.rng_of(case["seed"], 13, case["k"])
    data, lon, lat, levels, kind = flows.movie(rng, nt=int(rng.integers(4, 8)))
    ntimes = int(rng.integers(0, 6))

    def track(d, **kw):
        return te.track(flows.relax(te.make(d, lon, lat, skip=True)), levels, ntimes=ntimes, **kw)

    full = track(data)
    for m in rng.choice(np.arange(1, len(data)), 3, replace=False):
        m = int(m)
        how = str(rng.choice(["tf", "cut", "altered"]))
        if how == "tf":
            part = track(data, tf=m)
            report.see("by_tf")
        elif how == "cut":
            part = track(data[:m])
            report.see("by_cut")
        else:
            # another future
            other = data.copy()
            other[m:] = rng.permutation(data[:len(data) - m]) * rng.uniform(0.5, 1) if (
                len(data) - m <= m) else -data[m:]
            part = track(other)
            report.see("altered_future")
        a, b = table_of(full, m), table_of(part, m)
        report.see("prefixes")
        report.see("with_eddies", bool(a))
        if how == "tf":
            late = [k for k, _, _ in te.eddies(part) if k[1] >= m]
            report.check(not late, "beyond-tf", "%s: eddies at %s with tf=%d" % (kind, late[:3], m))
        if a != b:
            bad = [x[:2] for x in a if x not in b][:4], [x[:2] for x in b if x not in a][:4]
            ids = sorted((x[1], x[2]) for x in a) == sorted((x[1], x[2]) for x in b)
            report.violate("identifiers" if ids else "eddies",
                           "%s movie, first %d of %d snapshots (%s): (identifier, time) only with the "
                           "whole %s, only without %s" % (kind, m, len(data), how, *bad))
        report.evaluate((case["k"], m, how) if a else None)
    if case["k"] < 4:
        report.sample = {"kind": kind, "levels": levels, "ntimes": ntimes, "shape": data.shape}
