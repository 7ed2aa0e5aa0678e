"""C14: tracks survive gaps of up to ntimes snapshots, and no longer ones."""
import numpy as np

import flows
import oracles
import te

RULE = ("Each evaluation is one reappearance (or absence) of a planted eddy with a known gap, with or "
        "without other eddies meanwhile, or one decision of a flickering movie replayed with the "
        "specification. Distinct non-trivial = (gap, ntimes, company, blanks) and decisions.")
ASSUMPTIONS = ["the planted eddy is far from the others, and reappears within half its radius"]
REQUIRED = {"bridged": 120, "broken": 120, "exactly_ntimes": 40, "just_longer": 40, "alone": 80,
            "company": 80, "leading_blanks": 30, "links_after_gap": 60, "all_blank": 3}
WATCHDOG = 240


def cases(tier, seed):
    for k in range(420 if tier == "quick" else 4000):
        yield {"seed": seed, "k": k, "mode": "gap"}
    for k in range(120 if tier == "quick" else 1500):
        yield {"seed": seed, "k": k, "mode": "movie"}


def run(case, report):
    rng = te.rng_of(case["seed"], 14, case["k"], len(case["mode"]))
    if case["mode"] == "movie":
        kind = str(rng.choice(["flicker", "flicker", "split", "movers"]))
        data, lon, lat, levels, kind = flows.movie(rng, kind=kind, nt=int(rng.integers(6, 11)))
        drop = rng.random(len(data)) < 0.35
        data[drop] = rng.choice([0.0, np.nan, 0.05])
        ntimes = int(rng.integers(0, 5))
        T = flows.relax(te.make(data, lon, lat, skip=True))
        flows.check_links(report, te.track(T, levels, ntimes=ntimes), ntimes,
                          "%s movie %d with %d blanks, ntimes %d" % (
                              kind, case["k"], drop.sum(), ntimes))
        return
    ntimes = int(rng.choice([0, 1, 2, 3, 5]))
    default = ntimes == 5 and rng.random() < 0.5
    lat0 = float(rng.choice([0, -20, 25]))
    s = 0.5 if abs(lat0) < 5 else 0.25
    dx = s / 4
    lon0 = float(rng.choice([-180, 0, 50, 179]))
    n = 40
    lon = lon0 + dx * np.arange(2 * n)
    lat = lat0 + dx * np.arange(n)
    X, Y = np.meshgrid(lon, lat)
    sign = rng.choice([-1, 1])
    # present, a gap, present, another gap, present
    lead = int(rng.choice([0, 0, 1, 2]))
    gaps = [int(g) for g in np.clip(ntimes + rng.choice([-1, 0, 0, 1, 1, 2, -9], 2), 0, None)]
    on = [False] * lead + [True] * int(rng.integers(1, 3)) + [False] * gaps[0] + [True] * int(
        rng.integers(1, 3)) + [False] * gaps[1] + [True] + [False] * int(rng.integers(0, 2))
    company = str(rng.choice(["none", "always", "in_gaps", "random"]))
    if rng.random() < 0.02:
        on, company = [False] * 3, "none"
    blank = rng.choice([0.0, 0.0, np.nan, 0.05 * sign])
    x, y = lon[n // 2], lat[n // 2]
    seen = []
    data = np.zeros((len(on), *X.shape))
    where = []
    for t, o in enumerate(on):
        other = company == "always" or company == "in_gaps" and not o or (
            company == "random" and rng.random() < 0.5)
        if o:
            x += rng.uniform(-0.3, 0.3) * s
            y += rng.uniform(-0.3, 0.3) * s
            data[t] += te.gauss(X, Y, x, y, s, 0.9 * s, 0.3, sign)
        where.append((x, y))
        if other:
            data[t] += te.gauss(X, Y, lon[2 * n - 12], lat[n // 2], s, 0.9 * s, 0, sign)
        seen.append(other)
        if not o and not other:
            data[t] = blank
    kw = {} if default else {"ntimes": ntimes}
    T = te.make(data, lon, lat, skip=True, nan_treatment=bool(rng.random() < 0.3))
    table = te.track(T, [0.2 * sign, 0.4 * sign] if rng.random() < 0.3 else [0.2 * sign], **kw)
    found = {}
    for key, row, path in te.eddies(table):
        found.setdefault(int(key[1]), []).append((int(key[0]), row))
    name = "present %s, company %s, ntimes %d" % ("".join("X" if o else "." for o in on), company, ntimes)
    if not any(on) and not any(seen):
        report.see("all_blank")
        report.check(te.is_empty(table), "not-empty", "%s: rows although every snapshot is blank" % name)
        report.evaluate(("blank", len(on)))
        return
    last, ident, ids = None, None, set()
    for t, o in enumerate(on):
        here = found.get(t, [])
        want = int(o) + int(seen[t])
        if not report.check(len(here) == want, "count", "%s: %d eddies at time %d, planted %d" % (
                name, len(here), t, want)):
            return
        if not o:
            continue
        px, py = where[t]
        mine = min(here, key=lambda e: np.hypot(e[1]["maxima_x"] - px, e[1]["maxima_y"] - py))[0]
        if last is not None:
            gap = t - last - 1
            key = (gap, ntimes, company, repr(blank))
            report.evaluate(key)
            report.see("company" if any(seen[last + 1:t]) else "alone", gap > 0)
            if gap <= ntimes:
                report.see("bridged", gap > 0)
                report.see("exactly_ntimes", gap == ntimes and gap > 0)
                report.check(mine == ident, "gap-not-linked" if gap else "not-linked",
                             "%s: the eddy back at time %d after %d missing has identifier %d, had %d" % (
                                 name, t, gap, mine, ident))
            else:
                report.see("broken")
                report.see("just_longer", gap == ntimes + 1)
                report.check(mine not in ids, "long-gap-linked",
                             "%s: the eddy back at time %d after %d missing has the used identifier %d"
                             % (name, t, gap, mine))
        report.see("leading_blanks", last is None and lead > 0)
        ids |= {i for i, _ in here}
        last, ident = t, mine
        ids.add(mine)
    flows.check_links(report, table, ntimes, name)
    if case["k"] < 4:
        report.sample = {"planted": name, "blank": repr(blank)}
