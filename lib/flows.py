"""Workloads in time, and the specification of the tracks."""
import numpy as np

import oracles
import te


def movie(rng, kind=None, nt=None, blanks=True):
    """(data, lon, lat, levels, description) of a sequence of snapshots."""
    from scipy import ndimage

    nt = nt or int(rng.integers(3, 8))
    kind = kind or str(rng.choice(["smooth", "halo", "movers", "movers", "crossing", "flicker",
                                   "chaos", "split", "split"]))
    nx, ny = int(rng.integers(22, 40)), int(rng.integers(22, 40))
    lat0 = float(rng.choice([-35, -12, -3, 0, 8, 25]))
    lon0 = float(rng.choice([0, -4, 100, 177, 357, -181]))
    step = float(rng.uniform(0.08, 0.3)) * (0.4 if abs(lat0) > 20 else 1)
    lon = lon0 + step * np.arange(nx)
    lat = lat0 + step * np.arange(ny)
    X, Y = np.meshgrid(lon, lat)
    w, h = np.ptp(lon), np.ptp(lat)
    data = np.zeros((nt, ny, nx))
    if kind == "smooth":
        data = ndimage.gaussian_filter(rng.normal(size=data.shape),
                                       (rng.uniform(0.3, 1.5), *[rng.uniform(1.5, 3)] * 2))
        data /= np.abs(data).max(axis=(1, 2), keepdims=True)
    elif kind == "chaos":
        for t in range(nt):
            data[t] = te.field(rng, lon, lat, "smooth")
    elif kind == "split":
        # an eddy becomes two elongated ones, both within their radius of it, and back
        c, d = np.array([lon.mean(), lat.mean()]), rng.uniform(0, np.pi)
        across, b = np.array([-np.sin(d), np.cos(d)]), 0.1 * min(w, h)
        two = rng.random(nt) < 0.5
        two[0] = False
        three = rng.random() < 0.3
        for t in range(nt):
            c = c + rng.normal(size=2) * 0.2 * b
            sides = [(-1, 0.9), (1, 1.0)] if two[t] else [(0, 1.0)]
            if two[t] and three:
                sides.append((rng.choice([-2.9, 2.9]), 0.8))
            shift = rng.uniform(-0.25, 0.25) * b
            for q, amp in sides:
                p = c + across * (q * b * rng.uniform(1.2, 1.32) + shift)
                a = b * (rng.uniform(2.3, 2.9) if two[t] else 1.1)
                g = te.gauss(X, Y, *p, a, b, d, 1.0)
                # flat with steep sides: the eddies nearly touch
                rho = -2 * np.log(np.maximum(g, 1e-300))
                data[t] += amp * rng.uniform(0.85, 1) * (0.7 * np.exp(-(rho**3)) + 0.3 * g * (rho < 2))
        data *= rng.choice([-1, 1])
        data += 1e-3 * rng.normal(size=data.shape)
    else:
        n = int(rng.integers(1, 7))
        for _ in range(n):
            x, y = rng.uniform(lon[2], lon[-3]), rng.uniform(lat[2], lat[-3])
            s = rng.uniform(0.05, 0.13) * min(w, h)
            speed = rng.uniform(0, 2.2) * s
            d = rng.uniform(0, 2 * np.pi)
            amp = rng.choice([-1, 1], p=[0.3, 0.7]) * rng.uniform(0.7, 1)
            if kind == "crossing":
                d = np.arctan2(lat.mean() - y, lon.mean() - x)
                speed = rng.uniform(0.3, 1.2) * s
            on = np.ones(nt, bool)
            if kind == "flicker":
                on = rng.random(nt) < 0.6
            for t in range(nt):
                if on[t]:
                    data[t] += te.gauss(X, Y, x, y, s, s * rng.uniform(0.85, 1), d, amp)
                    if kind == "halo":
                        # a companion within reach of the same track
                        q = rng.uniform(0, 6.3)
                        data[t] += te.gauss(X, Y, x + 2.4 * s * np.cos(q), y + 2.4 * s * np.sin(q),
                                            s * 0.7, s * 0.7, 0, amp * rng.uniform(0.5, 1))
                x += speed * np.cos(d) + 0.1 * s * rng.normal()
                y += speed * np.sin(d) + 0.1 * s * rng.normal()
        data += 1e-3 * rng.normal(size=data.shape)
    if blanks:
        for t in range(nt):
            if rng.random() < 0.12:
                data[t] = 0.0
    levels = [[0.3], [0.2, 0.4], [0.3, -0.3], [0.5, 0.25, -0.25]][rng.integers(4)]
    if kind == "split":
        levels = [0.45, -0.45] if rng.random() < 0.6 else [0.6, 0.3, -0.6, -0.3]
    return data, lon, lat, [float(l) for l in levels], kind


def crowd(rng, nt=1, many=None):
    """Many small eddies on a lattice, each of which moves, waits or goes by itself."""
    n = int(many or rng.choice([12, 17]))
    step = 0.1
    lon0, lat0 = float(rng.choice([-4, 20, 172])), float(rng.choice([-5, 3, 12]))
    lon = lon0 + step * np.arange(6 * n + 4)
    lat = lat0 + step * np.arange(6 * n + 4)
    data = np.zeros((nt, len(lat), len(lon)))
    places = [(i, j) for i in range(n) for j in range(n)]
    at = {p: rng.uniform(-0.4, 0.4, 2) for p in places}
    sign = {p: rng.choice([-1, 1], p=[0.2, 0.8]) for p in places}
    for t in range(nt):
        on = rng.random(len(places)) < (1 if t == 0 else 0.85)
        for p, shown in zip(places, on):
            at[p] = np.clip(at[p] + rng.normal(size=2) * 0.4, -0.9, 0.9)
            if not shown:
                continue
            r, c = 6 * p[0] + 4 + at[p][0], 6 * p[1] + 4 + at[p][1]
            i, j = int(r) - 4, int(c) - 4
            i, j = max(i, 0), max(j, 0)
            X, Y = np.meshgrid(lon[j:j + 10], lat[i:i + 10])
            data[t, i:i + 10, j:j + 10] += te.gauss(
                X, Y, lon0 + c * step, lat0 + r * step, 1.3 * step, 1.2 * step, 0,
                sign[p] * rng.uniform(0.85, 1.0))
    return data, lon, lat


def relax(T, rng=None):
    T.identification_criteria.update(max_area=1e3, eccentricity=0.95, ellipse_fit=0.6)
    return T


def contents(table, times=None):
    """time -> sorted list of (identifier, content)"""
    out = {}
    for key, row, path in te.eddies(table):
        ident, t = key
        out.setdefault(int(t), []).append((int(ident), te.content(row, path)))
    return out


def check_links(report, table, ntimes, where, watch=None):
    """Replay the decisions recorded in a table of tracks (C12, C14)."""
    rows = {}
    for key, row, path in te.eddies(table):
        rows.setdefault(int(key[1]), []).append((int(key[0]), row))
    last = {}
    known = set()
    for t in sorted(rows):
        current = rows[t]
        linkable = {i: r for i, (when, r) in last.items() if t - 1 - when <= ntimes}
        ids = sorted(linkable)
        unsure_tracks, unsure_eddies = set(), set()
        wants = {}
        for n, (ident, e) in enumerate(current):
            if not ids:
                continue
            d = np.array([oracles.haversine(e["maxima_y"], e["maxima_x"], linkable[i]["maxima_y"],
                                            linkable[i]["maxima_x"]) for i in ids])
            k = int(np.argmin(d))
            r = e["radius_eddy"]
            tol = 1e-6 * r + 1e-6
            near = np.flatnonzero(d <= d[k] + tol)
            if abs(d[k] - r) < tol or (len(near) > 1 and d[k] < r + tol):
                unsure_eddies.add(n)
                unsure_tracks.update(ids[q] for q in near)
            elif d[k] < r:
                wants.setdefault(ids[k], []).append((d[k], n))
        for i, group in list(wants.items()):
            group.sort()
            if len(group) > 1 and group[1][0] - group[0][0] < 1e-6 + 1e-9 * group[0][0]:
                unsure_tracks.add(i)
        winners = {}
        for i, group in wants.items():
            if i in unsure_tracks:
                unsure_eddies.update(n for _, n in group)
            else:
                winners[group[0][1]] = i
                report.see("disputed", len(group) > 1)
        taken = [ident for ident, _ in current]
        report.check(len(taken) == len(set(taken)), "two-eddies-one-track",
                     "%s time %d: identifiers %s" % (where, t, sorted(taken)))
        for n, (ident, e) in enumerate(current):
            at = "%s time %d: eddy at (%.4f, %.4f) radius %.1f km has identifier %d" % (
                where, t, e["maxima_x"], e["maxima_y"], e["radius_eddy"], ident)
            if n in unsure_eddies:
                report.see("unsure_links")
                continue
            if n in winners:
                gap = t - 1 - last[winners[n]][0]
                report.see("links")
                report.see("links_after_gap", gap > 0)
                report.see("links_after_longest_gap", gap > 0 and gap == ntimes)
                report.check(ident == winners[n], "not-linked" if gap == 0 else "gap-not-linked",
                             "%s, it continues track %d seen %d snapshots before" % (
                                 at, winners[n], gap + 1))
            else:
                report.see("births")
                fresh = ident not in known
                expired = ident in known and ident not in linkable
                report.see("births_next_to_expired", any(
                    t - 1 - when > ntimes and oracles.haversine(
                        e["maxima_y"], e["maxima_x"], r["maxima_y"], r["maxima_x"])
                    < e["radius_eddy"] for when, r in last.values()))
                report.check(fresh, "expired-linked" if expired else "wrongly-linked",
                             "%s, which was already used, though it should start a track" % at)
            report.evaluate((where, t, n))
        for ident, e in current:
            known.add(ident)
            last[ident] = (t, e)
