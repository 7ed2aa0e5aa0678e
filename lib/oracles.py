"""Independent reference computations. None of them uses code of trackeddy."""
import numpy as np

R_AREA = 6378.137
R_DIST = 6371.0


def rossby(lat):
    c = 0.15
    return 200 * np.exp(-(lat**2) / 2 * c**2) + 60 * np.exp(-(lat**2) / 40 * c**2)


def densify(p, n):
    t = np.arange(n) / n
    a, b = p[:-1], p[1:]
    q = (a[:, None] + (b - a)[:, None] * t[None, :, None]).reshape(-1, 2)
    return np.vstack((q, p[-1:]))


def polygon_area(path, n=1):
    """Area (km^2) of a closed lon/lat polygon which does not hold a pole: Green's
    theorem, the integral of sin(lat) d(lon), edges straight in lon/lat."""
    lon, lat = np.deg2rad(np.asarray(path, float)).T
    dlon, dlat = np.diff(lon), np.diff(lat)
    s0, s1 = np.sin(lat[:-1]), np.sin(lat[1:])
    # exact integral of sin along an edge linear in lon/lat
    with np.errstate(all="ignore"):
        exact = (np.cos(lat[:-1]) - np.cos(lat[1:])) / dlat
    small = np.abs(dlat) < 1e-6
    mean = np.where(small, (s0 + s1) / 2, exact)
    return abs(np.sum(mean * dlon)) * R_AREA**2


def haversine(lat1, lon1, lat2, lon2):
    a1, o1, a2, o2 = map(np.deg2rad, (lat1, lon1, lat2, lon2))
    a = np.sin((a1 - a2) / 2) ** 2 + np.cos(a1) * np.cos(a2) * np.sin((o1 - o2) / 2) ** 2
    return 2 * R_DIST * np.arcsin(np.sqrt(np.clip(a, 0, 1)))


def frechet(P, Q):
    """Discrete Frechet distance: plain dynamic program, row by row."""
    P, Q = np.asarray(P, float), np.asarray(Q, float)
    d = np.sqrt(((P[:, None] - Q[None]) ** 2).sum(-1))
    prev = np.maximum.accumulate(d[0])
    for i in range(1, len(P)):
        cur = np.empty_like(prev)
        cur[0] = max(prev[0], d[i, 0])
        best = np.minimum(prev[1:], prev[:-1])
        for j in range(1, len(Q)):
            cur[j] = max(min(best[j - 1], cur[j - 1]), d[i, j])
        prev = cur
    return float(prev[-1])


def length(P):
    P = np.asarray(P, float)
    return float(np.sqrt((np.diff(P, axis=0) ** 2).sum(1)).sum())


def similarity(P, Q):
    return round(max(1 - frechet(P, Q) / (np.sqrt(length(P) * length(Q)) / np.sqrt(2)), 0), 4)


def crossings(X, Y, Z, level):
    """Every grid edge the level crosses -> interpolated position.

    Keys: ('h', j, i) between (j, i) and (j, i + 1); ('v', j, i) between (j, i) and
    (j + 1, i). Edges of cells with missing corners only count when a complete cell
    has them."""
    J, I = Z.shape
    ok = np.isfinite(Z)
    cell = ok[:-1, :-1] & ok[1:, :-1] & ok[:-1, 1:] & ok[1:, 1:]
    up = Z > level
    out = {}
    with np.errstate(all="ignore"):
        for j, i in zip(*np.nonzero(up[:, :-1] != up[:, 1:])):
            used = (j > 0 and cell[j - 1, i]) or (j < J - 1 and cell[j, i])
            if used:
                t = (level - Z[j, i]) / (Z[j, i + 1] - Z[j, i])
                out["h", j, i] = (X[j, i] + t * (X[j, i + 1] - X[j, i]),
                                  Y[j, i] + t * (Y[j, i + 1] - Y[j, i]))
        for j, i in zip(*np.nonzero(up[:-1] != up[1:])):
            used = (i > 0 and cell[j, i - 1]) or (i < I - 1 and cell[j, i])
            if used:
                t = (level - Z[j, i]) / (Z[j + 1, i] - Z[j, i])
                out["v", j, i] = (X[j, i] + t * (X[j + 1, i] - X[j, i]),
                                  Y[j, i] + t * (Y[j + 1, i] - Y[j, i]))
    return out


def inside(path, X, Y):
    from matplotlib.path import Path

    return Path(path).contains_points(np.c_[X.ravel(), Y.ravel()]).reshape(X.shape)


def contours(X, Y, Z, level):
    """Contours of another engine (contourpy), to count and to compare."""
    import contourpy

    g = contourpy.contour_generator(X, Y, np.ma.masked_invalid(Z), name="serial",
                                    corner_mask=False)
    return [np.asarray(c) for c in g.lines(level)]


class EdgeMap:
    """Where the contours of a field at a level can have vertices."""

    def __init__(self, X, Y, Z, level):
        from scipy.spatial import cKDTree

        self.X, self.Y, self.Z, self.level = X, Y, Z, level
        J, I = Z.shape
        up = Z > level
        ok = np.isfinite(Z)
        h = np.argwhere((up[:, :-1] != up[:, 1:]) & ok[:, :-1] & ok[:, 1:])
        v = np.argwhere((up[:-1] != up[1:]) & ok[:-1] & ok[1:])
        rows = []
        for kind, e in ((0, h), (1, v)):
            if not len(e):
                continue
            j0, i0 = e[:, 0], e[:, 1]
            j1, i1 = (j0, i0 + 1) if kind == 0 else (j0 + 1, i0)
            z0, z1 = Z[j0, i0], Z[j1, i1]
            t = (level - z0) / (z1 - z0)
            rows.append(np.c_[
                X[j0, i0] + t * (X[j1, i1] - X[j0, i0]),
                Y[j0, i0] + t * (Y[j1, i1] - Y[j0, i0]),
                np.full(len(e), kind), j0, i0,
                np.where(z0 > z1, j0, j1), np.where(z0 > z1, i0, i1)])
        self.rows = np.vstack(rows) if rows else np.zeros((0, 7))
        self.scale = max(np.ptp(X), np.ptp(Y), 1e-300)
        mag = max(np.abs(X).max(), np.abs(Y).max())
        self.tol = 1e-9 * self.scale + 1e-13 * mag
        self.tree = cKDTree(self.rows[:, :2]) if len(self.rows) else None

    def locate(self, path):
        """Index of the edge of each vertex (-1: of none)."""
        if self.tree is None:
            return np.full(len(path), -1)
        path = np.where(np.isfinite(path), path, 1e300)
        d, k = self.tree.query(path)
        return np.where(d <= self.tol, k, -1)

    def cells(self, k):
        kind, j, i = self.rows[k, 2:5].astype(int)
        J, I = self.Z.shape
        two = [(j - 1, i), (j, i)] if kind == 0 else [(j, i - 1), (j, i)]
        return {c for c in two if 0 <= c[0] < J - 1 and 0 <= c[1] < I - 1}

    def border(self, k):
        return len(self.cells(k)) < 2

    def walk(self, path, k):
        """First pair of consecutive vertices which do not share a cell, or None."""
        for n in range(len(k) - 1):
            if k[n] != k[n + 1] and not (self.cells(k[n]) & self.cells(k[n + 1])):
                return n
        return None


def ellipse_fit(path):
    """Least squares conic a x^2 + b xy + c y^2 + d x + e y = 1 about the mean, solved
    apart from the package. None when it is degenerate or no ellipse."""
    p = np.asarray(path, float)
    m = p.mean(0)
    x, y = (p - m).T
    s = max(np.abs(x).max(), np.abs(y).max(), 1e-300)
    x, y = x / s, y / s
    D = np.c_[x * x, x * y, y * y, x, y]
    sol, _, rank, sv = np.linalg.lstsq(D, np.ones(len(x)), rcond=None)
    if rank < 5 or sv[-1] < 1e-9 * sv[0]:
        return None
    a, b, c, d, e = sol
    if not 4 * a * c - b * b > 1e-12 * (a * a + b * b + c * c):
        return None
    M = np.array([[a, b / 2], [b / 2, c]])
    cen = np.linalg.solve(2 * M, [-d, -e])
    k = 1 + cen @ M @ cen
    w, V = np.linalg.eigh(M)
    if not (k / w > 0).all():
        return None
    axes = np.sqrt(k / w) * s
    major, minor = int(np.argmax(axes)), int(np.argmin(axes))
    if major == minor:
        major, minor = 0, 1
    theta = np.arctan2(V[1, major], V[0, major])
    return {"centre": m + cen * s, "a": axes[major], "b": axes[minor],
            "theta": theta % np.pi,
            "orient": b / (c - a) if c != a else np.inf,
            "cond": sv[0] / sv[-1], "bratio": min(abs(b / a), abs(b / c))}


def ellipse_points(fit, n, phase=0.0):
    t = np.linspace(0, 2 * np.pi, n) + phase
    u, v = fit["a"] * np.cos(t), fit["b"] * np.sin(t)
    c, s = np.cos(fit["theta"]), np.sin(fit["theta"])
    return np.c_[fit["centre"][0] + u * c - v * s, fit["centre"][1] + u * s + v * c]


def aligned_similarity(path, fit, n=None):
    """(low, high): similarity of a closed path to its ellipse, the ellipse starting
    beside the start of the path and turning the same way, whatever its phase."""
    path = np.asarray(path, float)
    n = n or len(path)
    x, y = (path - path.mean(0)).T
    turn = np.sign(np.sum(x[:-1] * y[1:] - x[1:] * y[:-1]))
    vals = []
    for ph in (0.0, 0.25, 0.5, 0.75):
        q = ellipse_points(fit, n, ph * 2 * np.pi / max(n - 1, 1))
        if turn < 0:
            q = q[::-1]
        k = int(np.argmin(((q[:-1] - path[0]) ** 2).sum(1)))
        q = np.vstack((q[k:-1], q[: k + 1]))
        vals.append(similarity(path, q))
    return min(vals), max(vals)


def signed(theta):
    """Angle modulo pi, in [-pi/2, pi/2)."""
    return (theta + np.pi / 2) % np.pi - np.pi / 2


def canonical(par):
    """Parameters (x, y, width, width, angle) of a Gaussian, the larger width first."""
    x, y, a, b, th = par
    return np.array([x, y, a, b, th] if a >= b else [x, y, b, a, th + np.pi / 2])
