"""C28: the export of an eddy is faithful."""
import numpy as np
import pandas as pd

import te

RULE = ("Each evaluation is one eddy exported with one subset of its properties, every exported value "
        "compared bit by bit with the one set. Distinct non-trivial = (vertices, subset, values).")
ASSUMPTIONS = ["contours of two vertices or more", "an eddy without Gaussian fit exports None for it"]
REQUIRED = {"dicts": 500, "tables": 500, "subset": 250, "with_nan": 40, "no_gaussian": 80, "stores": 250,
            "discards": 250, "resets": 60, "unknown": 100, "long": 40, "no_contour": 80}
ALL = ["identifier", "contour", "level", "area_eddy", "radius_eddy", "ellipse_params",
       "contour_ellipse_error", "ellipse_eccen", "contour_center", "eddy_sign", "eddy_maxima",
       "gaussian_params", "contour_gaussian_error"]
NAMES = {
    "contour": ["contour_path_x", "contour_path_y"],
    "ellipse_params": ["ellipse_params_a", "ellipse_params_b", "ellipse_params_theta"],
    "contour_center": ["contour_x", "contour_y"],
    "eddy_maxima": ["maxima", "maxima_y", "maxima_x"],
    "gaussian_params": ["gaussian_params_" + c for c in ("x", "y", "sigma_x", "sigma_y", "theta")],
}
SHORT = ["level", "area_eddy", "radius_eddy", "contour_ellipse_error", "contour_center",
         "ellipse_eccen", "eddy_sign", "eddy_maxima", "contour_gaussian_error"]


def cases(tier, seed):
    for k in range(900 if tier == "quick" else 12000):
        yield {"seed": seed, "k": k}


def number(rng):
    v = float(rng.choice([0.0, -0.0, 1.0, -1.0, 1e-300, -1e300, 1e-9, 123456.789012345678,
                          rng.normal(), rng.normal() * 10.0 ** rng.integers(-12, 12), np.nan, np.inf],
                         p=[.04, .04, .05, .05, .05, .05, .07, .1, .25, .25, .03, .02]))
    return v


def make(rng, n, fitted=None):
    from trackeddy.eddy import Eddy

    contour = rng.normal(size=(n, 2)) * 10.0 ** rng.integers(-3, 4)
    if rng.random() < 0.1:
        contour[rng.integers(n)] = np.nan
    level = number(rng)
    e = Eddy(contour, level)
    want = {"contour": contour.copy(), "level": level}
    for name in ("area_eddy", "radius_eddy", "contour_ellipse_error", "ellipse_eccen",
                 "contour_gaussian_error"):
        want[name] = number(rng)
        form = rng.integers(3)
        setattr(e, name, [want[name], np.float64(want[name]), np.array(want[name])][form])
    want["eddy_sign"] = int(rng.choice([-1, 1]))
    e.eddy_sign = want["eddy_sign"]
    for name, m in [("ellipse_params", 3), ("contour_center", 2), ("eddy_maxima", 3),
                    ("gaussian_params", 5)]:
        want[name] = [number(rng) for _ in range(m)]
        setattr(e, name, [list(want[name]), np.array(want[name]), tuple(want[name])][rng.integers(3)])
    if (rng.random() < 0.3) if fitted is None else not fitted:
        e.gaussian_params = None
        want["gaussian_params"] = None
    want["identifier"] = int(rng.integers(0, 10**6))
    e.identifier = want["identifier"]
    return e, want


def expected(want, props):
    out = {}
    for p in props:
        v = want[p]
        if p == "contour":
            out["contour_path_x"], out["contour_path_y"] = v[:, 0], v[:, 1]
        elif v is None:
            out[p] = None
        elif p in NAMES:
            out.update(zip(NAMES[p], v))
        else:
            out[p] = v
    return out


def equal(a, b):
    if b is None:
        a = a.item() if isinstance(a, np.ndarray) and a.ndim == 0 else a
        return a is None
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and bool(
        np.array_equal(a, b, equal_nan=True) and np.array_equal(
            np.signbit(a[~np.isnan(a)]), np.signbit(b[~np.isnan(b)])))


def table_ok(report, table, want, props, n, where, how):
    ok = report.check
    exp = expected(want, props)
    rows = n if "contour" in props else 1
    if not ok(isinstance(table, pd.DataFrame) and len(table) == rows, how + "-rows",
              "%s: %s rows" % (where, getattr(table, "shape", None))):
        return
    ok(set(table.columns) == set(exp) | {"index"}, how + "-columns",
       "%s: columns %s" % (where, list(table.columns)))
    ok(list(table["index"]) == list(range(rows)), how + "-index", where)
    for name, v in exp.items():
        if name not in table:
            continue
        col = table[name].values
        if name.startswith("contour_path"):
            good = equal(col.astype(float), v)
        else:
            good = all(equal(x, v) for x in col)
        ok(good, how + "-value", "%s: %s is %s, measured %s" % (where, name, col[:3], np.ravel(v)[:3]))


def run(case, report):
    from trackeddy.eddy import Eddy

    rng = te.rng_of(case["seed"], 28, case["k"])
    if case["k"] % 6 == 5:
        return detected(report, rng)
    n = int(rng.choice([2, 3, 4, 5, 8, 20, 150, 1000]))
    e, want = make(rng, n)
    props = None
    if rng.random() < 0.6:
        m = int(rng.integers(1, len(ALL)))
        props = [str(p) for p in rng.permutation(ALL)[:m]]
        report.see("subset")
    used = props or ALL
    where = "%d vertices, properties %s" % (n, "all" if props is None else props)
    d = e.to_dict(props) if rng.random() < 0.5 or props is None else e.to_dict(out_properties=props)
    exp = expected(want, used)
    report.see("dicts")
    report.see("with_nan", np.isnan(want["contour"]).any() or any(
        isinstance(v, float) and np.isnan(v) for v in want.values()))
    report.see("no_gaussian", want["gaussian_params"] is None)
    report.see("long", n >= 150)
    report.evaluate((n, tuple(used), want["level"], want["area_eddy"], want["identifier"]))
    report.check(set(d) == set(exp), "dict-keys", "%s: keys %s" % (where, list(d)))
    for name, v in exp.items():
        if name in d:
            report.check(equal(d[name], v), "dict-value", "%s: %s is %s, measured %s" % (
                where, name, np.ravel(d[name])[:3], np.ravel(v)[:3]))
    report.see("tables")
    report.see("no_contour", "contour" not in used)
    table_ok(report, e.to_table(props), want, used, n, where, "table")
    report.check(np.array_equal(e.contour, want["contour"], equal_nan=True), "modified", where)
    for bad in ("nothing", "Level", "contour_", ""):
        report.see("unknown")
        try:
            got = e.to_dict(["level", bad])
        except (AttributeError, ValueError, KeyError):
            continue
        report.violate("unknown-accepted", "property %r gives %s" % (bad, list(got)))
    history(report, rng)
    if case["k"] < 3:
        report.sample = {"export": where, "keys": list(d)}


def history(report, rng):
    """Identified and discarded eddies accumulate in order, apart, until reset."""
    from trackeddy.eddy import Eddy

    Eddy.store(exit=True)
    Eddy.discarded(exit=True)
    stored, dropped = [], []
    fitted = bool(rng.random() < 0.6)
    for _ in range(rng.integers(1, 9)):
        op = rng.random()
        e, want = make(rng, int(rng.integers(2, 9)), fitted)
        if op < 0.45:
            table = e.store()
            want["identifier"] = len(stored)
            stored.append((want, len(want["contour"])))
            report.see("stores")
            at = 0
            total = sum(n for _, n in stored)
            if not report.check(len(table) == total, "store-rows", "%d rows of %d" % (
                    len(table), total)):
                return
            for w, n in stored:
                table_ok(report, table.iloc[at:at + n], w, ALL, n, "store %d" % w["identifier"], "store")
                at += n
        elif op < 0.9:
            reason = str(rng.choice(["area", "eccentricity", "some reason"]))
            table = e.discarded(reason=reason) if rng.random() < 0.5 else e.discarded(reason)
            dropped.append((want, reason))
            report.see("discards")
            if not report.check(len(table) == len(dropped) and list(table.index) == list(
                    range(len(dropped))), "discard-rows", list(table.index)):
                return
            for k, (w, why) in enumerate(dropped):
                exp = expected(w, SHORT)
                report.check(set(table.columns) == set(exp) | {"reason"}, "discard-columns",
                             list(table.columns))
                report.check(str(table["reason"].iloc[k]) == why, "discard-reason",
                             "%s, not %s" % (table["reason"].iloc[k], why))
                for name, v in exp.items():
                    if name in table:
                        report.check(equal(table[name].iloc[k], v), "discard-value",
                                     "%s is %r, measured %r" % (name, table[name].iloc[k], v))
        else:
            e.exit()
            stored, dropped = [], []
            report.see("resets")
        report.evaluate()
    Eddy.store(exit=True)
    Eddy.discarded(exit=True)


def detected(report, rng):
    """What the detection measured is what its tables say: seen as the eddies are exported."""
    from trackeddy.eddy import Eddy

    lon, lat = te.grid(rng, n=int(rng.integers(20, 34)))
    f = te.field(rng, lon, lat, str(rng.choice(te.KINDS)))
    skip = bool(rng.random() < 0.5)
    T = te.make(f, lon, lat, skip=skip)
    T.identification_criteria.update(max_area=20.0, gaussian_fit=0.6)
    seen = []
    inner = Eddy.to_dict

    def watch(self, props=None):
        out = inner(self, props) if props is not None else inner(self)
        w = {p: getattr(self, p) for p in ALL if hasattr(self, p)}
        w = {p: (np.array(v, copy=True) if v is not None else None) for p, v in w.items()}
        if not any(o is self for o, _, _ in seen):
            seen.append((self, str(self.reason) if hasattr(self, "reason") else None, w))
        return out

    Eddy.to_dict = watch
    try:
        table, discarded = te.one_level(T, float(rng.choice([0.3, 0.15, -0.2])))
    finally:
        Eddy.to_dict = inner
    kept = [w for _, why, w in seen if why is None]
    lost = [(why, w) for _, why, w in seen if why is not None]
    if not seen:
        return
    found = te.eddies(table)
    # other code may export them otherwise: then there is nothing to compare
    if len(found) == len(kept):
        for (k, row, path), w in zip(found, kept):
            report.see("detected")
            report.evaluate(("detected", path.tobytes()[:64]))
            report.check(np.array_equal(path, w["contour"]), "detected-contour", k)
            for p in ALL:
                if p in ("contour", "identifier") or p not in w or w[p] is None:
                    continue
                for name, v in zip(NAMES.get(p, [p]), np.ravel(w[p])):
                    report.check(row.get(name) == v, "detected-value", "eddy %s: %s is %r, measured %r" % (
                        k, name, row.get(name), v))
    if len(discarded) == len(lost):
        for (_, row), (why, w) in zip(
                discarded.iterrows() if len(lost) else [], lost):
            report.see("detected_discarded")
            report.check(str(row["reason"]) == why, "detected-reason", why)
            for p in ("level", "area_eddy", "radius_eddy", "contour_center"):
                for name, v in zip(NAMES.get(p, [p]), np.ravel(w[p])):
                    report.check(equal(row[name], v), "discarded-value", "%s is %r, measured %r" % (
                        name, row[name], v))
