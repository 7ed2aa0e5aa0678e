"""Runs inside a process with AddressSanitizer and UBSan preloaded:
python asan_driver.py <engine.so> <kind> <seed> <count>

Prints 'AT <n> <description>' before each input, so that the last line names the
input a sanitizer report is about, and 'SUMMARY {json}' at the end."""
import collections
import importlib.util
import json
import sys

import numpy as np

engine, kind, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
name = "trackeddy._cntr"
spec = importlib.util.spec_from_file_location(name, engine)
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
obs = collections.Counter()
shapes = set()
KINDS = {"dims": 1, "rand": 2, "mask": 3, "two": 4, "chunk": 5, "objects": 6, "big": 7,
         "coords": 8, "layout": 9, "package": 10, "saddle": 11}
rng = np.random.default_rng([seed, KINDS[kind]])
n = 0


def at(text):
    global n
    n += 1
    print("AT", n, text, flush=True)


def grid(ny, nx):
    return np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))


def look(res):
    """Read all that was returned: a bad pointer or size shows here."""
    k = len(res) // 2
    for seg, code in zip(res[:k], res[k:]):
        assert len(seg) == len(code)
        obs["vertices"] += len(seg)
        float(np.nansum(seg)), int(code.sum())
    obs["segments"] += k
    obs["traces"] += 1
    if k:
        obs["traces_with_contours"] += 1


def trace(c, *a, **k):
    try:
        look(c.trace(*a, **k))
    except (RuntimeError, ValueError, MemoryError, TypeError, OverflowError) as e:
        obs["refused:" + type(e).__name__] += 1


def new(X, Y, Z, *a):
    shapes.add(np.shape(Z))
    try:
        return m.Cntr(X, Y, Z, *a)
    except (ValueError, TypeError, MemoryError) as e:
        obs["refused:" + type(e).__name__] += 1


def values(ny, nx):
    how = rng.integers(7)
    Z = rng.normal(size=(ny, nx))
    if how == 1:
        Z = np.round(Z * 2) / 2
    elif how == 2:
        Z[rng.random(Z.shape) < 0.25] = np.nan
    elif how == 3:
        Z = np.round(Z * 2) / 2
        Z[rng.random(Z.shape) < 0.1] = np.inf
        Z[rng.random(Z.shape) < 0.1] = -np.inf
    elif how == 4:
        Z = np.full((ny, nx), float(rng.choice([0, 0.5, np.nan, np.inf])))
    elif how == 5:
        Z = rng.integers(0, 2, (ny, nx)).astype(float)
    elif how == 6:
        Z = Z * 10.0 ** rng.integers(-320, 300)
    return Z


def some_level(Z):
    pick = rng.integers(6)
    if pick == 0 and Z.size:
        return float(Z.flat[rng.integers(Z.size)])
    if pick == 1:
        return float(rng.choice([np.nan, np.inf, -np.inf, 0.0, -0.0, 1e308, 5e-324]))
    return float(rng.choice([0, 0.5, -0.5, 0.25, rng.normal()]))


def size(hi=16):
    return int(rng.integers(1, hi))


if kind == "dims":
    todo = [(a, b) for a in range(0, 9) for b in range(0, 9)]
    todo += [(1, 70), (70, 1), (2, 300), (300, 2), (3, 300)]
    for ny, nx in todo:
        for rep in range(max(1, count // len(todo))):
            at("shape %s" % ((ny, nx),))
            X, Y = np.zeros((ny, nx)), np.zeros((ny, nx))
            if ny and nx:
                X, Y = grid(ny, nx)
            Z = values(ny, nx)
            c = new(X, Y, Z)
            if c is not None:
                trace(c, some_level(Z))
                trace(c, some_level(Z), some_level(Z), int(rng.integers(0, 5)))
            mask = (rng.random((ny, nx)) < rng.random()).astype(np.int8)
            c = new(X, Y, Z, mask)
            if c is not None:
                trace(c, some_level(Z))
                c.get_cdata()
elif kind in ("rand", "mask", "two", "chunk"):
    for i in range(count):
        ny, nx = size(), size()
        Z = values(ny, nx)
        X, Y = grid(ny, nx)
        args = [X, Y, Z]
        if kind == "mask" or (kind != "rand" and rng.random() < 0.4):
            p = rng.choice([0.05, 0.2, 0.5, 0.9, 1.0])
            args.append((rng.random((ny, nx)) < p).astype(np.int8))
            if rng.random() < 0.2:
                args[-1] = None
        at("%s shape %s" % (kind, Z.shape))
        c = new(*args)
        if c is None:
            continue
        for _ in range(int(rng.integers(1, 4))):
            if kind in ("rand", "mask"):
                trace(c, some_level(Z))
            elif kind == "two":
                a, b = some_level(Z), some_level(Z)
                trace(c, a, level1=b)
                trace(c, min(a, b), max(a, b))
            else:
                a, b = sorted((some_level(Z), some_level(Z)))
                trace(c, a, b, int(rng.choice([-1, 0, 1, 2, 3, 5, 8, 30, 1000, -(2**62), 2**62])))
                trace(c, a, nchunk=int(rng.integers(0, 12)))
elif kind == "saddle":
    for i in range(count):
        ny, nx = size(12), size(12)
        X, Y = grid(ny, nx)
        Z = ((X + Y) % 2) + rng.choice([0, 0.1, 0.3]) * rng.normal(size=X.shape)
        if rng.random() < 0.5:
            Z[rng.random(Z.shape) < 0.15] = np.nan
        at("saddle %s" % (Z.shape,))
        c = new(X, Y, Z)
        trace(c, float(rng.choice([0.5, 0.25, 0.0, 1.0])))
        trace(c, 0.25, 0.75, int(rng.integers(0, 6)))
elif kind == "coords":
    for i in range(count):
        ny, nx = size(), size()
        X, Y = grid(ny, nx)
        how = rng.integers(5)
        if how == 0:
            X[:] = np.nan
        elif how == 1:
            X[rng.random(X.shape) < 0.2] = np.inf
            Y[rng.random(X.shape) < 0.2] = -np.inf
        elif how == 2:
            X, Y = X[:, ::-1] * 1e300, Y[::-1] * 1e-300
        elif how == 3:
            X, Y = X * 0 + 1, Y * 0
        else:
            X, Y = rng.normal(size=X.shape), rng.normal(size=X.shape)
        Z = values(ny, nx)
        at("coords %d %s" % (how, Z.shape))
        c = new(X, Y, Z)
        trace(c, some_level(Z))
        trace(c, -0.5, 0.5, int(rng.integers(0, 6)))
elif kind == "layout":
    for i in range(count):
        ny, nx = size(), size()
        X, Y = grid(ny, nx)
        Z = values(ny, nx)
        how = rng.integers(8)
        at("layout %d %s" % (how, Z.shape))
        if how == 0:
            X, Y, Z = np.asfortranarray(X), Y, np.asfortranarray(Z)
        elif how == 1:
            big = np.zeros((2 * ny, 3 * nx))
            big[::2, ::3] = Z
            Z = big[::2, ::3]
        elif how == 2:
            Z = np.nan_to_num(Z, posinf=1, neginf=-1).clip(-100, 100).astype(np.float32)
        elif how == 3:
            Z = np.nan_to_num(Z, posinf=1, neginf=-1).clip(-100, 100).astype(np.int16)
        elif how == 4:
            Z = Z.byteswap().view(Z.dtype.newbyteorder())
        elif how == 5:
            Z = Z[::-1, ::-1]
        elif how == 6:
            buf = np.zeros(Z.nbytes + 1, np.uint8)
            view = buf[1:].view(np.float64) if False else np.frombuffer(
                buf, np.float64, Z.size, 1 if False else 0)
            Z = np.array(Z)
        else:
            Z = Z.astype(object)
        c = new(X, Y, Z)
        if c is not None:
            trace(c, 0.25)
            trace(c, -0.5, 0.5)
            # the engine must own what it reads
            del X, Y, Z
            junk = [rng.normal(size=(ny, nx)) for _ in range(3)]
            trace(c, 0.25)
elif kind == "objects":
    for i in range(count):
        how = int(rng.integers(10))
        at("objects %d" % how)
        ny, nx = size(), size()
        X, Y = grid(ny, nx)
        Z = values(ny, nx)
        if how == 0:
            c = m.Cntr.__new__(m.Cntr)
            trace(c, 0.5)
            trace(c, 0.1, 0.5, 2)
            try:
                c.get_cdata()
            except RuntimeError:
                obs["refused:RuntimeError"] += 1
            del c
        elif how == 1:
            c = m.Cntr.__new__(m.Cntr)
            try:
                c.__init__(X, Y, np.zeros((ny + 1, nx)))
            except ValueError:
                obs["refused:ValueError"] += 1
            trace(c, 0.5)
            c.__init__(X, Y, Z)
            trace(c, 0.25)
        elif how == 2:
            c = new(X, Y, Z)
            for _ in range(int(rng.integers(1, 6))):
                a, b = size(), size()
                c.__init__(*grid(a, b), values(a, b),
                           (rng.random((a, b)) < 0.3).astype(np.int8))
                trace(c, 0.25)
                trace(c, -0.25, 0.25, 3)
        elif how == 3:
            c = new(X, Y, Z)
            try:
                c.__init__(X, Y, rng.normal(size=(ny, nx + 1)))
            except ValueError:
                obs["refused:ValueError"] += 1
            trace(c, 0.25)
        elif how == 4:
            for bad in ((X, Y), (X, Y, [[1.0]]), (X, Y, None), (X, Y, Z, Z[:, :0]),
                        (X, Y, Z, [1]), (X.ravel(), Y, Z), (X, Y, Z[None]),
                        (X, Y, np.array("a")), (X, Y, Z.astype(str)), (X[:, :0], Y, Z)):
                try:
                    c = m.Cntr(*bad)
                    trace(c, 0.25)
                except (TypeError, ValueError):
                    obs["refused:bad"] += 1
        elif how == 5:
            c = new(X, Y, Z)
            for bad in ((), ("a",), (None,), (0.1, None), (0.1, 0.2, "a"), (0.1, 0.2, 1, 1)):
                try:
                    c.trace(*bad)
                except TypeError:
                    obs["refused:bad"] += 1
            trace(c, 0.25)
        elif how == 6:
            c = new(X, Y, Z)
            c.get_cdata()
            trace(c, 0.25)
            c.get_cdata()
        elif how == 7:
            cs = [new(X, Y, Z) for _ in range(4)]
            order = rng.permutation(4)
            res = []
            for k in order:
                res.append(cs[k].trace(0.25))
                cs[k] = None
            for r in res:
                look(r)
        elif how == 8:
            c = new(X, Y, Z)
            kept = c.trace(0.25)
            trace(c, -0.25)
            del c
            look(kept)
        else:
            c = new(X, Y, Z, (rng.random((ny, nx)) < 0.4).astype(bool))
            if c is not None:
                for lev in rng.normal(size=6):
                    trace(c, float(lev))
elif kind == "big":
    for i in range(max(1, count // 40)):
        ny, nx = [int(v) for v in rng.integers(60, 220, 2)]
        X, Y = grid(ny, nx)
        Z = rng.normal(size=(ny, nx))
        if rng.random() < 0.5:
            Z = np.sin(X / 3) * np.sin(Y / 4)
            Z[rng.random(Z.shape) < 0.02] = np.nan
        at("big %s" % (Z.shape,))
        c = new(X, Y, Z)
        trace(c, 0.1)
        trace(c, -0.2, 0.3, int(rng.integers(0, 40)))
elif kind == "package":
    import trackeddy

    sys.modules[name] = m
    trackeddy._cntr = m
    from trackeddy.geometry import extract_contours

    for i in range(count):
        ny, nx = size(), size()
        X, Y = grid(ny, nx)
        Z = values(ny, nx)
        at("package %s" % (Z.shape,))
        try:
            seg, code = extract_contours(X, Y, Z, some_level(Z))
            look(list(seg) + list(code))
        except (ValueError, RuntimeError):
            obs["refused:package"] += 1
    for ny, nx in ((0, 0), (0, 4), (4, 0)):
        at("package empty %s" % ((ny, nx),))
        try:
            extract_contours(*([np.zeros((ny, nx))] * 3), 0.1)
        except ValueError:
            obs["refused:package"] += 1
obs["inputs"] = n
obs["shapes"] = len(shapes)
print("SUMMARY " + json.dumps({"obs": obs, "shapes": sorted(map(list, shapes))[:400]}))
