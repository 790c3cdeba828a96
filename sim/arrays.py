"""Arrays described by small JSON specs, so that a plan contains every input of a run."""

import numpy as np


def rng_of(seed):
    return np.random.Generator(np.random.PCG64(int(seed)))


def layout(x, lay):
    """same numbers, another memory layout: C, F, A (strided view), R (read-only C), N (negative strides)"""
    x = np.asarray(x)
    if lay == "C":
        return np.array(x, order="C")
    if lay == "R":
        y = np.array(x, order="C")
        y.flags.writeable = False
        return y
    if lay == "F":
        return np.array(x, order="F")
    if lay == "A":  # every axis strided inside a bigger array
        big = np.full(tuple(2 * n + 1 for n in x.shape), 7.7e77, dtype=x.dtype if x.dtype.kind == "f" else None)
        if x.dtype.kind != "f":
            big = big.astype(x.dtype)
        v = big[tuple(slice(1, 2 * n + 1, 2) for n in x.shape)]
        v[...] = x
        return v
    if lay == "N":
        y = np.array(x[tuple(slice(None, None, -1) for _ in x.shape)], order="C")
        return y[tuple(slice(None, None, -1) for _ in x.shape)]
    raise ValueError(lay)


def related(x, rel):
    """numbers derived from other numbers: what a caller passes next is often close to what it passed before"""
    how = rel[0]
    if how == "nudge":  # every number moves a little
        return x + rel[2] * rng_of(rel[1]).standard_normal(x.shape) * (np.abs(x).max() if x.size else 1.0)
    if how == "cell":  # one number changes
        x = np.array(x)
        if x.size:
            r = rng_of(rel[1])
            x.flat[int(r.integers(x.size))] += rel[2] * (np.abs(x).max() + 1e-300)
        return x
    if how == "end":  # the last number changes
        x = np.array(x)
        if x.size:
            x.flat[-1] += rel[2] * (np.abs(x).max() + 1e-300)
        return x
    if how == "flip":  # same numbers, another order
        return np.ascontiguousarray(x.ravel()[::-1]).reshape(x.shape)
    if how == "roll":
        return np.roll(x.ravel(), 1).reshape(x.shape)
    if how == "neg":
        return -x
    if how == "col":  # one of the functions changes, by a fraction of its own size
        x = np.array(x)
        if x.size:
            r = rng_of(rel[1])
            j = int(r.integers(x.shape[-1]))
            x[..., j] += rel[2] * np.abs(x[..., j]).max() * r.standard_normal(x.shape[:-1])
        return x
    raise ValueError(how)


def values(spec):
    """{"s": seed, "sh": shape, "k": kind, "lay": layout, "dt": dtype}"""
    r = rng_of(spec["s"])
    sh = tuple(spec["sh"])
    k = spec.get("k", "normal")
    if k == "normal":
        x = r.standard_normal(sh)
    elif k == "big":
        x = r.standard_normal(sh) * 1e8
    elif k == "small":
        x = r.standard_normal(sh) * 1e-7
    elif k == "mixed":  # functions of very different sizes
        x = r.standard_normal(sh)
        x = x * 10.0 ** r.integers(-9, 7, size=sh[-1:])
    elif k == "int":
        x = r.integers(-9, 10, size=sh).astype(float)
    elif k == "const":
        x = np.full(sh, float(r.integers(-5, 6)))
    elif k == "zero":
        x = np.zeros(sh)
    elif k == "step":
        x = (r.random(sh) < 0.5).astype(float)
    elif k in ("nan", "inf", "ninf"):
        x = r.standard_normal(sh)
        if x.size:
            x.flat[int(r.integers(x.size))] = {"nan": np.nan, "inf": np.inf, "ninf": -np.inf}[k]
    else:
        raise ValueError(k)
    if spec.get("rel"):
        x = related(x, spec["rel"])
    dt = spec.get("dt", "f8")
    if dt != "f8":
        if dt.startswith("i"):
            x = np.rint(np.clip(x, -1e6, 1e6) * 3)
        x = x.astype(dt)
    return layout(x, spec.get("lay", "C"))


def nodes_of(g):
    if isinstance(g, (tuple, list)) and len(g) == 3 and not isinstance(g, np.ndarray):
        return np.linspace(float(g[0]), float(g[1]), int(g[2]))
    return np.asarray(g, dtype=float)


def points(spec, grid):
    """{"s", "N", "w": where, "lay"} -> (N, d) array; where: in | edge | out | mix | same"""
    r = rng_of(spec["s"])
    N, d, w = int(spec["N"]), len(grid), spec.get("w", "mix")
    P = np.empty((N, d))
    for i, g in enumerate(grid):
        xs = nodes_of(g)
        n = xs.shape[0]
        cell = r.integers(0, n - 1, size=N)
        t = 0.05 + 0.9 * r.random(N)
        x = xs[cell] + t * (xs[cell + 1] - xs[cell])
        L = xs[-1] - xs[0]
        far = (0.01 + 0.7 * r.random(N)) * L
        side = r.random(N) < 0.5
        o = np.where(side, xs[0] - far, xs[-1] + far)
        u = r.random(N)
        pick = r.integers(0, n, size=N)
        if w == "mix":
            x = np.where(u < 0.3, o, x)
        elif w == "out":
            x = np.where(u < 0.7, o, x)
        elif w == "edge":
            x = np.where(u < 0.6, xs[pick], x)
        elif w == "brink":  # next to a node or a border, on either side
            eps = 10.0 ** -r.integers(8, 15, size=N) * L * np.where(r.random(N) < 0.5, 1, -1)
            x = np.where(u < 0.4, np.where(side, xs[0], xs[-1]) + eps, np.where(u < 0.7, xs[pick] + eps, x))
        elif w == "far":
            x = np.where(u < 0.5, x, np.where(side, xs[0] - 1e4 * L, xs[-1] + 1e4 * L))
        P[:, i] = x
    if w == "same" and N:
        P[:] = P[0]
    if spec.get("rel"):
        how, seed, eps = (list(spec["rel"]) + [0, 0])[:3]
        r2 = rng_of(seed)
        L = np.array([nodes_of(g)[-1] - nodes_of(g)[0] for g in grid])
        if how == "nudge":
            P = P + eps * r2.standard_normal(P.shape) * L
        elif how == "cell" and P.size:
            i = int(r2.integers(P.size))
            P.flat[i] += eps * L[i % d]
        elif how == "flip":
            P = np.ascontiguousarray(P[::-1])
        elif how == "roll":
            P = np.roll(P, 1, axis=0)
    dt = spec.get("dt", "f8")
    if dt != "f8":
        P = P.astype(dt)
    return layout(P, spec.get("lay", "C"))


def grid_dims(r, d, nmin=2, nmax=6, wide=True):
    """random uniform grid: lists a, b, n"""
    a, b, n = [], [], []
    for _ in range(d):
        sc = r.choice([1.0, 1.0, 1.0, 1e-2, 50.0]) if wide else 1.0
        lo = round(r.uniform(-2, 2), 3) * sc
        w = round(r.uniform(0.4, 3.0), 3) * sc
        a.append(lo)
        b.append(lo + w)
        n.append(r.randint(nmin, nmax))
    return a, b, n


def bits(x):
    """content fingerprint (bytes of the logical array)"""
    return np.ascontiguousarray(x).tobytes()


def close(got, want, scale, tol=1e-9):
    """got ~ want; scale broadcasts against axis 0"""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return "shape %s, expected %s" % (got.shape, want.shape)
    if got.size == 0:
        return None
    if not np.all(np.isfinite(got)):
        return "non-finite numbers in the result"
    s = np.asarray(scale, dtype=float)
    if s.ndim == 1 and got.ndim >= 1 and s.shape[0] == got.shape[0]:
        s = s.reshape((-1,) + (1,) * (got.ndim - 1))
    if s.ndim > got.ndim:
        s = s.reshape(s.shape[s.ndim - got.ndim:])  # leading axes of length 1
    err = np.abs(got - want) / (s + 1e-300)
    m = float(err.max())
    if m > tol:
        j = np.unravel_index(int(err.argmax()), err.shape)
        return "got %.17g, expected %.17g at %s (relative error %.2e)" % (got[j], want[j], tuple(map(int, j)), m)
    return None
