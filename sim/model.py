"""Reference models: small, slow, sequential, independent of the code under test.

Nothing in this file imports `interpolation`.  Everything is plain numpy, written from the
documentation (docs/*.md, docstrings) and the textbook definitions:

* multilinear interpolation on uniform or non-uniform cartesian grids,
* natural cubic B-splines on uniform cartesian grids,
* linear / nearest / constant(=0) extrapolation, partial derivatives,
* 1d Hermite interpolation,
* complete polynomials (basis, derivative, least squares with damping),
* Smolyak sparse grids (points, Chebyshev basis, coefficients, gradient).
"""

from itertools import product

import numpy as np


# ----------------------------------------------------------------------------
# splines
# ----------------------------------------------------------------------------


def _nodes(g):
    if isinstance(g, tuple):
        return np.linspace(float(g[0]), float(g[1]), int(g[2]))
    return np.asarray(g, dtype=float)


def _dim_linear(g, x, order):
    """(first index, list of 2 weight vectors) of a 1d linear spline along one dimension"""
    xs = _nodes(g)
    n = xs.shape[0]
    i = np.clip(np.searchsorted(xs, x, side="right") - 1, 0, n - 2)
    h = xs[i + 1] - xs[i]
    lam = (x - xs[i]) / h
    if order == 0:
        return i, [1.0 - lam, lam]
    if order == 1:
        return i, [-1.0 / h, 1.0 / h]
    return i, [0.0 * lam, 0.0 * lam]


_BC = np.array(  # cubic B-spline pieces, rows = basis function, columns t^0..t^3
    [
        [1.0, -3.0, 3.0, -1.0],
        [4.0, 0.0, -6.0, 3.0],
        [1.0, 3.0, 3.0, -3.0],
        [0.0, 0.0, 0.0, 1.0],
    ]
) / 6.0


def _bspline(j, t, order):
    c = _BC[j]
    if order == 0:
        return c[0] + t * (c[1] + t * (c[2] + t * c[3]))
    if order == 1:
        return c[1] + t * (2 * c[2] + t * 3 * c[3])
    raise ValueError(order)


def _dim_cubic(g, x, order):
    a, b, n = float(g[0]), float(g[1]), int(g[2])
    h = (b - a) / (n - 1)
    u = (x - a) / h
    i = np.clip(np.floor(u), 0, n - 2).astype(int)
    t = u - i
    tc = np.clip(t, 0.0, 1.0)  # outside: first-order Taylor expansion at the border
    ws = []
    for j in range(4):
        if order == 0:
            w = _bspline(j, tc, 0) + (t - tc) * _bspline(j, tc, 1)
        else:
            w = _bspline(j, tc, 1) / h
        ws.append(w)
    return i, ws


def cubic_coeffs(values, d):
    """natural cubic spline coefficients: dense solve along each of the first d axes"""
    C = np.asarray(values, dtype=float)
    for ax in range(d):
        n = C.shape[ax]
        A = np.zeros((n + 2, n + 2))
        A[0, :3] = [1.0, -2.0, 1.0]
        A[n + 1, n - 1 :] = [1.0, -2.0, 1.0]
        for r in range(1, n + 1):
            A[r, r - 1 : r + 2] = [1.0 / 6, 4.0 / 6, 1.0 / 6]
        rhs = np.moveaxis(C, ax, 0)
        sh = rhs.shape
        rhs2 = np.zeros((n + 2, int(np.prod(sh[1:], dtype=int))))
        rhs2[1:-1] = rhs.reshape((n, -1))
        sol = np.linalg.solve(A, rhs2)
        C = np.moveaxis(sol.reshape((n + 2,) + sh[1:]), 0, ax)
    return C


def outside(grid, P, margin=0.0):
    """points outside the grid, or closer than margin (relative) to its border"""
    P = np.atleast_2d(P)
    o = np.zeros(P.shape[0], dtype=bool)
    for i, g in enumerate(grid):
        xs = _nodes(g)
        lo, hi = (float(g[0]), float(g[1])) if isinstance(g, tuple) else (xs[0], xs[-1])
        m = margin * (hi - lo)
        o |= (P[:, i] < lo + m) | (P[:, i] > hi - m)
    return o


def eval_spline(grid, C, P, k=1, orders=None, extrap="linear"):
    """P: (N,d).  Returns (N,) + value shape [+ (n_orders,)]"""
    P = np.array(P, dtype=float)
    d = len(grid)
    C = np.asarray(C, dtype=float)
    vshape = C.shape[d:]
    out_mask = outside(grid, P)
    X = P.copy()
    if extrap == "nearest":
        for i, g in enumerate(grid):
            xs = _nodes(g)
            lo, hi = (float(g[0]), float(g[1])) if isinstance(g, tuple) else (xs[0], xs[-1])
            X[:, i] = np.clip(X[:, i], lo, hi)
    dim = _dim_linear if k == 1 else _dim_cubic
    olist = [(0,) * d] if orders is None else list(orders)
    res = []
    for oo in olist:
        info = [dim(grid[i], X[:, i], oo[i]) for i in range(d)]
        acc = np.zeros((P.shape[0],) + vshape)
        for js in product(range(k + 1), repeat=d):
            w = np.ones(P.shape[0])
            idx = []
            for i in range(d):
                w = w * info[i][1][js[i]]
                idx.append(info[i][0] + js[i])
            acc = acc + w.reshape((-1,) + (1,) * len(vshape)) * C[tuple(idx)]
        if extrap == "constant":
            acc[out_mask] = 0.0
        res.append(acc)
    if orders is None:
        return res[0]
    return np.stack(res, axis=-1)


def scale_of(grid, P, C, k=1):
    """magnitude against which a comparison tolerance is measured (extrapolation amplifies)"""
    P = np.atleast_2d(np.asarray(P, dtype=float))
    amp = np.ones(P.shape[0])
    for i, g in enumerate(grid):
        xs = _nodes(g)
        h = np.diff(xs).min()
        far = np.maximum(np.maximum(xs[0] - P[:, i], P[:, i] - xs[-1]), 0.0) / h
        amp *= 1.0 + 2 * far
    m = float(np.max(np.abs(C))) if np.size(C) else 1.0
    return amp * (m + 1e-300)


def columns(sc, C):
    """scale of every output: functions are interpolated one by one, whatever the size of their neighbours"""
    m = np.abs(np.reshape(C, (-1, np.shape(C)[-1]))).max(axis=0)
    return np.multiply.outer(sc, m / (m.max() + 1e-300) + 1e-290)


def mlinspace(a, b, n):
    axes = [np.linspace(x, y, int(m)) for x, y, m in zip(a, b, n)]
    return np.array(list(product(*axes)))


def hermite(x0, x, y, yp):
    x0 = np.atleast_1d(np.asarray(x0, dtype=float))
    out = np.empty(x0.shape[0])
    for q, s in enumerate(x0):
        if s <= x[0]:
            out[q] = y[0]
        elif s >= x[-1]:
            out[q] = y[-1]
        else:
            i = int(np.searchsorted(x, s, side="left")) - 1
            h = x[i + 1] - x[i]
            t = (s - x[i]) / h
            out[q] = (
                (1 + 2 * t) * (1 - t) ** 2 * y[i]
                + t * (1 - t) ** 2 * h * yp[i]
                + t * t * (3 - 2 * t) * y[i + 1]
                + t * t * (t - 1) * h * yp[i + 1]
            )
    return out


# ----------------------------------------------------------------------------
# complete polynomials
# ----------------------------------------------------------------------------


def _complete_exps(n, d):
    """Monomials in the order of the documented basis: 1, the variables, then for every pair
    i1<=i2 the quadratic term followed by the terms that extend it (depth first)."""
    exps = [(0,) * n]
    if d == 0:
        return exps
    for i in range(n):
        e = [0] * n
        e[i] = 1
        exps.append(tuple(e))

    def rec(idx):
        if len(idx) >= 2:
            e = [0] * n
            for i in idx:
                e[i] += 1
            exps.append(tuple(e))
        if len(idx) < d:
            for i in range(idx[-1] if idx else 0, n):
                rec(idx + [i])

    if d >= 2:
        rec([])
    return exps


def complete_basis(s, d):
    """s: (N,n) -> (N, n_terms)"""
    s = np.asarray(s, dtype=float)
    return np.stack(
        [np.prod(s ** np.array(e), axis=1) for e in _complete_exps(s.shape[1], d)], axis=1
    )


def complete_basis_der(s, d, der):
    s = np.asarray(s, dtype=float)
    cols = []
    for e in _complete_exps(s.shape[1], d):
        if e[der] == 0:
            cols.append(np.zeros(s.shape[0]))
        else:
            f = list(e)
            f[der] -= 1
            cols.append(e[der] * np.prod(s ** np.array(f), axis=1))
    return np.stack(cols, axis=1)


# ----------------------------------------------------------------------------
# Smolyak
# ----------------------------------------------------------------------------


def smol_levels(d, mu):
    """all level multi-indices (>=1 each) of an isotropic (int) or anisotropic (list) grid"""
    if np.ndim(mu) == 0:
        mx, caps = int(mu), [int(mu)] * d
    else:
        caps = [int(m) for m in mu]
        mx = max(caps)
    return [
        lv
        for lv in product(*[range(1, c + 2) for c in caps])
        if sum(lv) <= d + mx
    ]


def _new_points(level):
    if level == 1:
        return [0.0]
    if level == 2:
        return [-1.0, 1.0]
    m = 2 ** (level - 1)
    return [-np.cos(np.pi * j / m) for j in range(1, m, 2)]


def _new_degrees(level):
    if level == 1:
        return [0]
    if level == 2:
        return [1, 2]
    return list(range(2 ** (level - 2) + 1, 2 ** (level - 1) + 1))


def smol_points(d, mu):
    pts = []
    for lv in smol_levels(d, mu):
        pts.extend(product(*[_new_points(l) for l in lv]))
    return np.array(pts)


def smol_degrees(d, mu):
    deg = []
    for lv in smol_levels(d, mu):
        deg.extend(product(*[_new_degrees(l) for l in lv]))
    return deg


def _cheb(n, x):
    a, b = np.ones_like(x), x
    if n == 0:
        return a
    for _ in range(n - 1):
        a, b = b, 2 * x * b - a
    return b


def _cheb_der(n, x):
    if n == 0:
        return np.zeros_like(x)
    a, b = np.ones_like(x), 2 * x  # second kind
    if n == 1:
        return np.ones_like(x)
    for _ in range(n - 2):
        a, b = b, 2 * x * b - a
    return n * b


class Smol:
    """Smolyak polynomial interpolation on [lb,ub] by a dense solve"""

    def __init__(self, d, mu, lb, ub):
        self.d, self.mu = d, mu
        self.lb, self.ub = np.array(lb, float), np.array(ub, float)
        self.deg = smol_degrees(d, mu)
        self.cube = smol_points(d, mu)

    def to_cube(self, P):
        return 2 * (np.asarray(P, float) - self.lb) / (self.ub - self.lb) - 1.0

    def to_dom(self, Q):
        return self.lb + (np.asarray(Q, float) + 1) / 2 * (self.ub - self.lb)

    def basis(self, Q, der=None):
        cols = []
        for dg in self.deg:
            c = np.ones(Q.shape[0])
            for i in range(self.d):
                c = c * (_cheb_der(dg[i], Q[:, i]) if i == der else _cheb(dg[i], Q[:, i]))
            cols.append(c)
        return np.stack(cols, axis=1)

    def fit(self, grid_dom, f):
        """coefficients of the polynomial that takes values f at the points grid_dom"""
        return np.linalg.solve(self.basis(self.to_cube(grid_dom)), np.asarray(f, float))

    def value(self, theta, P):
        return self.basis(self.to_cube(P)) @ theta

    def grad(self, theta, P):
        Q = self.to_cube(P)
        return np.stack(
            [self.basis(Q, der=i) @ theta * 2.0 / (self.ub - self.lb)[i] for i in range(self.d)],
            axis=1,
        )

    def weights(self, grid_dom, P):
        """d value(P) / d f(grid): (N, T)"""
        return np.linalg.solve(
            self.basis(self.to_cube(grid_dom)).T, self.basis(self.to_cube(P)).T
        ).T
