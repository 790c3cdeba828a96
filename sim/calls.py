"""Registry of the stateless part of the API.

A call is described by *options* (what selects a compiled specialisation or a code path; hashable JSON) and
*data* (a seed and sizes).  For each call: `inputs` builds the caller's arrays, `do` makes the real call,
`expect` says what must come out, `outs` gives the shapes of the output buffers it accepts.
"""

import random

import numpy as np

from . import arrays as A
from . import model as M


def jgrid(r, d, gt, nmin=2, nmax=6):
    """grid as JSON: [lo, hi, n] or {"x": [...]}"""
    out = []
    for i in range(d):
        sc = r.choice([1.0, 1.0, 1.0, 0.05, 20.0])
        lo, w, n = round(r.uniform(-2, 2), 3) * sc, round(r.uniform(0.4, 3.0), 3) * sc, r.randint(nmin, nmax)
        if gt[i] == "u":
            out.append([lo, lo + w, n])
        else:
            x = [lo]
            for _ in range(n - 1):
                x.append(x[-1] + w / n * r.uniform(0.3, 1.7))
            out.append({"x": x})
    return out


def pgrid(g):
    """the grid object passed to the library"""
    return tuple((float(e[0]), float(e[1]), int(e[2])) if isinstance(e, list) else np.array(e["x"]) for e in g)


def sizes(g):
    return [e[2] if isinstance(e, list) else len(e["x"]) for e in g]


def bounds(g):
    return [e[0] for e in g], [e[1] for e in g], [e[2] for e in g]


class Call:
    """one entry of the registry"""

    compiled = True  # evaluating it triggers numba compilation keyed by the options

    def inputs(self, c):
        raise NotImplementedError

    def outs(self, c):
        return None

    def expect(self, c, x):
        """list of (name, want, scale, factor) ; factor multiplies both sides before comparison"""
        raise NotImplementedError

    def results(self, c, res, bufs):
        """what to compare with expect()"""
        if bufs is not None:
            return list(bufs)
        return [res]

    def related_keys(self, c, x):
        no = {"grid", "a", "b", "n", "mu", "lb", "ub"}
        return [k for k, v in sorted(x.items()) if k not in no and isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size]

    def full(self, c):
        """the caller's arrays; one of them may be a relative of an array of an earlier call (c["rel"])"""
        x = self.inputs(c)
        if c.get("rel"):
            ks = self.related_keys(c, x)
            if ks:
                which, rel = c["rel"]
                k = ks[which % len(ks)]
                if k == "P" and (c["o"].get("diff") is not None or self.name == "vec_eval_cubic_splines_G"):
                    return x  # derivatives jump at nodes: keep the points where they are
                v = x[k]
                ro = not v.flags.writeable
                v.flags.writeable = True
                v[...] = A.related(np.array(v), rel)
                v.flags.writeable = not ro
        return x

    def check(self, c, res, bufs):
        x = self.full(c)
        want = self.expect(c, x)
        got = self.results(c, res, bufs)
        if len(got) != len(want):
            return "%d results, expected %d" % (len(got), len(want))
        for g, w in zip(got, want):
            name, ww, sc, f, mask = (tuple(w) + (None,) * 5)[:5]
            g = np.asarray(g, dtype=float)
            ww = np.asarray(ww, dtype=float)
            if g.shape != ww.shape:
                return "%s: shape %s, expected %s" % (name, g.shape, ww.shape)
            if mask is not None:
                g, ww = g[mask], ww[mask]
                if np.ndim(sc):
                    sc = np.asarray(sc)[mask]
            if f is not None:
                g, ww = g * f, ww * f
            e = A.close(g, ww, sc, tol=c.get("tol", 1e-9))
            if e:
                return name + ": " + e
        return None


REG = {}


def reg(name):
    def go(cls):
        REG[name] = cls()
        REG[name].name = name
        return cls

    return go


# ---------------------------------------------------------------------------------- calls from compiled code of the user

STYLES = [None] * 8 + ["call", "loop"]  # by the interpreter; from a compiled function of the user; point by point in its loop


def user(lib, src):
    """the function `f` of this source text, compiled by the user in this process"""
    import numba

    known = lib.__dict__.setdefault("clients", {})
    if src not in known:
        env = {n: getattr(lib, n) for n in ("eval_spline", "eval_linear", "eval_cubic", "prefilter", "filter_cubic", "interp", "mlinterp")}
        env["xto"] = lib.extrap_options
        exec(src, env)
        known[src] = numba.njit(env["f"])
    return known[src]


def from_user(lib, o, call, args, c, bufs):
    """`call` is an expression over the names of args (a list of pairs), in which P stands for the point(s)"""
    names = ", ".join(n for n, _ in args)
    if o["user"] == "loop" and not o["one"]:
        src = "def f(R, %s):\n    for i in range(P.shape[0]):\n        R[i] = %s\n    return R\n" % (names, call.replace("P", "P[i]"))
        R = bufs[0] if bufs else np.full(out_shape(c), np.nan)
        user(lib, src)(R, *[v for _, v in args])
        return R
    return user(lib, "def f(%s):\n    return %s\n" % (names, call))(*[v for _, v in args])


# ---------------------------------------------------------------------------------- spline evaluation


def spline_inputs(c):
    o = c["o"]
    g = c["g"]
    n = sizes(g)
    k = o.get("k", 1)
    sh = [m + (2 if k == 3 else 0) for m in n] + ([c["n_sp"]] if o["vec"] else [])
    C = A.values({"s": c["s"], "sh": sh, "k": c.get("vk", "normal"), "lay": o.get("Cl", "C")})
    pg = pgrid(g)
    P = A.points({"s": c.get("sp", c["s"] + 1), "N": 1 if o["one"] else c["N"], "w": c["w"], "lay": "C"}, [tuple(e) if isinstance(e, list) else np.array(e["x"]) for e in g])
    if o["one"]:
        P = P[0]
        if o.get("tup"):
            return {"grid": pg, "C": C, "P": tuple(float(v) for v in P)}
    return {"grid": pg, "C": C, "P": A.layout(P, o.get("Pl", "C"))}


def spline_expect(c, x, extrap=None, orders=None):
    o = c["o"]
    P = np.atleast_2d(np.array(x["P"], dtype=float))
    g = x["grid"]
    C = np.array(x["C"])
    k = o.get("k", 1)
    want = M.eval_spline(g, C, P, k, orders, extrap or "linear")
    sc = M.scale_of(g, P, C, k)
    if o["vec"]:
        sc = M.columns(sc, C)
        if orders is not None:
            sc = sc[..., None]
    f = None
    if orders is not None:
        hs = [float(np.diff(A.nodes_of(list(e) if isinstance(e, tuple) else e)).min()) for e in g]
        f = np.array([np.prod([h ** oo[i] for i, h in enumerate(hs)]) for oo in orders])
    if o["one"]:
        return want[0], sc[0] if o["vec"] else float(sc[0]), f
    return want, sc, f


def orders_of(o):
    return None if o.get("diff") is None else [tuple(t) for t in o["diff"]]


def out_shape(c):
    o = c["o"]
    sh = [] if o["one"] else [c["N"]]
    if o["vec"]:
        sh.append(c["n_sp"])
    if o.get("diff") is not None:
        sh.append(len(o["diff"]))
    return sh or None


def gen_orders(r, d, k):
    pool = []
    mx = 1 if k == 3 else 2
    for _ in range(r.choice([1, 2, 2, 3])):
        t = [0] * d
        for i in range(d):
            if r.random() < 0.55:
                t[i] = r.choice([1, 1, 1, mx])
        pool.append(t)
    if r.random() < 0.4:
        pool.insert(0, [0] * d)
    return pool


def spline_data(r, o, c):
    d = o["d"]
    c["g"] = jgrid(r, d, o.get("gt", ["u"] * d), 2, (6 if d <= 2 else 4) if r.random() < 0.9 else {1: 90, 2: 24, 3: 9}.get(d, 6))
    c["n_sp"] = r.choice([1, 2, 3, 3, 5] if r.random() < 0.94 else [9, 17, 33])
    c["N"] = r.choice([0, 1, 2, 3, 7, 7, 12, 40] if r.random() < 0.9 else [1100, 1100, 300, 2600])
    ws = ["mix", "mix", "out", "in"]
    if o.get("diff") is None:
        ws += ["edge", "same", "brink"]
    if o.get("diff") is not None and o.get("ex") == "nearest":
        ws = ["in"]
    c["w"] = r.choice(ws)
    c["vk"] = r.choice(["normal"] * 5 + ["int", "const", "step", "big"] + (["mixed"] * 2 if o["vec"] else []))
    return c


@reg("eval_spline")
class EvalSpline(Call):
    def options(self, r, cfg):
        d = r.choice(cfg.get("dims", [1, 2]))
        k = r.choice([1, 1, 3])
        o = {"d": d, "k": k, "gt": [r.choice(["u", "u", "n"]) if k == 1 else "u" for _ in range(d)],
             "vec": r.random() < 0.5, "one": r.random() < 0.4, "ex": r.choice(["linear", "nearest", "constant"]),
             "diff": gen_orders(r, d, k) if r.random() < 0.4 else None,
             "Cl": r.choice(cfg.get("lays", ["C"])), "Pl": r.choice(cfg.get("lays", ["C"]))}
        if o["one"] and r.random() < 0.2:
            o["tup"] = True
        o["style"] = r.choice(["kw", "kw", "pos"])
        o["user"] = r.choice(STYLES)
        return o

    def data(self, r, o, c):
        return spline_data(r, o, c)

    inputs = staticmethod(spline_inputs)

    def outs(self, c):
        s = out_shape(c)
        return [s] if s else None

    def do(self, lib, c, x, bufs):
        o = c["o"]
        diff = "None" if o["diff"] is None else "(" + "".join(str(tuple(t)) + "," for t in o["diff"]) + ")"
        out = bufs[0] if bufs else None
        if o.get("user"):
            a, e = [("g", x["grid"]), ("C", x["C"]), ("P", x["P"])], "None"
            if bufs and (o["user"] == "call" or o["one"]):
                a, e = a + [("o", out)], "o"
            return from_user(lib, o, "eval_spline(g, C, P, out=%s, k=%d, diff=%r, extrap_mode=%r)" % (e, o["k"], diff, o["ex"]), a, c, bufs)
        if o.get("style") == "pos":
            return lib.eval_spline(x["grid"], x["C"], x["P"], out, o["k"], diff, o["ex"])
        # (numba cannot take the literal options by default from Python: they are always passed)
        return lib.eval_spline(x["grid"], x["C"], x["P"], out=out, k=o["k"], diff=diff, extrap_mode=o["ex"])

    def expect(self, c, x):
        o = c["o"]
        w, s, f = spline_expect(c, x, o["ex"], orders_of(o))
        return [("value", w, s, f)]


class EvalFixed(Call):
    k = 1

    def options(self, r, cfg):
        d = r.choice(cfg.get("dims", [1, 2]))
        return {"d": d, "k": self.k, "gt": [r.choice(["u", "u", "n"]) if self.k == 1 else "u" for _ in range(d)],
                "vec": r.random() < 0.5, "one": r.random() < 0.4, "ex": r.choice([None, "linear", "nearest", "constant"]),
                "user": r.choice(STYLES), "Cl": r.choice(cfg.get("lays", ["C"])), "Pl": r.choice(cfg.get("lays", ["C"]))}

    def data(self, r, o, c):
        return spline_data(r, o, c)

    inputs = staticmethod(spline_inputs)

    def outs(self, c):
        s = out_shape(c)
        return [s] if s else None

    def do(self, lib, c, x, bufs):
        o = c["o"]
        if o.get("user"):
            a, e = [("g", x["grid"]), ("C", x["C"]), ("P", x["P"])], ""
            if bufs and (o["user"] == "call" or o["one"]):
                a, e = a + [("o", bufs[0])], ", o"
            if o["ex"] is not None:
                e += ", xto." + o["ex"].upper()
            return from_user(lib, o, "eval_%s(g, C, P%s)" % ("linear" if self.k == 1 else "cubic", e), a, c, bufs)
        a = [x["grid"], x["C"], x["P"]] + (list(bufs) if bufs else [])
        if o["ex"] is not None:
            a.append(getattr(lib.extrap_options, o["ex"].upper()))
        return (lib.eval_linear if self.k == 1 else lib.eval_cubic)(*a)

    def expect(self, c, x):
        w, s, f = spline_expect(c, x, c["o"]["ex"] or "linear")
        return [("value", w, s, f)]


@reg("eval_linear")
class EvalLinear(EvalFixed):
    k = 1


@reg("eval_cubic")
class EvalCubic(EvalFixed):
    k = 3


class Compat(Call):
    """a, b, orders, coefficients, points"""

    k = 3

    def options(self, r, cfg):
        return {"d": r.choice(cfg.get("dims", [1, 2])), "k": self.k, "vec": self.vec, "one": self.one,
                "Cl": r.choice(cfg.get("lays", ["C"])), "Pl": r.choice(cfg.get("lays", ["C"]))}

    def data(self, r, o, c):
        return spline_data(r, o, c)

    def inputs(self, c):
        x = spline_inputs(c)
        a, b, n = bounds(c["g"])
        x.update(a=np.array(a), b=np.array(b), n=np.array(n))
        return x

    def outs(self, c):
        s = out_shape(c)
        return [s] if s else None

    def do(self, lib, c, x, bufs):
        f = getattr(lib.ec if self.k == 3 else lib.ml, self.name)
        return f(x["a"], x["b"], x["n"], x["C"], x["P"], *(bufs or []))

    def expect(self, c, x):
        w, s, f = spline_expect(c, x)
        return [("value", w, s, f)]


@reg("eval_cubic_spline")
class _C1(Compat):
    vec, one = False, True

    def outs(self, c):
        return None


@reg("vec_eval_cubic_spline")
class _C2(Compat):
    vec, one = False, False


@reg("eval_cubic_splines")
class _C3(Compat):
    vec, one = True, True


@reg("vec_eval_cubic_splines")
class _C4(Compat):
    vec, one = True, False


@reg("multilinear_interpolation")
class _C5(Compat):
    vec, one, k = False, False, 1


@reg("vec_multilinear_interpolation")
class _C6(Compat):
    vec, one, k = True, False, 1


@reg("vec_eval_cubic_splines_G")
class CompatG(Compat):
    vec, one = True, False

    def options(self, r, cfg):
        o = Compat.options(self, r, cfg)
        o["d"] = r.choice(cfg.get("gdims", [1, 2]))
        o["Cl"] = o["Pl"] = "C"
        return o

    def outs(self, c):
        return [[c["N"], c["n_sp"]], [c["N"], c["o"]["d"], c["n_sp"]]]

    def results(self, c, res, bufs):
        return list(bufs) if bufs is not None else list(res)

    def expect(self, c, x):
        d = c["o"]["d"]
        w, s, _ = spline_expect(c, x)
        od = [tuple(int(i == j) for j in range(d)) for i in range(d)]
        dw = np.moveaxis(M.eval_spline(x["grid"], x["C"], x["P"], 3, od), -1, 1)
        hs = np.array([(b - a) / (n - 1) for a, b, n in c["g"]])[None, :, None]
        ins = ~M.outside(x["grid"], x["P"], 1e-9)
        return [("value", w, s, None), ("gradient", dw, s[:, None, :], hs, ins)]


# ---------------------------------------------------------------------------------- prefiltering


class Filter(Call):
    def options(self, r, cfg):
        return {"d": r.choice(cfg.get("dims", [1, 2])), "vec": r.random() < 0.5, "Vl": r.choice(cfg.get("lays", ["C"])),
                "user": r.choice([None, None, None, None, "call"])}

    def data(self, r, o, c):
        c["g"] = jgrid(r, o["d"], ["u"] * o["d"], 2, 7 if o["d"] <= 2 else 4)
        c["n_sp"] = r.choice([1, 2, 3])
        c["vk"] = r.choice(["normal"] * 4 + ["int", "step", "big", "const"] + (["mixed"] * 2 if o["vec"] else []))
        return c

    def inputs(self, c):
        sh = sizes(c["g"]) + ([c["n_sp"]] if c["o"]["vec"] else [])
        return {"grid": pgrid(c["g"]), "V": A.values({"s": c["s"], "sh": sh, "k": c["vk"], "lay": c["o"]["Vl"]})}

    def outs(self, c):
        return [[n + 2 for n in sizes(c["g"])] + ([c["n_sp"]] if c["o"]["vec"] else [])]

    def expect(self, c, x):
        V = np.array(x["V"])
        sc = np.array(10 * (np.abs(V).max() + 1e-300))
        return [("coefficients", M.cubic_coeffs(V, c["o"]["d"]), M.columns(sc, V) if c["o"]["vec"] else sc, None)]


@reg("prefilter")
class Prefilter(Filter):
    def do(self, lib, c, x, bufs):
        if c["o"].get("user"):
            a = [("g", x["grid"]), ("V", x["V"])] + ([("o", bufs[0])] if bufs else [])
            return user(lib, "def f(%s):\n    return prefilter(g, V, %s, 3)\n" % (", ".join(n for n, _ in a), "o" if bufs else "None"))(
                *[v for _, v in a])
        if bufs:
            return lib.prefilter(x["grid"], x["V"], bufs[0], 3)
        return lib.prefilter(x["grid"], x["V"], None, 3)


@reg("filter_cubic")
class FilterCubic(Filter):
    def do(self, lib, c, x, bufs):
        if c["o"].get("user"):
            a = [("g", x["grid"]), ("V", x["V"])] + ([("o", bufs[0])] if bufs else [])
            n = ", ".join(n for n, _ in a)
            return user(lib, "def f(%s):\n    return filter_cubic(%s)\n" % (n, n))(*[v for _, v in a])
        return lib.filter_cubic(x["grid"], x["V"], *(bufs or []))


@reg("prefilter1")
class Prefilter1(Filter):
    """order 1: nothing to do, the values are their own coefficients"""

    def outs(self, c):
        return None

    def do(self, lib, c, x, bufs):
        return np.array(lib.prefilter(x["grid"], x["V"], None, 1))

    def expect(self, c, x):
        return [("values", np.array(x["V"]), 1.0, None)]


class FilterPy(Filter):
    def options(self, r, cfg):
        o = Filter.options(self, r, cfg)
        o["vec"] = self.vec
        return o

    def outs(self, c):
        return None

    def inputs(self, c):
        x = Filter.inputs(self, c)
        a, b, n = bounds(c["g"])
        x.update(a=np.array(a), b=np.array(b), n=np.array(n))
        return x

    def do(self, lib, c, x, bufs):
        return getattr(lib.fc, self.name)(x["a"], x["b"], x["n"], x["V"])


@reg("filter_coeffs")
class _F1(FilterPy):
    vec = False


@reg("filter_mcoeffs")
class _F2(FilterPy):
    vec = True


# ---------------------------------------------------------------------------------- flat multilinear interface


@reg("mlinterp")
class MlInterp(Call):
    def options(self, r, cfg):
        d = r.choice(cfg.get("dims", [1, 2]))
        return {"d": d, "gt": [r.choice(["u", "n"]) for _ in range(d)], "vec": False, "one": r.random() < 0.4,
                "user": r.choice(STYLES[1:-1]), "k": 1, "tup": True, "Cl": r.choice(cfg.get("lays", ["C"])), "Pl": r.choice(cfg.get("lays", ["C"]))}

    def data(self, r, o, c):
        return spline_data(r, o, c)

    inputs = staticmethod(spline_inputs)

    def do(self, lib, c, x, bufs):
        if c["o"].get("user"):
            return user(lib, "def f(g, C, P):\n    return mlinterp(g, C, P)\n")(x["grid"], x["C"], x["P"])
        return lib.mlinterp(x["grid"], x["C"], x["P"])

    def expect(self, c, x):
        w, s, f = spline_expect(c, x)
        return [("value", w, s, f)]


@reg("interp")
class Interp(Call):
    def options(self, r, cfg):
        d = r.choice(cfg.get("dims", [1, 2]))
        ev = r.choice(["scalar", "point", "tuple", "vectorized"] + (["cartesian"] if d <= 2 else []))
        if d == 1 and ev in ("point",):
            ev = "cartesian"
        gt = [r.choice(["u", "n"]) for _ in range(d)]
        # three arguments are read as (x, values, points): fine for d = 1 only
        return {"d": d, "gt": gt, "ev": ev, "user": r.choice(STYLES[1:-1]), "vec": False, "one": ev in ("scalar", "point", "tuple"), "k": 1,
                "Cl": r.choice(cfg.get("lays", ["C"])), "Pl": r.choice(cfg.get("lays", ["C"]))}

    def data(self, r, o, c):
        spline_data(r, o, c)
        if o["ev"] == "cartesian":
            c["N"] = min(c["N"], 8)
        return c

    def inputs(self, c):
        x = spline_inputs(dict(c, o=dict(c["o"], tup=False)))
        if c["o"]["ev"] == "cartesian":
            P = np.array(x.pop("P"))
            for i in range(c["o"]["d"]):
                x["p%d" % i] = np.array(P[: max(1, P.shape[0] - i), i]) if P.shape[0] else np.array(P[:, i])
        return x

    def do(self, lib, c, x, bufs):
        ev, d = c["o"]["ev"], c["o"]["d"]
        a = list(x["grid"]) + [x["C"]]
        if ev == "scalar":
            a += [float(v) for v in x["P"]]
        elif ev == "tuple":
            a += [tuple(float(v) for v in x["P"])]
        elif ev == "cartesian":
            a += [x["p%d" % i] for i in range(d)]
        else:
            a += [x["P"]]
        if c["o"].get("user"):
            n = ", ".join("a%d" % i for i in range(len(a)))
            return user(lib, "def f(%s):\n    return interp(%s)\n" % (n, n))(*a)
        return lib.interp(*a)

    def expect(self, c, x):
        o = c["o"]
        if o["ev"] == "cartesian":
            from itertools import product

            ax = [x["p%d" % i] for i in range(o["d"])]
            P = np.array(list(product(*ax))).reshape((-1, o["d"]))
            w = M.eval_spline(x["grid"], np.array(x["C"]), P, 1, None, "nearest")
            return [("value", w.reshape([len(a) for a in ax]), float(np.abs(x["C"]).max() + 1e-300), None)]
        w, s, f = spline_expect(c, x, "nearest")
        return [("value", w, float(np.abs(x["C"]).max() + 1e-300), None)]


# ---------------------------------------------------------------------------------- hermite


@reg("hermite")
class Hermite(Call):
    def options(self, r, cfg):
        return {"one": r.random() < 0.3}

    def data(self, r, o, c):
        c["n"], c["N"] = r.randint(2, 7), r.choice([0, 1, 5, 20, 20, 300])
        return c

    def inputs(self, c):
        r = A.rng_of(c["s"])
        x = np.cumsum(r.random(c["n"]) + 0.1)
        p = x[0] - 0.3 + r.random(max(1, c["N"])) * (x[-1] - x[0] + 0.6)
        if not c["o"]["one"]:
            p = p[: c["N"]]
        return {"p": p, "x": x, "y": r.standard_normal(c["n"]), "yp": r.standard_normal(c["n"])}

    def do(self, lib, c, x, bufs):
        if c["o"]["one"]:
            return lib.hm.HermiteInterpolation(float(x["p"][0]), x["x"], x["y"], x["yp"])
        return lib.hm.HermiteInterpolationVect(x["p"], x["x"], x["y"], x["yp"])

    def expect(self, c, x):
        p = x["p"][:1] if c["o"]["one"] else x["p"]
        w = M.hermite(p, x["x"], x["y"], x["yp"])
        return [("value", w[0] if c["o"]["one"] else w, 20.0, None)]


# ---------------------------------------------------------------------------------- complete polynomials


class CPoly(Call):
    def options(self, r, cfg):
        return {"one": r.random() < 0.3, "lay": r.choice(["C", "C", "F"])}

    def data(self, r, o, c):
        c["n"], c["d"], c["N"] = r.randint(1, 4), r.randint(0, 5), r.choice([1, 2, 6]) if r.random() < 0.94 else r.choice([33, 130, 600, 2100])
        c["der"] = r.randrange(c["n"])
        return c

    def inputs(self, c):
        r = A.rng_of(c["s"])
        z = r.uniform(-1.5, 1.5, size=(c["n"], c["N"]))
        return {"z": np.array(z[:, 0]) if c["o"]["one"] else A.layout(z, c["o"]["lay"])}

    def S(self, x):
        z = np.array(x["z"])
        return z.reshape((z.shape[0], -1)).T


@reg("complete_polynomial")
class CP1(CPoly):
    def do(self, lib, c, x, bufs):
        return lib.cp.complete_polynomial(x["z"], c["d"])

    def expect(self, c, x):
        w = M.complete_basis(self.S(x), c["d"]).T
        return [("basis", w[:, 0] if c["o"]["one"] else w, 10.0, None)]


@reg("complete_polynomial_der")
class CP2(CPoly):
    def do(self, lib, c, x, bufs):
        return lib.cp.complete_polynomial_der(x["z"], c["d"], c["der"])

    def expect(self, c, x):
        w = M.complete_basis_der(self.S(x), c["d"], c["der"]).T
        return [("basis derivative", w[:, 0] if c["o"]["one"] else w, 40.0, None)]


# ---------------------------------------------------------------------------------- Smolyak functions


class Smo(Call):
    compiled = False

    def options(self, r, cfg):
        return {}

    def data(self, r, o, c):
        d = r.choice([2, 2, 3])
        c["d"] = d
        c["mu"] = r.choice([1, 2, 3] if d == 2 else [1, 2]) if r.random() < 0.6 else [r.choice([1, 2]) for _ in range(d)]
        c["N"] = r.choice([1, 3, 6]) if r.random() < 0.94 else r.choice([33, 130, 600])
        return c

    def mu(self, c):
        return c["mu"] if not isinstance(c["mu"], list) else np.array(c["mu"])

    def inputs(self, c):
        m = self.mu(c)
        return {"mu": m} if isinstance(m, np.ndarray) else {}


def canon(rows):
    a = np.round(np.array(rows, dtype=float), 9) + 0.0
    return a[np.lexsort(a.T)] if a.size else a


def scrap(res):
    """the caller may do what it likes with the lists and dictionaries it got"""
    if isinstance(res, dict):
        for v in res.values():
            scrap(v)
        res.clear()
    elif isinstance(res, list):
        for v in res:
            scrap(v)
        res.clear()


@reg("chains")
class Chains(Smo):
    """the one-dimensional ingredients of a Smolyak grid"""

    def data(self, r, o, c):
        c["m"] = r.randint(2, 6)
        c["d"], c["mu"] = r.choice([2, 3, 4]), r.choice([1, 2, 3])
        return c

    def inputs(self, c):
        return {}

    def do(self, lib, c, x, bufs):
        sm = lib.sm
        a, f, s = sm.a_chain(c["m"]), sm.phi_chain(c["m"]), sm.s_n(c["m"])
        out = [s, [float(sm.m_i(c["m"])), float(sm.num_grid_points(c["d"], c["mu"]))]]
        out += [[sorted(float(v) for v in a[k]) for k in range(1, c["m"] + 1)]]
        out += [[[int(v) for v in f[k]] for k in range(1, c["m"] + 1)]]
        scrap(a)
        scrap(f)
        return out

    def results(self, c, res, bufs):
        s, two, a, f = res
        return [np.sort(s), two, np.concatenate(a), np.concatenate(f), [len(v) for v in a], [len(v) for v in f]]

    def expect(self, c, x):
        m = c["m"]
        S = lambda n: [0.0] if n == 1 else sorted(float(-np.cos(np.pi * j / 2 ** (n - 1))) for j in range(2 ** (n - 1) + 1))
        new = [[0.0], [-1.0, 1.0]] + [[v for v in S(n) if min(abs(v - w) for w in S(n - 1)) > 1e-9] for n in range(3, m + 1)]
        phi = [[1], [2, 3]] + [list(range(2 ** (n - 2) + 2, 2 ** (n - 1) + 2)) for n in range(3, m + 1)]
        new, phi = new[:m], phi[:m]
        N = len(M.smol_points(c["d"], c["mu"]))
        return [("extrema", S(m), 1.0, None), ("sizes", [2 ** (m - 1) + 1, N], 1.0, None),
                ("disjoint sets", np.concatenate(new), 1.0, None), ("subscripts", np.concatenate(phi), 1.0, None),
                ("set sizes", [len(v) for v in new], 1.0, None), ("subscript counts", [len(v) for v in phi], 1.0, None)]


@reg("chebyshev")
class Cheb(Smo):
    def data(self, r, o, c):
        c["n"], c["kind"] = r.randint(3, 9), r.choice([1.0, 1.0, 2.0])
        c["N"], c["d"] = r.choice([1, 2, 5]), r.choice([1, 2, 3])
        return c

    def inputs(self, c):
        return {"pts": A.rng_of(c["s"]).uniform(-1, 1, size=(c["N"], c["d"]))}

    def do(self, lib, c, x, bufs):
        return [lib.sm.cheby2n(x["pts"], c["n"], c["kind"]), lib.sm.chebyvalto(x["pts"], c["n"], c["kind"])]

    def results(self, c, res, bufs):
        return res

    def expect(self, c, x):
        P = x["pts"]
        T = np.moveaxis(np.polynomial.chebyshev.chebvander(P, c["n"]), -1, 0)
        if c["kind"] != 1.0:  # second kind: U_n = 2 (T_n + T_(n-2) + ...), counting T_0 once
            T = np.array([sum((2.0 if k else 1.0) * T[k] for k in range(n % 2, n + 1, 2)) for n in range(c["n"] + 1)])
        return [("polynomials", T, 100.0, None), ("polynomials side by side", np.concatenate(T[1:c["n"]], axis=1), 100.0, None)]


@reg("smol_inds")
class SM1(Smo):
    def do(self, lib, c, x, bufs):
        res = lib.sm.smol_inds(c["d"], x.get("mu", c["mu"]))
        out = canon([list(map(int, e)) for e in res])
        scrap(res)
        return out

    def expect(self, c, x):
        return [("indices", canon(M.smol_levels(c["d"], c["mu"])), 1.0, None)]


@reg("build_grid")
class SM2(Smo):
    def do(self, lib, c, x, bufs):
        return lib.sm.build_grid(c["d"], x.get("mu", c["mu"]))

    def results(self, c, res, bufs):
        return [canon(res)]

    def expect(self, c, x):
        return [("grid", canon(M.smol_points(c["d"], c["mu"])), 1.0, None)]


@reg("build_B")
class SM3(Smo):
    """columns are identified through the library's own index list"""

    def inputs(self, c):
        x = Smo.inputs(self, c)
        x["pts"] = A.rng_of(c["s"]).uniform(-1, 1, size=(c["N"], c["d"]))
        return x

    def do(self, lib, c, x, bufs):
        mu = x.get("mu", c["mu"])
        inds = lib.sm.smol_inds(c["d"], mu)
        p = lib.sm.poly_inds(c["d"], mu, inds)
        B, dB = lib.sm.build_B(c["d"], mu, x["pts"], p, True)
        B2 = lib.sm.build_B(c["d"], mu, x["pts"])
        p = [tuple(int(v) for v in e) for e in p]
        return [B, dB, B2, p]

    def results(self, c, res, bufs):
        B, dB, B2, p = res
        order = sorted(range(len(p)), key=lambda i: p[i])
        return [np.array(B)[:, order], np.array(dB)[order], np.array(B2)[:, order]]

    def expect(self, c, x):
        m = M.Smol(c["d"], c["mu"], [-1.0] * c["d"], [1.0] * c["d"])
        m.deg = sorted(tuple(int(v) for v in e) for e in m.deg)
        B = m.basis(x["pts"])
        dB = np.stack([m.basis(x["pts"], der=i).T for i in range(c["d"])], axis=1)
        return [("basis", B, 10.0, None), ("basis derivatives", dB, 200.0, None), ("basis", B, 10.0, None)]


@reg("SmolyakGrid")
class SM4(Smo):
    def inputs(self, c):
        x = Smo.inputs(self, c)
        r = A.rng_of(c["s"])
        x["lb"] = np.round(r.uniform(-2, 1, size=c["d"]), 3)
        x["ub"] = x["lb"] + np.round(r.uniform(0.3, 3, size=c["d"]), 3)
        x["pts"] = x["lb"] + r.random((c["N"], c["d"])) * (x["ub"] - x["lb"])
        return x

    def do(self, lib, c, x, bufs):
        sg = lib.SmolyakGrid(c["d"], x.get("mu", c["mu"]), x["lb"], x["ub"])
        q = sg.dom2cube(x["pts"])
        return [sg.grid, q, sg.cube2dom(q), np.abs(sg.B_L @ sg.B_U - sg.B).max()]

    def results(self, c, res, bufs):
        return [canon(res[0])] + res[1:]

    def expect(self, c, x):
        m = M.Smol(c["d"], c["mu"], x["lb"], x["ub"])
        return [("nodes", canon(m.to_dom(m.cube)), 5.0, None), ("scaled points", m.to_cube(x["pts"]), 5.0, None),
                ("points", x["pts"], 5.0, None), ("factorisation", 0.0, 1.0, None)]


# ---------------------------------------------------------------------------------- node enumeration


@reg("cartesian")
class Cart(Call):
    compiled = True

    def options(self, r, cfg):
        return {"order": r.choice(["C", "C", "F"]), "dt": r.choice(["f8", "i8"])}

    def data(self, r, o, c):
        c["n"] = [r.randint(1, 4) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
        if r.random() < 0.06:
            c["n"] = [r.choice([1, 30, 200]) for _ in range(r.choice([1, 2]))]
        if "dt" in o:
            c["dt"] = r.choice(["f8", "f8", o["dt"]])
            c["aslist"] = r.random() < 0.2
        return c

    def inputs(self, c):
        r = A.rng_of(c["s"])
        x = {"x%d" % i: r.standard_normal(n) for i, n in enumerate(c["n"])}
        if c.get("dt") == "i8":
            x = {k: np.round(3 * v).astype(np.int64) for k, v in x.items()}
        return x

    def do(self, lib, c, x, bufs):
        xs = [x["x%d" % i] for i in range(len(c["n"]))]
        return lib.cart.cartesian([list(v) for v in xs] if c.get("aslist") else xs, order=c["o"]["order"])

    def axes(self, c, x):
        return [x["x%d" % i] for i in range(len(c["n"]))]

    def expect(self, c, x):
        from itertools import product

        ax = self.axes(c, x)
        if c["o"]["order"] == "C":
            w = np.array(list(product(*ax)))
        else:
            w = np.array([t[::-1] for t in product(*ax[::-1])])
        return [("nodes", w, 5.0, None)]


@reg("mlinspace")
class MLin(Cart):
    def options(self, r, cfg):
        return {"order": r.choice(["C", "C", "F"])}

    def inputs(self, c):
        r = A.rng_of(c["s"])
        a = np.round(r.standard_normal(len(c["n"])), 3)
        return {"a": a, "b": a + 1.0, "n": np.array(c["n"])}

    def data(self, r, o, c):
        c["n"] = [r.randint(2, 4) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        if r.random() < 0.06:
            c["n"] = [r.choice([2, 30, 200]) for _ in range(r.choice([1, 2]))]
        return c

    def do(self, lib, c, x, bufs):
        return lib.cart.mlinspace(x["a"], x["b"], x["n"], order=c["o"]["order"])

    def axes(self, c, x):
        return [np.linspace(a, b, n) for a, b, n in zip(x["a"], x["b"], x["n"])]


@reg("nodes")
class Nodes(MLin):
    def options(self, r, cfg):
        return {"order": "C"}

    def do(self, lib, c, x, bufs):
        g = lib.UCGrid(*[(float(a), float(b), int(n)) for a, b, n in zip(x["a"], x["b"], x["n"])])
        return lib.nodes(g)


SPLINE_EVAL = ["eval_spline", "eval_linear", "eval_cubic"]
COMPAT = ["eval_cubic_spline", "vec_eval_cubic_spline", "eval_cubic_splines", "vec_eval_cubic_splines",
          "multilinear_interpolation", "vec_multilinear_interpolation", "vec_eval_cubic_splines_G"]
FILTER = ["prefilter", "filter_cubic", "prefilter1", "filter_coeffs", "filter_mcoeffs"]
FLAT = ["mlinterp", "interp"]
OTHER = ["hermite", "complete_polynomial", "complete_polynomial_der", "cartesian", "mlinspace", "nodes"]
SMOL = ["smol_inds", "build_grid", "build_B", "SmolyakGrid", "chains", "chebyshev"]
ALL = SPLINE_EVAL + COMPAT + FILTER + FLAT + OTHER + SMOL


def gen_options(r, name, cfg):
    return {"call": name, "o": REG[name].options(r, cfg)}


def gen_data(r, item):
    c = {"call": item["call"], "o": item["o"], "s": r.randrange(1 << 40)}
    return REG[item["call"]].data(r, item["o"], c)


def relate(r, c, old):
    """c (new data of a call) becomes a relative of the data of an earlier call"""
    mine, rest = {k: c[k] for k in ("call", "o", "s")}, {k: v for k, v in old.items() if k not in ("call", "o", "s", "rel")}
    if c["o"] != old["o"]:  # another specialisation: the sizes and grids may not fit, the numbers do
        if c["call"] == old["call"] and c.get("g") and [isinstance(e, list) for e in c["g"]] == [
                isinstance(e, list) for e in old.get("g", [])] and len(c["g"]) == len(old["g"]):
            for k in ("g", "n_sp", "N"):
                if k in c and k in old:
                    c[k] = old[k]
            c["s"] = old["s"]
        return c
    n = dict(mine, **rest)
    u = r.random()
    if u < 0.25:
        n["s"] = old["s"]  # the same call again
    elif u < 0.5:
        pass  # the same sizes and grid, other numbers
    elif u < 0.7:
        n["s"] = old["s"]
        k = r.random()
        n["rel"] = [r.randrange(8), r.choice([["nudge", r.randrange(1 << 40), r.choice([1e-3, 1e-5, 1e-6])],
                                               ["cell", r.randrange(1 << 40), r.choice([1e-3, 1e-5, 1e-6])],
                                               ["cell", r.randrange(1 << 40), 1e-3]])]
    elif u < 0.85 and "g" in n:
        n["s"] = old["s"]
        g = [list(e) if isinstance(e, list) else {"x": list(e["x"])} for e in n["g"]]
        e = r.choice(g)
        if isinstance(e, list):
            e[r.randrange(2)] += (e[1] - e[0]) * r.choice([0.25, 0.5]) * r.choice([1, 1, -1])
        else:
            e["x"][-1] += (e["x"][-1] - e["x"][0]) * r.choice([0.25, 1.0])
        n["g"] = g
    else:  # one of the two: points or values
        n["s"] = old["s"]
        n["sp"] = r.randrange(1 << 40)
        if r.random() < 0.5:
            n["s"], n["sp"] = c["s"], old.get("sp", old["s"] + 1)
    return n


def menu(seed, names, n, cfg):
    """n specialisations that a worker uses again and again (bounds its compile time)"""
    r = random.Random(seed)
    out, seen = [], set()
    names = list(names)
    r.shuffle(names)
    i = 0
    while len(out) < n and i < 50 * n:
        it = gen_options(r, names[i % len(names)], cfg)
        i += 1
        if str(it) not in seen:
            seen.add(str(it))
            out.append(it)
    return out
