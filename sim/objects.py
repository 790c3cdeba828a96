"""Families of stateful objects: how to build them, drive them, and what they must answer.

A family knows: `build(lib, spec, env)`, `do(lib, obj, op, env)` (the real call), `apply(spec, state, op)`
(the sequential model of an accepted update) and `mismatch(spec, state, op, result, obs)` (None, or what is
wrong with the result of a read if the object is in model state `state`).  A state is hashable.
"""

import numpy as np

from . import arrays as A
from . import model as M


class Env:
    """arrays of one run, as its caller holds them"""

    def __init__(self, ledger=None):
        self.slots = {}
        self.ledger = ledger

    def given(self, x, what, op=None):
        """x is about to be passed to the library as an input"""
        if self.ledger is not None:
            self.ledger.given(x, what, op)
        return x

    def slot(self, key, fresh):
        """the same array object is reused (refilled in place by its owner) when the shape allows"""
        if key is None:
            return fresh
        old = self.slots.get(key)
        if old is not None and old.shape == fresh.shape and old.dtype == fresh.dtype and old.flags.writeable:
            old[...] = fresh
            if self.ledger is not None:
                self.ledger.refreshed(old)
            return old
        self.slots[key] = fresh
        return fresh


def form(x, how, integer=False):
    """the same numbers as list, tuple, array..."""
    if how == "list":
        return list(x)
    if how == "tuple":
        return tuple(x)
    if how == "arr32":
        return np.array(x, dtype=np.int32 if integer else np.float64)
    return np.array(x, dtype=np.int64 if integer else np.float64)


class Memo(dict):
    def get_or(self, key, f):
        if key not in self:
            self[key] = f()
        return self[key]


# =============================================================================== splines


class Splines:
    """CubicSpline, CubicSplines, LinearSpline, LinearSplines"""

    name = "spline"

    def __init__(self):
        self.memo = Memo()

    @staticmethod
    def traits(kind):
        return (3 if kind.startswith("Cubic") else 1), kind.endswith("s")

    @staticmethod
    def grid(spec):
        return tuple((a, b, n) for a, b, n in zip(spec["a"], spec["b"], spec["n"]))

    def build(self, lib, spec, env):
        f = spec.get("form", "list")
        args = [form(spec["a"], f), form(spec["b"], f), form(spec["n"], f, True)]
        if f.startswith("arr") and spec.get("reuse"):  # the caller's own work arrays, refilled for every object
            args = [env.slot("ctor-%s%d" % (k, len(x)), x) for k, x in zip("abn", args)]
        for x, w in zip(args, ("lower bounds", "upper bounds", "orders")):
            if isinstance(x, np.ndarray):
                env.given(x, w)
        v = None
        if spec.get("v") is not None:
            v = env.given(A.values(spec["v"]), "initial values")
        return getattr(lib, spec["kind"])(*args, v) if v is not None else getattr(lib, spec["kind"])(*args)

    def initial(self, spec):
        return ("init",) if spec.get("v") is not None else None

    # -- the model
    def coeffs(self, spec, state):
        def go():
            vs = spec["v"] if state == ("init",) else spec["_ops"][state[0]]["v"]
            k, multi = self.traits(spec["kind"])
            V = np.asarray(A.values(dict(vs, lay="C")), dtype=float)
            V = V.reshape(tuple(spec["n"]) + ((V.shape[-1],) if multi else ()))
            return V if k == 1 else M.cubic_coeffs(V, len(spec["n"]))

        return self.memo.get_or(("C", id(spec), state), go)

    def apply(self, spec, state, op):
        return (op["id"],)

    def unset(self, state):
        return state is None

    # -- the real calls
    def do(self, lib, obj, op, spec, env):
        kind = op["op"]
        if kind in ("set", "badset"):
            v = env.slot(op.get("slot"), A.values(op["v"]))
            env.given(v, "values", op)
            obj.set_values(v)
            return None
        if kind == "grid":
            return obj.grid
        P = env.slot(op.get("pslot"), A.points(op["p"], self.grid(spec)))
        if kind == "badeval":
            P = np.array(P)
            if op["how"] == "nan":
                P[0, 0] = np.nan
            elif op["how"] == "dim":
                P = np.zeros((3, len(spec["n"]) + 1))
            return obj(P)
        if kind in ("call1", "interp1"):
            p = P[0]
            env.given(p, "point", op)
            return obj(p) if kind == "call1" else obj.interpolate(p)
        env.given(P, "points", op)
        if kind == "call":
            return obj(P)
        if kind == "interp":
            return obj.interpolate(P)
        if kind == "diff":
            return obj.interpolate(P, diff=True)
        if kind == "out":
            buf = np.full(P.shape[0], np.nan)
            r = obj.interpolate(P, values=buf)
            return [buf, r]
        raise ValueError(kind)

    def mismatch(self, spec, state, op, res):
        kind = op["op"]
        k, multi = self.traits(spec["kind"])
        g = self.grid(spec)
        d = len(g)
        if kind == "grid":
            want = M.mlinspace(spec["a"], spec["b"], spec["n"])
            got = np.asarray(res)
            if k == 1:
                want = want.T
            return A.close(got, want, np.abs(want).max() + 1e-9)
        C = self.coeffs(spec, state)
        P = A.points(op["p"], g)
        if kind in ("call1", "interp1"):
            P = P[:1]

        def val():
            sc = M.scale_of(g, P, C, k)
            return M.eval_spline(g, C, P, k), M.columns(sc, C) if multi else sc

        want, sc = self.memo.get_or(("V", id(spec), state, op["id"]), val)
        if kind in ("call", "interp"):
            return A.close(res, want, sc)
        if kind in ("call1", "interp1"):
            return A.close(res, want[0], sc[0])
        if kind == "out":
            return A.close(res[0], want, sc) or A.close(res[1], want, sc)
        if kind == "diff":
            m = A.close(res[0], want, sc)
            if m:
                return "values: " + m

            def der():
                orders = [tuple(int(i == j) for j in range(d)) for i in range(d)]
                return np.moveaxis(M.eval_spline(g, C, P, 3, orders), -1, 1)

            dw = self.memo.get_or(("D", id(spec), state, op["id"]), der)
            if np.shape(res[1]) != dw.shape:
                return "derivatives: shape %s, expected %s" % (np.shape(res[1]), dw.shape)
            ins = ~M.outside(g, P, 1e-9)
            hs = np.array([(b - a) / (n - 1) for a, b, n in g])
            m = A.close(np.asarray(res[1])[ins] * hs[None, :, None], dw[ins] * hs[None, :, None], sc[ins][:, None, :])
            return ("derivatives: " + m) if m else None
        raise ValueError(kind)

    # -- generation
    KINDS = ("CubicSpline", "CubicSplines", "LinearSpline", "LinearSplines")

    def gen_values(self, r, spec, n_sp=None, lays=("C",), plain=False):
        k, multi = self.traits(spec["kind"])
        sh = list(spec["n"])
        if multi:
            n_sp = n_sp or r.choice([1, 1, 2, 2, 3, 4, 7] if r.random() < 0.93 else [9, 16, 17, 33])
            sh = sh + [n_sp]
        style = r.random()
        if style < 0.25:  # flat forms
            tot = 1
            for n in spec["n"]:
                tot *= n
            sh = [tot, n_sp] if multi else [tot]
        return {
            "s": r.randrange(1 << 40),
            "sh": sh,
            "k": r.choice(["normal"] * 6 + ["int", "big", "small", "step"] + (["mixed"] * 3 if multi else []) + ([] if plain else ["const", "zero"])),
            "lay": r.choice(lays),
            "dt": r.choice(["f8"] * 6 + ["f4", "i8"]) if not plain else "f8",
        }

    def gen_bad_values(self, r, spec):
        k, multi = self.traits(spec["kind"])
        how = r.choice(["size", "size", "nan", "inf", "ninf"] if k == 3 else ["size"])
        v = self.gen_values(r, spec, plain=True)
        v["lay"], v["dt"] = "C", "f8"
        if how == "size":
            sh = list(v["sh"])
            j = r.randrange(len(sh) - (1 if multi else 0))
            sh[j] = max(1, sh[j] + r.choice([-1, 1, 2]))
            tot, want = 1, 1
            for n in sh[: len(sh) - (1 if multi else 0)]:
                tot *= n
            for n in spec["n"]:
                want *= n
            if tot == want:
                sh[j] += 3
            v["sh"] = sh
            v["k"] = "normal"
        else:
            v["k"] = how
        return v

    def gen_points(self, r, big=False, lays=("C",)):
        N = r.choice([1, 2, 3, 5, 8, 8, 20])
        u = r.random()
        if u < 0.04:
            N = 0
        elif big and u < 0.10:
            N = r.choice([100, 257, 600, 1030, 2500, 5000])
        return {"s": r.randrange(1 << 40), "N": N, "w": r.choice(["mix", "mix", "mix", "in", "out", "edge", "same", "brink"]),
                "lay": r.choice(lays)}

    def gen_eval(self, r, spec, big=False, lays=("C",), diff=True):
        k, multi = self.traits(spec["kind"])
        ops = ["call", "call", "call1", "interp"]
        if spec["kind"] == "CubicSpline":
            ops += ["interp1", "out"]
        if spec["kind"] == "CubicSplines" and diff:
            ops += ["diff", "diff"]
        op = {"op": r.choice(ops), "p": self.gen_points(r, big, lays)}
        if op["op"] in ("call1", "interp1"):
            op["p"]["N"] = 1
        if r.random() < 0.3 and op["op"] not in ("call1", "interp1"):
            op["pslot"] = "p%d" % r.randrange(3)
            op["p"]["lay"] = "C"
        return op

    def gen_spec(self, r, d, kinds=None, with_values=None, lays=("C",), nmax=6):
        a, b, n = A.grid_dims(r, d, 2, nmax if d <= 2 else (5 if d == 3 else 4))
        if r.random() < 0.12:  # now and then a much finer grid
            j = r.randrange(d)
            n[j] = r.choice({1: [9, 17, 33, 64, 101, 200], 2: [9, 16, 25, 40], 3: [8, 11], 4: [6, 7]}[d])
        spec = {"fam": "spline", "kind": r.choice(kinds or self.KINDS), "a": a, "b": b, "n": n,
                "form": r.choice(["list", "tuple", "arr", "arr32"])}
        if with_values if with_values is not None else r.random() < 0.6:
            spec["v"] = self.gen_values(r, spec, lays=lays)
        return spec


# =============================================================================== complete polynomials


class Polys:
    name = "poly"

    def __init__(self):
        self.memo = Memo()

    def build(self, lib, spec, env):
        return lib.CompletePolynomial(spec["n"], spec["d"])

    def initial(self, spec):
        return ()

    def unset(self, state):
        return state == ()

    def samples(self, op, spec):
        v = op["s"]
        r = A.rng_of(v["s"])
        x = r.uniform(-1.2, 1.2, size=(v["N"], spec["n"]))
        if v.get("rel"):
            x = A.related(x, v["rel"])
        return A.layout(x, v.get("lay", "C"))

    def fit_of(self, spec, op):
        def go():
            Phi = M.complete_basis(self.samples(op, spec), spec["d"])
            return np.linalg.lstsq(Phi, np.asarray(A.values(op["x"]), float), rcond=None)[0]

        return self.memo.get_or(("F", id(spec), op["id"]), go)

    def coefs(self, spec, state):
        """state: ids of the accepted fits, from the last undamped one on"""

        def go():
            op = spec["_ops"][state[-1]]
            f = self.fit_of(spec, op)
            if op["damp"] == 0.0:
                return f
            return (1 - op["damp"]) * f + op["damp"] * self.coefs(spec, state[:-1])

        return self.memo.get_or(("C", id(spec), state), go)

    def magnitude(self, spec, state):
        """per column: size of everything that went into the coefficients (they may cancel)"""
        out = 0.0
        for i in state:
            op = spec["_ops"][i]
            x = np.abs(np.asarray(A.values(op["x"]), float))
            f = np.abs(self.fit_of(spec, op))
            out = out + x.reshape(x.shape[0], -1).max(axis=0) + f.reshape(f.shape[0], -1).max(axis=0)
        return out

    def apply(self, spec, state, op):
        if op["damp"] == 0.0:
            return (op["id"],)
        return tuple(state) + (op["id"],)

    def do(self, lib, obj, op, spec, env):
        if op["op"] in ("fit", "badfit"):
            s = env.slot(op.get("sslot"), self.samples(op, spec))
            x = env.slot(op.get("xslot"), A.values(op["x"]))
            env.given(s, "samples", op)
            env.given(x, "fitted values", op)
            if op["op"] == "badfit" and op["how"] == "nanpt":
                s = np.array(s)
                s[0, 0] = np.nan
            if "damp_pos" in op:
                obj.fit_values(s, x, op["damp"])
            elif op["damp"] == 0.0 and op.get("plain"):
                obj.fit_values(s, x)
            else:
                obj.fit_values(s, x, damp=op["damp"])
            return None
        s = env.slot(op.get("sslot"), self.samples(op, spec))
        if op.get("one"):
            s = s[0]
        env.given(s, "points", op)
        if op["op"] == "call":
            return obj(s)
        if op["op"] == "der":
            return obj.der(s, op["i"])
        raise ValueError(op["op"])

    def mismatch(self, spec, state, op, res):
        c = self.coefs(spec, state)
        s = self.samples(op, spec)
        if op.get("one"):
            s = s[:1]
        B = M.complete_basis(s, spec["d"]) if op["op"] == "call" else M.complete_basis_der(s, spec["d"], op["i"])
        want = B @ c
        sc = (np.abs(B) @ np.abs(c).reshape(c.shape[0], -1)).max(axis=0) + self.magnitude(spec, state)
        sc = sc if want.ndim == 2 else sc[0]
        if op.get("one"):
            want = want[0]
        return A.close(res, want, sc if np.ndim(sc) == 0 else np.broadcast_to(sc, want.shape)[None] if want.ndim == 1 else sc[None, :],
                       tol=1e-7)

    def gen_spec(self, r, nmax=3, dmax=5):
        n = r.choice([1, 2, 2, 3][: nmax + 1])
        d = r.choice([0, 1, 2, 2, 3, 3, 4, 5])
        while d > dmax or (n == 3 and d == 5 and r.random() < 0.7):
            d = r.choice([0, 1, 2, 3, 4, 5])
        if nmax >= 3 and r.random() < 0.05:
            n, d = r.choice([4, 5]), r.choice([0, 1, 2, 3])
        return {"fam": "poly", "n": n, "d": d}

    def nterms(self, spec):
        return len(M._complete_exps(spec["n"], spec["d"]))

    def gen_fit(self, r, spec, m, damp, N=None):
        T = self.nterms(spec)
        N = N or r.choice([2 * T + 3, 2 * T + 3, 3 * T + 6])
        if r.random() < 0.05:
            N = r.choice([2 * T + 40, 2 * T + 130, 2 * T + 600, 2 * T + 1500])
        op = {"op": "fit", "s": {"s": r.randrange(1 << 40), "N": N, "lay": r.choice(["C", "C", "F"])},
              "x": {"s": r.randrange(1 << 40), "sh": [N] if m is None else [N, m], "k": r.choice(["normal"] * 4 + ["int", "step"] + (["mixed"] * 2 if m else []))},
              "damp": damp}
        u = r.random()
        if u < 0.4:
            op["sslot"], op["s"]["lay"] = "s", "C"
        if 0.2 < u < 0.6:
            op["xslot"] = "x"
        if damp == 0.0 and r.random() < 0.5:
            op["plain"] = True
        return op

    def gen_bad(self, r, spec, m):
        op = self.gen_fit(r, spec, m, r.choice([0.0, 0.0, 0.5]))
        op["op"] = "badfit"
        op["how"] = r.choice(["size", "nan", "nanpt"])
        if op["how"] == "nanpt" and spec["d"] == 0:
            op["how"] = "size"
        op.pop("sslot", None)
        op.pop("xslot", None)
        if op["how"] == "size":
            op["x"]["sh"][0] += r.choice([-1, 1, 3])
        elif op["how"] == "nan":
            op["x"]["k"] = r.choice(["nan", "inf"])
        return op

    def gen_read(self, r, spec):
        op = {"op": r.choice(["call", "call", "der"]),
              "s": {"s": r.randrange(1 << 40), "N": r.choice([1, 2, 5, 9]) if r.random() < 0.94 else r.choice([33, 130, 600, 2100]), "lay": r.choice(["C", "C", "F"])}}
        if op["op"] == "der":
            op["i"] = r.randrange(spec["n"])
        if r.random() < 0.3:
            op["one"] = True
        elif r.random() < 0.3:
            op["sslot"], op["s"]["lay"] = "r", "C"
        return op


# =============================================================================== Smolyak


class SmolGrids:
    """one shared grid (spec["fam"]=="smolgrid") is not a register: it never changes"""

    name = "smolgrid"

    def build(self, lib, spec, env):
        mu = spec["mu"]
        if isinstance(mu, list):
            mu = np.array(mu) if spec["form"] != "list" else list(mu)
            if isinstance(mu, np.ndarray):
                env.given(mu, "levels")
        lb, ub = spec["lb"], spec["ub"]
        if isinstance(lb, list):
            f = "arr" if spec["form"] == "arr" else "list"
            lb, ub = form(lb, f), form(ub, f)
            if f == "arr" and spec.get("reuse"):
                lb, ub = env.slot("ctor-lb%d" % len(lb), lb), env.slot("ctor-ub%d" % len(ub), ub)
            if isinstance(lb, np.ndarray):
                env.given(lb, "lower bounds")
                env.given(ub, "upper bounds")
        if lb is None:
            return lib.SmolyakGrid(spec["dim"], mu)
        return lib.SmolyakGrid(spec["dim"], mu, lb, ub)

    @staticmethod
    def model(spec):
        d = spec["dim"]
        lb, ub = spec["lb"], spec["ub"]
        lb = [-1.0] * d if lb is None else (lb if isinstance(lb, list) else [lb] * d)
        ub = [1.0] * d if ub is None else (ub if isinstance(ub, list) else [ub] * d)
        return M.Smol(d, spec["mu"], lb, ub)

    def gen_spec(self, r, cheap=False):
        d = r.choice([2, 2, 2, 3] + ([] if cheap else [3, 4]))
        if r.random() < 0.55:
            mu = r.choice([1, 2, 2, 3] if d == 2 else ([1, 2, 2] if d == 3 else [1, 1, 2]))
        else:
            mu = [r.choice([1, 2, 3] if d == 2 else [1, 2]) for _ in range(d)]
        if not cheap and r.random() < 0.06:  # high levels, many dimensions
            d, mu = r.choice([(2, 4), (2, [4, 1]), (2, [1, 4]), (2, [2, 4]), (3, 3), (3, [1, 3, 2]), (3, [3, 1, 1]), (4, [2, 1, 3, 1]), (5, 1), (5, 2),
                              (5, [1, 2, 1, 1, 2]), (6, 1)])
        u = r.random()
        if u < 0.2:
            lb = ub = None
        elif u < 0.4:
            lb = float(round(r.uniform(-2, 1), 2))
            ub = lb + float(round(r.uniform(0.5, 3), 2))
        else:
            lb = [float(round(r.uniform(-2, 1), 2)) for _ in range(d)]
            ub = [x + float(round(r.uniform(0.5, 3), 2)) for x in lb]
        return {"fam": "smolgrid", "dim": d, "mu": mu, "lb": lb, "ub": ub, "form": r.choice(["arr", "arr", "list"])}


class SmolInterps:
    """spec: {"fam": "smol", "g": index of its grid object, "f": initial node values}"""

    name = "smol"

    def __init__(self):
        self.memo = Memo()

    def initial(self, spec):
        return ("init",)

    def unset(self, state):
        return False

    def apply(self, spec, state, op):
        return (op["id"],)

    def model(self, spec):
        return self.memo.get_or(("M", id(spec["_grid"])), lambda: SmolGrids.model(spec["_grid"]))

    def theta(self, spec, state):
        def go():
            v = spec["f"] if state == ("init",) else spec["_ops"][state[0]]["f"]
            f = np.asarray(A.values(v), float)
            return self.model(spec).fit(spec["_nodes"], f), np.abs(f).max() + 1e-9

        return self.memo.get_or(("T", id(spec), state), go)

    def do(self, lib, obj, op, spec, env):
        if op["op"] in ("update", "badupdate"):
            f = env.slot(op.get("slot"), A.values(op["f"]))
            env.given(f, "node values", op)
            obj.update_theta(f)
            return None
        P = env.slot(op.get("pslot"), self.pts(spec, op))
        env.given(P, "points", op)
        return obj.interpolate(P, **op["flags"])

    def pts(self, spec, op):
        m = self.model(spec)
        r = A.rng_of(op["p"]["s"])
        u = r.uniform(-1, 1, size=(op["p"]["N"], m.d))
        w = op["p"]["w"]
        if w == "corner":
            u = np.sign(u)
        elif w == "brink":  # next to the faces of the box, inside or outside
            u = np.where(r.random(u.shape) < 0.5, np.sign(u) * (1 - 10.0 ** -r.integers(7, 16, size=u.shape)
                                                               * r.choice([1.0, -1.0], size=u.shape)), u)
        elif w == "node" and len(m.cube):
            u = m.cube[r.integers(0, len(m.cube), size=u.shape[0])]
        elif w == "out":
            u = u * 1.25
        if op["p"].get("rel"):
            how, s, e = (list(op["p"]["rel"]) + [0, 0])[:3]
            r2 = A.rng_of(s)
            if how == "nudge":
                u = u + e * r2.standard_normal(u.shape)
            elif how == "cell":
                u[int(r2.integers(u.shape[0])), int(r2.integers(m.d))] += e
            elif how == "flip":
                u = np.ascontiguousarray(u[::-1])
            elif how == "roll":
                u = np.roll(u, 1, axis=0)
        return A.layout(m.to_dom(u), op["p"].get("lay", "C"))

    def mismatch(self, spec, state, op, res):
        m = self.model(spec)
        th, sc = self.theta(spec, state)
        P = self.pts(spec, op)
        fl = dict(interp=True, deriv=False, deriv_th=False, deriv_X=False)
        fl.update(op["flags"])
        want = []
        sc = float(np.abs(th).sum() + sc)
        Q = m.to_cube(P)
        # outside of the domain the polynomials grow quickly: the size of the terms that are added up at each point
        sizes = [np.abs(m.basis(Q, der=i)) for i in [None] + list(range(m.d))]
        grow = np.maximum(1.0, sizes[0].max(axis=1, initial=0.0)) + sum(b.max(axis=1, initial=0.0) for b in sizes[1:]) / 100
        sc = sc * grow
        if fl["interp"]:
            want.append(("value", m.value(th, P), sc))
        if fl["deriv"]:
            want.append(("gradient", m.grad(th, P), sc * 100 * grow * max(1.0, float((2 / (m.ub - m.lb)).max()))))
        if fl["deriv_th"]:
            B = m.basis(Q)
            want.append(("basis", B, 10.0 * grow))
        if fl["deriv_X"]:
            want.append(("weights", m.weights(spec["_nodes"], P), 1000.0 * grow))
        if not want:
            return None if isinstance(res, list) and not res else "expected an empty list"
        got = [res] if len(want) == 1 else res
        if not isinstance(res, list) and len(want) > 1:
            return "expected a list of %d results" % len(want)
        if len(got) != len(want):
            return "%d results, expected %d" % (len(got), len(want))
        for g, (n, w, s) in zip(got, want):
            if n == "basis":  # column order follows the grid's own enumeration of its polynomials
                perm = spec["_perm"]
                if np.shape(g) != w.shape:
                    return "basis: shape %s" % (np.shape(g),)
                w = w[:, match_columns(np.asarray(g, dtype=float), w) if perm is None else perm]
            e = A.close(g, w, s, tol=1e-9)
            if e:
                return n + ": " + e
        return None

    def gen_read(self, r, spec):
        fl = {}
        for k in ("interp", "deriv", "deriv_th", "deriv_X"):
            if k == "interp":
                if r.random() < 0.35:
                    fl[k] = r.random() < 0.4
            elif r.random() < 0.35:
                fl[k] = True
        if fl.get("interp") is False and not any(fl.get(k) for k in ("deriv", "deriv_th", "deriv_X")):
            fl["deriv_X"] = True
        op = {"op": "interp", "flags": fl,
              "p": {"s": r.randrange(1 << 40), "N": r.choice([1, 2, 4, 7]) if r.random() < 0.94 else r.choice([33, 130, 600]), "w": r.choice(["in", "in", "in", "corner", "brink", "node", "out"]),
                    "lay": r.choice(["C", "C", "F"])}}
        if r.random() < 0.35:
            op["pslot"], op["p"]["lay"] = "p", "C"
        return op

    def gen_f(self, r, T):
        return {"s": r.randrange(1 << 40), "sh": [T], "k": r.choice(["normal"] * 5 + ["int", "zero", "const"])}

    def gen_update(self, r, T, bad=False):
        op = {"op": "badupdate" if bad else "update", "f": self.gen_f(r, T)}
        if bad:
            op["f"]["sh"] = [T + r.choice([-1, 1, 2])]
        elif r.random() < 0.4:
            op["slot"] = "f"
        return op


def match_columns(g, w):
    """for each column of g, the nearest column of w not yet taken (the order is not documented)"""
    left, out = list(range(w.shape[1])), []
    for j in range(g.shape[1]):
        d = [float(np.nan_to_num(np.abs(w[:, i] - g[:, j]), nan=1e300, posinf=1e300).max(initial=0.0)) for i in left]
        out.append(left.pop(int(np.argmin(d))))
    return out


FAMS = {"spline": Splines, "poly": Polys, "smol": SmolInterps, "smolgrid": SmolGrids}
READS = {"call", "call1", "interp", "interp1", "diff", "out", "grid", "der"}
WRITES = {"set", "fit", "update"}
BADS = {"badset", "badfit", "badupdate", "badeval"}
