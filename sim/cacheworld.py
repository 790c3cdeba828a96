"""Process lives over one on-disk compile cache, with crashes, torn and lost files and disk errors (C07).

Seam: the names `open`, `os`, `uuid`, `tempfile` inside numba.core.caching (the only module that does the cache's I/O) are
replaced by proxies that count operations and deliver the planned fault.  A life is a restart of the package; a crash unwinds
the running call at an I/O operation and ends the life, so only what is in the directory survives.
"""

import builtins
import copy
import errno
import io
import os
import random
import shutil
import tempfile
import zlib

import numpy as np

from . import calls
from . import lib as libmod
from .callworld import GUARD, spec_key
from .world import Outcome, digest, snapshot


class Crash(BaseException):
    """the process dies here"""


class Disk:
    """the seam"""

    def __init__(self):
        self.fault, self.n, self.fired, self.log = None, 0, None, []
        self.n_own = 0  # operations on files that are not numba's cache entries
        self.root = None  # the cache directory of the current run

    def arm(self, fault):
        self.fault, self.n, self.n_own, self.fired = fault, 0, 0, None

    def tick(self, what, path):
        """one I/O operation"""
        self.n += 1
        own = not str(path).endswith((".nbi", ".nbc")) and ".nbi.tmp" not in str(path) and ".nbc.tmp" not in str(path)
        self.n_own += own
        f = self.fault
        if f is None or self.fired is not None:
            return None
        if (self.n_own != f["at"] or not own) if f.get("own") else self.n != f["at"]:
            return None
        self.fired = f
        self.log.append(f["kind"])
        if f["kind"] == "crash":
            raise Crash()
        if f["kind"] == "eio":
            raise OSError(errno.EIO, "injected I/O error", path)
        if f["kind"] == "eacces":
            raise PermissionError(errno.EACCES, "injected", path)
        return f["kind"]  # enospc / torn-crash: the caller writes a part first

    def open(self, path, mode="r", *a, **k):
        act = self.tick("open", path)
        if act == "tear":
            raise Crash()
        if act == "enospc":
            raise OSError(errno.ENOSPC if "w" in mode else errno.EIO, "injected", path)
        f = REAL_OPEN(path, mode, *a, **k)
        return File(self, f, path) if set(mode) & set("wax+") else f

    def mine(self, path):
        """does the path belong to the simulated disk?"""
        try:
            return self.root is not None and os.path.abspath(os.fspath(path)).startswith(self.root + os.sep)
        except TypeError:
            return False


REAL_OPEN, REAL_OS = builtins.open, {n: getattr(os, n) for n in ("replace", "rename", "makedirs", "mkdir")}


class File:
    def __init__(self, disk, f, path):
        self.disk, self.f, self.path = disk, f, path

    def write(self, data):
        act = self.disk.tick("write", self.path)
        if act in ("enospc", "tear"):
            self.f.write((data if isinstance(data, str) else bytes(data))[: len(data) // 2])
            self.f.flush()
            if act == "tear":
                raise Crash()
            raise OSError(errno.ENOSPC, "injected: no space left", self.path)
        return self.f.write(data)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, n):
        return getattr(self.f, n)


class OsProxy:
    def __init__(self, disk):
        self._d = disk

    def __getattr__(self, n):
        return getattr(os, n)

    def replace(self, a, b):
        act = self._d.tick("replace", b)
        if act == "tear":
            raise Crash()
        if act == "enospc":
            raise OSError(errno.ENOSPC, "injected", b)
        return REAL_OS["replace"](a, b)

    def makedirs(self, p, *a, **k):
        act = self._d.tick("makedirs", p)
        if act == "tear":
            raise Crash()
        if act == "enospc":
            raise OSError(errno.ENOSPC, "injected", p)
        return REAL_OS["makedirs"](p, *a, **k)


DISK = Disk()
_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import uuid

    from numba.core import caching

    class U:
        n = 0

        @staticmethod
        def uuid4():
            U.n += 1
            return uuid.UUID(int=U.n)

    caching.open = DISK.open
    caching.os = OsProxy(DISK)
    caching.uuid = U

    # files the library itself keeps in that directory (today: none) go through the same seam
    def opener(path, mode="r", *a, **k):
        return (DISK.open if DISK.mine(path) else REAL_OPEN)(path, mode, *a, **k)

    builtins.open = io.open = opener

    def wrap(name):
        real = REAL_OS[name]

        def go(*a, **k):
            path = a[1] if name in ("replace", "rename") and len(a) > 1 else a[0]
            if DISK.mine(path):
                act = DISK.tick(name, path)
                if act == "tear":
                    raise Crash()
                if act == "enospc":
                    raise OSError(errno.ENOSPC, "injected", path)
            return real(*a, **k)

        return go

    for n in ("replace", "rename", "mkdir"):
        setattr(os, n, wrap(n))


def set_dir(path):
    import numba

    numba.config.CACHE_DIR = path
    # a library that keeps files of its own keeps them on the same simulated disk
    os.environ["NUMBA_CACHE_DIR"] = path
    for k, d in (("HOME", "home"), ("XDG_CACHE_HOME", "home/.cache"), ("TMPDIR", "tmp")):
        os.environ[k] = os.path.join(path, d)
        os.makedirs(os.environ[k], exist_ok=True)
    tempfile.tempdir = None


def files(root):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def function_of(path):
    """index and data files of one function share this stem"""
    b = os.path.basename(path)
    if b.endswith(".nbi"):
        return path[:-4]
    if b.endswith(".nbc"):
        return path[:-4].rsplit(".", 1)[0]
    return path


class Run:
    def __init__(self, plan, worker):
        self.plan, self.w = copy.deepcopy(plan), worker

    def golden(self):
        """cache directory left by an earlier, undisturbed process that made every call of the menu"""
        w = self.w
        if getattr(w, "golden_dir", None) is None:
            from . import gen_cache

            w.golden_dir = tempfile.mkdtemp(prefix="golden-", dir=w.job["scratch"])
            set_dir(w.golden_dir)
            w.lib = libmod.restart()
            r = random.Random(5)
            for it in gen_cache.menu(self.plan["cfg"]):
                c = calls.gen_data(r, it)
                try:
                    R = calls.REG[c["call"]]
                    R.do(w.lib, c, R.inputs(c), None)
                except Exception:
                    pass  # judged in the runs, not here
        return w.golden_dir

    def go(self):
        install()
        plan, out = self.plan, Outcome()
        base = self.w.job["scratch"]
        if any(op["op"] == "golden" for t in plan["threads"] for op in t):
            self.golden()
        work = tempfile.mkdtemp(prefix="cache-", dir=base)
        hist, damage, starts = [], [], []
        torn = set()
        lives = 0
        DISK.log = []
        trace = 0
        try:
            set_dir(work)
            DISK.root = os.path.abspath(work)
            for life, ops in enumerate(plan["threads"] + ([plan["final"]] if plan.get("final") else [])):
                if life == len(plan["threads"]):
                    heal(work, torn)  # the faults have stopped and the damaged entries are gone
                for op in ops:  # what happened to the disk while no process was running
                    if op["op"] == "golden":
                        restore(self.golden(), work, op)
                        damage.append("warm")
                    elif op["op"] == "damage":
                        if hurt(work, op, torn):
                            damage.append(op["kind"])
                lives += 1
                lib = self.start(life, plan.get("faults", {}).get("start%d" % life), bool(torn), starts)
                if lib is None:
                    continue
                for op in ops:
                    if op["op"] != "call":
                        continue
                    rec = self.call(lib, op, plan.get("faults", {}).get(str(op["id"])), life)
                    rec["excused"] = bool(torn)
                    hist.append(rec)
                    trace = zlib.crc32(repr((op["id"], c_key(op), rec["status"], rec["io"])).encode(), trace)
                    if rec["status"] == "crashed":
                        break
        finally:
            DISK.arm(None)
            DISK.root = None
            shutil.rmtree(work, ignore_errors=True)
        P = []
        for r in starts:
            if r["status"] == "raised" and r["fired"] is None and not r["excused"]:
                P.append({"kind": "exception:" + r["exc"].split(":")[0], "msg": "the package cannot be imported in life %d: %s" % (
                    r["life"], r["exc"])})
        for r in hist:
            c = r["op"]["c"]
            if r["status"] == "raised" and r["fired"] is None and not r["excused"]:
                P.append({"kind": "exception:" + r["exc"].split(":")[0], "msg": "call %d (%s) in life %d raised %s" % (
                    r["op"]["id"], spec_key(c), r["life"], r["exc"])})
            if r["status"] == "ok":
                e = calls.REG[c["call"]].check(c, r["res"], r["bufs"])
                if e:
                    P.append({"kind": "wrong", "msg": "call %d (%s) in life %d: %s" % (r["op"]["id"], spec_key(c), r["life"], e)})
        out.problems = P
        out.plan = dict(plan, sched={"switches": []})
        out.trace = trace
        n_io = sum(r["io"] for r in hist + starts)
        out.stats = {"ops": len(hist), "io_operations": n_io, "process_lives": lives, "fired": list(DISK.log),
                     "damage": damage, "preemptions": 0, "overlap": 0, "rejected": 0,
                     "cut": sum(1 for r in hist if r["status"] == "crashed"),
                     "failed_with_error": sum(1 for r in hist if r["status"] == "raised"),
                     "calls": [r["op"]["c"]["call"] for r in hist]}
        out.events = [[r["op"]["id"], r["life"], r["io"], r["status"], (r["fired"] or {}).get("kind"),
                       digest(r["bufs"] if r["bufs"] is not None else r["res"])] for r in hist]
        return out

    def start(self, life, fault, excused, starts):
        """a process starts: the package is imported (None: it died or failed)"""
        rec = {"life": life, "status": "ok", "excused": excused}
        DISK.arm(fault)
        try:
            lib = self.w.lib = libmod.restart()
        except Crash:
            rec["status"], lib = "crashed", None
        except Exception as e:
            rec["status"], lib = "raised", None
            rec["exc"] = "%s: %s" % (type(e).__name__, " ".join(str(e).split())[-300:])
        rec["fired"], rec["io"] = DISK.fired, DISK.n
        DISK.arm(None)
        if rec["io"] or rec["status"] != "ok":
            starts.append(rec)
        return lib

    def call(self, lib, op, fault, life):
        c = op["c"]
        R = calls.REG[c["call"]]
        x = R.inputs(c)
        bufs = None
        if op.get("out") and R.outs(c):
            bufs = [np.full(s, GUARD) for s in R.outs(c)]
        rec = {"op": op, "life": life}
        res = None
        DISK.arm(fault)
        try:
            res = R.do(lib, c, x, bufs)
            rec["status"] = "ok"
        except Crash:
            rec["status"] = "crashed"
        except Exception as e:
            rec["status"] = "raised"
            rec["exc"] = "%s: %s" % (type(e).__name__, " ".join(str(e).split())[-300:])
        rec["fired"], rec["io"] = DISK.fired, DISK.n
        DISK.arm(None)
        rec["res"], rec["bufs"] = snapshot(res), bufs
        return rec


def restore(src, dst, op):
    """some of the functions have entries from earlier processes (index with all or some of its data files)"""
    r = random.Random(op["s"])
    stems = {}
    for p in files(src):
        stems.setdefault(function_of(p), []).append(p)
    for s in sorted(stems):
        if r.random() < op["p"]:
            for p in stems[s]:
                if not p.endswith(".nbi") and r.random() < op.get("lost", 0.0):
                    continue
                q = os.path.join(dst, os.path.relpath(p, src))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copyfile(p, q)


def hurt(work, op, torn):
    fs = files(work)
    if op.get("own"):
        fs = [q for q in fs if not q.endswith((".nbi", ".nbc"))]
    if not fs:
        return False
    # first the kind of file (index, data, something else), then the file
    kinds = {}
    for q in fs:
        kinds.setdefault(q.rsplit(".", 1)[-1] if q.endswith((".nbi", ".nbc")) else "", []).append(q)
    g = kinds[sorted(kinds)[op["which"] // 7 % len(kinds)]]
    p = g[op["which"] % len(g)]
    k = op["kind"]
    if k == "lose-data":
        ds = [q for q in fs if not q.endswith(".nbi")]
        if not ds:
            return False
        os.unlink(ds[op["which"] % len(ds)])
    elif k == "lose-entry":
        s = function_of(p)
        for q in fs:
            if function_of(q) == s:
                os.unlink(q)
    elif k == "lose-all":
        for q in fs:
            os.unlink(q)
    elif k == "stray-tmp":
        with REAL_OPEN(p + ".tmp.0123456789abcdef", "wb") as f:
            f.write(b"\x80\x05half")
    else:  # tear / empty: a file that was renamed into place before its blocks reached the disk
        n = os.path.getsize(p)
        with REAL_OPEN(p, "r+b") as f:
            f.truncate(0 if k == "empty" else random.Random(op["which"]).randrange(max(1, n)))
        torn.add(p)
    return True


def heal(work, torn):
    for p in list(torn):
        s = function_of(p)
        for q in files(work):
            if function_of(q) == s:
                os.unlink(q)
        torn.discard(p)


def c_key(op):
    return op["c"]["call"], op["c"]["s"]


def run(plan, worker):
    return Run(plan, worker).go()
