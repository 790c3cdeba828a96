#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  python3 check.py C02 [--tier quick|thorough]      exit 0: held on everything explored
                                                    exit 1: VIOLATION property=C02 replay=<file>
                                                    other:  the check itself failed
  python3 check.py --replay FILE                    runs a replay file in a fresh process

Runs from /verif, drives the code in /repo's working tree.  VERIF_SEED selects every random choice.
"""

import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
if os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(PY))):
    os.execv(PY, [PY] + sys.argv)  # the interpreter that has numba
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def worker_env(scratch, extra, hashseed="0"):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("NUMBA_", "PYTHON", "MALLOC_"))}
    env.update(
        PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", PYTHONPATH=HERE,
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        HOME=os.path.join(scratch, "home"), XDG_CACHE_HOME=os.path.join(scratch, "home"), TMPDIR=os.path.join(scratch, "tmp"),
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", LANG="C.UTF-8",
    )
    env.update(extra)
    return env


def launch(job, scratch, name, hashseed="0"):
    d = os.path.join(scratch, name)
    for x in ("numba", "home", "tmp"):
        os.makedirs(os.path.join(d, x), exist_ok=True)
    job = dict(job, out=os.path.join(d, "out.json"), progress=os.path.join(d, "progress"), scratch=d)
    path = os.path.join(d, "job.json")
    json.dump(job, open(path, "w"))
    p = subprocess.Popen(
        [PY, "-m", "sim.worker", path], cwd=HERE, env=worker_env(d, job.get("env", {}), hashseed),
        stdout=open(os.path.join(d, "log"), "w"), stderr=subprocess.STDOUT, start_new_session=True,
    )
    p.dir, p.job, p.t0 = d, job, time.time()
    return p


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def wait(p, timeout):
    try:
        return p.wait(timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return "timeout"


def result(p):
    try:
        return json.load(open(p.job["out"]))
    except Exception:
        return None


def tail(p, n=25):
    try:
        return "".join(open(os.path.join(p.dir, "log")).readlines()[-n:])
    except OSError:
        return ""


def jobs_for(prop, tier, seed):
    from sim import props

    P = props.PROPS[prop]
    shards = P.quick if tier == "quick" else (P.thorough or props.scale(P.quick, 12))
    soft = float(os.environ.get("DST_SOFT", P.soft if tier == "quick" else 780))
    return [
        {"prop": prop, "shard": "%s%d" % (tier[0], i), "seed": seed, "cfg": s["cfg"], "count": s["count"], "env": s["env"],
         "soft": soft, "min_budget": 40}
        for i, s in enumerate(shards)
    ]


def replay_job(rep):
    return {"mode": "replay", "prop": rep["property"], "shard": "replay", "seed": rep.get("seed", 0), "cfg": rep.get("cfg", {}),
            "count": 0, "env": rep["env"], "soft": 1e9, "plans": rep["plans"]}


def verify(rep, scratch, name, timeout=300):
    """fresh process: (reproduced?, problems)"""
    if rep.get("expect") in ("crash", "hang"):
        p = launch(replay_job(rep), scratch, name)
        rc = wait(p, rep.get("timeout", timeout))
        if rc == "timeout":
            return rep["expect"] == "hang", [{"kind": "hang", "msg": "no answer"}]
        return rep["expect"] == "crash" and isinstance(rc, int) and rc < 0, [{"kind": "crash", "msg": "signal %s" % rc}]
    p = launch(replay_job(rep), scratch, name)
    rc = wait(p, timeout)
    r = result(p)
    if rc != 0 or r is None:
        return False, [{"kind": "harness", "msg": "replay ended with %s\n%s" % (rc, tail(p))}]
    want = rep["problem"]["kind"]
    r["problems"].sort(key=lambda q: q["kind"] != want)
    return bool(r["problems"]), r["problems"]


def prefix_plans(job, ks):
    """plans of a shard are a pure function of the seed: regenerate them"""
    out = subprocess.run(
        [PY, "-c", "import sys,json;from sim import props,worker;j=json.load(sys.stdin);"
         "print(json.dumps([props.PROPS[j['prop']].gen(worker.seed_of(j['seed'],j['prop'],j['shard'],k),j['cfg']) for k in j['ks']]))"],
        input=json.dumps(dict(job, ks=ks)), cwd=HERE, env=worker_env("/nonexistent", {}), capture_output=True, text=True, check=True)
    return json.loads(out.stdout)


def settle(prop, job, v, scratch, evid, deadline):
    """turn a worker's violation into a replay file that fails again in a fresh process"""
    base = {"property": prop, "seed": job["seed"], "shard": job["shard"], "cfg": job["cfg"], "env": job["env"],
            "problem": v["problems"][0], "kind": v["kind"]}
    tries = [("minimised", [v["plan"]])]
    if v["plan"] != v["original"]:
        tries.append(("as found", [v["original"]]))
    for what, plans in tries:
        rep = dict(base, plans=plans, form=what, minimiser=v.get("minimiser"), size_before=v.get("size_before"),
                   size_after=v.get("size_after"))
        ok, probs = verify(rep, scratch, "verify-%s-%s" % (job["shard"], what.replace(" ", "")))
        if ok:
            rep["problem"] = probs[0]
            return write_replay(evid, prop, job, rep)
    # depends on what earlier runs of the same process left behind: replay the whole prefix
    ks = v["prefix"]
    for n in (2, 5, 20, len(ks)):
        if n > len(ks) and n != len(ks) or time.time() > deadline:
            continue
        rep = dict(base, plans=prefix_plans(job, ks[-n:]), form="last %d runs of the process" % n)
        ok, probs = verify(rep, scratch, "verify-%s-p%d" % (job["shard"], n), max(60, deadline + 60 - time.time()))
        if ok:
            rep["problem"] = probs[0]
            return write_replay(evid, prop, job, rep)
    return None


def write_replay(evid, prop, job, rep):
    os.makedirs(os.path.join(evid, "replays"), exist_ok=True)
    h = hashlib.sha1(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(evid, "replays", "%s-%s-%s.json" % (prop, job["shard"], h))
    json.dump(rep, open(path, "w"), indent=1)
    return path, rep


def run_check(prop, tier, seed):
    from sim import props

    evid = os.path.join(HERE, "evidence")
    os.makedirs(evid, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="dst-%s-" % prop)
    t0 = time.time()
    ncpu = min(8, os.cpu_count() or 1)
    queue = jobs_for(prop, tier, seed)
    njobs = len(queue)
    running, finished, errors = [], [], []
    violations = []  # (job, v)
    stall = float(os.environ.get("DST_STALL", "240"))
    try:
        while queue or running:
            while queue and len(running) < ncpu and not violations:
                j = queue.pop(0)
                running.append(launch(j, scratch, j["shard"]))
            if violations:
                queue = []
            time.sleep(0.1)
            for p in list(running):
                rc = p.poll()
                if rc is None:
                    pr = p.job["progress"]
                    last = os.path.getmtime(pr) if os.path.exists(pr) else p.t0
                    if time.time() - last > stall + p.job["min_budget"]:
                        kill(p)
                        rc = "hang"
                    elif violations and time.time() - violations_at > 20:
                        kill(p)  # enough: another worker has already found a violation
                        running.remove(p)
                        continue
                    else:
                        continue
                running.remove(p)
                r = result(p)
                if rc == 0 and r is not None:
                    finished.append((p.job, r))
                    if r["violation"]:
                        if not violations:
                            violations_at = time.time()
                        violations.append((p.job, r["violation"]))
                    continue
                k = None
                try:
                    k = int(open(p.job["progress"]).read())
                except Exception:
                    pass
                if k is not None and (rc == "hang" or (isinstance(rc, int) and rc < 0 and rc not in (-9, -15))):
                    what = "hang" if rc == "hang" else "crash"
                    v = {"k": k, "kind": what, "problems": [{"kind": what, "msg": "the process %s during run %d (%s)" % (
                        "hung" if what == "hang" else "was killed by signal %s" % rc, k, tail(p, 6).strip()[-300:])}],
                        "prefix": list(range(k + 1))}
                    if not violations:
                        violations_at = time.time()
                    violations.append((p.job, v))
                else:
                    errors.append("worker %s ended with %s\n%s" % (p.job["shard"], rc, tail(p)))
        reported = None
        unreproduced = []
        deadline = max(t0 + 600, time.time() + 150) if tier == "quick" else time.time() + 1800
        for job, v in violations:
            if v["kind"] in ("crash", "hang"):
                for n in (1, len(v["prefix"])):
                    rep = {"property": prop, "seed": seed, "shard": job["shard"], "cfg": job["cfg"], "env": job["env"],
                           "plans": prefix_plans(job, v["prefix"][-n:]), "problem": v["problems"][0], "expect": v["kind"],
                           "timeout": 150, "form": "last %d runs" % n}
                    ok, probs = verify(rep, scratch, "verify-%s-%d" % (job["shard"], n))
                    if ok:
                        reported = write_replay(evid, prop, job, rep)
                        break
            else:
                reported = settle(prop, job, v, scratch, evid, deadline)
            if reported:
                break
            unreproduced.append((job, v))
        hung = [v["problems"][0] for _, v in unreproduced if v["kind"] == "hang"]
        unreproduced = [e for e in unreproduced if e[1]["kind"] != "hang"]  # (a machine under load may look like that)
        if not reported and unreproduced:
            # the answer was wrong, but depends on something outside the run (an address, say): the file holds what was done
            job, v = unreproduced[0]
            rep = {"property": prop, "seed": seed, "shard": job["shard"], "cfg": job["cfg"], "env": job["env"], "kind": v["kind"],
                   "plans": prefix_plans(job, v["prefix"]), "problem": v["problems"][0], "reproduced": False,
                   "form": "all %d runs of the process; not reproduced so far" % len(v["prefix"])}
            reported = write_replay(evid, prop, job, rep)
        wall = time.time() - t0
        write_evidence(prop, tier, seed, finished, njobs, wall, 1 if reported else 0, evid)
        if reported:
            path, rep = reported
            print("property %s: %s" % (prop, rep["problem"]["msg"]))
            print("replay: %s (%s); plan: %s" % (path, rep["form"], json.dumps(rep["plans"][-1])[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if hung:
            print("ERROR: a worker gave no answer, and does in a fresh process: %s" % hung, file=sys.stderr)
            return 2
        if errors:
            print("ERROR: %d worker(s) failed\n%s" % (len(errors), errors[0]), file=sys.stderr)
            return 2
        runs = sum(r["runs"] for _, r in finished)
        print("property %s held: %d simulated runs in %.0f s (seed %d, %s)" % (prop, runs, wall, seed, tier))
        return 0
    finally:
        for p in running:
            kill(p)
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(prop, tier, seed, finished, njobs, wall, nviol, evid):
    from sim import props

    P = props.PROPS[prop]
    tot, traces, runs, samples, worker_s = {}, set(), 0, [], 0.0
    for job, r in finished:
        runs += r["runs"]
        traces.update(r["traces"])
        worker_s += r.get("wall", 0.0)
        samples += r["samples"][:1]
        for k, v in r["stats"].items():
            if isinstance(v, dict):
                d = tot.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            else:
                tot[k] = tot.get(k, 0) + v
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(traces),
        "rule": P.rule,
        "samples": samples[:3],
        "workers": njobs,
        "seeds_per_hour": round(runs / wall * 3600),
        "simulated_time": "not applicable: the code has no clock or timer; progress is counted in scheduling points",
        "operations": tot.get("ops", 0),
        "scheduling_points": tot.get("points", 0),
        "preemptions": tot.get("preemptions", 0),
        "overlapping_operation_pairs": tot.get("overlap", 0),
        "faults_fired": tot.get("fired", {}),
        "updates_rejected": tot.get("rejected", 0),
        "operations_cut_short": tot.get("cut", 0),
        "real_components": "all of /repo/interpolation, numba, numpy, scipy, CPython threads",
        "stubbed_components": "thread scheduling (baton), numba's global compiler lock and threading.Lock/RLock created by "
                              "the library (simulated locks)",
    }
    for k, v in tot.items():
        if k not in ("ops", "points", "preemptions", "overlap", "fired", "rejected", "cut", "nontrivial_runs"):
            cov[k] = v if not isinstance(v, dict) or len(v) <= 40 else {"distinct": len(v), "uses": sum(v.values())}
    cov.update(getattr(P, "extra_coverage", {}))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": list(getattr(P, "assumptions", ())) + [
              "preemption happens between executed lines / calls of library code; a compiled kernel is atomic (it holds the GIL)",
              "the reference model in sim/model.py"],
          "wall_s": round(wall, 2), "violations": nviol}
    json.dump(ev, open(os.path.join(evid, prop + ".json"), "w"), indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        rep = json.load(open(a.replay))
        scratch = tempfile.mkdtemp(prefix="dst-replay-")
        try:
            ok, probs = verify(rep, scratch, "replay", 900)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        for q in probs:
            print("%s: %s" % (q["kind"], q["msg"]))
        if ok:
            print("VIOLATION property=%s replay=%s" % (rep["property"], os.path.abspath(a.replay)))
            return 1
        print("not reproduced")
        return 0 if all(q["kind"] != "harness" for q in probs) else 2
    return run_check(a.prop, "thorough" if a.tier == "thorough" else "quick", a.seed)


if __name__ == "__main__":
    sys.exit(main())
