"""The same seeds twice, under other conditions: every run must take the same course event by event.

usage: tools/determinism.py [N] [PROP...]     (N runs of each shard, default 25)

First pass: 8 workers at a time, PYTHONHASHSEED=0.  Second pass: 3 workers at a time, PYTHONHASHSEED=4711, another scratch
directory, and the runs of a shard visited in one process all the same.  Compared per run: the hash of the event sequence
(thread, file:line, kind of every point) and the hash of the history (invocations, responses, statuses, result bits).
"""

import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import check  # noqa: E402


def passes(jobs, width, hashseed):
    scratch = tempfile.mkdtemp(prefix="det-")
    out, run, todo = {}, [], list(enumerate(jobs))
    try:
        while todo or run:
            while todo and len(run) < width:
                i, j = todo.pop(0)
                run.append((i, check.launch(j, scratch, "w%d" % i, hashseed)))
            for i, p in list(run):
                if p.poll() is not None:
                    run.remove((i, p))
                    r = check.result(p)
                    if p.returncode != 0 or r is None:
                        print("worker failed", jobs[i]["prop"], jobs[i]["shard"], check.tail(p))
                    out[i] = None if r is None else r["per_run"]
            time.sleep(0.1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def main():
    from sim import props

    a = sys.argv[1:]
    n = int(a.pop(0)) if a and a[0].isdigit() else 25
    bad = 0
    for prop in a or sorted(props.PROPS):
        jobs = [dict(j, count=n, soft=1e9, trace=True) for j in check.jobs_for(prop, "quick", 1)]
        t0 = time.time()
        x, y = passes(jobs, 8, "0"), passes(jobs, 3, "4711")
        total = sum(len(v or []) for v in x.values())
        diff = []
        for i in x:
            for r, s in zip(x[i] or [], y[i] or []):
                if r != s:
                    diff.append((jobs[i]["shard"], r[0], "schedule" if r[1] != s[1] else "results"))
            if x[i] is None or y[i] is None or len(x[i]) != len(y[i]):
                diff.append((jobs[i]["shard"], "length"))
        print("%s: %d runs twice, %d differ %s (%.0f s)" % (prop, total, len(diff), diff[:5], time.time() - t0), flush=True)
        bad += len(diff)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
