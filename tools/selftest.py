"""The simulator's own assumptions, checked quickly (setup_cmd): locks, deadlock detection, faults, recorded schedules."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sim import engine  # noqa: E402


def main():
    engine.install("/nonexistent-package")
    # 1. two threads that take two simulated locks in opposite order: some schedule deadlocks, and it is reported, not hung
    verdicts = set()
    for seed in range(40):
        a, b = engine.SimLock(False), engine.SimLock(False)

        def body(x, y):
            def go(th):
                with x:
                    engine._current.point("L")
                    with y:
                        pass

            return go

        s = engine.Sim(engine.Seeded(seed, "rand", 0.5))
        s.run([body(a, b), body(b, a)], False)
        verdicts.add(s.verdict)
        sw = s.switches
        a, b = engine.SimLock(False), engine.SimLock(False)
        t = engine.Sim(engine.Recorded(sw))
        t.run([body(a, b), body(b, a)], False)
        assert (t.verdict, t.trace, t.step) == (s.verdict, s.trace, s.step), "a recorded schedule replays exactly"
    assert verdicts == {None, "deadlock"}, verdicts
    # 2. a lost update is found by random and by PCT schedules
    for mode in ("rand", "pct"):
        hits = 0
        for seed in range(60):
            box = [0]

            def inc(th):
                v = box[0]
                engine._current.point("L")
                box[0] = v + 1

            engine.Sim(engine.Seeded(seed, mode, 0.3, 2, 4, 2)).run([inc, inc], False)
            hits += box[0] != 2
        assert 0 < hits < 60, (mode, hits)
    # 3. faults fire at the requested point
    got = []

    def faulty(th):
        s = engine._current
        s.begin(th, 1, {"kind": "interrupt", "at": 3})
        n = 0
        try:
            for _ in range(5):
                s.point("L")
                n += 1
        except KeyboardInterrupt:
            got.append(n)
        s.end(th)

    engine.Sim(engine.Recorded([])).run([faulty], False)
    assert got == [2], got
    print("self-test passed")


main()
