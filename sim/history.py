"""Linearizability of a history of one object against its sequential model.

Entries: dict(inv, ret, what, op, res).  what: "read" (must match), "write" (took effect),
"maybe" (cut short: took effect completely, or not at all).  Rejected calls are not in the history.
"""


class TooLong(Exception):
    pass


class Lineage:
    """several objects, copies of them and saved states of them, as one sequential object

    A state has one entry per member (object number or slot name): the state of that member, or None while it does not exist.
    """

    def __init__(self, members, fam_of, spec_of):
        self.members = sorted(members, key=str)
        self.at = {m: i for i, m in enumerate(self.members)}
        self.fam_of, self.spec_of = fam_of, spec_of

    def initial(self, spec):
        return tuple(None if isinstance(m, str) or not hasattr(self.fam_of(m), "initial") else self.fam_of(m).initial(self.spec_of(m)) for m in self.members)

    def apply(self, spec, state, op):
        s = list(state)
        if op["op"] == "save":
            for k, o in enumerate(op["os"]):
                s[self.at["%s.%d" % (op["slot"], k)]] = state[self.at[o]]
        elif op["op"] == "load":
            for k, o in enumerate(op["to"]):
                if o is not None:
                    s[self.at[o]] = state[self.at["%s.%d" % (op["slot"], k)]]
        else:
            o = op["o"]
            s[self.at[o]] = self.fam_of(o).apply(self.spec_of(o), state[self.at[o]], op)
        return tuple(s)

    def unset(self, state):
        return False

    def unset_for(self, state, op):
        return self.fam_of(op["o"]).unset(state[self.at[op["o"]]])

    def mismatch(self, spec, state, op, res):
        o = op["o"]
        return self.fam_of(o).mismatch(self.spec_of(o), state[self.at[o]], op, res)

    def name(self, state, op):
        return name(state[self.at[op["o"]]])


def _unset(fam, state, op):
    f = getattr(fam, "unset_for", None)
    return f(state, op) if f else fam.unset(state)


def linearize(fam, spec, entries, limit=200000):
    """None if some order explains the history, else a description of what cannot be explained"""
    n = len(entries)
    entries = sorted(entries, key=lambda e: e["inv"])
    before = []  # bitmask of entries that must come earlier
    for e in entries:
        m = 0
        for j, f in enumerate(entries):
            if f["ret"] < e["inv"]:
                m |= 1 << j
        before.append(m)
    cache = {}
    why = {}

    def match(j, state):
        key = (j, state)
        if key not in cache:
            e = entries[j]
            if e["op"]["op"] != "grid" and _unset(fam, state, e["op"]):
                r = "no values were set yet"
            else:
                r = fam.mismatch(spec, state, e["op"], e["res"])
            cache[key] = r
        return cache[key]

    full = (1 << n) - 1
    seen = set()
    best = [-1, None]
    stack = [(0, fam.initial(spec))]
    while stack:
        mask, state = stack.pop()
        if mask == full:
            return None
        if (mask, state) in seen:
            continue
        seen.add((mask, state))
        if len(seen) > limit:
            raise TooLong()
        c = bin(mask).count("1")
        stuck = []
        for j in range(n):
            if mask >> j & 1 or before[j] & ~mask:
                continue
            e = entries[j]
            nm = mask | 1 << j
            if e["what"] == "read":
                r = match(j, state)
                if r is None:
                    stack.append((nm, state))
                else:
                    stuck.append((j, state, r))
            elif e["what"] == "write":
                stack.append((nm, fam.apply(spec, state, e["op"])))
            else:
                stack.append((nm, state))
                if not (e["op"].get("damp") and _unset(fam, state, e["op"])):
                    stack.append((nm, fam.apply(spec, state, e["op"])))
        if stuck and c > best[0]:
            best = [c, stuck[0]]
    if best[1] is None:
        return {"kind": "history", "msg": "no order of the operations explains the history"}
    j, state, r = best[1]
    e = entries[j]
    if isinstance(fam, Lineage):
        return {"kind": "wrong", "msg": "operation %d (%s on object %d) should answer for %s: %s" % (
            e["op"]["id"], e["op"]["op"], e["op"]["o"], fam.name(state, e["op"]), r)}
    # does any version at all explain this read?
    states = [fam.initial(spec)] + [(f["op"]["id"],) for f in entries if f["what"] != "read"]
    other = None
    for s in states:
        if s == state or fam.unset(s):
            continue
        try:
            if match(j, s) is None:
                other = s
                break
        except Exception:
            pass
    msg = "operation %d (%s on object %d) should answer for %s: %s" % (
        e["op"]["id"], e["op"]["op"], e["op"]["o"], name(state), r)
    if other is not None:
        msg += "; it answers for %s" % name(other)
    return {"kind": "stale" if other is not None else "wrong", "msg": msg}


def name(state):
    if state is None or state == ():
        return "nothing"
    if state == ("init",):
        return "the initial values"
    return "the values of operation(s) %s" % (",".join(map(str, state)))
