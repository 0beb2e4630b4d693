"""P17: a panic inside a job is contained: no worker thread dies of it, no slot is lost, no shared lock is left poisoned."""
from .common import *
from . import pool


class Alive(Monitor):
    """0: no failed receive since the last job; 1: the last receive failed"""
    def init(self):
        return ("run",)

    def event(self, m, e, st, eng):
        got = pool.received(e)
        return m if got is None else ("end",) if got == "end" else ("run",)


def run(P, rep):
    rep.rules += ["every worker thread body is analysed with every job call allowed to panic: the panic does not leave the thread body, and the "
                  "thread ends only after a receive failed (its pool is gone or it idled), never because of a job",
                  "no lock guard is live across a job call in a worker (a panicking job cannot poison shared state)"]
    R = pool.roots(P, rep)
    subs = pool.submit_runs(P, rep, R)
    ws = pool.workers(P, rep, R, subs)
    rep.floor("worker thread bodies", len({w[1].key for w in ws}), 2)
    for k, wf, v, st, byref, ev, e0 in ws:
        e = Engine(P, monitors=[Alive(), Held()], poison=False, unwinds=lambda c, x: x.kind == "invoke" and x.name in pool.CALL)
        run_closure(e, v, st, wf, byref)
        rep.engine(e, wf)
        sites = {(x.ctx, x.block) for x in e.all_events() if x.kind == "unwind"}
        rep.floor("job calls that may panic in " + k, len(sites), 1)
        for n in e.ends:
            if n.kind == "unwound":
                rep.bad("contained", k + ":unwound", "worker started by %s: a panicking job ends the worker thread" % k, ev.where(), short(e.path_to(n)))
            elif n.kind == "return":
                rep.check("ends", n.st.mon[0] == ("end",), k, "worker started by %s: the thread ends after a job without a failed receive" % k,
                          ev.where(), short(e.path_to(n)))
        held = [n for n in e.nodes if "bad" in n.st.mon[1]]
        rep.check("unlocked", not held, k, "worker started by %s: a job is called while a lock is held" % k, ev.where(), short(e.path_to(held[0])) if held else ())


class Held(Monitor):
    """number of lock guards alive"""
    def init(self):
        return (0,)

    def event(self, m, e, st, eng):
        n = m[0]
        if e.kind == "lock" and e.name.startswith("std::sync::"):
            return (min(n + 1, 4),) + m[1:]
        if e.kind == "drop" and ("MutexGuard<" in e.name.split("::")[-1] or e.name.startswith(("std::sync::MutexGuard<", "std::sync::RwLock"))) and "Guard<" in e.name.split("<")[0] + "<":
            return (max(n - 1, 0),) + m[1:]
        if e.kind == "invoke" and e.name in pool.CALL and n > 0 and "bad" not in m:
            return m + ("bad",)
        return m
