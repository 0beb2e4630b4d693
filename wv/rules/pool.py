"""Worker pools: jobs are moved, never lost or duplicated (P16), panics are contained (P17), workers are bounded (P19)."""
from .common import *

SEND = ("std::sync::mpsc::SyncSender::<T>::try_send", "std::sync::mpsc::SyncSender::<T>::send", "std::sync::mpsc::Sender::<T>::send")
RECV = ("std::sync::mpsc::Receiver::<T>::recv", "std::sync::mpsc::Receiver::<T>::recv_timeout", "std::sync::mpsc::Receiver::<T>::try_recv")
ITER = ("std::sync::mpsc::Iter::next", "std::sync::mpsc::IntoIter::next", "std::sync::mpsc::TryIter::next")
SPAWN = ("std::thread::spawn", "std::thread::Builder::spawn")
CALL = ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")


def received(e):
    """what a receive from the queue of a worker gave: the job, "end" when it failed, None for other events"""
    if e.kind != "call" or e.ret is None:
        return None
    if e.name in RECV:
        return e.ret.a[2][0] if e.ret.k == "agg" and e.ret.a[1] == 0 else "end" if e.ret.k == "agg" else None
    if e.name in ITER:
        return e.ret.a[2][0] if e.ret.k == "agg" and e.ret.a[1] == 1 else "end" if e.ret.k == "agg" else None
    return None


class Submit(Monitor):
    """how many workers the submitted job was handed to, and whether it was dropped"""
    def __init__(self, job):
        self.job = job

    def init(self):
        return (0, 0)

    def event(self, m, e, st, eng):
        h, d = m
        if e.kind == "call" and e.name in SEND and len(e.args) > 1 and e.args[1] is self.job:
            if e.ret is not None and e.ret.k == "agg" and e.ret.a[1] == 0:
                h += 1
        elif e.kind == "call" and e.name in SPAWN:
            v = e.args[-1]
            if holds(eng, st, v, self.job):
                h += 1
        elif e.kind == "invoke" and e.args and e.args[0] is self.job:
            h += 2      # run by the thread that submits it, not by a worker
        elif e.kind == "drop" and e.args and e.args[0] is self.job:
            d += 1
        return (min(h, 2), min(d, 2))


def holds(eng, st, v, x, d=0):
    """value v owns x (through boxes and captured fields)"""
    if v is x:
        return True
    if d > 6:
        return False
    if v.k == "agg":
        return any(holds(eng, st, y, x, d + 1) for y in v.a[2])
    if v.k == "ref" and v.a[0][0] == "H":
        return holds(eng, st, eng.load(st, v.a[0], v.a[1]), x, d + 1)
    if v.k == "upd":
        return any(holds(eng, st, y, x, d + 1) for _, y in v.a[1])
    return False


class Worker(Monitor):
    """a job received by a worker (or given at its start) is called exactly once: the state is the set of jobs
    received and not yet called, plus markers of what went wrong"""
    def __init__(self, first, elem):
        self.first = tuple(first)
        self.elem = elem        # type of the queued jobs

    def init(self):
        return self.first

    def event(self, m, e, st, eng):
        j = received(e)
        if j is not None:
            m = tuple(x for x in m if x.k != "s" or x.a[0] != "quits")
            if not rendezvous(eng, st, e) and mk("s", "queue") not in m:
                m += (mk("s", "queue"),)
        if j == "end" and e.name.endswith(("::recv_timeout", "::try_recv", "TryIter::next")) and not (e.ret.a[2] and e.ret.a[2][0].k == "agg" and e.ret.a[2][0].a[1] == 1):
            # gives up waiting while its queue is still open: a job that arrives now is lost unless the queue holds none
            if not rendezvous(eng, st, e):
                return m + (mk("s", "quits"),)
        if j is not None and j != "end":
            if any(x.k != "s" and x is not j for x in m):
                return bad(m, "a job is received before the previous one was run")
            return m + (j,)
        if e.kind == "invoke" and e.name in CALL and e.args:
            if e.args[0] in m:
                return tuple(x for x in m if x is not e.args[0])
            return m
        if e.kind == "drop" and e.args and e.args[0] in m:
            return bad(tuple(x for x in m if x is not e.args[0]), "a job is dropped without being run")
        return m


def rendezvous(eng, st, e):
    """the queue that the event e receives from holds no job"""
    q = e.args[0] if e.args else None
    for _ in range(8):
        if q is None:
            return False
        if q.k == "ref":
            q = eng.deref(st, q)
        elif q.k == "ret" and re.search(r"Receiver::<T>::(iter|try_iter)$|IntoIterator::into_iter$", str(q.a[0])) and q.a[2]:
            q = q.a[2][0]
        else:
            break
    r = q.a[1] if q.k == "app" and q.a[0] == "receiver" else None
    return r is not None and r.k == "ret" and r.a[0].endswith("::sync_channel") and bool(r.a[2]) and r.a[2][0] is I(0)


def bad(m, why):
    s = mk("s", "bad: " + why)
    return m if s in m else m + (s,)


def jobs_in(eng, st, v, d=0):
    """boxed jobs owned by a closure value (captured)"""
    out = []
    if d > 5:
        return out
    if v.k == "agg":
        for x in v.a[2]:
            if x.k == "arg":
                out.append(x)
            else:
                out += jobs_in(eng, st, x, d + 1)
    return out


def roots(P, rep):
    T = r"^wruster::thread_pool::"
    return {
        "static.new": fn1(P, rep, T + r"static_pool::Static::new$"),
        "static.run": fn1(P, rep, T + r"static_pool::Static::run$"),
        "dynamic.new": fn1(P, rep, T + r"dynamic_pool::Dynamic::new$"),
        "dynamic.run": fn1(P, rep, T + r"dynamic_pool::Dynamic::run$"),
        "pool.new": fn1(P, rep, T + r"Pool::new$"),
        "pool.run": fn1(P, rep, T + r"Pool::run$"),
    }


JOB = mk("arg", 1)


def submit_runs(P, rep, R):
    """engines of the three entry points a job goes through"""
    out = []
    for k in ("static.run", "dynamic.run", "pool.run"):
        if R[k] is None:
            continue
        e = Engine(P, monitors=[Submit(JOB)], poison=False)
        e.run(R[k])
        rep.engine(e, R[k])
        out.append((k, R[k], e))
    return out


def workers(P, rep, R, subs):
    """[(what, Fn, closure value, state, byref)] of every worker thread the pools start"""
    out = []
    engines = list(subs)
    for k in ("static.new", "dynamic.new"):
        if R[k] is None:
            continue
        e = Engine(P, poison=False)
        e.run(R[k])
        rep.engine(e, R[k])
        engines.append((k, R[k], e))
    seen = set()
    for k, f, e in engines:
        for wf, v, st, ev, byref in spawned_bodies(e):
            if wf is None:
                rep.bad("worker-body", k, "the body of a worker thread cannot be resolved", ev.where())
                continue
            key = (wf.key, v)
            if key in seen:
                continue
            seen.add(key)
            out.append((k, wf, v, st, byref, ev, e))
    return out


def names_unit(P):
    return None


class Counted(Monitor):
    """each target event is guarded by a passed test `i < bound` of a counter that starts at 0 and grows by one per event"""
    def __init__(self, target, bound):
        self.target, self.bound = target, bound

    def init(self):
        return (I(0), False)

    def event(self, m, e, st, eng):
        n, armed = m[0], m[1]
        t = truth(e)
        if t is not None:
            op, x, y, h = t
            o = None
            if op == "Lt" and y is self.bound and h:
                o = x
            elif op == "Eq" and not h and self.bound in (x, y):
                o = x if y is self.bound else y
            if o is not None and (o is n or (o.k == "app" and o.a[0] == "len")):
                return (n, True) + m[2:]
        if self.target(e):
            r = (lin(n, 1), False) + m[2:]
            return r if armed else bad(r, "unguarded")
        return m
