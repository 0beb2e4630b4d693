"""P18: dropping a pool lets its workers finish: the queue is closed first, then every worker thread is joined."""
from .common import *
from .p23 import forgotten
from . import pool

JOIN = "std::thread::JoinHandle::<T>::join"


class Order(Monitor):
    def init(self):
        return ()

    def event(self, m, e, st, eng):
        if e.kind == "drop" and re.match(r"(std::option::Option<)?std::sync::mpsc::(Sync)?Sender<", e.name) and "closed" not in m:
            return m + ("closed",)
        if e.kind == "call" and e.name == JOIN:
            if "closed" not in m:
                return mark(m + ("join",), "a worker is joined while its queue is still open (it never ends)")
            return m + ("join",) if m.count("join") < 2 else m
        return m


def run(P, rep):
    forgotten(P, rep, r"wruster::thread_pool::")
    rep.rules += ["every destructor of a worker (a type of the pools that owns a thread handle): the sending half of its queue is dropped before the thread is joined, "
                  "and the thread is joined on every path",
                  "the pool, the fixed pool and the on demand pool own their workers (dropping the pool drops them): each type's fields reach the worker types"]
    ds = fns(P, r"^<wruster::thread_pool::.* as std::ops::Drop>::drop$")
    owners = []
    for f in ds:
        t = f.name[1:].split(" as ")[0]
        ty = [x for x in P.types if x["k"] == "adt" and x["s"] == t]
        if not ty:
            continue
        fl = [(i, P.types[x[1]]["s"]) for i, x in enumerate(ty[0]["variants"][0][1])]
        hs = [i for i, s in fl if "JoinHandle" in s]
        ses = [i for i, s in fl if "mpsc::SyncSender" in s or "mpsc::Sender" in s]
        if not hs:
            continue
        owners.append(t)
        self_ = mk("deref", mk("arg", 0))
        facts = {mk("fld", self_, i): ("v", 1) for i in hs + ses if fl[i][1].startswith("std::option::Option<")}
        e = Engine(P, monitors=[Order()], poison=False)
        e.run(f, facts=facts)
        rep.engine(e, f)
        ms = marks(e, 0)
        for b, n in ms.items():
            rep.bad("order", t + ":" + b, "%s: %s" % (t, b), f.span[0], short(e.path_to(n)))
        k = 0
        for n in e.ends:
            if n.kind == "return":
                k += 1
                rep.check("joined", n.st.mon[0].count("join") == 1, t, "dropping a %s does not join its thread" % t.split("::")[-1], f.span[0], short(e.path_to(n)))
        rep.floor("ends of the destructor of " + t, k, 1)
    rep.floor("worker types with a destructor", len(owners), 2)
    # every thread started by the pools is owned by such a type
    R = pool.roots(P, rep)
    subs = pool.submit_runs(P, rep, R)
    for k in ("static.new",):
        if R[k] is not None:
            e = Engine(P, poison=False)
            e.run(R[k])
            subs.append((k, R[k], e))
    for k, f, e in subs:
        sites = {}
        for v, st, ev in e.spawned:
            sites.setdefault((ev.ctx, ev.block), []).append(ev)
        for evs in sites.values():
            rets = {x.ret for x in evs}
            vals = [y for x in e.all_events() for y in list(x.args) + ([x.ret] if x.ret is not None else [])]
            vals += [y for n in e.nodes for y in n.st.mem.values()]
            kept = any(owned_by(y, h, owners) for y in set(vals) for h in rets)
            rep.check("owned", kept, k + ":" + short_ev(evs[0]), "a worker thread is started whose handle is not kept by a type that joins it", evs[0].where())


def owned_by(v, h, owners):
    for x in walk(v):
        if x.k == "agg" and x.a[0] in owners and any(contains(y, h) for y in x.a[2]):
            return True
    return False


def short_ev(ev):
    return ev.fn().split("::<")[0]
