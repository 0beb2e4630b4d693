"""P13: every accepted connection has exactly one fate: served by one worker, or answered 503 and closed, or dropped because setting it up failed."""
from .common import *
from . import server, p12

RUN = "wruster::thread_pool::Pool::run"
RESP_WRITE = re.compile(r"wruster::http::Response::write")
SHUT = re.compile(r"::shutdown$")
BUSY = "ServiceUnavailable"


class Fate(Monitor):
    """(phase, connection term, pool result, answered, closed)"""
    def __init__(self, busy):
        self.busy = busy

    def init(self):
        return ("idle", None, None, False, False)

    def check(self, m):
        ph, c, r, ans, shut = m[:5]
        if ph == "refused" and not ans:
            m = mark(m, "a refused connection is not answered with 503")
        if ph == "refused" and not shut:
            m = mark(m, "a refused connection is not closed")
        if ph == "accepted":
            m = mark(m, "an accepted connection is neither handed to a worker nor refused")
        if ph == "handed":
            m = mark(m, "the result of handing over a connection is ignored")
        return m

    def event(self, m, e, st, eng):
        ph, c, r, ans, shut = m[:5]
        rest = m[5:]
        if e.kind == "call" and ph == "accepted" and e.ret is not None and e.name != RUN and len(c) < 8 and e.ret not in c and \
                any(owns_any(eng, st, a, c) for a in e.args):
            m = (ph, c + (e.ret,), r, ans, shut) + rest
            c = m[1]
        if e.kind == "call":
            if e.name == p12.WAIT or e.name in p12.ACCEPT or (e.name in ("std::sync::atomic::Atomic::<bool>::load",)):
                m = self.check(m)
                rest = m[5:]
                if e.name in p12.ACCEPT:
                    return ("accepting", (e.ret,), None, False, False) + rest
                return ("idle", None, None, False, False) + rest
            if e.name == RUN:
                if ph == "accepted" and c is not None and owns_any(eng, st, e.args[1], c):
                    return ("handed", c, e.ret, ans, shut) + rest
                if ph == "accepted":
                    return mark(m, "the job handed to the pool does not own the accepted connection")
                return mark(m, "a connection is handed to the pool twice, or without being accepted")
            if RESP_WRITE.search(e.name):
                if ph == "refused":
                    v = eng.content(st, e.args[0]) if e.args[0].k == "ref" else e.args[0]
                    if is_status(v, self.busy):
                        return ("refused", c, r, True, shut) + rest
                    return mark(m, "a refused connection is answered with something else than 503")
                return mark(m, "the accept thread answers a connection it handed to a worker")
            if SHUT.search(e.name) and ph in ("refused", "done", "accepted"):
                if ph == "done":
                    return mark(m, "the accept thread closes a connection it handed to a worker")
                if ph == "refused":
                    if len(e.args) > 1 and known_variant(st, e.args[1]) == 2:
                        return ("refused", c, r, ans, True) + rest
        elif ph == "accepting":
            k = learnt(e, c[0])
            if k == 0:
                return ("accepted", c, None, False, False) + rest
            if k == 1:
                return ("idle", None, None, False, False) + rest
        elif ph == "handed":
            k = learnt(e, r)
            if k == 0:
                return ("done", c, None, False, False) + rest
            if k == 1:
                return ("refused", c, None, False, False) + rest
        elif ph == "accepted":
            x = subject(e)
            if x is not None and x in c and learnt(e, x) == 1:
                return ("idle", None, None, False, False) + rest
        return m


def owns_any(eng, st, v, cs):
    return any(owns(eng, st, v, c) for c in cs)


def owns(eng, st, v, c, d=0):
    if contains(v, c):
        return True
    if d > 6:
        return False
    if v.k == "agg":
        return any(owns(eng, st, x, c, d + 1) for x in v.a[2])
    if v.k == "ref" and v.a[0][0] == "H":
        return owns(eng, st, eng.load(st, v.a[0], v.a[1]), c, d + 1)
    if v.k == "upd":
        return any(owns(eng, st, x, c, d + 1) for _, x in v.a[1]) or owns(eng, st, v.a[0], c, d + 1)
    return False


def is_status(v, idx):
    """the response is the untouched result of building one from status number idx"""
    v0 = v
    while v0.k in ("upd",):
        v0 = v0.a[0]
    if v0.k == "ret":
        for w in v0.a:
            if isinstance(w, tuple):
                for y in w:
                    if isinstance(y, V) and y.k == "agg" and y.a[1] == idx and "StatusCode" in y.a[0]:
                        return True
    if v0.k == "agg":
        return any(y.k == "agg" and "StatusCode" in y.a[0] and y.a[1] == idx for y in v0.a[2])
    return False


def status_index(P, rep, name):
    for t in P.types:
        if t["k"] == "adt" and t["s"] == "wruster::http::status::StatusCode":
            for i, v in enumerate(t["variants"]):
                if v[0] == name:
                    return i
    rep.bad("anchor", "status:" + name, "status %s does not exist" % name)
    return None


def run(P, rep):
    rep.rules += ["typestate of every accepted connection in the accept thread (both ways to start): its job is given to the pool once and owns the "
                  "connection; when the pool refuses it, 503 is written to it and it is shut down in both directions whatever the write returned, before the "
                  "next connection is accepted; when the pool took it, the accept thread neither writes to it nor closes it"]
    ss = server.starts(P, rep)
    ths = server.accept_threads(P, rep, ss)
    rep.floor("accept threads", len(ths), 2)
    busy = status_index(P, rep, BUSY)
    for k, wf, v, st, byref, ev in ths:
        e = Engine(P, opaque=server.api_opaque(), poison=False, monitors=[Fate(busy)])
        run_closure(e, v, st, wf, byref)
        rep.engine(e, wf)
        evs = list(e.all_events())
        for nm, f in (("hand overs", lambda x: x.name == RUN), ("busy answers", lambda x: RESP_WRITE.search(x.name)), ("closings", lambda x: SHUT.search(x.name))):
            rep.floor("%s (%s)" % (nm, k), len({(x.ctx, x.block) for x in evs if x.kind == "call" and f(x)}), 1)
        ms = marks(e, 0)
        for b, n in ms.items():
            rep.bad("fate", k + ":" + b, b, ev.where(), short(e.path_to(n)))
        if not ms:
            rep.ok("fate", k)
