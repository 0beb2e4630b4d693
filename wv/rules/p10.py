"""P10: the connection is kept exactly when the request asks for it."""
from .common import *
from . import server, conv


def header_get(eng, st, e, req, names):
    """e looks up the Connection header of request req"""
    if not conv.is_call(e, conv.HGET) or len(e.args) < 2:
        return False
    k = eng.content(st, e.args[1]) if e.args[1].k == "ref" else e.args[1]
    if k.k != "s" or k.a[0].lower() != "connection":
        return False
    h = conv.base(conv.value(eng, st, e.args[0]))
    return h.k == "fld" and h.a[1] == names.get("headers") and conv.base(h.a[0]) is req


class Persist(Monitor):
    """(request, phase, assignments still possible, header look ups, pending result)"""
    def __init__(self, P):
        self.P = P
        self.names = conv.field_names(P, "wruster::http::Request")

    def init(self):
        return (None, "none", conv.ALL, (), None)

    def event(self, m, e, st, eng):
        r, ph, S, gets, pend = m[:5]
        rest = m[5:]
        if conv.is_call(e, conv.READ):
            if ph == "got" and any(not conv.wants(*a) for a in S):
                rest = mark(rest, "another request is read although this one asks to close: " + show_set([a for a in S if not conv.wants(*a)]))
            if ph in ("invalid", "failed"):
                rest = mark(rest, "another request is read after " + ("an invalid request" if ph == "invalid" else "a failed answer"))
            return (e.ret, "read", conv.ALL, (), None) + rest
        if r is None:
            return m
        if ph == "read":
            k = learnt(e, r)
            if k is not None:
                return (r, "got" if k == 0 else "invalid", S, gets, None) + rest
        if ph != "got":
            return m
        req = mk("fld", mk("as", r, 0), 0)
        if header_get(eng, st, e, req, self.names):
            if e.ret not in gets:
                gets = gets + (e.ret,)
            return (r, ph, S, gets, pend) + rest
        if conv.is_call(e, conv.ENSURE) or conv.is_call(e, conv.WRITE) or (e.kind == "call" and e.name.endswith("::flush")):
            return (r, ph, S, gets, e.ret) + rest
        if pend is not None:
            k = learnt(e, pend)
            if k == 1:
                return (r, "failed", conv.ALL, (), None) + rest
            if k == 0:
                return (r, ph, S, gets, None) + rest
        b = self.names.get("body")
        x = subject(e)
        if x is not None and x.k == "fld" and x.a[1] == b and x.a[0].k == "mut" and learnt(e, x) == 0 and known_variant(st, mk("fld", req, b)) == 1:
            # the handler took the body: what is left of it can not be skipped
            return (r, "failed", conv.ALL, (), None) + rest
        S2 = conv.narrow(conv.Atoms(self.P, eng, req, gets), e, S)
        return (r, ph, S2, gets, pend) + rest


def show_set(xs):
    return ", ".join("version %s with Connection %s" % (v, c) for v, c in sorted(xs, key=str))


def run(P, rep):
    rep.rules += ["decision table of keeping a connection, over the version (1.0, 1.1, 2, other) and the first value of the Connection header compared without "
                  "case (none, close, keep-alive, other): kept iff not close and (1.1 or 2, or 1.0 with keep-alive); checked on every abstract path of the "
                  "connection job from a request read to the next read or to the end, and on every path of Request::is_connection_persistent"]
    js = conv.jobs(P, rep)
    for j in js:
        e = conv.run_job(P, rep, j, opaque=server.api_opaque(keep=(r"^wruster::http::Request::is_connection_persistent",)), poison=False, monitors=[Persist(P)])
        rep.floor("requests read (%s)" % j[0], len({(x.ctx, x.block) for x in e.all_events() if conv.is_call(x, conv.READ)}), 1)
        ms = marks(e, 0)
        for n in e.ends:
            r, ph, S, gets, pend = n.st.mon[0][:5]
            if n.kind == "return" and ph == "got":
                lost = [a for a in S if conv.wants(*a)]
                if lost:
                    ms.setdefault("the connection is closed after a good exchange although the request asks to keep it: " + show_set(lost), n)
        for b, n in ms.items():
            rep.bad("conversation", j[0] + ":" + b, b, j[1].span[0], short(e.path_to(n)))
        if not ms:
            rep.ok("conversation", j[0])
    f = fn1(P, rep, server.W + r"http::Request::is_connection_persistent$")
    if f is None:
        return
    names = conv.field_names(P, "wruster::http::Request")
    req = mk("deref", mk("arg", 0))

    class Gets(Monitor):
        def init(self):
            return ((), conv.ALL)

        def event(self, m, e, st, eng):
            gets, S = m
            if header_get(eng, st, e, req, names):
                return (gets + (e.ret,) if e.ret not in gets else gets, S)
            return (gets, conv.narrow(conv.Atoms(P, eng, req, gets), e, S))
    e = Engine(P, opaque=server.api_opaque(keep=(r"is_connection_persistent",)), poison=False, monitors=[Gets()])
    e.run(f)
    rep.engine(e, f)
    done = set()
    for n in e.ends:
        if n.kind != "return":
            continue
        gets, S = n.st.mon[0]
        A = conv.Atoms(P, e, req, gets)
        for a in S:
            got = A.eval(n.val, *a)
            done.add(a)
            rep.check("request", got == conv.wants(*a), "%s|%s" % a, "Request::is_connection_persistent is %s, not %s, for %s" % (got, conv.wants(*a), show_set([a])),
                      f.span[0], short(e.path_to(n)))
    rep.floor("cases of Request::is_connection_persistent", len(done), len(conv.ALL))
