"""P09: exactly one answer per request, from the right source, and nothing after a failure."""
from .common import *
from . import server, conv, p08
from .p13 import is_status, status_index

STREAM_WRITE = re.compile(r"io::Write(>| as .*)?::(write|write_all|write_fmt|write_vectored)$|^std::io::copy$")


class Exchange(Monitor):
    """(phase, read result, route look up, route found, handler result, answered, drained, pending result)
    phase: none, read, got, bad (an error whose kind is not known yet), invalid, failed"""
    def __init__(self, P, codes):
        self.P = P
        self.names = conv.field_names(P, "wruster::http::Request")
        self.err = conv.variants(P, "wruster::http::errors::HttpError")
        self.codes = codes

    def init(self):
        return ("none", None, None, None, None, False, False, None)

    def event(self, m, e, st, eng):
        s = list(m[:8])
        rest = m[8:]
        rest = self.step(s, rest, e, st, eng)
        return tuple(s) + rest

    def step(self, s, rest, e, st, eng):
        ph, r, look, found, res, ans, drained, pend = s
        N = self.names
        if conv.is_call(e, conv.READ):
            if ph == "got" and not ans:
                rest = mark(rest, "a request is read before the previous one was answered")
            if ph == "got" and not drained:
                rest = mark(rest, "a request is read although the body of the previous one may be partly unread")
            if ph in ("failed", "bad"):
                rest = mark(rest, "a request is read after reading or answering the previous one failed")
            if ph == "invalid":
                rest = mark(rest, "a request is read after one that could not be understood")
            s[:] = ["read", e.ret, None, None, None, False, False, None]
            return rest
        if r is None:
            return rest
        req = mk("fld", mk("as", r, 0), 0)
        if ph == "read":
            k = learnt(e, r)
            if k is not None:
                s[0] = "got" if k == 0 else "bad"
            return rest
        if ph == "bad":
            k = learnt(e, mk("fld", mk("as", r, 1), 0))
            if k == self.err.get("InvalidRequest"):
                s[0] = "invalid"
                return rest
        if ph == "got":
            if learnt(e, mk("fld", req, N.get("body"))) == 0:
                s[6] = True
            if conv.is_call(e, conv.PREFIX):
                if look is not None:
                    rest = mark(rest, "a request is routed twice")
                s[2] = e.ret
                if len(e.args) < 3 or conv.base(e.args[2]) is not mk("fld", req, N.get("method")):
                    rest = mark(rest, "a request is routed by another method than its own")
                if not contains(e.args[1], mk("fld", req, N.get("uri"))) and not self.from_uri(st, eng, e.args[1], req):
                    rest = mark(rest, "a request is routed by another path than its own normalised one")
                return rest
            if look is not None and learnt(e, look) is not None:
                s[3] = learnt(e, look)
            if e.kind == "invoke":
                if res is not None:
                    rest = mark(rest, "the handler is called twice for a request")
                if look is None or not contains(e.args[0], look):
                    rest = mark(rest, "another handler than the one found by the router is called")
                a = e.args[1] if len(e.args) > 1 else None
                if a is not None and a.k == "agg" and a.a[2]:
                    a = a.a[2][0]
                if a is None or conv.base(conv.value(eng, st, a)) is not req:
                    rest = mark(rest, "the handler is called with something else than the request read")
                s[4] = e.ret
                return rest
        if conv.is_call(e, conv.ENSURE):
            s[7] = ("drain", e.ret)
            return rest
        if e.kind == "call" and (STREAM_WRITE.search(server.bare(e.name))):
            rest = mark(rest, "bytes that are no answer are written to the connection (%s)" % e.name.split("::")[-1])
        if conv.is_call(e, conv.WRITE):
            v = conv.base(conv.value(eng, st, e.args[0]))
            if ans:
                rest = mark(rest, "a request is answered twice")
            if ph == "got":
                if res is not None:
                    if v is not res:
                        rest = mark(rest, "the answer written is not the one the handler returned")
                elif found == 1:
                    rest = mark(rest, "a request is answered without calling the handler the router found")
                elif found == 0:
                    if not is_status(v, self.codes["NotFound"]):
                        rest = mark(rest, "a request without a route is not answered 404")
                elif not any(is_status(v, i) for nm, i in self.codes.items() if p08.CODES.get(nm, 0) >= 400):
                    rest = mark(rest, "a request that was not routed is answered with something else than an error status")
            elif ph == "invalid":
                if not is_status(v, self.codes["BadRequest"]):
                    rest = mark(rest, "a request that could not be understood is not answered 400")
            else:
                rest = mark(rest, "an answer is written without a request, or after a failure")
            s[5] = True
            s[7] = ("write", e.ret)
            return rest
        if e.kind == "call" and e.name.endswith("::flush"):
            s[7] = ("flush", e.ret)
            return rest
        if pend is not None:
            k = learnt(e, pend[1])
            if k == 1:
                s[0], s[7] = "failed", None
            elif k == 0:
                if pend[0] == "drain":
                    s[6] = True
                s[7] = None
        return rest

    def from_uri(self, st, eng, v, req):
        """v is derived from the normalisation of the request's uri"""
        for w in walk(v):
            if w.k == "ret" and conv.NORM.search(server.bare(w.a[0])):
                for x in w.a[2] if len(w.a) > 2 and isinstance(w.a[2], tuple) else ():
                    y = conv.value(eng, st, x) if x.k == "ref" else x
                    if contains(y, mk("fld", req, self.names.get("uri"))):
                        return True
        return False


def walk(v, d=0):
    yield v
    if d > 14:
        return
    for x in v.a:
        if isinstance(x, V):
            yield from walk(x, d + 1)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, V):
                    yield from walk(y, d + 1)


def run(P, rep):
    rep.rules += ["typestate of one exchange on the connection job, between reading one request and the next (or the end): the request is routed once by its own "
                  "method and normalised path; the handler found is called once with that request and its result is what is written, once; no route: 404; "
                  "not understood: one 400 and no further read; before the next read the body is drained or was absent; after a failed read, drain, write or "
                  "flush nothing is read or written any more", "no byte a request's reader took ahead of its end may be lost while the connection is kept"]
    codes = {n: i for n, i in conv.variants(P, "wruster::http::status::StatusCode").items()}
    for nm in ("NotFound", "BadRequest"):
        if nm not in codes:
            rep.bad("anchor", nm, "status %s is gone" % nm)
            return
    js = conv.jobs(P, rep)
    for j in js:
        e = conv.run_job(P, rep, j, opaque=server.api_opaque(), poison=False, monitors=[Exchange(P, codes)])
        evs = list(e.all_events())
        for nm, pr in (("requests read", lambda x: conv.is_call(x, conv.READ)), ("routings", lambda x: conv.is_call(x, conv.PREFIX)),
                       ("handler calls", lambda x: x.kind == "invoke"), ("answers written", lambda x: conv.is_call(x, conv.WRITE)),
                       ("bodies drained", lambda x: conv.is_call(x, conv.ENSURE))):
            rep.floor("%s (%s)" % (nm, j[0]), len({(x.ctx, x.block) for x in evs if pr(x)}), 1)
        ms = marks(e, 0)
        for n in e.ends:
            s = n.st.mon[0]
            if n.kind == "return" and s[0] == "got" and not s[5]:
                ms.setdefault("the connection is closed without answering a request", n)
            if n.kind == "return" and s[0] == "invalid" and not s[5]:
                ms.setdefault("the connection is closed without answering 400 to a request that could not be understood", n)
            if n.kind not in ("return", "panic"):
                rep.notes.append(n.kind)
        for b, n in ms.items():
            rep.bad("exchange", j[0] + ":" + b, b, j[1].span[0], short(e.path_to(n)))
        if not ms:
            rep.ok("exchange", j[0])
    pipelining(P, rep)


def pipelining(P, rep):
    """Request::read_from buffers its source and drops the buffer: what was read ahead is gone"""
    f = fn1(P, rep, server.W + r"http::Request::read_from::<.*TimeoutStream")
    if f is None:
        return
    e = Engine(P, opaque=server.api_opaque(keep=(r"^wruster::http::Request::read_from",)), poison=False)
    e.run(f)
    rep.engine(e, f)
    for x in e.all_events():
        if x.kind in ("call", "drop") and any(a.k == "agg" and "BufReader<" in a.a[0] and contains(a, mk("arg", 0)) for a in x.args if isinstance(a, V)):
            rep.bad("read-ahead", "Request::read_from", "the reader of one request may take bytes of the next one (sent without waiting for the answer) and drops them: "
                    "Request::read_from buffers the connection for a single request", x.where())
            return
    rep.ok("read-ahead", "Request::read_from")
