"""Anchor of the per connection conversation: the job given to the pool by the accept thread."""
from .common import *
from . import server

RUN = "wruster::thread_pool::Pool::run"


def jobs(P, rep, floor=2):
    """[(name, Fn, closure value, state, event, byref)] of the jobs the accept threads hand to the pool"""
    out = []
    ss = server.starts(P, rep)
    for k, wf, v, st, byref, ev in server.accept_threads(P, rep, ss):
        e = Engine(P, opaque=server.api_opaque(), poison=False, keep_args=True)
        seen = {}

        class Grab(Monitor):
            def event(self, m, x, st2, eng):
                if x.kind == "call" and x.name == RUN and len(x.args) > 1:
                    a = x.args[1]
                    if a.k == "ref":
                        a = eng.load(st2, a.a[0], a.a[1])
                    seen.setdefault((x.ctx, x.block), (a, st2, x))
                return m
        e.monitors = [Grab()]
        run_closure(e, v, st, wf, byref)
        rep.engine(e, wf)
        for a, st2, x in seen.values():
            f, by = e.closure_body(a, st2)
            if f is None:
                rep.bad("anchor", "job of " + k, "the job handed to the pool cannot be resolved", x.where())
                continue
            out.append((k, f, a, st2, x, by))
    rep.floor("connection jobs", len(out), floor)
    return out


def run_job(P, rep, job, **kw):
    k, f, a, st, x, by = job
    e = Engine(P, **kw)
    run_closure(e, a, st, f, by)
    rep.engine(e, f)
    return e


READ = re.compile(r"^wruster::http::Request::read_from$")
WRITE = re.compile(r"^wruster::http::Response::write$")
HGET = re.compile(r"^wruster::http::headers::Headers::get$")
FROM_STATUS = re.compile(r"^wruster::http::Response::from_status$")
ENSURE = re.compile(r"^wruster::http::Body::ensure_read$")
PREFIX = re.compile(r"^wruster::router::Router::get_prefix$")
NORM = re.compile(r"Normalize.*::normalize$")
HANDLER = "std::ops::Fn::call"


def is_call(e, r):
    return e.kind == "call" and r.search(server.bare(e.name)) is not None


def variants(P, path):
    for t in P.types:
        if t["k"] == "adt" and t["s"] == path:
            return {v[0]: i for i, v in enumerate(t["variants"])}
    return {}


def field_names(P, path):
    for t in P.types:
        if t["k"] == "adt" and t["s"] == path and t.get("variants"):
            return {x[0]: i for i, x in enumerate(t["variants"][0][1])}
    return {}


def ok_of(r):
    """the value inside Ok / Some of r"""
    return r


def base(v):
    """the value before partial updates and in place mutations"""
    while v.k in ("upd",):
        v = v.a[0]
    return v


def value(eng, st, v):
    while v.k == "ref":
        n = eng.load(st, v.a[0], v.a[1])
        if n is v:
            break
        v = n
    return v


# ---- persistence -----------------------------------------------------------
VERS = ("HTTP/1.0", "HTTP/1.1", "HTTP/2", "another version")
CONN = (None, "close", "keep-alive", "another value")


def wants(ver, con):
    """RFC 7230 6.3 as the server documents it"""
    if con == "close":
        return False
    if ver in ("HTTP/1.1", "HTTP/2"):
        return True
    return ver == "HTTP/1.0" and con == "keep-alive"


class Atoms:
    """recognises the atomic facts about one request on a path"""
    def __init__(self, P, eng, req, gets):
        self.names = field_names(P, "wruster::http::Request")
        self.eng, self.req, self.gets = eng, req, gets

    def text(self, t, ver, con):
        """text a term denotes under the assignment; None unknown"""
        if t.k == "s":
            return t.a[0]
        if t.k == "app" and t.a[0] == "lower":
            return self.first(t.a[1], con, True)
        if self.first(t, con, False) is not None:
            return self.first(t, con, False)
        b = base(t)
        if b.k == "fld" and base(b.a[0]) is self.req and b.a[1] == self.names.get("version"):
            return ver
        return None

    def first(self, t, con, lowered):
        """con (lower case) when t is the first value of the Connection header"""
        t = base(t)
        if t.k == "s":
            return t.a[0].lower() if lowered else t.a[0]
        if t.k == "idx" and t.a[1].k == "i" and t.a[1].a[0] == 0 and any(contains(t.a[0], g) for g in self.gets):
            # without lower casing the same value may be written in several ways
            return con if lowered else None
        return None

    def eval(self, t, ver, con):
        """truth of a condition under the assignment; None unknown"""
        if t.k == "b":
            return bool(t.a[0])
        if t.k == "not":
            x = self.eval(t.a[0], ver, con)
            return None if x is None else not x
        if (t.k == "op" and t.a[0] == "Eq") or (t.k == "app" and t.a[0] == "eq"):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if x.k == "discr" and y.k == "i" and any(x.a[0] is g for g in self.gets):
                    return (con is not None) == (y.a[0] == 1)
            x, y = self.text(t.a[1], ver, con), self.text(t.a[2], ver, con)
            if x is None or y is None:
                return None
            if "another" in x or "another" in y:
                o = y if "another" in x else x
                return False if o in VERS + CONN[1:] or o == "" else None
            return x == y
        if t.k == "isv" and any(t.a[0] is g for g in self.gets):
            return (con is not None) == (t.a[1] == 1)
        return None


ALL = frozenset((v, c) for v in VERS for c in CONN)


def narrow(A, e, S):
    """the assignments of S that agree with what event e says about the request"""
    if e.kind == "variant" and e.args and e.ret is not None and any(e.args[0] is g for g in A.gets):
        return frozenset(x for x in S if (x[1] is not None) == (e.ret.a[0] == 1))
    if e.kind == "branch" and e.args and e.ret is not None and e.ret.k == "b":
        b = bool(e.ret.a[0])
        return frozenset(x for x in S if A.eval(e.args[0], *x) in (None, b))
    return S
