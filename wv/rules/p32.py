"""P32: a handler wrapped by the logging middleware is called as if it were not wrapped."""
from .common import *
from . import server, conv

U = "wruster_handlers.lib"
CALL = re.compile(r"^std::ops::(Fn|FnMut|FnOnce)::call(_mut|_once)?$")


class Wrap(Monitor):
    """answers of the wrapped handler, marks"""
    def __init__(self, handler, req, before):
        self.handler, self.req, self.before = handler, req, before

    def handler_of(self, eng, st, x):
        for _ in range(8):
            if x is self.handler:
                return True
            if x.k == "agg" and len(x.a[2]) == 1:
                x = x.a[2][0]
                continue
            if x.k == "deref" or x.k == "fld" and x.a[1] in (0, "0"):
                x = x.a[0]
                continue
            if x.k != "ref":
                return False
            if x.a[0][0] == "D" and not x.a[1]:
                x = x.a[0][1]
                continue
            y = eng.load(st, x.a[0], x.a[1])
            if y is x:
                return False
            x = y
        return False

    def event(self, m, e, st, eng):
        if e.kind != "invoke" or not CALL.search(server.bare(e.name)) or not e.args:
            return m
        if not self.handler_of(eng, st, e.args[0]):
            return m
        a = e.args[1] if len(e.args) > 1 else None
        a = a.a[2][0] if a is not None and a.k == "agg" and a.a[2] else a
        if a is not self.req and not (a is not None and a.k == "ref" and a is ref(("D", self.req))):
            return mark(m, "the handler is called with another request")
        if eng.load(st, ("D", self.req), ()) is not self.before:
            m = mark(m, "the request was changed before the handler is called")
        return m + (e.ret,)


def run(P, rep):
    rep.rules += ["on every path of the closure returned: the handler given is called exactly once, with the unchanged request, and the value it returned is returned untouched; the closure never panics by itself"]
    rep.assumptions += ["formatting for the log takes shared references and changes nothing (no interior mutability in requests and responses)"]
    f = fn1(P, rep, r"^wruster_handlers::log_middleware$", U)
    if f is None:
        return
    e0 = Engine(P, poison=False, keep_args=True, logs=True)
    e0.run(f)
    rep.engine(e0, f)
    made = 0
    for n in e0.ends:
        if n.kind == "panic":
            rep.bad("make", "panic", "wrapping a handler can panic", f.span[0], short(e0.path_to(n)))
        if n.kind != "return":
            continue
        v, st = n.val, n.st
        for _ in range(4):
            if v.k == "ref":
                v = e0.load(st, v.a[0], v.a[1])
        if v is mk("arg", 0):
            rep.ok("plain", "log_middleware")
            made += 1
            continue
        g, byref = e0.closure_body(v, st)
        if not rep.check("closure", g is not None, "log_middleware", "what is returned is not understood", f.span[0], short(e0.path_to(n))):
            continue
        made += 1
        req = mk("arg", 1)
        e = Engine(P, monitors=[Wrap(mk("arg", 0), req, mk("deref", req))], poison=False, keep_args=True, logs=True)
        run_closure(e, v, st, g, byref, args=[req])
        rep.engine(e, g)
        en = Engine(P, poison=False, logs=True, numeric=True)
        run_closure(en, v, st, g, byref, args=[req])
        in_range(rep, en, "range", "middleware", "the middleware")
        for b, x in marks(e, 0).items():
            rep.bad("handler", b, b, g.span[0], short(e.path_to(x)))
        ends = 0
        for x in e.ends:
            p = short(e.path_to(x))
            if x.kind == "panic":
                rep.bad("panic", g.name, "the middleware can panic", g.span[0], p)
            if x.kind != "return":
                continue
            ends += 1
            calls = [y for y in x.st.mon[0] if not isinstance(y, str)]
            rep.check("once", len(calls) == 1, g.name, "the handler is called %s" % ("not at all" if not calls else "more than once"), g.span[0], p)
            if calls:
                rep.check("answer", any(x.val is c for c in calls), g.name, "another response than that of the handler is returned", g.span[0], p)
        rep.floor("ways to answer", ends, 1)
    rep.floor("middlewares made", made, 1)
