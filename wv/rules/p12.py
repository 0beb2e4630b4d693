"""P12: the accept loop outlives every failure of a single connection, and goes on listening."""
from .common import *
from . import server

WAIT = "polling::Poller::wait"
REARM = ("polling::Poller::modify", "polling::Poller::add")
NEXT = "std::iter::Iterator::next"
ACCEPT = ("std::net::TcpListener::accept", "std::os::unix::net::UnixListener::accept")


class Loop(Monitor):
    """(state of the listener's registration, stop seen, event in hand); the registration is "armed" (nothing happened since it
    was made), "fired" (an event of the listener was taken), "accepted", or ("tried", result) when it was renewed"""
    def __init__(self, key=None, src=None):
        self.key, self.src = key, src

    def init(self):
        return ("", False, None)

    def event(self, m, e, st, eng):
        need, stop, cur = m[:3]
        rest = m[3:]
        if cur in ("event", "mine") and e.kind == "call" and e.name in (NEXT, WAIT):
            # the event in hand was left: it is not the listener's, or the listener was taken care of
            if need == "":
                m = mark(m, "an event of the listener is left without accepting or listening again")
                rest = m[3:]
            cur = None
        if e.kind == "call" and e.name == NEXT and e.ret is not None and e.ret.k == "agg":
            mine = e.ret.a[1] == 1 and self.key is not None and any(y.k == "mut" for y in walk(e.ret.a[2][0]))
            return (need, stop, "event" if mine else None) + rest
        if cur == "event" and e.kind == "branch" and e.args and e.ret is not None and e.ret.k == "b":
            t = truth(e)
            if t is not None and t[0] == "Eq" and self.key in t[1:3] and any(is_key(x) for x in t[1:3]):
                return (need, stop, "mine" if t[3] else "other") + rest
            x = e.args[0]
            if x.k == "app" and x.a[0] == "in" and e.ret is B(0) and is_key(x.a[1]) and self.key in x.a[2:]:
                return (need, stop, "other") + rest
        if e.kind in ("variant", "branch") and isinstance(need, tuple) and need[1] is not None:
            k = learnt(e, need[1])
            if k is not None:
                return ("failed" if k else "armed", stop, cur) + rest
        if e.kind == "call" and e.name in ACCEPT:
            return (need if isinstance(need, tuple) or need in ("armed", "failed") else "accepted", stop, cur) + rest
        if e.kind == "call" and e.name in REARM:
            r = (("tried", e.ret), stop, cur) + rest
            k = event_key(eng, st, e.args[-1])
            return mark(r, "the listener is not registered again for the event the loop waits for") if self.key is not None and k is not None and k is not self.key else r
        if e.kind == "call" and e.name == WAIT:
            r = ("", stop, cur) + rest
            if need == "failed":
                return mark(r, "the loop waits again although listening again failed")
            return mark(r, "the loop waits again without re-arming the listener after accepting") if need == "accepted" else r
        if e.kind == "branch" and e.args and e.args[0].k == "ret" and "load" in str(e.args[0].a[0]) and e.ret is B(1):
            return (need, True, cur) + rest
        return m


def event_key(eng, st, v):
    """key of a registration that waits for the source to be readable, "?" for other registrations, None when it cannot be told"""
    v = eng.content(st, v) if v.k == "ref" else v
    name, xs = None, ()
    if v.k == "ret" and v.a[2]:
        name, xs = v.a[0], v.a[2]
    elif v.k == "app":
        name, xs = v.a[0], v.a[1:]
    elif v.k == "agg" and v.a[2]:
        # Event { key, readable, writable }
        return v.a[2][0] if len(v.a[2]) > 1 and v.a[2][1] is B(1) else "?" if len(v.a[2]) > 1 and v.a[2][1].k == "b" else None
    name = str(name).split("::")[-1]
    if name in ("readable", "all") and xs:
        return xs[0]
    return "?" if name in ("writable", "none") else None


def is_key(x):
    """the key of an event taken from the list the poller filled"""
    return x.k == "fld" and x.a[1] == 0 and any(y.k == "mut" for y in walk(x))


def run(P, rep):
    rep.rules += ["the body of the accept thread of both ways to start a server: it ends only after the stop flag was read as set, or with an error of the "
                  "event poller itself; it cannot panic on the result of accepting, setting up, handing over or refusing one connection",
                  "an error of the event poller ends it only if it is not an interruption by a signal",
                  "after a connection was accepted (or accepting failed) the listener is armed again before the next wait on every path",
                  "each accepted connection reaches accept again: no path leaves the loop because of its result"]
    ss = server.starts(P, rep)
    ths = server.accept_threads(P, rep, ss)
    rep.floor("accept threads", len(ths), 2)
    keys = {}
    for x in ss:
        ks = {event_key(x[2], None, y.args[-1]) for y in x[2].all_events() if y.kind == "call" and y.name in REARM and y.args[-1].k != "ref"}
        if len(ks) == 1 and isinstance(min(ks, key=str), V):
            keys[x[0]] = ks.pop()
        rep.check("armed", "?" not in ks, x[0], "the listener is registered without asking for connections to accept", next(
            (y.where() for y in x[2].all_events() if y.kind == "call" and y.name in REARM), ""))
    for k, wf, v, st, byref, ev in ths:
        e = Engine(P, opaque=server.api_opaque(), poison=False, logs=True, numeric=True, monitors=[Loop(keys.get(k))])
        run_closure(e, v, st, wf, byref)
        rep.engine(e, wf)
        w = ev.where()
        acc = {(x.ctx, x.block) for x in e.all_events() if x.kind == "call" and x.name in ACCEPT}
        rep.floor("accept calls (%s)" % k, len(acc), 1)
        rep.floor("waits (%s)" % k, len({(x.ctx, x.block) for x in e.all_events() if x.kind == "call" and x.name == WAIT}), 1)
        for b, n in marks(e, 0).items():
            rep.bad("rearm", k + ":" + b, b, w, short(e.path_to(n)))
        if not marks(e, 0):
            rep.ok("rearm", k)
        for n in e.ends:
            p = e.path_to(n)
            if n.kind == "return":
                r = result_var(n.val)
                stop = n.st.mon[0][1]
                if r == 1 and not stop:
                    x = e.content(n.st, n.val.a[2][0]) if n.val.a[2][0].k == "ref" else n.val.a[2][0]
                    good = top(x) in ("wait", "modify", "add", "notify")
                    if top(x) == "wait":
                        rep.check("interrupted", not_interrupted(P, e, n.st, x), k, "the accept loop ends when waiting for events is interrupted by a signal", w, short(p))
                    rep.check("ends", good, k + ":error:" + top(x), "the accept loop ends because of the result of one connection: %s" % show(x), w, short(p))
                else:
                    rep.check("ends", stop, k + ":ok", "the accept loop ends although no stop was requested", w, short(p))
            elif n.kind == "panic":
                rep.bad("panics", k + ":" + (n.val.fn() if n.val is not None else "?"),
                        "the accept thread can panic: %s" % (str(n.val)[:160] if n.val is not None else "explicit panic"), n.val.where() if n.val is not None else w, short(p))
        if not any(n.kind == "panic" for n in e.ends):
            rep.ok("panics", k)
        in_range(rep, e, "panics", k, "the accept thread")


def not_interrupted(P, e, st, x):
    """the path has established that error x is not an interruption"""
    var = conv_variants(P).get("Interrupted")
    ek = app("errkind", x)
    f = st.facts.get(ek)
    if f is not None and ((f[0] == "v" and f[1] != var) or (f[0] == "nv" and var in f[1])):
        return True
    k = mk("agg", "std::io::ErrorKind", var, ())
    return e.decide(st, app("eq", ek, k)) is False or e.decide(st, app("eq", k, ek)) is False


def conv_variants(P):
    for t in P.types:
        if t["k"] == "adt" and t["s"] == "std::io::ErrorKind":
            return {v[0]: i for i, v in enumerate(t["variants"])}
    return {}


def deep(x):
    return show(x, 12)


def top(x):
    """name of the outermost library result an error value comes from"""
    m = re.search(r"ret<(\w+)>", deep(x))
    return m.group(1) if m else "?"
