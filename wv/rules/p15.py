"""P15: a server starts at most once; a failed start leaves it as it was; what needs a started server is refused before."""
from .common import *
from . import server

BIND = "std::net::TcpListener::bind"
SPAWN = ("std::thread::spawn", "std::thread::Builder::spawn")


def run(P, rep):
    rep.rules += ["starting (plain or TLS) a server that is already started returns an error on every path, binding nothing, starting no thread and changing nothing",
                  "starting a server that is not: success exactly when the address was bound, the listener registered with the poller and one accept thread started, and "
                  "then the server holds the poller and the thread (so the next start is refused); on failure no thread runs and the server is unchanged; no panic",
                  "shutting down or waiting for a server that was not started is an error, without touching anything"]
    SRV = "wruster::Server"
    fh, fp = (server.field_of(P, rep, SRV, x) for x in ("JoinHandle", "Poller"))
    if fh is None or fp is None:
        return
    self_ = mk("deref", mk("arg", 0))
    none = set(fresh(P, rep, SRV)) | {fh, fp}      # the fields that are empty as long as the server was not started
    for k, f in server.entries(P, rep):
        if f is None:
            continue
        full = None
        for started in (False, True):
            e = Engine(P, opaque=server.api_opaque(), poison=False, logs=True, keep_args=True, monitors=[Trail(lambda x: x.name in (BIND, "polling::Poller::add") or x.name in SPAWN)])
            facts = {mk("fld", self_, i): ("v", 1 if started else 0) for i in ((full or set()) | {fh, fp} if started else none)}
            e.run(f, facts=facts)
            rep.engine(e, f)
            en = Engine(P, opaque=server.api_opaque(), poison=False, logs=True, numeric=True)
            en.run(f, facts=facts)
            in_range(rep, en, "range", "start", "starting a server")
            n_ok = n_err = 0
            for n in e.ends:
                p = e.path_to(n)
                calls = n.st.mon[0]
                binds = [x for x in calls if x[0] == BIND]
                sp = [x for x in calls if x[0] in SPAWN]
                cur = e.deref(n.st, mk("arg", 0))
                same = cur is self_
                w = f.span[0]
                if n.kind == "panic":
                    rep.bad("start", k + ":panic:%s" % started, "starting a server can panic: %s" % str(n.val)[:120], w, short(p))
                    continue
                if n.kind != "return":
                    continue
                r = result_var(n.val)
                if started:
                    rep.check("restart", r == 1 and not binds and not sp and same, k, "a started server is started again (or changed by the attempt)", w, short(p))
                    n_err += 1
                    continue
                if r == 0:
                    n_ok += 1
                    set_ = {i for i in none for x in (e.proj(cur, ("f", i)),) if x.k == "agg" and x.a[1] == 1}
                    full = set_ if full is None else full & set_
                    h, q = e.proj(cur, ("f", fh)), e.proj(cur, ("f", fp))
                    rep.check("start", len(binds) == 1 and len(sp) == 1 and h.k == "agg" and h.a[1] == 1 and q.k == "agg" and q.a[1] == 1, k + ":ok",
                              "a successful start does not leave one bound listener, one accept thread and a server that knows both", w, short(p))
                    add = [x for x in calls if x[0] == "polling::Poller::add"]
                    rep.check("start", len(add) == 1, k + ":registered", "the listener is not registered with the poller", w, short(p))
                else:
                    n_err += 1
                    rep.check("failed-start", not sp and same, k, "a failed start leaves a thread running or a server that looks started", w, short(p))
            rep.floor("%s, started=%s: ends" % (k, started), n_err + n_ok, 1)
            if not started:
                rep.floor("%s: successful starts" % k, n_ok, 1)
                rep.floor("%s: failed starts" % k, n_err, 1)
    for nm in ("shutdown", "wait"):
        f = fn1(P, rep, server.W + "Server::%s$" % nm)
        if f is None:
            continue
        e = Engine(P, opaque=server.api_opaque(), poison=False, logs=True, monitors=[Trail(lambda x: x.name.split("::")[-1] in ("store", "notify", "join"))])
        e.run(f, facts={mk("fld", mk("arg", 0), i): ("v", 0) for i in none})
        rep.engine(e, f)
        for n in e.ends:
            bad_calls = n.st.mon[0]
            rep.check("not-started", n.kind == "return" and result_var(n.val) == 1 and not bad_calls, nm, "%s of a server that was not started is not just an error" % nm, f.span[0], short(e.path_to(n)))
        rep.floor("%s (not started): ends" % nm, len(e.ends), 1)


def fresh(P, rep, path):
    """the fields every server is made with empty"""
    fl = server.fields(P, path)
    out = None
    for f in fns(P, server.W + r"Server::\w+$"):
        if f.argc and "Server" in P.types[f.locals[1] if isinstance(f.locals[1], int) else f.locals[1][0]]["s"] or P.types[f.locals[0] if isinstance(f.locals[0], int) else f.locals[0][0]]["s"] != path:
            continue
        e = Engine(P, opaque=server.api_opaque(), poison=False)
        e.run(f)
        rep.engine(e, f)
        for n in e.ends:
            if n.kind == "return":
                got = {i for i in range(len(n.val.a[2])) if n.val.a[2][i].k == "agg" and n.val.a[2][i].a[1] == 0 and "Option" in str(n.val.a[2][i].a[0])} if n.val.k == "agg" else set()
                out = got if out is None else out & got
    return sorted(out or ())
