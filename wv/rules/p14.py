"""P14: a shutdown is never lost and leaves nothing running."""
from .common import *
from . import server, p12

LOAD = "std::sync::atomic::Atomic::<bool>::load"
CAS = "std::sync::atomic::Atomic::<bool>::compare_exchange"
STORE = "std::sync::atomic::Atomic::<bool>::store"
SWAPS = ("std::sync::atomic::Atomic::<bool>::swap", "std::sync::atomic::Atomic::<bool>::fetch_or")
NOTIFY = "polling::Poller::notify"
JOIN = "std::thread::JoinHandle::<T>::join"


NEXT = ("std::iter::Iterator::next", "std::vec::Vec::<T, A>::pop", "std::collections::VecDeque::<T, A>::pop_front")
LOSSY = re.compile(r"^it:(skip|take|step_by|skip_while|take_while|map_while|filter)\b(?!_map)")


def drained(x):
    """the value comes from the list of the tracked connections"""
    return any(y.k == "ret" and str(y.a[0]).endswith("drain") for y in walk(x))


class Request(Monitor):
    """the steps of a shutdown, in the order they were made"""
    def __init__(self, stop, poller, handle):
        self.stop, self.poller, self.handle = stop, poller, handle

    def init(self):
        return ()

    def event(self, m, e, st, eng):
        if e.kind in ("variant", "branch"):
            jr = next((x[1] for x in m if isinstance(x, tuple)), None)
            x = subject(e)
            if jr is not None and x is not None and contains(x, jr):
                k = learnt(e, x)
                tag = ("thread:" if x is jr else "end:") + ("ok" if k == 0 else "bad")
                if k is not None and tag not in m:
                    return m + (tag,)
            return m
        if e.kind != "call":
            return m
        if e.name == STORE and self.stop(e.args[0]):
            return m + ("store:" + ("set" if e.args[1] is B(1) else "clear"),)
        if e.name in SWAPS and self.stop(e.args[0]) and e.args[1] is B(1):
            return m + ("store:set",)
        if e.name == CAS and self.stop(e.args[0]) and e.args[1] is B(0) and e.args[2] is B(1):
            return m + ("store:set",)     # set now, or it was set before
        if e.name == NOTIFY and self.poller(e.args[0]):
            return m + ("notify",)
        if e.name == JOIN and self.handle(e.args[0]):
            return m + ("join", ("result", e.ret))
        return m


class Stop(Monitor):
    """(stop flag: ?, woken = must be read before the next wait, set; streams drained; pool dropped; current stream to close)"""
    def init(self):
        return ("start", "open", None)

    def event(self, m, e, st, eng):
        ph, dr, cur = m[:3]
        rest = m[3:]
        if e.kind == "call":
            if e.name == p12.WAIT:
                if ph == "woken":
                    m = mark(m, "the accept thread waits again without reading the stop flag after it was woken")
                if ph == "set":
                    m = mark(m, "the accept thread waits again after it read the stop flag as set")
                return ("woken", "open", None) + m[3:]
            if e.name == LOAD and ph in ("woken", "start"):
                return (("read", e.ret), "open", None) + rest
            if e.name.endswith("ObservedStreamList::<T>::drain"):
                return (ph, "drained", None) + rest
            if e.name in NEXT and dr in ("drained", "iterating") and e.ret is not None and e.ret.k == "agg":
                if cur is not None:
                    return mark((ph, "all", None) + rest, "a tracked connection is not closed when the server stops")
                if e.ret.a[1] == 1 and drained(e.ret.a[2][0]):
                    r = (ph, "iterating", "next") + rest
                    return mark(r, "not all tracked connections are closed when the server stops") if any(
                        x.k == "app" and LOSSY.search(str(x.a[0])) for x in walk(e.ret.a[2][0])) else r
                if e.ret.a[1] == 0 and dr == "iterating":
                    return (ph, "all", None) + rest
            if e.name == "std::sync::Weak::<T, A>::upgrade" and dr in ("drained", "iterating") and e.ret is not None and e.ret.k == "agg":
                return (ph, dr, e.ret.a[2][0] if e.ret.a[1] == 1 else None) + rest
            if e.name.endswith("::shutdown") and dr in ("drained", "iterating") and cur is not None:
                if len(e.args) > 1 and known_variant(st, e.args[1]) == 2:
                    return (ph, dr, None) + rest
                return mark(m, "a tracked connection is closed in one direction only")
        elif e.kind == "branch" and isinstance(ph, tuple) and e.args and e.args[0] is ph[1] and e.ret is not None:
            return ("set" if e.ret is B(1) else "clear", "open", None) + rest
        elif e.kind == "drop" and e.name == "wruster::thread_pool::Pool":
            if ph == "set" and (dr not in ("drained", "all") or cur is not None):
                m = mark(m, "the workers are waited for before the tracked connections are closed")
            return (ph, "finished", None) + m[3:]
        return m


def run(P, rep):
    rep.rules += ["Server::shutdown on every path: not started => error; otherwise the stop flag is set, then the accept thread is woken, then joined; success "
                  "only if it was joined and ended well; an error waking it is reported",
                  "accept thread: on every path the stop flag is read between a wake-up and the next wait, and once read as set the thread does not wait again: it "
                  "takes all the tracked connections, closes each live one in both directions, drops (and so joins) the worker pool, and ends",
                  "the flag read by the thread and the poller it waits on are those of the server (not copies)"]
    SRV = "wruster::Server"
    fs, fh, fp = (server.field_of(P, rep, SRV, x) for x in (r"Atomic<bool>|AtomicBool", "JoinHandle", "Poller"))
    f = fn1(P, rep, server.W + "Server::shutdown$")
    if None in (fs, fh, fp, f):
        return
    a0 = mk("arg", 0)
    fld = lambda i: mk("fld", a0, i)
    m = Request(lambda t: t is fld(fs), lambda t: contains(t, fld(fp)), lambda t: contains(t, fld(fh)))
    e = Engine(P, opaque=server.api_opaque(), poison=False, monitors=[m])
    e.run(f, facts={fld(fp): ("v", 1)})
    e_none = Engine(P, opaque=server.api_opaque(), poison=False, monitors=[m])
    e_none.run(f, facts={fld(fh): ("v", 0)})
    for n in e_none.ends:
        rep.check("not-started", n.kind == "return" and result_var(n.val) == 1 and not n.st.mon[0], "shutdown:" + n.kind, "shutting down a server that was not started does not just return an error", f.span[0], short(e_none.path_to(n)))
    rep.floor("ends of shutdown (not started)", len(e_none.ends), 1)
    e = Engine(P, opaque=server.api_opaque(), poison=False, monitors=[m])
    e.run(f, facts={fld(fp): ("v", 1), fld(fh): ("v", 1)})
    rep.engine(e, f)
    okn = 0
    for n in e.ends:
        end = {x for x in n.st.mon[0] if isinstance(x, str) and x.split(":")[0] in ("thread", "end")}
        seq = tuple(x for x in n.st.mon[0] if isinstance(x, str) and x not in end)
        p = e.path_to(n)
        if n.kind == "panic":
            rep.bad("request", "panic", "shutting down a started server can panic", f.span[0], short(p))
            continue
        if n.kind != "return":
            continue
        rep.check("request", seq[:2] == ("store:set", "notify") and "store:clear" not in seq, "order:" + ",".join(seq),
                  "the shutdown request is made in the wrong order: %s (expected: set the flag, wake the accept thread, join it)" % (list(seq),), f.span[0], short(p))
        if result_var(n.val) == 0:
            okn += 1
            rep.check("request", seq == ("store:set", "notify", "join") and end == {"thread:ok", "end:ok"}, "ok:" + ",".join(seq),
                      "shutdown reports success without having seen the accept thread end well", f.span[0], short(p))
        else:
            rep.check("request", "join" in seq or err_of(e, n, "notify"), "err:" + ",".join(seq), "shutdown gives up without waiting for the accept thread", f.span[0], short(p))
    rep.floor("successful ends of shutdown", okn, 1)
    # wait()
    f = fn1(P, rep, server.W + "Server::wait$")
    if f is not None:
        e = Engine(P, opaque=server.api_opaque(), poison=False, monitors=[m])
        e.run(f)
        rep.engine(e, f)
        for n in e.ends:
            if n.kind == "return" and result_var(n.val) == 0:
                rep.check("wait", "join" in n.st.mon[0], "wait", "wait returns while the server may still be running", f.span[0], short(e.path_to(n)))
        rep.floor("ends of wait", len([n for n in e.ends if n.kind == "return"]), 2)
    # the accept thread
    ss = server.starts(P, rep)
    ths = server.accept_threads(P, rep, ss)
    rep.floor("accept threads", len(ths), 2)
    for k, wf, v, st, byref, ev in ths:
        e = Engine(P, opaque=server.api_opaque(), poison=False, monitors=[Stop()])
        run_closure(e, v, st, wf, byref)
        rep.engine(e, wf)
        w = ev.where()
        evs = list(e.all_events())
        loads = [x for x in evs if x.kind == "call" and x.name == LOAD]
        waits = [x for x in evs if x.kind == "call" and x.name == p12.WAIT]
        rep.floor("reads of the stop flag (%s)" % k, len({(x.ctx, x.block) for x in loads}), 1)
        rep.check("same-flag", all(x.args[0] is mk("fld", mk("deref", a0), fs) for x in loads), k, "the accept thread reads another flag than the server's", w)
        srv_poller = []
        e0 = [x for x in ss if x[0] == k][0][2]
        for n in e0.ends:
            if n.kind == "return" and result_var(n.val) == 0:
                pv = e0.proj(e0.deref(n.st, a0), ("f", fp))
                srv_poller.append(pv)
                rep.check("same-poller", pv.k == "agg" and pv.a[1] == 1 and all(same_heap(x.args[0], pv.a[2][0]) for x in waits), k,
                          "the accept thread waits on another poller than the one shutdown wakes", w)
                hv = e0.proj(e0.deref(n.st, a0), ("f", fh))
                rep.check("same-thread", hv.k == "agg" and hv.a[1] == 1 and hv.a[2][0] in [x[2].ret for x in e0.spawned], k, "the handle kept by the server is not the accept thread's", w)
        rep.floor("successful starts (%s)" % k, len(srv_poller), 1)
        ms = marks(e, 0)
        for b, n in ms.items():
            rep.bad("stop", k + ":" + b, b, w, short(e.path_to(n)))
        nset = 0
        for n in e.ends:
            if n.kind == "return" and n.st.mon[0][0] == "set":
                nset += 1
                rep.check("stop", n.st.mon[0][1] == "finished" or "finished" in n.st.mon[0], k + ":end", "the accept thread ends a stop without joining the workers", w, short(e.path_to(n)))
        rep.floor("orderly ends of the accept thread (%s)" % k, nset, 1)
        rep.floor("tracked connections closed (%s)" % k, len({(x.ctx, x.block) for x in evs if x.kind == "call" and x.name == "std::sync::Weak::<T, A>::upgrade"}), 1)
        if not ms:
            rep.ok("stop", k)


def err_of(e, n, name):
    v = n.val.a[2][0]
    v = e.content(n.st, v) if v.k == "ref" else v
    return p12.top(v) == name or (v.k == "agg" and any(p12.top(x) == name for x in v.a[2]))


def same_heap(a, b):
    if a is b:
        return True
    return a.k == "ref" and b.k == "ref" and a.a[0] == b.a[0]
