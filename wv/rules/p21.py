"""P21: a connection that was shut down ends its reads and writes; a wait is armed for the right direction each time."""
from .common import *
from .p20 import READ, WRITE

SHUT = "std::net::TcpStream::shutdown"
STORE = re.compile(r"^std::sync::atomic::Atomic(Bool)?(::<bool>)?::(store|swap|fetch_or|fetch_and)$")
LOAD = re.compile(r"^std::sync::atomic::Atomic(Bool)?(::<bool>)?::load$")
WAIT, MODIFY, ADD = "polling::Poller::wait", "polling::Poller::modify", "polling::Poller::add"
NB = "std::net::TcpStream::set_nonblocking"
TIMED_OUT, NOT_CONNECTED = 22, 7


class Stop(Monitor):
    """order of marking a stream as done and closing its socket"""
    def event(self, m, e, st, eng):
        if e.kind != "call":
            return m
        if STORE.search(e.name) and not e.name.endswith("fetch_and"):
            return m + (("store", e.args[1], e.args[0]),) if len(m) < 6 else m
        if e.name == SHUT:
            return m + (("shut", e.args[1], e.ret),) if len(m) < 6 else m
        return m


class Watch(Monitor):
    """(armed direction, last load of the flag since the last wait: None / term, result of the last wait); marks"""
    def __init__(self, want, other):
        self.want, self.other = want, other

    def init(self):
        return ("-", None, False, None)

    def event(self, m, e, st, eng):
        armed, last, seen, w = m[:4]
        if e.kind != "call":
            return m
        if last is not None and truth_of(eng, st, last) is True:
            seen = True
        if e.name in (MODIFY, ADD):
            ev = e.args[2]
            return (ev.a[0] if ev.k == "app" else ev, last, seen, w) + m[4:]
        if e.name == WAIT:
            r = ("-", None, seen, e.ret) + m[4:]
            if armed not in (self.want, "all"):
                r = mark(r, "a wait of a %s is not armed for it: no event would ever end it" % self.want.replace("able", ""))
            return r
        if LOAD.search(e.name):
            return (armed, e.ret, seen, w) + m[4:]
        return m


def shutdowns(P, rep):
    fs = fns(P, r"^wruster::streams::cancellable_stream::CancellableStream::<.*>::shutdown$")
    rep.floor("ways to shut a connection down", len(fs), 2)
    flags = set()
    for f in fs:
        e = Engine(P, monitors=[Stop()], poison=False, keep_args=True)
        e.run(f)
        rep.engine(e, f)
        nm = f.name.split("CancellableStream::")[1]
        for n in e.ends:
            if n.kind != "return":
                continue
            m = n.st.mon[0]
            p = short(e.path_to(n))
            sh = [i for i, x in enumerate(m) if x[0] == "shut"]
            st = [i for i, x in enumerate(m) if x[0] == "store" and x[1].k == "b" and x[1].a[0] == 1]
            un = [i for i, x in enumerate(m) if x[0] == "store" and not (x[1].k == "b" and x[1].a[0] == 1)]
            rep.check("flag-first", bool(st) and not un and (not sh or st[0] < sh[0]), nm, "%s: the connection is not marked as done before its socket is shut down" % nm, f.span[0], p)
            rep.check("socket", len(sh) == 1 and m[sh[0]][1] is mk("arg", 1), nm, "%s: the socket is not shut down in the direction asked for" % nm, f.span[0], p)
            if sh:
                r = m[sh[0]][2]
                good = n.val is r or (result_var(n.val) is not None and known_variant(n.st, r) == result_var(n.val))
                rep.check("outcome", good, nm, "%s does not report the outcome of shutting the socket down" % nm, f.span[0], p)
            for i in st:
                flags.add(m[i][2].a[1] if m[i][2].k == "ref" else None)
    for f in fns(P, r" as wruster::streams::BaseStream>::shutdown$"):
        e = Engine(P, monitors=[Stop()], poison=False, keep_args=True)
        e.run(f)
        rep.engine(e, f)
        for n in e.ends:
            if n.kind == "return":
                sh = [x for x in n.st.mon[0] if x[0] == "shut"]
                nm = f.name.split(" as ")[0][1:] + " shutdown"
                rep.check("base", len(sh) == 1 and sh[0][1] is mk("arg", 1) and (n.val is sh[0][2] or known_variant(n.st, sh[0][2]) == result_var(n.val)), nm,
                          "%s does not shut its socket down as asked and report the outcome" % nm, f.span[0], short(e.path_to(n)))
    return flags


def transfers(P, rep, flags):
    total = {"waits": 0, "timeouts": 0, "cancelled": 0}
    for d, tr, want in (("read", "Read", "readable"), ("write", "Write", "writable")):
        for f in fns(P, r"^<&?wruster::streams::cancellable_stream::CancellableStream<.*> as std::io::%s>::%s$" % (tr, d)):
            e = Engine(P, monitors=[Watch(want, None)], poison=False, keep_args=True)
            e.run(f)
            rep.engine(e, f)
            nm = "%s of %s" % (d, f.name[1:].split(" as ")[0].replace("wruster::streams::cancellable_stream::", ""))
            for b, n in marks(e, 0).items():
                rep.bad("armed", nm + ":" + b, "%s: %s" % (nm, b), f.span[0], short(e.path_to(n)))
            total["waits"] += len({(x.ctx, x.block) for x in e.all_events() if x.kind == "call" and x.name == WAIT})
            for x in e.all_events():
                if x.kind == "call" and LOAD.search(x.name):
                    rep.check("flag", x.args[0].k == "ref" and any(fl is not None and x.args[0].a[1][-1:] == fl[-1:] for fl in flags), nm,
                              "%s looks at another flag than the one set by shutting down" % nm, x.where())
            seen = {"timeouts": 0, "cancelled": 0}
            for n in e.ends:
                if n.kind != "return":
                    continue
                armed, last, seentrue, w = n.st.mon[0][:4]
                p = short(e.path_to(n))
                done = ([True] if seentrue else []) + ([truth_of(e, n.st, last)] if last is not None else [])
                k = const_kind(n.val)
                if result_var(n.val) == 1 and k == TIMED_OUT:
                    seen["timeouts"] += 1
                    rep.check("timeout", bool(done) and done[-1] is False, nm, "%s reports a time out without having looked whether the connection was shut down" % nm, f.span[0], p)
                    rep.check("no-event", w is not None and is_zero(e, n.st, mk("fld", mk("as", w, 0), 0)), nm,
                              "%s reports a time out although its wait ended with an event" % nm, f.span[0], p)
                if True in done:
                    seen["cancelled"] += 1
                    rep.check("cancelled", result_var(n.val) == 1 and k == NOT_CONNECTED, nm, "%s found the connection shut down and does not report it as not connected" % nm, f.span[0], p)
                if w is not None and known_variant(n.st, w) == 1:
                    rep.check("wait-error", result_var(n.val) == 1 or known_variant(n.st, n.val) == 1 or moved_some(e, n), nm, "%s turns a failed wait into success" % nm, f.span[0], p)
                if d == "read" and w is not None and result_var(n.val) == 0:
                    x = n.val.a[2][0]
                    if x.k == "i" and x.a[0] == 0:
                        rep.check("eof", bool(done) and done[-1] is False, nm, "%s reports the end of the connection without having looked whether it was shut down" % nm, f.span[0], p)
            for k2, v in seen.items():
                total[k2] += v
                rep.floor("%s of %s" % (k2, nm), v, 1)
    rep.floor("waits", total["waits"], 8)


def truth_of(eng, st, x):
    return bool(x.a[0]) if x.k == "b" else eng.decide(st, x)


def const_kind(v):
    for x in walk(v):
        if x.k == "agg" and x.a[0].endswith("io::ErrorKind"):
            return x.a[1]
    return None


class Setup(Monitor):
    def event(self, m, e, st, eng):
        if e.kind == "call" and e.name in (NB, ADD) and len(m) < 6:
            return m + ((e.name, e.args, e.ret),)
        return m


def setup(P, rep):
    fs = fns(P, r"^wruster::streams::cancellable_stream::CancellableStream::<.*>::new$")
    rep.floor("constructors of a cancellable stream", len(fs), 2)
    for f in fs:
        e = Engine(P, monitors=[Setup()], poison=False, keep_args=True)
        e.run(f)
        rep.engine(e, f)
        nm = "new " + f.name.split("CancellableStream::")[1]
        k = 0
        for n in e.ends:
            if n.kind != "return" or result_var(n.val) != 0:
                continue
            k += 1
            m = n.st.mon[0]
            p = short(e.path_to(n))
            nb = [x for x in m if x[0] == NB and x[1][1].k == "b" and x[1][1].a[0] == 1 and known_variant(n.st, x[2]) == 0]
            rep.check("non-blocking", bool(nb), nm, "a cancellable stream is made over a socket that may still block: a read of it could not be cancelled", f.span[0], p)
            ad = [x for x in m if x[0] == ADD and known_variant(n.st, x[2]) == 0]
            rep.check("registered", len(ad) == 1, nm, "a cancellable stream is made without its socket being registered for events", f.span[0], p)
        rep.floor("successful ends of " + nm, k, 1)
    # nothing in the streams makes a socket blocking
    k = 0
    for f in fns(P, r"^(<&?)?wruster::streams::(cancellable_stream::Canc|observable|timeout_stream::Tim)"):
        if "::{closure" in f.name:
            continue
        try:
            e = Engine(P, poison=False, keep_args=True, max_nodes=6000)
            e.run(f)
        except Overflow:
            continue
        k += 1
        for x in e.all_events():
            if x.kind == "call" and x.name == NB and x.args[1] is not mk("arg", 1):
                rep.check("stays-non-blocking", x.args[1].k == "b" and x.args[1].a[0] == 1, f.name[:60], "%s makes the socket blocking: reads of it can no longer be cancelled" % f.name[:60], x.where())
    rep.floor("functions of the stream layers", k, 15)


def moved_some(e, n):
    """success with what was moved before, known to be something (P20: exactly that)"""
    if result_var(n.val) != 0 or n.val.k != "agg":
        return False
    x = n.val.a[2][0]
    e.numeric = True
    return e.decide(n.st, e.binop(n.st, "Lt", I(0), x)) is True or e.decide(n.st, e.binop(n.st, "Eq", x, I(0))) is False


def run(P, rep):
    rep.rules += ["shutting a stream down sets its flag, then shuts the socket down in the direction given, and returns that outcome",
                  "every wait of a read (write) comes after registering interest in readability (writability) since the wait before it",
                  "a time out is reported only after a wait without events and after the flag was found unset; when the flag is found set the result is 'not connected'",
                  "a stream is made only over a socket that was made non blocking and registered; no layer makes it blocking again"]
    flags = shutdowns(P, rep)
    transfers(P, rep, flags)
    setup(P, rep)
