"""P11: time limits: what is left of a limit bounds each wait; what was spent is measured around each operation."""
from .common import *
from . import server, conv

SET = {"read": re.compile(r"set_read_timeout$"), "write": re.compile(r"set_write_timeout$")}
OP = {"read": re.compile(r"(io::Read>::|io::Read::)read$"), "write": re.compile(r"(io::Write>::|io::Write::)write$")}
NOW, ELAPSED, WAIT = "std::time::Instant::now", "std::time::Instant::elapsed", "polling::Poller::wait"
SINCE = re.compile(r"^std::time::Instant::(checked_|saturating_)?duration_since$")
TIMED_OUT, WOULD_BLOCK = 22, 13
FROM = re.compile(r"timeout_stream::TimeoutStream(::)*from$")


class Clock(Monitor):
    """the sequence of operations that matter for the time spent"""
    def __init__(self, d):
        self.d = d

    def event(self, m, e, st, eng):
        if e.kind != "call" or len(m) > 12:
            return m
        n = server.bare(e.name)
        for k in ("read", "write"):
            if SET[k].search(n):
                return m + (("set" if k == self.d else "other", e.args[-1], e.ret),)
            if OP[k].search(n):
                return m + (("op" if k == self.d else "otherop", e.args[-1], e.ret),)
        if n == NOW:
            return m + (("now", None, e.ret),)
        if n == ELAPSED:
            v = e.args[0]
            if v.k == "ref":
                v = eng.load(st, v.a[0], v.a[1])
            return m + (("elapsed", v, e.ret),)
        return m


def remaining(t):
    """(limit, [spent...]) when t is the limit minus what was spent, else None"""
    if t.k == "app" and t.a[0] == "saturating_sub":
        a, b = remaining(t.a[1]), spent(t.a[2])
        return None if a is None or b is None else (a[0], a[1] + b)
    if t.k == "app" and t.a[0] in ("dsub", "sub:Duration"):
        a, b = remaining(t.a[1]), spent(t.a[2])
        return None if a is None or b is None else (a[0], a[1] + b)
    if t.k == "fld" and t.a[0].k == "as" and t.a[0].a[0].k == "app" and t.a[0].a[0].a[0] == "checked_sub":
        c = t.a[0].a[0]
        a, b = remaining(c.a[1]), spent(c.a[2])
        return None if a is None or b is None else (a[0], a[1] + b)
    if t.k == "arg":
        return (t, [])
    return None


BETWEEN = ("duration_since", "saturating_duration_since", "sub:Duration")


def spent(t):
    if t.k == "app" and t.a[0] in BETWEEN and len(t.a) == 3 and all(x.k in ("arg", "ret") for x in t.a[1:]):
        return [t]
    if t.k == "app" and t.a[0] == "dadd":
        a, b = spent(t.a[1]), spent(t.a[2])
        return None if a is None or b is None else a + b
    if t.k == "agg" and t.a[0] == "std::time::Duration":
        return []
    if t.k in ("arg", "ret"):
        return [t]
    return None


def kind_of(v):
    """the constant error kind inside a Result value"""
    for x in walk(v):
        if x.k == "agg" and x.a[0].endswith("io::ErrorKind"):
            return x.a[1]
    return None


def layers(P, rep):
    """TimeoutStream decided as a whole: three operations in a row on a stream made by `from`, for each direction"""
    T = {"read": mk("arg", 21), "write": mk("arg", 22)}
    opt = "std::option::Option<std::time::Duration>"
    froms = fns(P, r"^wruster::streams::timeout_stream::TimeoutStream::<.*>::from$")
    rep.floor("instances of the timed stream", len(froms), 2)
    for ff in froms:
        ty = re.search(r"TimeoutStream::<(.*)>::from$", ff.name).group(1)
        who = ty.split("::")[-1] if "<" not in ty else ty.replace("wruster::streams::", "")
        for d, tr in (("read", "Read"), ("write", "Write")):
            fs = [f for f in fns(P, r"^<wruster::streams::timeout_stream::TimeoutStream<.*> as std::io::%s>::%s$" % (tr, d)) if f.name.startswith("<wruster::streams::timeout_stream::TimeoutStream<%s> as" % ty)]
            if not fs:
                rep.bad("anchor", who + " " + d, "the %s operation of the timed stream over %s cannot be found" % (d, ty))
                continue
            chain(P, rep, ff, fs[0], d, T, opt, who, ty)


def inner_opaque(x, f):
    n = f.name
    if "TimeoutStream<" in n.split(" as ")[0] or "timeout_stream::TimeoutStream" in n.split(" as ")[0]:
        return False
    return " as std::io::" in n or " as wruster::streams::timeout_stream::Timeout>" in n or value_opaque(x, f)


def chain(P, rep, ff, f, d, T, opt, who, ty):
    nm = "%s of %s" % (d, who)
    for limited in (True, False):
        a = [mk("arg", 20)] + [mk("agg", opt, 1, (T[k],)) if limited else mk("agg", opt, 0, ()) for k in ("read", "write")]
        e0 = Engine(P, poison=False)
        e0.run(ff, a)
        states = [(n.val, n.st, ()) for n in e0.ends if n.kind == "return"]
        rep.check("made", bool(states), nm, "the timed stream cannot be made", ff.span[0])
        ops = [0, 0, 0]
        for step in range(3 if limited else 1):
            nxt = {}
            timed = False
            for v, st0, hist in states:
                h = mk("heap", "timed-stream")
                cell = ("H", h)
                mem = {c: x for c, x in st0.mem.items() if c[0] != "L"}
                mem[cell] = v
                e = Engine(P, monitors=[Clock(d)], opaque=inner_opaque, poison=False, keep_args=True)
                e.run(f, [ref(cell), mk("arg", 1)], mem)
                if step == 0:
                    rep.engine(e, f)
                for n in e.ends:
                    if n.kind != "return":
                        continue
                    seq = n.st.mon[0]
                    k = [i for i, x in enumerate(seq) if x[0] == "op"]
                    p = lambda: short(e.path_to(n))
                    if any(x[0] == "otherop" for x in seq):
                        rep.bad("direction", nm, "%s: the other direction is used" % nm, f.span[0], p())
                    if not limited:
                        rep.check("unlimited", len(k) == 1 and seq[k[0]][1] is mk("arg", 1), nm, "%s without a limit is not passed on as it is" % nm, f.span[0], p())
                        continue
                    if not k:
                        kk = kind_of(n.val)
                        timed = timed or (result_var(n.val) == 1 and kk == TIMED_OUT)
                        rep.check("no-op", result_var(n.val) == 1 or known_variant(n.st, n.val) == 1, nm, "%s succeeds without touching the stream" % nm, f.span[0], p())
                        continue
                    ops[step] += 1
                    check_op(rep, e, n, seq, k, hist, T[d], nm, f, p)
                    # would-block of the inner operation is the time out
                    r = seq[k[-1]][2]
                    g = mk("app", "errkind", mk("fld", mk("as", r, 1), 0))
                    kinds = known_variant(n.st, g)
                    fg = n.st.facts.get(g)
                    other = known_variant(n.st, r) == 0 or (kinds is not None and kinds != WOULD_BLOCK) or (fg is not None and fg[0] == "nv" and WOULD_BLOCK in fg[1]) \
                        or e.decide(n.st, mk("app", "eq", g, mk("agg", "std::io::ErrorKind", WOULD_BLOCK, ()))) is False
                    if kinds == WOULD_BLOCK or (ty == "std::net::TcpStream" and not other):
                        rep.check("would-block", kind_of(n.val) == TIMED_OUT, nm, "%s: running out of time inside the operation is not reported as timed out" % nm, f.span[0], p())
                    # next step: rename what was measured
                    ren = {}
                    sq = []
                    for i, x in enumerate(seq):
                        if x[0] in ("now", "elapsed"):
                            ren[x[2]] = mk("arg", 1000 + 100 * step + i)
                        sq.append(x)
                    sq = tuple((x[0], subst(x[1], ren) if isinstance(x[1], V) else x[1], ren.get(x[2], x[2])) for x in sq)
                    v2 = subst(e.load(n.st, cell, ()), ren)
                    nxt.setdefault((v2, hist + sq), (v2, n.st, hist + sq))
            if limited and step > 0:
                rep.check("expires", timed, "%s %d" % (nm, step), "%s: no path reports the operation as timed out when nothing of the limit is left" % nm, f.span[0])
            states = sorted(nxt.values(), key=lambda x: repr(x[2])[:400])[:6]
        rep.floor("operations of " + nm + ("" if limited else " without limit"), 1 if not limited else min(ops), 1)


def check_op(rep, e, n, seq, k, hist, T, nm, f, p):
    rep.check("once", len(k) == 1, nm, "%s performs the operation more than once under one limit" % nm, f.span[0], p())
    i = k[0]
    s = [j for j in range(i) if seq[j][0] == "set"]
    rep.check("limit-set", bool(s) and known_variant(n.st, seq[s[-1]][2]) == 0 if s else False, nm, "%s: the operation starts without its limit having been set on the stream" % nm, f.span[0], p())
    if not s:
        return
    x = seq[s[-1]][1]
    x = x.a[2][0] if x.k == "agg" and x.a[1] == 1 and len(x.a[2]) == 1 else None
    r = remaining(x) if x is not None else None
    if not rep.check("what-is-left", r is not None and r[0] is T, nm, "%s: the limit set is not what is left of the configured one: %s" % (nm, show(seq[s[-1]][1])[:120]), f.span[0], p()):
        return
    full = hist + seq
    spans = []
    pos = {}
    for j, y in enumerate(full):
        if y[0] in ("now", "elapsed"):
            pos.setdefault(y[2], j)
    okk = True
    for t in r[1]:
        if t.k == "app":        # from one moment to another
            if t.a[1] in pos and t.a[2] in pos and all(full[pos[x]][0] == "now" for x in t.a[1:]):
                spans.append((pos[t.a[2]], pos[t.a[1]]))
            else:
                okk = False
            continue
        j = pos.get(t)
        if j is None or full[j][0] != "elapsed" or full[j][1] not in pos:
            okk = False
            continue
        spans.append((pos[full[j][1]], j))
    rep.check("measured", okk, nm, "%s: what counts as spent was not measured" % nm, f.span[0], p())
    prev = [j for j, y in enumerate(hist) if y[0] == "op"]
    miss = [j for j in prev if not any(a < j < b for a, b in spans)]
    rep.check("all-spent", not miss, nm, "%s: the time spent in an earlier operation is not taken off the limit" % nm, f.span[0], p())
    spans.sort()
    over = any(spans[j][1] > spans[j + 1][0] for j in range(len(spans) - 1))
    rep.check("spent-once", not over, nm, "%s: time is taken off the limit more than once" % nm, f.span[0], p())
    if hist:
        # something must have decided that there is time left
        known = any(contains(t, x) or (contains(t, r[0]) and all(contains(t, y) for y in r[1])) for t in n.st.facts)
        rep.check("left", known, nm, "%s: the operation is started without asking whether there is any time left" % nm, f.span[0], p())


class Cells(Monitor):
    """the places locked, with what a wait is given"""
    def event(self, m, e, st, eng):
        if e.kind == "lock" and e.args and e.args[0].k == "ref" and len(m) < 6:
            x = ("lock", e.args[0])
            return m if x in m else m + (x,)
        if e.kind == "call" and e.name == WAIT and len(m) < 6:
            hit = [p for k, p in m if k == "lock" and eng.load(st, p.a[0], p.a[1] + (("mx",),)) is e.args[2]]
            x = ("wait", hit[-1] if hit else None)
            return m if x in m else m + (x,)
        return m


def place(p):
    return tuple(x for x in p.a[1])


def cells(P, rep):
    """the limit given to a cancellable stream is the one its waits use"""
    cell = {}
    nset = 0
    for d in ("read", "write"):
        fs = [f for f in fns(P, r"^wruster::streams::cancellable_stream::CancellableStream::<.*>::set_%s_timeout$" % d)]
        fs += [f for f in fns(P, r" as wruster::streams::timeout_stream::Timeout>::set_%s_timeout$" % d) if "test_utils" not in f.name]
        for f in fs:
            e = Engine(P, monitors=[Cells()], poison=False, keep_args=True)
            e.run(f)
            rep.engine(e, f)
            nset += 1
            nm = f.name.split(" as ")[0].lstrip("<").replace("wruster::streams::", "") + " set_%s_timeout" % d
            tcp = [x for x in e.all_events() if x.kind == "call" and x.name.startswith("std::net::TcpStream::set_")]
            for n in e.ends:
                if n.kind != "return" or result_var(n.val) == 1:
                    continue
                if tcp:
                    good = len(tcp) == 1 and tcp[0].name.endswith("set_%s_timeout" % d) and tcp[0].args[-1] is mk("arg", 1)
                    rep.check("forwarded", good, nm, "%s does not give the limit to the socket" % nm, f.span[0], short(e.path_to(n)))
                    continue
                got = [p for k, p in n.st.mon[0] if k == "lock" and e.load(n.st, p.a[0], p.a[1] + (("mx",),)) is mk("arg", 1)]
                if rep.check("kept", bool(got), nm, "%s does not keep the limit" % nm, f.span[0], short(e.path_to(n))):
                    cell.setdefault(d, set()).add(place(got[-1])[-1:])
    rep.floor("ways to set a limit", nset, 8)
    if not cell.get("read") or not cell.get("write"):
        rep.bad("anchor", "limit cells", "the place where a limit is kept cannot be determined")
        return
    rep.check("distinct", not (cell["read"] & cell["write"]) and len(cell["read"]) == 1 and len(cell["write"]) == 1, "cells", "reading and writing limits share a place")
    for d, tr in (("read", "Read"), ("write", "Write")):
        k = 0
        for f in fns(P, r"^<&?wruster::streams::cancellable_stream::CancellableStream<.*> as std::io::%s>::%s$" % (tr, d)):
            e = Engine(P, monitors=[Cells()], poison=False, keep_args=True)
            e.run(f)
            rep.engine(e, f)
            for n in e.nodes:
                for x in n.st.mon[0]:
                    if x[0] == "wait":
                        k += 1
                        good = x[1] is not None and place(x[1])[-1:] in cell[d]
                        rep.check("wait", good, "%s of %s" % (d, f.name[1:].split(" as ")[0].split("::", 2)[-1]), "a wait of the %s operation is not bounded by the limit set for it" % d, f.span[0], short(e.path_to(n)))
        rep.floor("bounded waits of " + d, k, 2)


class Fresh(Monitor):
    """each message is read / written through a timed stream of its own"""
    def event(self, m, e, st, eng):
        if e.kind != "call":
            return m
        n = server.bare(e.name)
        if FROM.search(n):
            return tuple(x for x in m if x is not e.ret) + (e.ret,)
        if conv.READ.search(n) or conv.WRITE.search(n):
            v = conv.value(eng, st, e.args[-1])
            while v.k in ("upd", "mut") and v not in m and v.k == "upd":
                v = v.a[0]
            hit = [x for x in m if isinstance(x, V) and (x is v or contains(e.args[-1], x) or contains(v, x))]
            if not hit:
                return mark(m, "a message is %s without a time limit of its own" % ("read" if conv.READ.search(n) else "written"))
            return tuple(x for x in m if x is not hit[0])
        return m


def use(P, rep):
    """the server's limits are the ones its messages are read and written under"""
    names = conv.field_names(P, "wruster::Timeouts")
    sn = conv.field_names(P, "wruster::Server")
    self_t = mk("fld", mk("deref", mk("arg", 0)), sn.get("timeouts", -1))
    want = {1: "read_request_timeout", 2: "write_response_timeout"}
    k = 0
    engines = []
    for j in conv.jobs(P, rep):
        engines.append(("conversation of " + j[0], conv.run_job(P, rep, j, monitors=[Fresh()], opaque=server.api_opaque(), poison=False, keep_args=True)))
    for s, wf, v, st, byref, ev in server.accept_threads(P, rep, server.starts(P, rep)):
        e = Engine(P, monitors=[Fresh()], opaque=server.api_opaque(), poison=False, keep_args=True)
        run_closure(e, v, st, wf, byref)
        engines.append(("accept thread of " + s, e))
    for nm, e in engines:
        seen = 0
        for x in e.all_events():
            if x.kind == "call" and FROM.search(server.bare(x.name)):
                seen += 1
                k += 1
                for i, w in want.items():
                    a = x.args[i]
                    d = a.a[2][0] if a.k == "agg" and a.a[1] == 1 and len(a.a[2]) == 1 else a
                    good = d.k == "fld" and d.a[1] == names.get(w) and same_root(d.a[0], self_t)
                    rep.check("configured", good, "%s %s" % (nm, w), "%s: the limit used is not the configured %s: %s" % (nm, w, show(a)[:100]), x.where())
        for b, n in marks(e, 0).items():
            rep.bad("own-limit", nm + ":" + b, "%s: %s" % (nm, b), "wruster/src/lib.rs", short(e.path_to(n)))
        rep.floor("timed streams of the " + nm, seen, 1)


def same_root(t, want):
    return t is want


def ctor(P, rep):
    """the limits given to (or defaulted by) a server are the ones it stores"""
    names = conv.field_names(P, "wruster::Server")
    for nm in ("from_timeouts", "new"):
        f = fn1(P, rep, r"^wruster::Server::%s$" % nm)
        if f is None:
            continue
        e = Engine(P, poison=False)
        e.run(f)
        rep.engine(e, f)
        for n in e.ends:
            if n.kind != "return":
                continue
            v = e.proj(n.val, ("f", names["timeouts"])) if n.val.k == "agg" else None
            if nm == "from_timeouts":
                rep.check("stored", v is mk("arg", 0), nm, "a server does not keep the limits it was given", f.span[0])
            else:
                rep.check("stored", v is not None and v.k == "agg" and len(v.a[2]) == 2 and not any(contains(v, y) and dz(y) for y in walk(v)), nm, "a server has no default limits", f.span[0])


def dz(y):
    return y.k == "agg" and y.a[0] == "std::time::Duration" and all(not z.atoms and all(w.a[0] == 0 for w in walk(z) if w.k == "i") for z in y.a[2])


def run(P, rep):
    rep.rules += ["three operations in a row on a timed stream: before each one the stream is given the limit minus the measured, disjoint spans that cover all earlier operations; "
                  "when nothing is left the operation is not started and reported as timed out; without a limit it is passed on",
                  "a limit set on any layer is kept in, and every wait of that direction is bounded by, the same place",
                  "every request is read and every response written through a timed stream of its own, made with the limits the server was configured with, in the right order"]
    layers(P, rep)
    cells(P, rep)
    use(P, rep)
    ctor(P, rep)
