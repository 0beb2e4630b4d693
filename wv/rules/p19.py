"""P19: the number of worker threads never exceeds the configured maximum."""
from .common import *
from . import pool

PUSH = ("std::collections::VecDeque::<T, A>::push_back", "std::collections::VecDeque::<T, A>::push_front", "std::vec::Vec::<T, A>::push")
POP = ("std::collections::VecDeque::<T, A>::pop_front", "std::collections::VecDeque::<T, A>::pop_back", "std::vec::Vec::<T, A>::pop")


class Token(Monitor):
    """the slot taken from the free list that the next thread may use"""
    def init(self):
        return ()

    def event(self, m, e, st, eng):
        toks = m
        if e.kind == "call" and e.name in POP and e.ret is not None:
            return toks + (mk("fld", mk("as", e.ret, 1), 0),)
        if e.kind == "variant" and e.args and e.ret is I(0):
            j = mk("fld", mk("as", e.args[0], 1), 0)
            return tuple(x for x in toks if x is not j)
        if e.kind == "call" and e.name in pool.SPAWN:
            live = [x for x in toks if x.k != "s"]
            if not live:
                return pool.bad(toks, "a worker is started without a free slot")
            return tuple(x for x in toks if x is not live[0]) + (mk("s", "used"),)
        return m


def run(P, rep):
    rep.rules += ["fixed workers: threads are started only under the test `i < size` of a counter from 0 in steps of one",
                  "on demand workers: a thread is started only with a slot taken from the free list; the list is filled under `i < max`; a worker "
                  "gives back the very slot it was started with, at most once, and only after its last receive failed",
                  "the two pools are sized min and max - min, the second only when min < max"]
    R = pool.roots(P, rep)
    # sizes handed to the two pools
    f = R["pool.new"]
    if f is not None:
        names = {R[k].name: k for k in ("static.new", "dynamic.new") if R[k]}
        e = Engine(P, poison=False, opaque=lambda x, g: g in (R["static.new"], R["dynamic.new"]),
                   monitors=[Trail(lambda x: x.name in names, lambda t: t[0] == "Lt" and {t[1], t[2]} == {mk("arg", 0), mk("arg", 1)} or spare(t))])
        e.run(f)
        rep.engine(e, f)
        a0, a1 = mk("arg", 0), mk("arg", 1)
        nstat = ndyn = 0
        for n in e.ends:
            if n.kind != "return":
                continue
            p = e.path_to(n)
            tr = n.st.mon[0]
            st = [x[1][0] for x in tr if names.get(x[0]) == "static.new"]
            dy = [x[1][0] for x in tr if names.get(x[0]) == "dynamic.new"]
            nstat += len(st)
            ndyn += len(dy)
            okk = len(st) <= 1 and len(dy) <= 1 and all(x is a0 for x in st)
            rep.check("split", okk, "static", "the pool of fixed workers is not created (once) with the minimum: %s" % [show(x) for x in st], p[-1].where(), short(p))
            good = all(is_diff(x, a1, a0) and (("Lt", a0, a1, True) in tr or any(len(t) == 4 and spare(t) is x for t in tr)) for x in dy)
            rep.check("split", good, "dynamic", "the pool of on demand workers is created with %s (expected max - min, and only if min < max)" % [show(x) for x in dy],
                      p[-1].where(), short(p))
        rep.floor("creations of the fixed pool", nstat, 1)
        rep.floor("creations of the on demand pool", ndyn, 1)
    # fixed pool
    f = R["static.new"]
    if f is not None:
        m = pool.Counted(lambda x: x.kind == "call" and x.name in pool.SPAWN, mk("arg", 0))
        counted(P, rep, f, m, "static", "starts more threads than its size")
    f = R["static.run"]
    if f is not None:
        e = Engine(P, poison=False)
        e.run(f)
        rep.engine(e, f)
        rep.check("static-run", not e.spawned, "spawn", "the fixed pool starts threads while running jobs", f.span[0])
    # on demand pool
    f = R["dynamic.new"]
    if f is not None:
        m = pool.Counted(lambda x: x.kind == "call" and x.name in PUSH and len(x.args) > 1 and not x.args[1].k in ("ref", "agg"), mk("arg", 0))
        e = counted(P, rep, f, m, "dynamic", "has more free slots than its size")
        rep.check("dynamic-new", not e.spawned, "spawn", "the on demand pool starts threads when it is created", f.span[0])
    f = R["dynamic.run"]
    for f, within in ((f, "on demand pool"), (R["pool.run"], "whole pool")):
        if f is None:
            continue
        e = Engine(P, monitors=[Token()], poison=False)
        e.run(f)
        rep.engine(e, f)
        bads = {}
        for n in e.nodes:
            for x in n.st.mon[0]:
                if x.k == "s" and x.a[0].startswith("bad"):
                    bads.setdefault(x.a[0], n)
        for b, n in bads.items():
            rep.bad("slot", within + ":" + b, within + ": " + b[5:], f.span[0], short(e.path_to(n)))
        if not bads:
            rep.ok("slot", "every start of a worker has its own free slot")
        if f is R["pool.run"]:
            break
        rep.floor("starts of on demand workers", len({id(ev.block) and (ev.ctx, ev.block) for _, _, ev in e.spawned}), 1)
        for wf, v, st, ev, byref in spawned_bodies(e):
            if wf is None:
                rep.bad("worker-body", "dynamic", "the body of a worker thread cannot be resolved", ev.where())
                continue
            for unw in (False, True):
                give_back(P, rep, e, wf, v, st, byref, ev, unw)


def counted(P, rep, f, m, key, msg):
    e = Engine(P, monitors=[m], poison=False)
    e.run(f)
    rep.engine(e, f)
    hit = [n for n in e.nodes if any(x.k == "s" for x in n.st.mon[0][2:])]
    sites = len({(x.ctx, x.block) for x in e.all_events() if m.target(x)})
    rep.floor("guarded sites in %s.new" % key, sites, 1)
    rep.check("count", not hit, key, "the %s pool %s: an iteration is not guarded by `i < size`" % (key, msg), f.span[0],
              short(e.path_to(hit[0])) if hit else ())
    return e


class Give(Monitor):
    """how often the slot was given back, whether the pool was found gone, and whether the last receive failed"""
    def __init__(self, tok):
        self.tok = tok

    def init(self):
        return (0, False, False)

    def event(self, m, e, st, eng):
        n, gone, done = m[:3]
        r = m[3:]
        if e.kind == "call" and e.name in PUSH and len(e.args) > 1 and e.args[1].k not in ("ref", "agg"):
            if e.args[1] is not self.tok:
                return pool.bad(m, "a slot that is not the worker's is given back")
            if not done:
                return pool.bad((min(n + 1, 2), gone, done) + r, "the slot is given back while the worker still receives jobs")
            return (min(n + 1, 2), gone, done) + r
        got = pool.received(e)
        if got is not None:
            if n > 0:
                return pool.bad(m, "the worker receives after giving its slot back")
            return (n, gone, got == "end") + r
        if e.kind in ("call", "variant") and "upgrade" in str(e.name) or (e.kind == "variant" and e.args and "upgrade" in show(e.args[0])):
            v = e.ret
            if v is not None and ((v.k == "agg" and v.a[1] == 0) or v is I(0)):
                return (n, True, done) + r
        if e.kind == "invoke" and e.name in pool.CALL and n > 0:
            return pool.bad(m, "a job is run after the slot was given back")
        return m


def give_back(P, rep, e0, wf, v, st, byref, ev, unw):
    toks = [t for t in tokens(e0, st, v)]
    if len(toks) != 1:
        rep.bad("give-back", "token", "the worker does not own exactly one slot of the free list (%d)" % len(toks), ev.where())
        return
    e = Engine(P, monitors=[Give(toks[0])], poison=False,
               unwinds=(lambda c, x: x.kind == "invoke" and x.name in pool.CALL) if unw else None)
    run_closure(e, v, st, wf, byref)
    rep.engine(e, wf)
    n_ = 0
    seen = set()
    for n in e.nodes:
        for x in n.st.mon[0][3:]:
            if x not in seen:
                seen.add(x)
                rep.bad("give-back", x.a[0], x.a[0][5:], ev.where(), short(e.path_to(n)))
    for n in e.ends:
        if n.kind in ("return", "unwound"):
            cnt, gone, done = n.st.mon[0][:3]
            n_ += 1
            rep.check("give-back", (cnt == 1 and done) or (cnt == 0 and gone), "end:%d,%s,%s" % (cnt, gone, done),
                      "the worker thread ends (%s) having given its slot back %d time(s)" % (n.kind, cnt), ev.where(), short(e.path_to(n)))
    rep.floor("ends of on demand workers", n_, 1)


def tokens(e, st, v, d=0, seen=None):
    """terms popped from the free list that are owned by a captured value"""
    seen = set() if seen is None else seen
    if v in seen or d > 8:
        return
    seen.add(v)
    if v.k in ("fld", "as") and any(w.k in ("ret", "fresh", "sym") and "pop" in show(w) for w in walk(v)):
        yield v
        return
    if v.k == "agg":
        for x in v.a[2]:
            yield from tokens(e, st, x, d + 1, seen)
    elif v.k == "ref" and v.a[0][0] == "H":
        yield from tokens(e, st, e.load(st, v.a[0], v.a[1]), d + 1, seen)
    elif v.k == "upd":
        for _, x in v.a[1]:
            yield from tokens(e, st, x, d + 1, seen)


def spare(t):
    """the difference max - min, taken without wrapping, that the comparison t establishes to be positive"""
    op, x, y, h = t
    for p, q in ((x, y), (y, x)):
        if is_diff(q, mk("arg", 1), mk("arg", 0)) and not (q.k == "app" and q.a[0] in ("sub", "Sub", "SubWithOverflow")):
            if op == "Eq" and p is I(0) and not h or op == "Lt" and p is I(0) and q is y and h or op == "Lt" and p is I(1) and q is x and not h:
                return q
    return None


def is_diff(x, a, b):
    if x.k == "fld" and x.a[1] == 0 and x.a[0].k == "as" and x.a[0].a[1] == 1 and x.a[0].a[0].k == "app" and "checked_sub" in str(x.a[0].a[0].a[0]):
        return list(flat(x.a[0].a[0]))[:2] == [a, b]
    return x.k == "app" and x.a[0] in ("sub", "Sub", "SubWithOverflow", "saturating_sub", "usize::saturating_sub", "core::num::<impl usize>::saturating_sub") and list(flat(x))[:2] == [a, b]


def flat(x):
    for y in x.a[1:]:
        if isinstance(y, tuple):
            yield from y
        elif isinstance(y, V):
            yield y


