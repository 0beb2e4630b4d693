"""Shared anchors and helpers of the rules."""
import os, re
from ..terms import *
from ..interp import Engine, Event, Overflow

OPAQUE_TYPES = ("StatusCode", "HttpMethod", "version::Version")


def value_opaque(x, f):
    """conversions of the vocabulary enums are decided once (P08) and treated as functions elsewhere"""
    n = f.name
    if "wruster::http::status::StatusCode" in n or "wruster::http::HttpMethod" in n or "wruster::http::version::" in n:
        return True
    return False


def fn1(P, rep, pat, unit="wruster.lib"):
    """the function with this (anchored) name pattern, compiled in `unit`; anchor lost -> violation"""
    r = re.compile(pat)
    c = [f for f in P.fns.values() if not f.poly and f.unit == unit and r.search(f.name)]
    if not c:
        rep.bad("anchor", pat, "no function matches the anchor " + pat)
        return None
    return sorted(c, key=lambda f: f.name)[0]


def fns(P, pat, unit="wruster.lib"):
    r = re.compile(pat)
    return sorted([f for f in P.fns.values() if not f.poly and (unit is None or f.unit == unit) and r.search(f.name)], key=lambda f: f.name)


def is_zero(eng, st, x):
    """the (unsigned) number x is known to be 0"""
    return eng.decide(st, mk("op", "Eq", x, I(0))) is True or eng.decide(st, mk("op", "Lt", I(0), x)) is False or eng.decide(st, mk("op", "Lt", x, I(1))) is True \
        or eng.decide(st, mk("op", "Le", x, I(0))) is True


def closure_name(v):
    return v.a[0] if v.k == "agg" else (v.a[0] if v.k == "fnv" else show(v))


def spawned_bodies(e):
    """[(Fn, closure value, state, event)] for closures given to thread::spawn"""
    out = []
    for v, st, ev in e.spawned:
        if v.k == "ref":
            v = e.load(st, v.a[0], v.a[1])
        f, byref = e.closure_body(v, st)
        out.append((f, v, st, ev, byref))
    return out


def run_closure(e2, v, st, f, byref, rep=None, args=()):
    """run a closure value captured in state st with engine e2"""
    mem = {c: x for c, x in st.mem.items() if c[0] != "L"}
    # captured locals by reference stay reachable
    for c, x in st.mem.items():
        if c[0] == "L":
            mem[c] = x
    a = [v] + list(args)
    if byref:
        h = mk("heap", "closure-env")
        mem[("H", h)] = v
        a[0] = ref(("H", h))
    return e2.run(f, a, mem, dict(st.facts), dict(st.rel))


class Monitor:
    """typestate automaton run in product with the abstract states; states are hashable (tuples of terms/strings)"""
    def init(self):
        return ()

    def event(self, m, e, st, eng):
        return m


def where(ev):
    return ev.where()


def short(path):
    out = []
    for e in path:
        if e.kind in ("branch", "variant", "ret", "lock", "oblig") and not os.environ.get("WV_LONG"):
            continue
        out.append(str(e)[:240])
    return out[-40:]


def result_var(v):
    """0 Ok / 1 Err / None for a Result/Option aggregate"""
    if v.k == "agg":
        return v.a[1]
    return None


def truth(e):
    """(op, x, y, holds) of a branch on a comparison; op is Lt or Eq (all comparisons are normalised to these)"""
    if e.kind != "branch" or not e.args or e.ret is None or e.ret.k != "b":
        return None
    t, b = e.args[0], bool(e.ret.a[0])
    while t.k == "not":
        t, b = t.a[0], not b
    if t.k != "op":
        return None
    return t.a[0], t.a[1], t.a[2], b


def known_variant(st, x):
    """variant index of the enum value x, if the path has established it"""
    if x.k == "agg":
        return x.a[1]
    f = st.facts.get(x)
    if f is not None and f[0] == "v":
        return f[1]
    return None


def learnt(ev, x):
    """variant index of x established by this branch (two variant enums), else None"""
    if ev.kind == "variant" and ev.args and ev.args[0] is x and ev.ret is not None:
        return ev.ret.a[0]
    t = truth(ev)
    if t is not None and t[0] == "Eq":
        for d, k in ((t[1], t[2]), (t[2], t[1])):
            if d.k == "discr" and d.a[0] is x and k.k == "i":
                return k.a[0] if t[3] else (1 - k.a[0] if k.a[0] in (0, 1) else None)
    if ev.kind == "branch" and ev.args and ev.ret is not None and ev.ret.k == "b":
        t, b = ev.args[0], bool(ev.ret.a[0])
        while t.k == "not":
            t, b = t.a[0], not b
        if t.k == "isv" and t.a[0] is x:
            return t.a[1] if b else 1 - t.a[1]
    return None


def subject(ev):
    """the enum value whose variant this branch tests"""
    if ev.kind == "variant" and ev.args:
        return ev.args[0]
    t = truth(ev)
    if t is not None and t[0] == "Eq":
        for d in (t[1], t[2]):
            if d.k == "discr":
                return d.a[0]
    return None


def mark(m, why):
    """add a violation marker to a monitor state (a tuple)"""
    s = "bad: " + why
    # some are enough: texts that change on every iteration must not make every state a new one
    return m if s in m or sum(isinstance(x, str) and x.startswith("bad: ") for x in m) >= 6 else m + (s,)


def marks(e, i):
    """{marker: first node} of monitor i"""
    out = {}
    for n in e.nodes:
        for x in n.st.mon[i]:
            if isinstance(x, str) and x.startswith("bad: "):
                out.setdefault(x[5:], n)
    return out


class Trail(Monitor):
    """what happened on the path: matching calls as (name, args, ret) and matching comparisons as (op, x, y, holds)"""
    def __init__(self, calls=None, truths=None, most=8):
        self.calls, self.truths, self.most = calls, truths, most

    def event(self, m, e, st, eng):
        if len(m) >= self.most:
            return m
        if self.calls and e.kind == "call" and self.calls(e):
            return m + ((e.name, e.args, e.ret),)
        if self.truths:
            t = truth(e)
            if t is not None and self.truths(t) and t not in m:
                return m + (t,)
        return m


def err_kind(eng, st, err):
    """(kind of the io::Error err when the path has established it, kinds it is known not to be)"""
    if err.k == "agg" and err.a[2] and err.a[2][0].k == "agg" and re.search(r"(^|::)ErrorKind$", err.a[2][0].a[0]):
        return err.a[2][0].a[1], set()
    g = mk("app", "errkind", err)
    k = known_variant(st, g)
    no = set()
    f = st.facts.get(g)
    if f is not None and f[0] == "nv":
        no |= set(f[1])
    for x in range(48):
        d = eng.decide(st, mk("app", "eq", g, mk("agg", "std::io::ErrorKind", x, ())))
        if d is True:
            k = x
        elif d is False:
            no.add(x)
    return k, no


def failure(r):
    """what is inside Err of the result r"""
    return r.a[2][0] if r.k == "agg" and r.a[2] else mk("fld", mk("as", r, 1), 0)


def added_up(x):
    """a 64 bit counter that goes up: 2^64 steps away from an overflow"""
    c = x.args[0]
    if c.k == "not":
        c = c.a[0]
    return c.k == "op" and c.a[0] == "OvfAdd"


def in_range(rep, e, rule, key, what, spare=added_up):
    """every access to a position and every arithmetic operation of the run is proved in range"""
    seen = {}
    for x in e.all_events():
        if x.kind == "oblig":
            k = (x.fn(), x.name, x.where())
            good = (x.ret.k == "b" and x.ret.a[0] == 1) or spare(x)
            if k in seen and not seen[k][0]:
                continue
            seen[k] = (good, x)
    for (f, nm, w), (good, x) in sorted(seen.items(), key=lambda z: z[0]):
        rep.check(rule, good, "%s:%s:%s" % (key, f, nm), "%s can panic: %s (%s not excluded)" % (what, nm, show(x.args[0], 5)[:120] if x.args else ""), w)
