"""P28: the connections a client keeps: given back under their key, at most a hundred, the one not used for longest goes first, idle ones are let go."""
from .common import *
from . import server, conv

MAPOP = re.compile(r"^(std::collections::(HashMap|BTreeMap|hash_map::HashMap)|hashbrown::(map::)?HashMap)(::)+(\w+)$")
ENTRY = re.compile(r"(hash_map|btree_map|map)::(Entry|OccupiedEntry|VacantEntry|entry::\w+)(::)+(\w+)$")
READS = ("len", "is_empty", "contains_key", "get", "get_key_value", "keys", "values", "iter", "capacity", "reserve", "shrink_to_fit", "shrink_to", "into_iter",
         "into_values", "into_keys", "new", "with_capacity", "hasher")
NEXT = "std::iter::Iterator::next"
MINBY = re.compile(r"^std::iter::Iterator::(min_by_key|min_by|max_by_key|max_by)$")
TAKE = re.compile(r"^std::mem::take$")
WAIT = re.compile(r"^std::thread::(park_timeout|park|sleep|yield_now|park_timeout_ms|sleep_ms)$")
MOST = 100
LOSSY = re.compile(r"^it:(skip|take|step_by|skip_while|take_while|map_while)")
POOL = r"^wruster::http::client::connection_pool::Pool::<.*>::"


def mapop(e):
    if e.kind != "call":
        return None
    n = MAPOP.search(server.bare(e.name).rstrip(":"))
    return n.group(5) if n else None


def hook(c, st):
    n = server.bare(c.tdef or "").rstrip(":")
    if n == "std::time::Instant::elapsed":
        return [(app("elapsed", c.eng.content(st, c.args[0])), st)]
    if n == "std::cmp::Ord::cmp" and "Instant" in str(c.x.get("name")):
        return [(app("cmp", c.eng.content(st, c.args[0]), c.eng.content(st, c.args[1])), st)]
    if MINBY.search(n):
        it = c.eng.content(st, c.args[0])
        v = c.args[1]
        r = c.sym(st)
        return [(r, st, Event("call", n, (it, v), r, c.ctx, c.block, (c.x, v, st.copy())))]
    if n.endswith("::retain") and MAPOP.search(n):
        r = UNIT
        return [(r, st, Event("call", n, c.args, r, c.ctx, c.block, (c.x, c.args[1], st.copy())))]
    return None


def elem_of(v):
    """the element of an iteration that v is a part of"""
    for x in walk(v):
        if x.k == "elem" or x.k == "app" and x.a[0] == "elem":
            return x
    return None


def bareof(v):
    """without dereferences"""
    while True:
        if v.k == "deref":
            v = v.a[0]
        elif v.k == "ref" and v.a[0][0] == "D" and not v.a[1]:
            v = v.a[0][1]
        else:
            return v


def part(v, i):
    """v is (what is behind) part i of an element"""
    v = bareof(v)
    return v.k == "fld" and v.a[1] == i and bareof(v.a[0]).k in ("elem", "app") and elem_of(v) is bareof(v.a[0])


def time_of(v):
    """the element whose time of last use v is"""
    v = bareof(v)
    if v.k == "fld" and v.a[1] == LU[0]:
        w = bareof(v.a[0])
        if w.k == "fld" and w.a[1] == 1:
            w = bareof(w.a[0])
            if elem_of(w) is w:
                return w
    return None


LU = [1]


class Ops(Monitor):
    """what happens to the map of the pool: (element not yet put back, drained?, has the key?, length term, number evicted, number stored, comparison, snapshot)"""
    def __init__(self, key, val):
        self.key, self.val = key, val
        self.snaps, self.logs, self.outs = [], [], []

    def init(self):
        return (None, "", None, None, 0, 0, None, None)

    def note(self, eng, st):
        self.snaps.append(st.copy())
        return len(self.snaps) - 1

    def head(self, m, ctx, block, st, eng):
        cur, dr, has, ln, ev, sto, cmp_, sn = m[:8]
        if isinstance(sn, tuple):
            # the end of an iteration
            self.logs.append((sn[0], st.copy(), sn[1], cmp_))
            if cur is not None and dr:
                m = mark(m, "a connection is lost")
            return (None, dr, has, ln, ev, sto, None, None) + m[8:]
        return m

    def is_key(self, eng, st, v):
        return bareof(eng.content(st, v)) is self.key

    def asks(self, eng, st, r):
        """the answer r is about the key given"""
        xs = [y for a in r.a[1:] for y in (a if isinstance(a, tuple) else (a,)) if isinstance(y, V)]
        return bool(xs) and self.is_key(eng, st, xs[-1])

    def event(self, m, e, st, eng):
        cur, dr, has, ln, ev, sto, cmp_, sn = m[:8]
        rest = m[8:]
        if e.kind in ("branch", "variant") and e.args:
            for x in walk(e.args[0]):
                if x.k == "app" and x.a[0] == "len" and ln is not x and not sto and not ev:
                    ln = x
            t = e.args[0]
            b = e.ret is not None and e.ret.k == "b" and bool(e.ret.a[0])
            while t.k == "not":
                t, b = t.a[0], not b
            if e.kind == "branch" and t.k == "ret" and str(t.a[0]).endswith("contains_key") and self.asks(eng, st, t):
                has = b
            s = subject(e)
            if s is None and t.k == "isv":
                s = t.a[0]
            if s is not None and s.k == "ret" and str(s.a[0]).split("::")[-1] in ("get", "get_key_value") and self.asks(eng, st, s):
                k = learnt(e, s)
                has = has if k is None else k == 1
            if s is not None and s.k == "ret" and MINBY.search("std::iter::Iterator::" + str(s.a[0]).split("::")[-1]) and learnt(e, s) == 0 and "nothing" not in rest:
                rest = rest + ("nothing",)
            t = truth(e)
            if t is not None and t[0] == "Lt":
                a, c = time_of(t[1]), time_of(t[2])
                el = sn[1] if isinstance(sn, tuple) else None
                if el is not None and a is el and c is not el:
                    cmp_ = (t[2], t[3])
                elif el is not None and c is el and a is not el:
                    cmp_ = (t[1], not t[3])
            return (cur, dr, has, ln, ev, sto, cmp_, sn) + rest
        if e.kind == "call" and TAKE.search(e.name) and "PoolResource" in str(e.info):
            return (None, "drained", has, ln, ev, sto, cmp_, sn) + rest
        if e.kind == "call" and e.name == NEXT and e.ret is not None and e.ret.k == "agg":
            it = eng.content(st, e.args[0])
            if e.ret.a[1] == 1:
                el = elem_of(e.ret)
                if el is None or not any("PoolResource" in str(y) for y in [e.info]) and not e.ret.a[2][0].k == "agg" and False:
                    return m
                if any(y.k == "app" and LOSSY.search(str(y.a[0])) for y in walk(el)):
                    rest = mark(m[:8] + rest, "not all connections are looked at")[8:]
                i = self.note(eng, st)
                if "some" not in rest:
                    rest = rest + ("some",)
                if isinstance(sn, tuple) and cur is not None and dr:
                    rest = mark(m[:8] + rest, "a connection is lost")[8:]
                return (el if dr else None, dr, has, ln, ev, sto, None, (i, el)) + rest
            if dr:
                dr = "done"
            if "some" not in rest and "nothing" not in rest:
                rest = rest + ("nothing",)      # the pool is empty: it can not be full
            return (None, dr, has, ln, ev, sto, None, self.note(eng, st)) + rest
        if e.kind == "call" and MINBY.search(e.name):
            self.outs.append(("by", e, st.copy()))
            return m
        n = mapop(e)
        if e.kind == "call" and n is None and ENTRY.search(server.bare(e.name)) and "PoolResource" in str(e.info):
            return mark(m, "the pool is changed in a way that is not understood (%s)" % ENTRY.search(server.bare(e.name)).group(4))
        if n is None or n in READS:
            if n == "len" and ln is None and e.ret is not None:
                ln = e.ret
                return (cur, dr, has, ln, ev, sto, cmp_, sn) + rest
            return m
        if n == "drain":
            return (None, "drained", has, ln, ev, sto, cmp_, None) + rest
        if n == "insert":
            k, v = e.args[1], e.args[2]
            vv = eng.content(st, v)
            if v is self.val or vv is self.val:
                if not self.is_key(eng, st, k):
                    rest = mark(m[:8] + rest, "the connection is kept under another key than the one given")[8:]
                if not (ev == 1 or has is True or self.room(eng, st, ln) or "nothing" in rest and self.full(eng, st, ln)):
                    rest = mark(m[:8] + rest, "more than %d connections are kept" % MOST)[8:]
                if dr == "drained" or cur is not None and dr:
                    rest = mark(m[:8] + rest, "connections are lost when one is put in")[8:]
                return (cur, dr, has, ln, ev, sto + 1 if sto < 3 else 3, cmp_, sn) + rest
            if cur is not None and (contains(v, cur) or contains(vv, cur)):
                if not (part(eng.content(st, k), 0) or part(k, 0)) or not (part(vv, 1) or part(v, 1)):
                    rest = mark(m[:8] + rest, "a connection is put back under another key, or changed")[8:]
                return (None, dr, has, ln, ev, sto, cmp_, sn) + rest
            return mark(m, "something else than the connection given is put into the pool")
        if n in ("remove", "remove_entry"):
            if self.is_key(eng, st, e.args[1]):
                return mark(m, "the connection of the key itself is removed first") if False else m
            if has is not False:
                rest = mark(m[:8] + rest, "a connection is let go although the new one takes the place of another")[8:]
            if not self.full(eng, st, ln):
                rest = mark(m[:8] + rest, "a connection is let go although there is room")[8:]
            if dr == "drained" or cur is not None and dr:
                rest = mark(m[:8] + rest, "not all connections are looked at")[8:]
            self.outs.append(("remove", e, st.copy(), sn, eng.content(st, e.args[1])))
            return (cur, dr, has, ln, min(ev + 1, 2), sto, cmp_, sn) + rest
        return mark(m, "the pool is changed in a way that is not understood (%s)" % n)

    def room(self, eng, st, ln):
        if ln is None:
            return False
        return eng.decide(st, eng.binop(st, "Lt", ln, I(MOST))) is True or eng.decide(st, eng.binop(st, "Eq", ln, I(MOST))) is False

    def full(self, eng, st, ln):
        if ln is None:
            return False
        return eng.decide(st, eng.binop(st, "Lt", ln, I(MOST))) is False or eng.decide(st, eng.binop(st, "Eq", ln, I(MOST))) is True


def find(eng, v, x, path=(), d=0):
    """where inside of v the term x is"""
    if v is x:
        return path
    if v.k == "agg" and d < 5:
        for i, y in enumerate(v.a[2]):
            if isinstance(y, V):
                p = find(eng, y, x, path + ((("d", v.a[1]),) if v.a[1] is not None else ()) + (("f", i),), d + 1)
                if p is not None:
                    return p
    return None


def locate(eng, st, x):
    """[(cell, path)]: the places of memory x comes from"""
    out = []
    v, suf = x, ()
    for _ in range(6):
        for c, y in st.mem.items():
            p = find(eng, y, v)
            if p is not None:
                out.append((c, p + suf))
        if v.k == "fld":
            suf = (("f", v.a[1]),) + suf
        elif v.k == "as":
            suf = (("d", v.a[1]),) + suf
        elif v.k != "deref":
            break
        v = v.a[0]
    return out


def at(eng, st, pl):
    c, path = pl
    v = st.mem.get(c)
    for s in path:
        if v is None:
            return None
        v = eng.proj(v, s)
    if v is not None and v.k == "ref":
        w = eng.content(st, v)
        v = w if w.k != "uninit" else v
    return v


def none_at(eng, st, pl):
    """an option on the way to the place is known to be empty"""
    c, path = pl
    v = st.mem.get(c)
    for s in path:
        if v is None:
            return False
        if s[0] == "d" and s[1] == 1 and known_variant(st, v) == 0:
            return True
        v = eng.proj(v, s)
    return False


def same(a, b):
    return a is not None and b is not None and (a is b or bareof(a) is bareof(b))


def least(eng, mo, rep, f, e):
    """the connections removed to make room are the ones not used for longest"""
    n = 0
    for o in mo.outs:
        if o[0] != "remove":
            continue
        _, ev, st, sn, K = o
        n += 1
        path = ()
        by = [x for x in walk(K) if x.k == "ret" and MINBY.search(str(x.a[0])) or x.k == "ret" and str(x.a[0]).split("::")[-1] in ("min_by_key", "min_by", "max_by_key", "max_by")]
        if by:
            src = [x for x in mo.outs if x[0] == "by" and x[1].ret in by]
            why = by_ok(eng, src[0]) if src else "the connection let go is not understood"
            rep.check("least", why is None, "evicted by " + str(by[0].a[0]).split("::")[-1], why, ev.where())
            continue
        if not isinstance(sn, int):
            rep.bad("least", "no iteration", "the connection let go is not the one that was not used for longest", ev.where())
            continue
        ks = locate(eng, mo.snaps[sn], K)
        why = loops(eng, mo, ks)
        rep.check("least", why is None, "evicted at " + ev.where(), why, ev.where())
    return n


def by_ok(eng, o):
    _, ev, st = o
    if ev.name.split("::")[-1].startswith("max"):
        return "the connection let go is the one used last"
    it = ev.args[0]
    if any(y.k == "app" and str(y.a[0]).startswith("it:") for y in walk(it)):
        return "not all connections are looked at"
    info, clo, st0 = ev.info
    g, byref = eng.closure_body(clo, st0)
    if g is None:
        return "how connections are compared is not understood"
    x = app("elem", S("one"))
    y = app("elem", S("other"))
    pair = lambda z: mk("agg", "tuple", None, (mk("fld", z, 0), mk("fld", z, 1)))
    e2 = Engine(eng.P, poison=False, keep_args=True, hook=hook)
    mem = {}
    args = []
    for z in ((x,) if ev.name.endswith("by_key") else (x, y)):
        h = ("H", mk("heap", "arg%d" % len(args)))
        mem[h] = pair(z)
        args.append(ref(h))
    st1 = st0.copy()
    st1.mem.update(mem)
    run_closure(e2, clo, st1, g, byref, args=args)
    for n in e2.ends:
        if n.kind != "return":
            return "how connections are compared is not understood"
        if ev.name.endswith("by_key"):
            v = e2.content(n.st, n.val)
            if time_of(v) is not x:
                return "the connection let go is not the one that was not used for longest"
        else:
            v = n.val
            if not (v.k == "app" and v.a[0] == "cmp" and time_of(v.a[1]) is x and time_of(v.a[2]) is y):
                return "the connection let go is not the one that was not used for longest"
    return None if e2.ends else "how connections are compared is not understood"


def loops(eng, mo, ks):
    WRONG = "the connection let go is not the one that was not used for longest"
    if not mo.logs:
        return WRONG
    if not any(c is not None for *_, c in mo.logs):
        return WRONG
    best = None
    for kp in ks:
        ts, bad = [], None
        for i, end, el, cmp_ in mo.logs:
            if cmp_ is None:
                continue
            s0 = mo.snaps[i]
            X, better = cmp_
            ps = locate(eng, s0, X)
            ko, kn = at(eng, s0, kp), at(eng, end, kp)
            taken = kn is not None and part(kn, 0) and elem_of(kn) is el
            if not better:
                if not same(ko, kn):
                    bad = bad or WRONG
                good = [p for p in ps if same(at(eng, end, p), at(eng, s0, p))]
            else:
                if not taken:
                    bad = bad or WRONG
                good = [p for p in ps if (lambda v: v is not None and time_of(v) is el)(at(eng, end, p))]
            if not good:
                bad = bad or WRONG
            ts.append(set(good))
        if bad:
            best = best or bad
            continue
        common = set.union(*ts) if ts else set()
        for i, end, el, cmp_ in mo.logs:
            if cmp_ is not None:
                continue
            s0 = mo.snaps[i]
            kn = at(eng, end, kp)
            if not (kn is not None and part(kn, 0) and elem_of(kn) is el):
                bad = WRONG
            elif not any(none_at(eng, s0, p) and (lambda v: v is not None and time_of(v) is el)(at(eng, end, p)) for p in common):
                bad = WRONG
        if bad:
            best = best or bad
            continue
        return None
    return best or WRONG


def putting(P, rep):
    f = fn1(P, rep, POOL + "insert$")
    if f is None:
        return
    mo = Ops(mk("arg", 1), mk("arg", 2))
    e = Engine(P, monitors=[mo], poison=False, keep_args=True, numeric=True, hook=hook)
    e.run(f)
    rep.engine(e, f)
    for b, n in marks(e, 0).items():
        rep.bad("put", b, b, f.span[0], short(e.path_to(n)))
    ends = 0
    for n in e.ends:
        if n.kind != "return":
            continue
        ends += 1
        cur, dr, has, ln, ev, sto = n.st.mon[0][:6]
        p = short(e.path_to(n))
        rep.check("kept", sto == 1, f.name, "a connection put in is not kept", f.span[0], p)
        rep.check("one", ev <= 1, f.name, "more than one connection is let go to make room", f.span[0], p)
        rep.check("back", cur is None and dr in ("", "done"), f.name, "connections are lost when one is put in", f.span[0], p)
    rep.floor("ways to put a connection in", ends, 2)
    rep.floor("connections let go", least(e, mo, rep, f, e), 1)


class Get(Monitor):
    """(removal under the key, key known to be there?)"""
    def init(self):
        return (None, None)

    def event(self, m, e, st, eng):
        if e.kind in ("branch", "variant") and e.args:
            t = e.args[0]
            b = e.ret is not None and e.ret.k == "b" and bool(e.ret.a[0])
            while t.k == "not":
                t, b = t.a[0], not b
            if t.k == "ret" and str(t.a[0]).endswith("contains_key") and e.kind == "branch":
                return (m[0], b) + m[2:]
            s = subject(e) or (t.a[0] if t.k == "isv" else None)
            if s is not None and s.k == "ret" and str(s.a[0]).split("::")[-1] in ("get", "get_key_value"):
                k = learnt(e, s)
                return (m[0], m[1] if k is None else k == 1) + m[2:]
            return m
        n = mapop(e)
        if n is None:
            if e.kind == "call" and (ENTRY.search(server.bare(e.name)) or TAKE.search(e.name)) and "PoolResource" in str(e.info):
                return mark(m, "the pool is changed in a way that is not understood")
            return m
        if n in ("remove", "remove_entry", "contains_key", "get", "get_key_value"):
            k = eng.content(st, e.args[1])
            if bareof(k) is not mk("arg", 1):
                return mark(m, "a connection is looked for under another key than the one asked for")
            if n.startswith("remove"):
                if m[0] is not None:
                    return mark(m, "more than one connection is taken out")
                return (e.ret, m[1]) + m[2:]
            return m
        if n in READS:
            return m
        return mark(m, "connections are lost when one is asked for")


def getting(P, rep):
    f = fn1(P, rep, POOL + "get$")
    if f is None:
        return
    e = Engine(P, monitors=[Get()], poison=False, keep_args=True)
    e.run(f)
    rep.engine(e, f)
    for b, n in marks(e, 0).items():
        rep.bad("get", b, b, f.span[0], short(e.path_to(n)))
    ends = 0
    for n in e.ends:
        if n.kind != "return":
            continue
        ends += 1
        r, there = n.st.mon[0][:2]
        p = short(e.path_to(n))
        v = n.val
        if r is None:
            rep.check("none", v.k == "agg" and v.a[1] == 0 and there is False, f.name, "a connection that is kept under the key is not given out", f.span[0], p)
            continue
        ok = v is r
        if v.k == "agg" and v.a[1] == 0:
            ok = known_variant(n.st, r) == 0 or v is r
        elif v.k == "agg" and v.a[1] == 1:
            x = v.a[2][0]
            w = mk("fld", mk("as", r, 1), 0)
            ok = x is w or x is mk("fld", w, 1) and "remove_entry" in str(r.a[0])
        rep.check("gives", ok, f.name, "a connection taken out is not the one given out", f.span[0], p)
    rep.floor("ways to get a connection", ends, 1)


class Each(Monitor):
    """every element of an iteration is used: (element in hand, state, iterations seen)"""
    def __init__(self, use, what):
        self.use, self.what = use, what

    def init(self):
        return (None, "")

    def event(self, m, e, st, eng):
        cur, ph = m[:2]
        if e.kind == "call" and e.name == NEXT and e.ret is not None and e.ret.k == "agg" and "Pool" in str(e.info) + show(e.ret, 8) + str(e.fn()) + "Pool":
            if cur is not None:
                m = mark(m, self.what)
            if e.ret.a[1] == 1:
                el = elem_of(e.ret)
                if el is not None and any(y.k == "app" and LOSSY.search(str(y.a[0])) for y in walk(el)):
                    m = mark(m, self.what)
                return (el, "iterating") + m[2:]
            return (None, "done") + m[2:]
        if cur is not None and self.use(e, cur, st, eng):
            return (None, ph) + m[2:]
        if e.kind == "call" and mapop(e) in ("clear", "retain", "remove", "insert"):
            return mark(m, self.what)
        return m


def draining(P, rep):
    f = fn1(P, rep, POOL + "drain$")
    if f is None:
        return
    why = "not all connections are given out when the pool is emptied"
    e = Engine(P, monitors=[Each(lambda ev, x, st, eng: ev.kind == "call" and server.bare(ev.name).split("::")[-1] in ("push", "push_back", "insert") and any(part(eng.content(st, a), 1) or part(a, 1) for a in ev.args[1:]), why),
                            Trail(lambda ev: mapop(ev) == "drain" or TAKE.search(ev.name) is not None)], poison=False, keep_args=True)
    e.run(f)
    rep.engine(e, f)
    for b, n in marks(e, 0).items():
        rep.bad("drain", b, b, f.span[0], short(e.path_to(n)))
    ends = 0
    for n in e.ends:
        if n.kind != "return":
            continue
        ends += 1
        cur, ph = n.st.mon[0][:2]
        v = n.val
        whole = v.k == "ret" and str(v.a[0]).endswith("collect") and any(x.k == "ret" and str(x.a[0]).endswith("into_values") for x in walk(v)) and not any(x.k == "app" and str(x.a[0]).startswith("it:") for x in walk(v))
        rep.check("drain", bool(n.st.mon[1]) and cur is None and (ph == "done" or whole), f.name, why, f.span[0], short(e.path_to(n)))
    rep.floor("ways to empty the pool", ends, 1)


class Worker(Monitor):
    """(asked whether to stop since the last wait: None/"go"/"stop", swept?, element in hand, fresh?, drained?, lock held)"""
    def __init__(self, stop, idle, mapcell):
        self.stop, self.idle, self.mapcell = stop, idle, mapcell

    def init(self):
        return (None, False, None, None, "", False)

    def fresh(self, t, b, el):
        """the comparison tells that the element was used recently enough (True) or not (False)"""
        if t.k != "op" or t.a[0] != "Lt":
            return None
        for d, o, v in ((t.a[1], t.a[2], b), (t.a[2], t.a[1], not b)):
            w = age(d)
            if w is not None and w is el:
                if o is not self.idle:
                    return "other"
                return v
        return None

    def event(self, m, e, st, eng):
        ask, swept, cur, fr, dr, held = m[:6]
        rest = m[6:]
        if e.kind == "branch" and e.args:
            t = e.args[0]
            b = e.ret.k == "b" and bool(e.ret.a[0])
            while t.k == "not":
                t, b = t.a[0], not b
            if t.k == "ret" and str(t.a[0]).endswith("load"):
                ask = "stop" if b else "go"
            if cur is not None:
                k = self.fresh(t, b, cur)
                if k == "other":
                    rest = mark(m[:6] + rest, "how long a connection may be idle is not what was asked for")[6:]
                elif k is not None:
                    fr = k
            return (ask, swept, cur, fr, dr, held) + rest
        if e.kind == "lock":
            return (ask, swept, cur, fr, dr, True) + rest
        if e.kind in ("drop", "call") and (e.kind == "drop" and ("Guard" in str(e.name)) or e.name == "std::mem::drop" and "guard" in show(e.args[0], 3)):
            return (ask, swept, cur, fr, dr, False) + rest
        if e.kind != "call":
            return m
        n = server.bare(e.name).rstrip(":")
        if n.endswith("::load") and "Atomic" in n:
            if self.stop is not None and not same_cell(eng, st, e.args[0], self.stop):
                return mark(m, "the worker looks at another flag than the one that is set when the pool is dropped")
            return (None, swept, cur, fr, dr, held) + rest
        if WAIT.search(n):
            w = n.split("::")[-1]
            if w == "yield_now":
                return m
            if held:
                rest = mark(m[:6] + rest, "the worker waits while it keeps the pool locked")[6:]
            if not w.startswith("park_timeout"):
                rest = mark(m[:6] + rest, "the worker can not be woken, or does not wake by itself")[6:]
            if dr == "drained" or cur is not None:
                rest = mark(m[:6] + rest, "connections are lost by the worker")[6:]
            if not swept and ask is None:
                rest = mark(m[:6] + rest, "connections that are idle for too long are not let go")[6:]
            if ask != "go" and "first" in rest:
                rest = mark(m[:6] + rest, "the worker goes on when it should stop")[6:]
            if not swept and "first" in rest:
                rest = mark(m[:6] + rest, "connections that are idle for too long are not let go")[6:]
            return (None, False, None, None, "", held) + (rest if "first" in rest else rest + ("first",))
        op = mapop(e)
        if op == "drain" or TAKE.search(n) and "PoolResource" in str(e.info):
            return (ask, swept, None, None, "drained", held) + rest
        if e.name == NEXT and e.ret is not None and e.ret.k == "agg" and dr:
            if cur is not None and fr is not False:
                rest = mark(m[:6] + rest, "a connection that was used recently is let go")[6:]
            if e.ret.a[1] == 1:
                el = elem_of(e.ret)
                if any(y.k == "app" and LOSSY.search(str(y.a[0])) for y in walk(el)):
                    rest = mark(m[:6] + rest, "a connection that was used recently is let go")[6:]
                return (ask, swept, el, None, "drained", held) + rest
            return (ask, True, None, None, "done", held) + rest
        if op == "insert" and e.args:
            v, k = e.args[2], e.args[1]
            vv, kk = eng.content(st, v), eng.content(st, k)
            if cur is None or not (part(vv, 1) or part(v, 1)) or not (part(kk, 0) or part(k, 0)):
                rest = mark(m[:6] + rest, "a connection is put back under another key, or changed")[6:]
            elif fr is not True:
                rest = mark(m[:6] + rest, "a connection that is idle for too long is kept")[6:]
            return (ask, swept, None, None, dr, held) + rest
        if op == "retain":
            why = self.retained(eng, e)
            if why:
                rest = mark(m[:6] + rest, why)[6:]
            return (ask, True, cur, fr, dr, held) + rest
        if op is not None and op not in READS:
            return mark(m, "the pool is changed by the worker in a way that is not understood (%s)" % op)
        return m

    def retained(self, eng, ev):
        info, clo, st0 = ev.info
        g, byref = eng.closure_body(clo, st0)
        if g is None:
            return "which connections are kept is not understood"
        el = app("elem", S("one"))
        st1 = st0.copy()
        h = ("H", mk("heap", "retained"))
        st1.mem[h] = mk("fld", el, 1)
        hk = ("H", mk("heap", "retained-key"))
        st1.mem[hk] = mk("fld", el, 0)
        mo = Kept(self, el)
        e2 = Engine(eng.P, monitors=[mo], poison=False, keep_args=True, hook=hook)
        run_closure(e2, clo, st1, g, byref, args=[ref(hk), ref(h)])
        for n in e2.ends:
            if n.kind != "return":
                continue
            v, fr = n.val, n.st.mon[0][0]
            b = True
            while v.k == "not":
                v, b = v.a[0], not b
            if v.k == "b":
                want = v.a[0] == b if isinstance(v.a[0], bool) else bool(v.a[0]) == b
            else:
                fr, want = self.fresh(v, b, el), True
            if fr == "other":
                return "how long a connection may be idle is not what was asked for"
            if fr is None or fr != want:
                return "a connection that was used recently is let go" if not want or fr is False else "a connection that is idle for too long is kept"
        return None


class Kept(Monitor):
    def __init__(self, w, el):
        self.w, self.el = w, el

    def init(self):
        return (None,)

    def event(self, m, e, st, eng):
        if e.kind == "branch" and e.args:
            t, b = e.args[0], e.ret.k == "b" and bool(e.ret.a[0])
            while t.k == "not":
                t, b = t.a[0], not b
            k = self.w.fresh(t, b, self.el)
            if k is not None:
                return (k,)
        return m


def age(d):
    """the element of which d is the time since its last use"""
    d = bareof(d)
    if d.k == "app" and d.a[0] == "elapsed":
        return time_of(d.a[1])
    if d.k == "app" and (str(d.a[0]).startswith("sub") or "duration_since" in str(d.a[0])) and len(d.a) > 2:
        n = bareof(d.a[1])
        if n.k == "ret" and str(n.a[0]).endswith("now"):
            return time_of(d.a[2])
    return None


def same_cell(eng, st, a, b):
    for _ in range(4):
        if a is b:
            return True
        if a.k != "ref":
            return False
        n = eng.load(st, a.a[0], a.a[1])
        if n.k not in ("ref",):
            return a is b
        a = n
    return False


def worker(P, rep):
    f = fn1(P, rep, POOL + "new$")
    if f is None:
        return
    e0 = Engine(P, poison=False, keep_args=True)
    e0.run(f)
    rep.engine(e0, f)
    F = conv.field_names(P, re.sub("::<.*$", "", "wruster::http::client::connection_pool::Pool"))
    made = 0
    for n in e0.ends:
        if n.kind != "return" or n.val.k != "agg":
            continue
        flag = [x for x in n.val.a[2] if x.k == "ref" and "new(false)" in show(e0.content(n.st, x), 4).replace(" ", "") or x.k == "ref" and is_flag(e0, n.st, x)]
        maps = [x for x in n.val.a[2] if x.k == "ref" and x not in flag]
        for x in flag:
            rep.check("flag", any(y.k == "b" and not y.a[0] for y in walk(e0.content(n.st, x))), f.name, "the worker is told to stop from the start", f.span[0], short(e0.path_to(n)))
        hs = [x for x in n.val.a[2] if any(y.k == "ret" and str(y.a[0]).endswith("spawn") for y in walk(x))]
        p = short(e0.path_to(n))
        rep.check("started", len(hs) == 1, f.name, "no worker is started for the pool, or it is not kept", f.span[0], p)
        if not rep.check("flag", len(flag) == 1 and len(maps) == 1, f.name, "the parts of the pool are not understood", f.span[0], p):
            continue
        made += 1
        k = known_variant(n.st, mk("arg", 0))
        for g, v, st, ev, byref in spawned_bodies(e0):
            if not any(contains(h, ev.ret) for h in hs) or g is None:
                continue
            given = mk("fld", mk("as", mk("arg", 0), 1), 0)
            if v.k == "agg" and k == 1 and not any(contains(x, given) for x in v.a[2]):
                rep.bad("idle", f.name, "how long a connection may be idle is not what was asked for", f.span[0], p)
            idle = None
            for x in v.a[2]:
                y = e0.content(st, x) if x.k == "ref" else x
                if y is given or y.k == "agg" and y.a[0].endswith("Duration"):
                    idle = y
                if y.k != "agg" and k == 1 and y is given:
                    idle = y
            if not rep.check("idle", idle is not None, f.name, "how long a connection may be idle is not given to the worker", f.span[0], p):
                continue
            e = Engine(P, monitors=[Worker(flag[0], idle, maps[0]), Shared(maps[0])], poison=False, keep_args=True, hook=hook)
            run_closure(e, v, st, g, byref)
            rep.engine(e, g)
            for i in (0, 1):
                for b, x in marks(e, i).items():
                    rep.bad("worker", b, b, g.span[0], short(e.path_to(x)))
            waits = [x for x in e.all_events() if x.kind == "call" and WAIT.search(server.bare(x.name))]
            rep.floor("waits of the worker", len(waits), 1)
            for x in e.ends:
                if x.kind != "return":
                    continue
                rep.check("stops", x.st.mon[0][0] == "stop", g.name, "the worker ends although it was not told to", g.span[0], short(e.path_to(x)))
            rep.floor("ends of the worker", len([x for x in e.ends if x.kind == "return"]), 1)
    rep.floor("pools made", made, 1)


class Shared(Monitor):
    """the worker locks the map of the pool, not another one"""
    def __init__(self, cell):
        self.cell = cell

    def event(self, m, e, st, eng):
        if e.kind == "lock" and e.args:
            a = e.args[0]
            if a is not self.cell and not contains(a, self.cell) and not same_cell(eng, st, a, self.cell) and eng.content(st, self.cell) is not a and a is not mk("deref", self.cell) \
                    and not (a.k == "ref" and self.cell.k == "ref" and a.a[0] == self.cell.a[0]):
                return mark(m, "the worker looks after other connections than those of the pool")
        return m


def is_flag(eng, st, x):
    v = eng.content(st, x)
    return v.k == "ret" and "Atomic" in str(v.a[0]) or v.k == "ret" and str(v.a[0]).endswith("::new") and any(y.k == "b" for y in v.a[1:] if isinstance(y, V))


class Dropping(Monitor):
    """steps of the drop in their order"""
    def event(self, m, e, st, eng):
        if e.kind != "call":
            return m
        n = server.bare(e.name).rstrip(":").split("::")[-1]
        if n in ("store", "swap") and "Atomic" in e.name and len(e.args) > 1:
            return m + (("stop" if e.args[1] is TRUE else "go"),)
        if n in ("unpark", "join") and "thread" in e.name:
            return m + (n,)
        return m


def dropping(P, rep):
    c = fns(P, r"^<wruster::http::client::connection_pool::Pool<.*> as std::ops::Drop>::drop$")
    if not c:
        rep.bad("anchor", "Drop", "dropping the pool does not end its worker")
        return
    f = c[0]
    e = Engine(P, monitors=[Dropping()], poison=False, keep_args=True)
    e.run(f)
    rep.engine(e, f)
    full = 0
    for n in e.ends:
        if n.kind != "return":
            continue
        s = n.st.mon[0]
        p = short(e.path_to(n))
        if not s or s == ("stop",):
            # no worker any more
            rep.check("handle", any(known_variant(n.st, x) == 0 for x in [x for x, fa in n.st.facts.items() if fa[0] == "v" and "arg" in show(x, 4)]), f.name, "dropping the pool does not end its worker", f.span[0], p)
            continue
        full += 1
        good = "stop" in s and "unpark" in s and "join" in s and s.index("stop") < s.index("unpark") < s.index("join") and "go" not in s
        rep.check("ended", good, f.name, "dropping the pool does not end its worker at once (tell it to stop, wake it, wait for it)", f.span[0], p)
    rep.floor("ways to drop the pool", full, 1)


def client(P, rep):
    c = fns(P, r"^<wruster::http::client::Client as std::ops::Drop>::drop$")
    if not c:
        rep.bad("anchor", "Client", "dropping a client does not end the connections it keeps")
        return
    f = c[0]
    why = "dropping a client does not end all of the connections it keeps"

    def use(ev, x, st, eng):
        if ev.kind != "call":
            return False
        n = server.bare(ev.name)
        if n.startswith("std::net::TcpStream::shutdown"):
            return any(contains(a, x) or contains(eng.content(st, a), x) for a in ev.args[:1]) and ev.args[1].k == "agg" and ev.args[1].a[1] == 2
        return n.split("::")[-1] in ("push", "push_back") and any(contains(a, x) or contains(eng.content(st, a), x) for a in ev.args[1:])
    e = Engine(P, monitors=[Each(use, why), Trail(lambda ev: mapop(ev) == "drain" or TAKE.search(ev.name) is not None or server.bare(ev.name).startswith("std::net::TcpStream::shutdown"))], poison=False, keep_args=True)
    e.run(f)
    rep.engine(e, f)
    for b, n in marks(e, 0).items():
        rep.bad("client", b, b, f.span[0], short(e.path_to(n)))
    ends = 0
    for n in e.ends:
        if n.kind != "return":
            continue
        ends += 1
        cur, ph = n.st.mon[0][:2]
        rep.check("client", bool(n.st.mon[1]) and cur is None and ph == "done", f.name, why, f.span[0], short(e.path_to(n)))
    rep.floor("ways to drop a client", ends, 1)
    rep.floor("connections ended", len([x for x in e.all_events() if x.kind == "call" and server.bare(x.name).startswith("std::net::TcpStream::shutdown")]), 1)


def stamped(P, rep):
    """a connection's time of last use is the time it was put away"""
    f = fn1(P, rep, r"^wruster::http::client::connection_pool::PoolResource::<.*>::new$")
    if f is None:
        return
    e = Engine(P, poison=False, keep_args=True)
    e.run(f)
    rep.engine(e, f)
    for n in e.ends:
        if n.kind == "return":
            v = n.val
            t = v.a[2][LU[0]] if v.k == "agg" and len(v.a[2]) > LU[0] else None
            rep.check("stamp", t is not None and t.k == "ret" and str(t.a[0]).endswith("now"), f.name, "the time a connection was used last is not the time it was put away", f.span[0], short(e.path_to(n)))


def run(P, rep):
    rep.rules += ["typestate of the pool's map in each operation: what is taken out is put back, given out or let go for the one reason allowed; the candidate to let go is replaced exactly when another is older"]
    F = conv.field_names(P, "wruster::http::client::connection_pool::PoolResource")
    LU[0] = F.get("last_used", 1)
    getting(P, rep)
    putting(P, rep)
    draining(P, rep)
    worker(P, rep)
    dropping(P, rep)
    client(P, rep)
    stamped(P, rep)
