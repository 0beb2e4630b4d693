"""P23: no thread asks for a lock it holds already, and no two locks are taken in opposite orders."""
import re
from .common import *
from . import server

TAKE = re.compile(r"(Mutex::<T>::lock|RwLock::<T>::(?:read|write)|AtomicRefCell::<T>::borrow(?:_mut)?|RefCell::<T>::borrow(?:_mut)?)$")
TRY = re.compile(r"(Mutex::<T>::try_lock|RwLock::<T>::try_(?:read|write)|RefCell::<T>::try_borrow(?:_mut)?)$")
SHARED = re.compile(r"RefCell::<T>::(try_)?borrow$")
GUARD = re.compile(r"^(std::sync::(\w+::)*(MutexGuard|RwLockReadGuard|RwLockWriteGuard|MappedMutexGuard)|atomic_refcell::AtomicRef(Mut)?|std::cell::Ref(Mut)?)<")
OWNERS = re.compile(r"^(std|core|alloc|hashbrown)::(\w+::)*(Box|Rc|Arc|Vec|VecDeque|HashMap|BTreeMap|HashSet|BinaryHeap|LinkedList|Option|Result|ControlFlow|Poll|Mutex|RwLock|"
                    r"RefCell|Cell|UnsafeCell|OnceCell|OnceLock|Some|IntoIter|Drain|IntoValues|IntoKeys|Map|Filter|Enumerate|Rev|Take|Chain|Flatten|FilterMap)<|^atomic_refcell::AtomicRefCell<")
EAGER = re.compile(r"^(std|core|alloc)::(iter|option|result|vec|slice|collections|str|string|array|ops|thread::local)\b|^<.* as std::(iter|ops)::")
PASS = re.compile(r"ops::(Deref|DerefMut)::deref(_mut)?$|convert::AsRef::as_ref$|borrow::Borrow(Mut)?::borrow(_mut)?$|clone::Clone::clone$")
NETWORK = re.compile(r"net::(tcp::)?TcpStream::(connect|connect_timeout)$|net::(tcp::)?TcpListener::accept$|ToSocketAddrs::to_socket_addrs$|polling::Poller::wait$|thread::(functions::)?(sleep|park|park_timeout)$")
TRAFFIC = re.compile(r"io::(Read|Write|BufRead)::\w+$|^std::io::(copy|read_to_string)$")
PEER = re.compile(r"TcpStream|dyn .*(Read|Write|Stream)")
NET = ("network", None, False)
MANY = re.compile(r"\b(HashMap|BTreeMap|Vec|VecDeque|HashSet|Trie)<")


class Locks:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.T = P.types
        self.guard_memo, self.drop_memo, self.sum = {}, {}, {}
        self.dropfns = {}
        for f in P.fns.values():
            m = re.match(r"^<(.*) as std::ops::Drop>::drop$", f.name)
            if m:
                self.dropfns.setdefault(m.group(1), f)
        self.sites = 0
        self.edges = {}

    # -- types
    def guards(self, ti, seen=()):
        """does a value of this type own a guard?"""
        if ti in self.guard_memo:
            return self.guard_memo[ti]
        if ti in seen or ti is None:
            return False
        t = self.T[ti]
        r = False
        if GUARD.match(t["s"]):
            r = True
        elif t["k"] == "adt":
            subs = [x for v in t["variants"] for _, x in v[1]] if ("wruster" in t["s"].split("<")[0] or OWNERS.match(t["s"]) or "PoisonError" in t["s"].split("<")[0]) else []
            if OWNERS.match(t["s"]) or "PoisonError" in t["s"].split("<")[0] or "TryLockError" in t["s"].split("<")[0]:
                subs = subs + list(t["args"])
            r = any(self.guards(x, seen + (ti,)) for x in subs if isinstance(x, int))
        elif t["k"] in ("tuple", "closure"):
            r = any(self.guards(x, seen + (ti,)) for x in (t.get("f") or []) + (t.get("up") or []) if isinstance(x, int))
        if not seen:
            self.guard_memo[ti] = r
        return r

    def drops(self, ti, seen=()):
        """the destructors of this repository a value of this type runs when it is let go of"""
        if ti in self.drop_memo:
            return self.drop_memo[ti]
        if ti is None or ti in seen:
            return frozenset()
        t = self.T[ti]
        out = set()
        sub = []
        if GUARD.match(t["s"]) or t["s"].startswith("std::sync::Weak<") or t["s"].startswith("std::rc::Weak<"):
            pass
        elif t["k"] == "adt":
            f = self.dropfns.get(t["s"])
            if f is not None:
                out.add(f.key)
            if OWNERS.match(t["s"]):
                sub = list(t["args"])
            elif re.match(r"^wrus", t["s"]):
                sub = [x for v in t["variants"] for _, x in v[1]]
        elif t["k"] in ("tuple", "closure"):
            sub = (t.get("f") or []) + (t.get("up") or [])
        elif t["k"] in ("array", "slice"):
            sub = [t.get("e")]
        for x in sub:
            if isinstance(x, int):
                out |= self.drops(x, seen + (ti,))
        out = frozenset(out)
        if not seen:
            self.drop_memo[ti] = out
        return out

    # -- one function
    def defs(self, f):
        d = {}
        for b in f.blocks:
            for s in b[0]:
                if s[0] == "=" and not s[1][1]:
                    d.setdefault(s[1][0], []).append(("s", s[2]))
            t = b[1]
            if t[0] == "call" and not t[3][1]:
                d.setdefault(t[3][0], []).append(("c", t))
        return d

    def field(self, f, place):
        """the last field a place goes through: (type that owns it, index)"""
        ti = f.locals[place[0]]
        ti = ti if isinstance(ti, int) else ti[0]
        own = None
        for e in place[1]:
            if e == "*":
                t = self.T[ti]
                ti = t.get("e") if t["k"] != "adt" else (t["args"] or [None])[0]
            elif isinstance(e, list) and e[0] == "f":
                o = self.T[ti]["s"] if isinstance(ti, int) else "?"
                k = self.T[ti]["k"] if isinstance(ti, int) else "?"
                own = (o, e[1]) if k == "adt" and o.startswith("wrus") else None
                ti = e[2]
            elif isinstance(e, list):
                if e[0] != "v":
                    own = None
        return own

    def which(self, f, defs, o, n=0):
        """the field the lock asked for sits in, when that can be told"""
        if o[0] == "k" or n > 12:
            return None
        p = o[1]
        w = self.field(f, p)
        if w is not None:
            return w
        ds = defs.get(p[0], [])
        if p[0] != 0 and p[0] <= f.argc or len(ds) != 1:
            return None
        kind, d = ds[0]
        if kind == "s":
            if d[0] in ("ref", "reborrow"):
                return self.field(f, d[2]) or self.which(f, defs, ["c", d[2]], n + 1)
            if d[0] == "use":
                return self.which(f, defs, d[1], n + 1)
            return None
        fn = self.callee(d)
        if fn and PASS.search(fn["def"]) and d[2]:
            return self.which(f, defs, d[2][0], n + 1)
        return None

    def callee(self, t):
        if t[1][0] != "k":
            return None
        v = t[1][1]["v"]
        return v.get("fn") if isinstance(v, dict) else None

    def closures(self, ti, seen=()):
        if not isinstance(ti, int) or ti in seen:
            return []
        t = self.T[ti]
        if t["k"] == "closure":
            return [t["s"]]
        if t["k"] == "adt":
            return [c for x in t["args"] for c in self.closures(x, seen + (ti,))]
        return []

    def targets(self, fn):
        """bodies a call may run before it returns"""
        g = self.P.fns.get(fn.get("key") or "")
        if g is not None and g.span[0].startswith("wrus"):
            return [g]
        if EAGER.search(fn["name"]) or EAGER.search(fn["def"]):
            out = []
            for a in fn.get("args", []):
                for c in self.closures(a):
                    out += self.bodies(c)
            if out:
                return out
        return [g] if g is not None else []

    def bodies(self, c):
        if not hasattr(self, "_bodies"):
            self._bodies = {}
            for ti, t in enumerate(self.T):
                if t["k"] == "closure":
                    self._bodies.setdefault(t["s"], [])
            for g in self.P.fns.values():
                if "{closure" in g.name and g.argc >= 1:
                    a = g.locals[1]
                    a = a if isinstance(a, int) else a[0]
                    t = self.T[a]
                    while t["k"] in ("ref", "ptr") or "e" in t and t["k"] != "closure":
                        t = self.T[t["e"]]
                    if t["k"] == "closure" and "::{closure#" in g.name and not re.search(r"\}>$", g.name):
                        self._bodies.setdefault(t["s"], []).append(g)
        return self._bodies.get(c, [])

    def summary(self, f):
        """(locks asked for {lock: path}, locks still held by what is returned)"""
        if f.key in self.sum:
            return self.sum[f.key]
        self.sum[f.key] = ({}, frozenset())
        r = self.flow(f)
        for _ in range(3):
            if r == self.sum[f.key]:
                break
            self.sum[f.key] = r
            r = self.flow(f)
        self.sum[f.key] = r
        return r

    def flow(self, f):
        lt = [x if isinstance(x, int) else x[0] for x in f.locals]
        defs = self.defs(f)
        init = {}
        for i in range(1, f.argc + 1):
            if self.guards(lt[i]):
                c = self.by_type(lt[i])
                if c:
                    init[i] = frozenset([c])
        given = frozenset().union(*init.values()) if init else frozenset()
        states = {0: init}
        work = [0]
        asked = {}
        back = frozenset()

        def taken(st, o):
            if o[0] != "m":
                return st, frozenset()
            h = st.get(o[1][0])
            if h is None or "*" in o[1][1]:
                return st, frozenset()
            st = dict(st)
            del st[o[1][0]]
            return st, h

        while work:
            bi = work.pop()
            b = f.blocks[bi]
            st = dict(states[bi])
            for s in b[0]:
                if s[0] == "dead":
                    st.pop(s[1], None)
                elif s[0] == "=":
                    r = s[2]
                    ops = [r[1]] if r[0] == "use" else r[2] if r[0] == "agg" else [r[2]] if r[0] == "cast" else []
                    got = frozenset()
                    for o in ops:
                        st, h = taken(st, o)
                        got |= h
                    l = s[1][0]
                    if got and "*" not in s[1][1]:
                        st[l] = st.get(l, frozenset()) | got if s[1][1] else got
                    elif not s[1][1] and l in st:
                        del st[l]
            t = b[1]
            nxt = []
            if t[0] == "goto":
                nxt = [t[1]]
            elif t[0] == "switch":
                nxt = self.succ(t)
            elif t[0] == "assert":
                nxt = [t[4]]
            elif t[0] == "return":
                back |= st.get(0, frozenset()) - given
            elif t[0] == "drop":
                pl, ti, tgt = t[1], t[2], t[3]
                h = st.get(pl[0])
                if not pl[1]:
                    st.pop(pl[0], None)
                for k in sorted(self.drops(ti)):
                    g = self.P.fns[k]
                    a, _ = self.summary(g)
                    for c, path in a.items():
                        self.ask(f, b, st, c, (f.name, "letting go of a %s" % self.T[ti]["s"]) + path, asked)
                nxt = [tgt]
            elif t[0] == "call":
                fn = self.callee(t)
                moved = frozenset()
                for o in t[2]:
                    st, h = taken(st, o)
                    moved |= h
                dl = t[3][0]
                keeps = self.guards(lt[dl]) if not t[3][1] else False
                got = moved if keeps else frozenset()
                if fn:
                    take, tr = TAKE.search(fn["def"]), TRY.search(fn["def"])
                    if (take or tr) and fn.get("crate") in ("std", "core", "alloc", "atomic_refcell") and t[2]:
                        c = self.lock(f, defs, fn, t)
                        if take:
                            self.ask(f, b, st, c, (f.name,), asked)
                        got |= frozenset([c])
                    elif NETWORK.search(fn["def"]) or TRAFFIC.search(fn["def"]) and not self.P.fns.get(fn.get("key") or "") and PEER.search(fn["name"]):
                        self.ask(f, b, st, NET, (f.name, fn["name"]), asked)
                    else:
                        for g in self.targets(fn):
                            a, ret = self.summary(g)
                            for c, path in a.items():
                                self.ask(f, b, st, c, (f.name,) + path, asked)
                            if keeps:
                                got |= ret
                if not t[3][1]:
                    st.pop(dl, None)
                if got and not t[3][1]:
                    st[dl] = got
                nxt = [t[4]] if isinstance(t[4], int) else []
            for n in nxt:
                o = states.get(n)
                if o is None:
                    states[n] = dict(st)
                    work.append(n)
                else:
                    new = dict(o)
                    for k, v in st.items():
                        new[k] = new.get(k, frozenset()) | v
                    if new != o:
                        states[n] = new
                        work.append(n)
        return asked, back

    def succ(self, t):
        return [y[1] for y in t[3]] + ([t[4]] if isinstance(t[4], int) else [])

    def by_type(self, ti, seen=()):
        """the lock a value of this type holds on to, as far as its type tells"""
        if not isinstance(ti, int) or ti in seen:
            return None
        t = self.T[ti]
        if GUARD.match(t["s"]):
            a = [x for x in t["args"] if isinstance(x, int)]
            return (self.T[a[0]]["s"] if a else "?", None, re.search(r"AtomicRef<|cell::Ref<", t["s"].split("<")[0] + "<") is not None)
        subs = list(t.get("args") or []) + [x for v in t.get("variants", []) for _, x in v[1]] if t["k"] == "adt" else (t.get("f") or []) + (t.get("up") or []) if t["k"] in ("tuple", "closure") else []
        for x in subs:
            r = self.by_type(x, seen + (ti,))
            if r:
                return r
        return None

    def lock(self, f, defs, fn, t):
        a = fn.get("args") or []
        s = self.T[a[0]]["s"] if a and isinstance(a[0], int) else "?"
        return (s, self.which(f, defs, t[2][0]), SHARED.search(fn["def"]) is not None)

    def ask(self, f, b, st, c, path, asked):
        held = frozenset().union(*st.values()) if st else frozenset()
        line = b[2]
        for h in sorted(held, key=str):
            self.edges.setdefault((h, c), (f, line, path))
        if c not in asked:
            asked[c] = path

    def many(self, h):
        """is this lock shared by several connections or routes?"""
        ti = self.P.tindex.get(h[0])
        return MANY.search(h[0]) is not None or ti is not None and self.holds_many(ti)

    def holds_many(self, ti, seen=()):
        t = self.T[ti]
        if MANY.search(t["s"]):
            return True
        if ti in seen or t["k"] != "adt" or not t["s"].startswith("wrus"):
            return False
        return any(self.holds_many(x, seen + (ti,)) for v in t["variants"] for _, x in v[1] if isinstance(x, int))

    @staticmethod
    def same(a, b):
        if a[2] and b[2]:
            return False
        return a[0] == b[0] and (a[1] == b[1] or a[1] is None or b[1] is None)


def shown(c):
    s = re.sub(r"(\w+::)+", "", c[0])
    return "the lock around %s" % s if c[1] is None else "the lock around %s (field %d of %s)" % (s, c[1][1], re.sub(r"(\w+::)+", "", c[1][0]))


FORGET = re.compile(r"mem::forget$|ManuallyDrop::<T>::new$|::leak$|::into_raw$|::into_raw_with_allocator$|intrinsics::forget$|MaybeUninit::<T>::new$")


def forgotten(P, rep, what, rule="forgotten"):
    """no value whose destructor (of a type matching `what`) has work to do is kept from being destroyed"""
    L = Locks(P, rep)
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.poly or not f.span[0].startswith("wrus"):
            continue
        n += 1
        for b in f.blocks:
            fn = L.callee(b[1]) if b[1][0] == "call" else None
            if fn is None or not FORGET.search(fn["def"]):
                continue
            for a in fn.get("args", []):
                for k in (L.drops(a) if isinstance(a, int) else ()):
                    d = P.fns[k].name
                    if re.search(what, d):
                        rep.bad(rule, server.bare(f.name) + "|" + server.bare(d), "%s: a value is kept from being destroyed (%s), so %s never runs" % (
                            server.bare(f.name), fn["def"], server.bare(d)), f.span[0])
    rep.ok(rule, "%d functions" % n)


def run(P, rep):
    rep.rules += ["again: no lock (or exclusive borrow) is asked for while the same thread holds it, in the function, in what it calls, or in the destructors of what it lets go of;",
                  "order: the graph of locks asked for while others are held has no cycle;",
                  "waits: no lock that several connections or routes share is held while the network is waited for or the thread sleeps"]
    rep.assumptions += ["a lock is told apart by the field it sits in and by what it protects; handlers and other functions of the user do not call back into the operation that runs them while it holds a lock"]
    L = Locks(P, rep)
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.poly or not f.span[0].startswith("wrus"):
            continue
        L.summary(f)
        rep.fns.add(f.name)
        for b in f.blocks:
            fn = L.callee(b[1]) if b[1][0] == "call" else None
            if fn and TAKE.search(fn["def"]):
                L.sites += 1
                rep.ok("asked", "%s asks for %s" % (server.bare(f.name), shown(L.lock(f, L.defs(f), fn, b[1]))))
    order = {}
    for (h, c), (f, line, path) in sorted(L.edges.items(), key=str):
        what = " -> ".join(server.bare(x) for x in path)
        if c == NET:
            rep.check("waits", not L.many(h), "waits|%s|%s" % (server.bare(f.name), shown(h)),
                      "%s: the network is waited for while %s, which other connections need, is held (%s)" % (server.bare(f.name), shown(h), what), f.span[0], what)
            continue
        again = L.same(h, c)
        rep.check("again", not again, "again|%s|%s" % (server.bare(f.name), shown(c)),
                  "%s: %s is asked for while the thread holds it (%s)" % (server.bare(f.name), shown(c), what), f.span[0], what)
        if not again and h[:2] != c[:2]:
            order.setdefault(h[:2], {})[c[:2]] = (f, what)
    for a in sorted(order, key=str):
        for b in sorted(order[a], key=str):
            seen, todo = set(), [b]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo += list(order.get(x, {}))
            f, what = order[a][b]
            rep.check("order", a not in seen, "order|%s|%s" % (shown(a), shown(b)),
                      "%s: %s is asked for while %s is held, and elsewhere they are taken the other way round (%s)" % (server.bare(f.name), shown(b), shown(a), what), f.span[0], what)
    rep.floor("places that ask for a lock", L.sites, 1)
    rep.extra["locks_asked_for_while_others_are_held"] = sorted({"%s, holding %s" % (shown(c), shown(h)) for h, c in L.edges})
