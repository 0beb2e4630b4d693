"""Abstract interpreter over the MIR facts.

Property simulation: a powerset of abstract stores (Herbrand terms + finite facts, optionally difference
constraints) is propagated through the virtually inlined control-flow supergraph of an entry point; loop heads
widen differing terms to phi terms.  Nothing of /repo is executed.
"""
import re, time
from . import facts as FX
from .terms import *

TRY_FN = ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")


class Ctx:
    __slots__ = ("fn", "parent", "pblock", "depth", "n")
    _tab = {}

    def short(self):
        return self.fn.name.split("::<")[0].split("::")[-1]

    def path(self):
        c, out = self, []
        while c:
            out.append(c.short())
            c = c.parent
        return ">".join(reversed(out))

    def __repr__(self):
        return self.path()


def mkctx(fn, parent, pblock):
    key = (fn.key, parent, pblock)
    c = Ctx._tab.get(key)
    if c is None:
        c = Ctx()
        c.fn, c.parent, c.pblock = fn, parent, pblock
        c.depth = parent.depth + 1 if parent else 0
        c.n = len(Ctx._tab)
        Ctx._tab[key] = c
    return c


class Site:
    __slots__ = ("ctx", "block", "sub")
    _tab = {}

    def short(self):
        return "%s:%s%s" % (self.ctx.short(), self.line(), "" if self.sub is None else "/" + str(self.sub))

    def line(self):
        return self.ctx.fn.blocks[self.block][2][1]


def mksite(ctx, block, sub=None):
    key = (ctx, block, sub)
    s = Site._tab.get(key)
    if s is None:
        s = Site()
        s.ctx, s.block, s.sub = ctx, block, sub
        Site._tab[key] = s
    return s


class State:
    __slots__ = ("mem", "facts", "rel", "mon")

    def __init__(self, mem=None, facts=None, rel=None, mon=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.rel = rel if rel is not None else {}
        self.mon = mon

    def copy(self):
        return State(dict(self.mem), dict(self.facts), dict(self.rel), self.mon)

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), frozenset(self.rel.items()), self.mon)


class Event:
    __slots__ = ("kind", "name", "args", "ret", "span", "ctx", "block", "info")

    def __init__(self, kind, name, args=(), ret=None, ctx=None, block=None, info=None, span=None):
        self.kind, self.name, self.args, self.ret = kind, name, tuple(args), ret
        self.ctx, self.block, self.info = ctx, block, info
        self.span = span or (ctx.fn.blocks[block][2] if ctx is not None else None)

    def where(self):
        f = self.ctx.fn.name if self.ctx else "?"
        return "%s:%s (%s)" % (self.span[0], self.span[1], f)

    def fn(self):
        return self.ctx.fn.name if self.ctx else "?"

    def __repr__(self):
        return "<%s %s(%s)%s @%s:%s>" % (self.kind, self.name, ", ".join(map(show, self.args)),
                                         "" if self.ret is None else " -> " + show(self.ret),
                                         self.span[0].split("/")[-1], self.span[1])


class Node:
    __slots__ = ("ctx", "block", "st", "id", "succ", "pred", "kind", "val", "kid")

    def __init__(self, id, ctx, block, st, kind="join", val=None):
        self.id, self.ctx, self.block, self.st, self.kind, self.val = id, ctx, block, st, kind, val
        self.succ = []   # (events, node)
        self.pred = None  # (node, events) first
        self.kid = None

    def __repr__(self):
        return "<N%d %s %s bb%s>" % (self.id, self.kind, self.ctx, self.block)


class Call:
    """what a model sees"""
    __slots__ = ("eng", "ctx", "block", "x", "tdef", "name", "args", "argtys", "destty", "site", "span", "evs", "args_ops")

    @property
    def self_ty(self):
        a = self.x.get("assoc") or {}
        return a.get("self") or ""

    def tys(self, i):
        return self.eng.P.types[self.argtys[i]]["s"] if i < len(self.argtys) else ""

    def sym(self, st, tag=None, args=None):
        return self.eng.fresh(st, "ret", self.tdef if tag is None else tag, self.site, tuple(trim(a, 6) for a in (self.args if args is None else args)))


class Overflow(Exception):
    pass


TRIMS = ("trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "trim_left", "trim_right", "trim_ascii", "trim_ascii_start", "trim_ascii_end")


class Engine:
    def __init__(self, P, monitors=(), opaque=None, unwinds=None, numeric=False, logs=False, hook=None,
                 inline_drop=True, max_nodes=40000, pin=None, inline_std=True, branch_events=True, max_sec=240,
                 keep_args=False, poison=True, eof=False):
        self.P = P
        self.poison = poison
        self.eof = eof
        self.monitors = list(monitors)
        self.opaque = opaque or (lambda x, f: False)
        self.unwinds = unwinds
        self.numeric = numeric
        self.logs = logs
        self.hook = hook
        self.inline_drop = inline_drop
        self.max_nodes = max_nodes
        self.max_sec = max_sec
        self.pin = pin
        self.branch_events = branch_events
        self.keep_args = keep_args
        self.vty = {}
        self.fninfo = {}
        self.nodes = []
        self.heads = {}
        self.consts = set()
        self.table = {}
        self.ends = []
        self.reports = []
        self.ptcache = {}
        self._impl = {}
        self.root = None
        self.stats = {"blocks": 0, "calls": 0, "inlined": 0, "external": 0, "fns": set(), "ext": {}}
        self.spawned = []     # closures handed to thread::spawn etc.
        from . import models
        self.models = models

    # ---- types ---------------------------------------------------------
    def place_ty(self, fn, place):
        k = (fn.key, id(place))
        r = self.ptcache.get(k)
        if r is not None:
            return r
        P = self.P
        t = fn.locals[place[0]]
        for e in place[1]:
            if e == "*":
                ty = P.types[t]
                if ty["k"] in ("ref", "ptr"):
                    t = ty["e"]
                elif ty["k"] == "adt" and ty["args"]:
                    t = ty["args"][0]
                else:
                    t = None
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                ty = P.types[t]
                t = ty.get("e")
            elif e[0] == "oc":
                t = e[1]
            if t is None:
                break
        self.ptcache[k] = t
        return t

    def variants(self, t):
        ty = self.P.types[t]
        if ty["k"] == "adt" and ty.get("akind") == "Enum":
            out = []
            for i, v in enumerate(ty["variants"]):
                d = v[2]
                out.append(int(d) if d is not None else i)
            return out
        return None

    # ---- memory ---------------------------------------------------------
    def base(self, cell):
        k = cell[0]
        if k == "K":
            return cell[1]
        if k == "D":
            return mk("deref", cell[1])
        if k == "H":
            return mk("hv", cell[1])
        if k == "G":
            return mk("app", "static", cell[1])
        return UNINIT

    def load(self, st, cell, path=()):
        v = st.mem.get(cell)
        if v is None:
            v = self.base(cell)
        for e in path:
            v = self.proj(v, e)
        return v

    def proj(self, v, e):
        k = v.k
        e0 = e[0]
        if e0 == "f":
            if k == "agg":
                fs = v.a[2]
                if isinstance(e[1], int) and e[1] < len(fs):
                    return fs[e[1]]
                return mk("fld", v, e[1])
            if k == "upd":
                for kk, x in v.a[1]:
                    if kk == e:
                        return x
                return self.proj(v.a[0], e)
            if k in ("ref", "moved", "uninit"):
                return v
            return mk("fld", v, e[1])
        if e0 == "d":
            if k == "agg":
                return v
            if k == "upd":
                for kk, x in v.a[1]:
                    if kk == e:
                        return x
                return self.proj(v.a[0], e)
            if k in ("ref", "moved", "uninit"):
                return v
            return mk("as", v, e[1])
        if e0 == "i":
            if k == "agg" and e[1].k == "i" and e[1].a[0] < len(v.a[2]):
                return v.a[2][e[1].a[0]]
            if k == "bs" and e[1].k == "i" and e[1].a[0] < len(v.a[0]):
                return I(v.a[0][e[1].a[0]])
            if k == "app" and v.a[0] == "store" and v.a[2] is e[1]:
                return v.a[3]
            if k == "app" and v.a[0] == "store" and v.a[2].k == "i" and e[1].k == "i":
                return self.proj(v.a[1], e)
            if k == "app" and v.a[0] == "slice":
                lo = v.a[2]
                b, c = unlin(e[1])
                b2, c2 = unlin(lo)
                if b is None:
                    return self.proj(v.a[1], ("i", lin(lo, c)))
                if b2 is None:
                    return self.proj(v.a[1], ("i", lin(e[1], c2)))
            return mk("idx", v, e[1])
        if e0 == "sl":
            return self.slice(v, e[1], e[2])
        if e0 == "ie":
            return mk("idx", v, mk("app", "fromend", I(e[1])))
        if e0 == "mx":
            if k == "upd":
                for kk, x in v.a[1]:
                    if kk == e:
                        return x
                return self.proj(v.a[0], e)
            if k == "agg" and len(v.a[2]) == 1:
                return v.a[2][0]
            return mk("fld", v, "mx")
        return mk("fld", v, str(e))

    def slice(self, v, lo, hi):
        if lo.k == "i" and lo.a[0] == 0 and hi is None:
            return v
        if v.k == "s" and lo.k == "i" and (hi is None or hi.k == "i"):
            return S(v.a[0][lo.a[0]:(hi.a[0] if hi is not None else None)])
        if hi is None:
            hi = self.length(v)
        if lo.k == "i" and lo.a[0] == 0 and hi is self.length(v):
            return v
        if v.k == "app" and v.a[0] == "slice":
            # slice of a slice
            b0, c0 = unlin(v.a[2])
            if b0 is None:
                return app("slice", v.a[1], lin(lo, c0), lin(hi, c0))
        return app("slice", v, lo, hi)

    def length(self, v):
        k = v.k
        if k == "s":
            return I(len(v.a[0].encode()))
        if k == "bs":
            return I(len(v.a[0]))
        if k == "agg" and v.a[0] in ("array", "vec"):
            return I(len(v.a[2]))
        if k == "ref":
            return mk("app", "len", v)
        if k == "app":
            n = v.a[0]
            if n == "empty":
                return I(0)
            if n == "push":
                return lin(self.length(v.a[1]), 1)
            if n == "store":
                return self.length(v.a[1])
            if n == "filled":
                return v.a[1]
            if n == "slice":
                lo, hi = v.a[2], v.a[3]
                b, c = unlin(lo)
                if b is None:
                    return lin(hi, -c)
                b2, c2 = unlin(hi)
                if b2 is b:
                    return I(c2 - c)
                return app("sub", hi, lo)
            if n == "cat":
                a, b = self.length(v.a[1]), self.length(v.a[2])
                if a.k == "i":
                    return lin(b, a.a[0])
                if b.k == "i":
                    return lin(a, b.a[0])
                return app("add", a, b)
        r = app("len", v)
        self.vty.setdefault(r, "usize")
        return r

    def setp(self, v, path, new):
        if not path:
            return new
        e = path[0]
        rest = path[1:]
        k = v.k
        if k == "agg":
            if e[0] == "f" and isinstance(e[1], int) and e[1] < len(v.a[2]):
                fs = list(v.a[2])
                fs[e[1]] = self.setp(fs[e[1]], rest, new)
                return mk("agg", v.a[0], v.a[1], tuple(fs))
            if e[0] == "d":
                return self.setp(v, rest, new)
            if e[0] == "mx" and len(v.a[2]) == 1:
                return mk("agg", v.a[0], v.a[1], (self.setp(v.a[2][0], rest, new),))
            if e[0] == "i" and e[1].k == "i" and e[1].a[0] < len(v.a[2]):
                fs = list(v.a[2])
                fs[e[1].a[0]] = self.setp(fs[e[1].a[0]], rest, new)
                return mk("agg", v.a[0], v.a[1], tuple(fs))
        if e[0] in ("f", "d", "mx"):
            if k == "ref" and e[0] == "f":
                return v
            items = dict(v.a[1]) if k == "upd" else {}
            b = v.a[0] if k == "upd" else v
            old = self.proj(v, e)
            items[e] = self.setp(old, rest, new)
            return mk("upd", b, tuple(sorted(items.items(), key=lambda z: str(z[0]))))
        if e[0] == "i":
            old = self.proj(v, e)
            return app("store", v, e[1], self.setp(old, rest, new))
        return app("store", v, I(-1), new)

    def store(self, st, cell, path, v):
        if cell[0] == "K":
            return
        if not path:
            st.mem[cell] = v
        else:
            old = st.mem.get(cell)
            if old is None:
                old = self.base(cell)
            st.mem[cell] = self.setp(old, path, v)

    def resolve(self, ctx, st, place):
        """place -> (cell, path)"""
        cell = ("L", ctx, place[0])
        path = ()
        for e in place[1]:
            if e == "*":
                v = self.load(st, cell, path)
                if v.k == "ref":
                    cell, path = v.a[0], v.a[1]
                else:
                    cell, path = ("D", v), ()
            else:
                k = e[0]
                if k == "f":
                    v = None
                    path = path + (("f", e[1]),)
                elif k == "d":
                    path = path + (("d", e[1]),)
                elif k == "i":
                    path = path + (("i", self.load(st, ("L", ctx, e[1]))),)
                elif k == "ci":
                    if e[3]:
                        path = path + (("i", lin(self.length(self.load(st, cell, path)), -e[1])),)
                    else:
                        path = path + (("i", I(e[1])),)
                elif k == "ss":
                    if e[3] and e[2]:       # counted from the end
                        hi = lin(self.length(self.load(st, cell, path)), -e[2])
                    else:
                        hi = None if e[3] else I(e[2])
                    if path and path[-1][0] == "sl":
                        l0, h0 = path[-1][1], path[-1][2]
                        b, k = unlin(l0)
                        lo = I(e[1] + k) if b is None else lin(b, e[1] + k)
                        if hi is None:
                            hi = h0
                        else:
                            hi = self.binop(st, "Add", l0, hi)
                        path = path[:-1] + (("sl", lo, hi),)
                    else:
                        path = path + (("sl", I(e[1]), hi),)
                elif k == "oc":
                    pass
        return cell, path

    def ptr(self, v):
        """pointer value -> (cell,path)"""
        if v.k == "ref":
            return v.a[0], v.a[1]
        return ("D", v), ()

    def content(self, st, v):
        """the non-pointer content behind (nested) references"""
        for _ in range(6):
            if v.k == "ref":
                v = self.load(st, v.a[0], v.a[1])
            else:
                break
        return v

    def deref(self, st, v):
        c, p = self.ptr(v)
        return self.load(st, c, p)

    # ---- freshness --------------------------------------------------------
    def fresh(self, st, kind, *args):
        """a site symbol; an older value of the same name still in the state is renamed"""
        s = mk(kind, *args)
        self.retire(st, s)
        return s

    def retire(self, st, s):
        found = False
        for v in st.mem.values():
            if s in v.atoms:
                found = True
                break
        if not found:
            for c in st.mem:
                if c[0] in ("H", "D") and s in c[1].atoms:
                    found = True
                    break
        if not found:
            for t in st.facts:
                if s in t.atoms:
                    found = True
                    break
        if not found:
            for x, y in st.rel:
                if (x is not None and s in x.atoms) or (y is not None and s in y.atoms):
                    found = True
                    break
        if not found:
            for a in self.mon_atoms(st.mon):
                if a is s:
                    found = True
                    break
        if found:
            self.rename(st, {s: mk("old", s)})
            if s in self.vty:
                self.vty.setdefault(mk("old", s), self.vty[s])

    def mon_atoms(self, m):
        if isinstance(m, V):
            yield from m.atoms
        elif isinstance(m, (tuple, frozenset)):
            for x in m:
                yield from self.mon_atoms(x)

    def rename(self, st, m):
        memo = {}

        def sx(x):
            if isinstance(x, V):
                return subst(x, m, memo)
            if isinstance(x, tuple):
                return tuple(sx(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(sx(y) for y in x)
            return x
        mem = {}
        for c, v in st.mem.items():
            if c[0] in ("H", "D"):
                c2 = (c[0], subst(c[1], m, memo))
            else:
                c2 = c
            v2 = subst(v, m, memo)
            if c2 in mem and mem[c2] is not v2:
                v2 = mk("app", "merged", c2[1] if isinstance(c2[1], V) else UNIT)
            mem[c2] = v2
        st.mem = mem
        fa = {}
        for t, f in st.facts.items():
            t2 = subst(t, m, memo)
            if t2 in fa:
                if fa[t2] != f:
                    fa[t2] = None
            else:
                fa[t2] = f
        st.facts = {t: f for t, f in fa.items() if f is not None}
        if st.rel:
            re_ = {}
            for (x, y), c in st.rel.items():
                k = (subst(x, m, memo) if x is not None else None, subst(y, m, memo) if y is not None else None)
                if k in re_:
                    re_[k] = max(re_[k], c)
                else:
                    re_[k] = c
            st.rel = re_
        for old, new in list(memo.items()):
            if old in self.vty and isinstance(new, V):
                self.vty.setdefault(new, self.vty[old])
        st.mon = sx(st.mon)

    # ---- operands / rvalues ---------------------------------------------------
    def const(self, c):
        v, t = c["v"], c["ty"]
        return self.constv(v, t)

    def constv(self, v, t):
        ty = self.P.types[t] if t is not None else {"k": "?", "s": "?"}
        if "int" in v:
            n = int(v["int"])
            if ty["k"] == "bool":
                return B(n)
            return I(n)
        if "str" in v:
            return const_ref(S(v["str"]))
        if "fn" in v:
            x = v["fn"]
            r = mk("fnv", x.get("name") or x["def"], x.get("key") or "")
            self.fninfo[r] = x
            return r
        if "ref" in v:
            e = ty.get("e") if ty["k"] in ("ref", "ptr") else None
            return const_ref(self.constv(v["ref"], e))
        if "array" in v:
            e = ty.get("e")
            et = self.P.types[e]["s"] if e is not None else ""
            if et == "u8" and all("int" in x for x in v["array"]):
                return mk("bs", bytes(int(x["int"]) for x in v["array"]))
            return mk("agg", "array", None, tuple(self.constv(x, e) for x in v["array"]))
        if "tuple" in v:
            fs = ty.get("f") or []
            return mk("agg", "tuple", None, tuple(self.constv(x, fs[i] if i < len(fs) else None) for i, x in enumerate(v["tuple"])))
        if "variant" in v:
            var = v["variant"]
            fl = v.get("fields", [])
            fts = []
            if ty["k"] == "adt":
                fts = [x[1] for x in ty["variants"][var][1]] if ty["variants"] else []
            isenum = ty.get("akind") == "Enum"
            return mk("agg", ty["s"], var if isenum else None,
                      tuple(self.constv(x, fts[i] if i < len(fts) else None) for i, x in enumerate(fl)))
        if "static" in v:
            return ref(("G", str(v["static"])))
        if "closure" in v or ty["k"] == "closure":
            return mk("agg", ty["s"], None, ())
        if "zst" in v:
            if ty["k"] == "fndef":
                return self.constv(ty["f"], t)
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "adt":
                return mk("agg", ty["s"], 0 if ty.get("akind") == "Enum" else None, ())
            return mk("agg", ty["s"], None, ())
        if ty["k"] == "fndef":
            return self.constv(ty["f"], t)
        return mk("app", "const:" + ty["s"] + ":" + str(v.get("opaque", ""))[:60])

    def operand(self, ctx, st, o):
        k = o[0]
        if k == "k":
            return self.const(o[1])
        if k in ("c", "m"):
            cell, path = self.resolve(ctx, st, o[1])
            v = self.load(st, cell, path)
            if k == "m" and (cell[0] == "L" or cell[0] == "H"):
                # moves leave the source dead
                if v.k not in ("i", "b", "s", "moved"):
                    if path:
                        if v.k not in ("ref",) or True:
                            self.store(st, cell, path, MOVED)
                    else:
                        st.mem[cell] = MOVED
            if v.k not in ("agg", "i", "b", "s", "ref") and v not in self.vty:
                t = self.place_ty(ctx.fn, o[1])
                if t is not None:
                    ts = self.P.types[t]
                    if ts["k"] in ("uint", "int", "bool", "char"):
                        self.vty[v] = ts["s"]
            return v
        return mk("app", "rc", S(str(o[1])[:40]))

    def rvalue(self, ctx, st, r, site):
        k = r[0]
        if k == "use":
            return self.operand(ctx, st, r[1])
        if k in ("ref", "reborrow"):
            cell, path = self.resolve(ctx, st, r[2])
            if path == () and cell[0] == "D":
                return cell[1]
            return mk("ref", cell, path)
        if k == "agg":
            kind = r[1]
            ops = tuple(self.operand(ctx, st, o) for o in r[2])
            if kind[0] == "tuple":
                return mk("agg", "tuple", None, ops)
            if kind[0] == "array":
                if ops and all(o.k == "i" for o in ops) and self.P.types[kind[1]]["s"] == "u8":
                    return mk("bs", bytes(o.a[0] & 255 for o in ops))
                return mk("agg", "array", None, ops)
            if kind[0] == "adt":
                ty = self.P.types[kind[1]]
                if ty.get("akind") == "Union":
                    return ops[0] if ops else UNIT
                if ty["s"].startswith(("std::ptr::NonNull", "std::ptr::Unique", "std::boxed::Box<")) and ops:
                    return ops[0]
                if len(ops) == 2 and ops[1] is I(0) and ty["s"].startswith("std::vec::Vec<") and "with_capacity" in show(ops[0], 4):
                    return EMPTY
                if len(ops) == 1 and ops[0] is EMPTY and ty["s"] == "std::string::String":
                    return EMPTY
                return mk("agg", ty["s"], kind[2] if ty.get("akind") == "Enum" else None, ops)
            if kind[0] == "closure":
                return mk("agg", self.P.types[kind[1]]["s"], None, ops)
            if kind[0] == "rawptr" and ops:
                return ops[0]
            return mk("agg", str(kind[0]), None, ops)
        if k == "bin":
            return self.binop(st, r[1], self.operand(ctx, st, r[2]), self.operand(ctx, st, r[3]))
        if k == "chk":
            a, b = self.operand(ctx, st, r[2]), self.operand(ctx, st, r[3])
            v = self.binop(st, r[1], a, b)
            if v.k == "i" and a.k == "i" and b.k == "i":
                ov = B(v.a[0] < 0)
            else:
                ov = mk("op", "Ovf" + r[1], a, b)
            if v not in self.vty and v.k not in ("i",):
                t = self.vty.get(a) or self.vty.get(b)
                if t:
                    self.vty[v] = t
            return mk("agg", "tuple", None, (v, ov))
        if k == "cast":
            v = self.operand(ctx, st, r[2])
            return self.cast(st, r[1], v, r[3], r[2])
        if k == "discr":
            cell, path = self.resolve(ctx, st, r[1])
            v = self.load(st, cell, path)
            t = self.place_ty(ctx.fn, r[1])
            return self.discr(st, v, t)
        if k == "len":
            cell, path = self.resolve(ctx, st, r[1])
            return self.length(self.load(st, cell, path))
        if k == "repeat":
            n = r[2]
            v = self.operand(ctx, st, r[1])
            try:
                n = int(n)
            except Exception:
                n = None
            if n is not None and n <= 16:
                return mk("agg", "array", None, (v,) * n)
            return app("repeat", v)
        if k == "un":
            v = self.operand(ctx, st, r[2])
            if r[1] == "Not":
                if v.k in ("b", "not") or self.vty.get(v) == "bool" or v.k in ("op", "app"):
                    return neg(v)
                return mk("app", "bitnot", v)
            if r[1] == "PtrMetadata":
                c = self.deref(st, v) if v.k == "ref" else self.content(st, mk("deref", v))
                c = self.content(st, c) if c.k == "ref" else c
                return self.length(c)
            return mk("app", "neg", v)
        return mk("app", "rv:" + k)

    def discr(self, st, v, t):
        if v.k == "agg":
            if v.a[1] is not None:
                vs = self.variants(t) if t is not None else None
                return I(vs[v.a[1]] if vs and v.a[1] < len(vs) else v.a[1])
        if v.k == "upd":
            return self.discr(st, v.a[0], t)
        f = st.facts.get(v)
        if f and f[0] == "v":
            vs = self.variants(t) if t is not None else None
            return I(vs[f[1]] if vs else f[1])
        return mk("discr", v, t)

    def cast(self, st, kind, v, t, op=None):
        ty = self.P.types[t]
        if kind in ("IntToInt",):
            if v.k == "b":
                return I(v.a[0])
            if v.k == "i":
                n = v.a[0]
                w = {"u8": 8, "u16": 16, "u32": 32, "i32": 32}.get(ty["s"])
                if w and not ty["s"].startswith("i"):
                    n &= (1 << w) - 1
                return I(n)
            src = self.vty.get(v)
            dst = ty["s"]
            W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "char": 21, "bool": 1}
            if src in W and dst in W and W[src] <= W[dst]:
                return v
            s = self.intset(st, v)
            if s is not None and dst in W and all(0 <= x < (1 << W[dst]) for x in s):
                return v
            if v.k == "discr":
                return v
            r = mk("cast", dst, v)
            self.vty.setdefault(r, dst)
            return r
        return v

    def binop(self, st, op, a, b):
        op = op.replace("Unchecked", "")
        if self.numeric and op in ("Lt", "Le", "Gt", "Ge"):
            self.consts.update(x.a[0] for x in (a, b) if x.k == "i")
        if a.k == "i" and b.k == "i":
            x, y = a.a[0], b.a[0]
            try:
                if op == "Add": return I(x + y)
                if op == "Sub": return I(x - y)
                if op == "Mul": return I(x * y)
                if op == "Div": return I(x // y)
                if op == "Rem": return I(x % y)
                if op == "BitAnd": return I(x & y)
                if op == "BitOr": return I(x | y)
                if op == "BitXor": return I(x ^ y)
                if op == "Shl": return I(x << y)
                if op == "Shr": return I(x >> y)
                if op == "Eq": return B(x == y)
                if op == "Ne": return B(x != y)
                if op == "Lt": return B(x < y)
                if op == "Le": return B(x <= y)
                if op == "Gt": return B(x > y)
                if op == "Ge": return B(x >= y)
            except Exception:
                pass
        if a.k == "b" and b.k == "b":
            x, y = a.a[0], b.a[0]
            if op == "Eq": return B(x == y)
            if op == "Ne": return B(x != y)
            if op == "BitAnd": return B(x & y)
            if op == "BitOr": return B(x | y)
            if op == "BitXor": return B(x ^ y)
        if op in ("Eq", "Ne") and b.k == "i" and b.a[0] == 0 and a.k == "app" and a.a[0] == "sub":
            a, b = a.a[1], a.a[2]
        if op in ("Eq", "Ne") and (a.k == "b" or b.k == "b"):
            c, o = (a, b) if a.k == "b" else (b, a)
            r = o if c.a[0] else neg(o)
            return r if op == "Eq" else neg(r)
        if op == "BitAnd":
            if FALSE in (a, b): return FALSE
            if a is TRUE: return b
            if b is TRUE: return a
        if op == "BitOr":
            if TRUE in (a, b): return TRUE
            if a is FALSE: return b
            if b is FALSE: return a
        if op == "Add":
            if b.k == "i": return self._l(a, b.a[0])
            if a.k == "i": return self._l(b, a.a[0])
            return app("add", *sorted((a, b)))
        if op == "Sub":
            if b.k == "i": return self._l(a, -b.a[0])
            x, c = unlin(a)
            y, d = unlin(b)
            if x is y:
                return I(c - d)
            return app("sub", a, b)
        if op == "Gt":
            return self.binop(st, "Lt", b, a)
        if op == "Ge":
            return self.binop(st, "Le", b, a)
        if op == "Le":
            return neg(self.binop(st, "Lt", b, a))
        if op == "Ne":
            return neg(self.binop(st, "Eq", a, b))
        if op in ("Lt", "Eq"):
            x, c = unlin(a)
            y, d = unlin(b)
            if x is y:
                return B(c < d) if op == "Lt" else B(c == d)
            if op == "Eq" and (a.k == "i" or (b.k != "i" and b.n < a.n)):
                a, b = b, a
            r = mk("op", op, a, b)
            self.vty.setdefault(r, "bool")
            return r
        return app(op.lower(), a, b)

    def _l(self, a, c):
        r = lin(a, c)
        if a in self.vty:
            self.vty.setdefault(r, self.vty[a])
        return r

    # ---- facts ------------------------------------------------------------
    def intset(self, st, v):
        if v.k == "i":
            return frozenset([v.a[0]])
        f = st.facts.get(v)
        if f and f[0] == "in":
            return f[1]
        if self.vty.get(v) == "u8":
            if f and f[0] == "ne":
                return frozenset(range(256)) - f[1]
            return frozenset(range(256))
        return None

    def setfact_in(self, st, v, s):
        s = frozenset(s)
        if not s:
            return False
        st.facts[v] = ("in", s)
        return True

    def discr_test(self, v):
        """(enum value, variant, number of variants) of a comparison of a discriminant with a number"""
        if v.k == "op" and v.a[0] == "Eq" and v.a[1].k == "discr" and v.a[2].k == "i":
            x, tt = v.a[1].a
            vs = self.variants(tt) if tt is not None else None
            val = v.a[2].a[0]
            return x, (vs.index(val) if vs and val in vs else val), (len(vs) if vs else None)
        return None

    def decide(self, st, v):
        if v.k == "b":
            return bool(v.a[0])
        dt = self.discr_test(v)
        if dt is not None:
            x, var, nv = dt
            if x.k == "upd":
                x = x.a[0]
            if x.k == "agg" and x.a[1] is not None:
                return x.a[1] == var
            f = st.facts.get(x)
            if f and f[0] == "v":
                return f[1] == var
            if f and f[0] == "nv" and var in f[1]:
                return False
        if v.k == "not":
            d = self.decide(st, v.a[0])
            return None if d is None else not d
        f = st.facts.get(v)
        if f and f[0] == "in" and len(f[1]) == 1:
            return bool(next(iter(f[1])))
        if v.k == "op" and v.a[0] == "Eq" and v.a[1].k == "ref" and v.a[2].k == "i":
            return False
        if v.k == "op":
            op, a, b = v.a
            if op in ("Eq", "Lt"):
                sa, sb = self.intset(st, a), self.intset(st, b)
                if sa is not None and sb is not None:
                    if op == "Eq":
                        if not (sa & sb): return False
                        if len(sa) == 1 and sa == sb: return True
                    else:
                        if max(sa) < min(sb): return True
                        if min(sa) >= max(sb): return False
                if op == "Eq" and b.k == "i":
                    fa = st.facts.get(a)
                    if fa and fa[0] == "ne" and b.a[0] in fa[1]: return False
                if op == "Eq" and b.k == "agg" and b.a[1] is not None and not b.a[2]:
                    fa = st.facts.get(a)
                    if fa and fa[0] == "v": return fa[1] == b.a[1]
                    if fa and fa[0] == "nv" and b.a[1] in fa[1]: return False
                if self.numeric:
                    if op == "Lt":
                        if self.prove_le(st, a, b, -1): return True
                        if self.prove_le(st, b, a, 0): return False
                    elif op == "Eq":
                        if self.prove_le(st, a, b, -1) or self.prove_le(st, b, a, -1): return False
                        if self.prove_le(st, a, b, 0) and self.prove_le(st, b, a, 0): return True
        if v.k == "app" and v.a[0] == "eq":
            a, b = v.a[1], v.a[2]
            if b.k in ("s", "bs"):
                for t, ff in st.facts.items():
                    if t.k == "app" and t.a[0] == "eq" and t.a[1] is a and t.a[2].k == b.k and t.a[2] is not b and ff == ("in", frozenset([1])):
                        return False
            if b.k == "agg" and b.a[1] is not None and not b.a[2]:
                fa = st.facts.get(a)
                if fa and fa[0] == "v": return fa[1] == b.a[1]
                if fa and fa[0] == "nv" and b.a[1] in fa[1]: return False
        if v.k == "app" and v.a[0].startswith("cls:"):
            s = self.intset(st, v.a[1])
            if s is not None:
                tb = self.models.CLASSES[v.a[0][4:]]
                if s <= tb: return True
                if not (s & tb): return False
        if v.k == "app" and v.a[0] == "inset":
            s = self.intset(st, v.a[1])
            if s is not None:
                tb = frozenset(x.a[0] for x in v.a[2:])
                if s <= tb: return True
                if not (s & tb): return False
        return None

    def assume(self, st, v, truth):
        """returns False when infeasible"""
        if v.k == "b":
            return bool(v.a[0]) == truth
        if v.k == "not":
            return self.assume(st, v.a[0], not truth)
        d = self.decide(st, v)
        if d is not None:
            if d != truth:
                return False
        dt = self.discr_test(v)
        if dt is not None:
            return self.assume_variant(st, dt[0], dt[1], truth, dt[2])
        if v.k == "op":
            op, a, b = v.a
            if op == "Eq":
                if b.k == "agg" and b.a[1] is not None and not b.a[2]:
                    return self.assume_variant(st, a, b.a[1], truth, None)
                sa = self.intset(st, a)
                if b.k == "i":
                    if sa is not None:
                        s2 = sa & {b.a[0]} if truth else sa - {b.a[0]}
                        if not s2: return False
                        st.facts[a] = ("in", frozenset(s2))
                    elif truth:
                        st.facts[a] = ("in", frozenset([b.a[0]]))
                    else:
                        f = st.facts.get(a)
                        ex = f[1] if f and f[0] == "ne" else frozenset()
                        st.facts[a] = ("ne", ex | {b.a[0]})
                elif truth and (sa is not None or self.intset(st, b) is not None):
                    sb = self.intset(st, b)
                    s2 = sa if sb is None else sb if sa is None else sa & sb
                    fa, fb = st.facts.get(a), st.facts.get(b)
                    if fa and fa[0] == "ne": s2 = s2 - fa[1]
                    if fb and fb[0] == "ne": s2 = s2 - fb[1]
                    if not s2: return False
                    st.facts[a] = st.facts[b] = ("in", frozenset(s2))
                    if not (len(s2) == 1): st.facts[v] = ("in", frozenset([1]))
                elif not (sa is not None and self.intset(st, b) is not None and self.decide(st, v) is not None):
                    st.facts[v] = ("in", frozenset([1 if truth else 0]))
                if self.numeric:
                    if truth:
                        self.add_le(st, a, b, 0)
                        self.add_le(st, b, a, 0)
                    else:
                        if self.prove_le(st, a, b, 0): self.add_le(st, a, b, -1)
                        elif self.prove_le(st, b, a, 0): self.add_le(st, b, a, -1)
                return True
            if op == "Lt":
                done = False
                if b.k == "i":
                    sa = self.intset(st, a)
                    if sa is not None:
                        s2 = frozenset(x for x in sa if (x < b.a[0]) == truth)
                        if not s2: return False
                        st.facts[a] = ("in", s2)
                        done = True
                elif a.k == "i":
                    sb = self.intset(st, b)
                    if sb is not None:
                        s2 = frozenset(x for x in sb if (a.a[0] < x) == truth)
                        if not s2: return False
                        st.facts[b] = ("in", s2)
                        done = True
                if not done:
                    st.facts[v] = ("in", frozenset([1 if truth else 0]))
                if self.numeric:
                    if truth: self.add_le(st, a, b, -1)
                    else: self.add_le(st, b, a, 0)
                return True
        if v.k == "app":
            n = v.a[0]
            if n == "eq" and v.a[2].k == "agg" and v.a[2].a[1] is not None and not v.a[2].a[2]:
                return self.assume_variant(st, v.a[1], v.a[2].a[1], truth, None)
            if n.startswith("cls:") or n == "inset":
                s = self.intset(st, v.a[1])
                if s is not None:
                    tb = self.models.CLASSES[n[4:]] if n != "inset" else frozenset(x.a[0] for x in v.a[2:])
                    s2 = (s & tb) if truth else (s - tb)
                    if not s2: return False
                    st.facts[v.a[1]] = ("in", s2)
                    return True
            if self.numeric and truth and n in ("eq", "starts_with", "ends_with") and len(v.a) > 2 and v.a[2].k in ("s", "bs"):
                k, l = self.length(v.a[2]), self.length(v.a[1])
                if self.prove_le(st, l, k, -1):
                    return False
                self.add_le(st, k, l, 0)
                if n == "eq":
                    self.add_le(st, l, k, 0)
        if d is None:
            st.facts[v] = ("in", frozenset([1 if truth else 0]))
        return True

    def assume_variant(self, st, x, var, truth, nvars):
        if x.k == "upd":
            x = x.a[0]
        if x.k == "agg" and x.a[1] is not None:
            return (x.a[1] == var) == truth
        f = st.facts.get(x)
        if truth:
            if f and f[0] == "v" and f[1] != var: return False
            if f and f[0] == "nv" and var in f[1]: return False
            st.facts[x] = ("v", var)
            return True
        if f and f[0] == "v":
            return f[1] != var
        ex = (f[1] if f and f[0] == "nv" else frozenset()) | {var}
        if nvars is not None:
            left = [i for i in range(nvars) if i not in ex]
            if not left: return False
            if len(left) == 1:
                st.facts[x] = ("v", left[0])
                return True
        st.facts[x] = ("nv", ex)
        return True

    # ---- zone ----------------------------------------------------------------
    def bound(self, st, a, b):
        """least known c with a - b <= c (None: unknown); a,b terms"""
        x, c = unlin(a)
        y, d = unlin(b)
        if x is y:
            return c - d
        w = self.dist(st, y, x)
        return None if w is None else w + c - d

    def dist(self, st, src, dst):
        # edges: constraint x - y <= c  is  y -> x with weight c.  implicit: every base >= 0; len <= 2^63-1; u8 <= 255
        d = {src: 0}
        nodes = {src, dst, None}
        for x, y in st.rel:
            nodes.add(x)
            nodes.add(y)
        edges = [(y, x, c) for (x, y), c in st.rel.items()]
        todo = [v for v in nodes if v is not None]
        while todo:
            v = todo.pop()
            for w, c in self.implied(v):
                edges.append((w, v, c))
                if w is not None and w not in nodes:
                    nodes.add(w)
                    todo.append(w)
        for v in nodes:
            if v is None:
                continue
            lo, hi = self.range(st, v)
            if lo is not None:
                edges.append((v, None, -lo))
            if hi is not None:
                edges.append((None, v, hi))
        for _ in range(len(nodes) + 1):
            ch = False
            for u, w, c in edges:
                if u in d:
                    n = d[u] + c
                    if w not in d or n < d[w]:
                        d[w] = n
                        ch = True
            if not ch:
                break
        return d.get(dst)

    def implied(self, v):
        """what is known of a term from how it was made: [(term w, c)] with v - w <= c"""
        r = self._impl.get(v)
        if r is not None:
            return r
        out = []
        def le(w, c=0):
            b, k = unlin(w)
            out.append((b, k + c))
        x = v
        if x.k == "app":
            n = x.a[0]
            if n in ("saturating_sub", "sub", "rem", "bitand", "div"):
                le(x.a[1])
                if n == "rem" and x.a[2].k == "i" and x.a[2].a[0] > 0:
                    le(x.a[2], -1)
            elif n == "min":
                le(x.a[1]); le(x.a[2])
            elif n == "len" and x.a[1].k == "app" and x.a[1].a[0] in TRIMS and len(x.a[1].a) > 1:
                le(self.length(x.a[1].a[1]))
            elif n == "len" and x.a[1].k == "fld":
                y = x.a[1].a[0]
                while y.k in ("as", "fld"):
                    y = y.a[0]
                if y.k == "app" and y.a[0] in ("strip_prefix", "strip_suffix", "split_once", "rsplit_once") and len(y.a) > 1:
                    le(self.length(y.a[1]), -len(y.a[2].a[0]) if len(y.a) > 2 and y.a[2].k in ("s", "bs") else 0)
        elif x.k == "fld" and x.a[0].k == "as" and x.a[0].a[0].k == "app":
            y = x.a[0].a[0]
            if y.a[0] in ("checked_sub", "checked_rem", "checked_div") and len(y.a) > 1:
                le(y.a[1])
            elif y.a[0] in ("find", "rfind") and len(y.a) > 2:
                le(self.length(y.a[1]), -(len(y.a[2].a[0].encode()) if y.a[2].k == "s" else 1))
        self._impl[v] = out
        return out

    def range(self, st, v):
        t = self.vty.get(v)
        hi = None
        lo = 0
        if t and t.startswith("i"):
            lo = None
        if v.k == "app" and v.a[0] == "len":
            hi = (1 << 63) - 1
        elif t == "u8":
            hi = 255
        elif t in ("usize", "u64"):
            hi = (1 << 64) - 1
        s = st.facts.get(v)
        if s and s[0] == "in":
            lo, hi = min(s[1]), max(s[1])
        elif s and s[0] == "ne" and lo == 0:
            while lo in s[1]:
                lo += 1
        if lo == 0 and v.k == "app" and v.a[0] == "sub" and len(v.a) == 3:
            # what is left is not nothing when the two were found to differ
            a, b = v.a[1], v.a[2]
            for q in (mk("op", "Eq", a, b), mk("op", "Eq", b, a)):
                if st.facts.get(q) == ("in", frozenset([0])):
                    lo = 1
        return lo, hi

    def prove_le(self, st, a, b, c):
        w = self.bound(st, a, b)
        return w is not None and w <= c

    def add_le(self, st, a, b, c):
        """assume a - b <= c"""
        x, p = unlin(a)
        y, q = unlin(b)
        if x is y:
            return
        c = c - p + q
        k = (x, y)
        if k not in st.rel or st.rel[k] > c:
            st.rel[k] = c

    # ---- garbage collection ------------------------------------------------
    def gc(self, ctx, block, st):
        mem = st.mem
        roots = []
        c, b, top = ctx, block, True
        lv = 1 if self.unwinds else 0
        keep = {}
        while c is not None:
            f = c.fn
            FX.analyse(f)
            if top:
                live = f._live[lv][b]
            else:
                t = f.blocks[b][1]
                live = set()
                if t[0] == "call":
                    if t[4] is not None:
                        live |= f._live[lv][t[4]]
                    if lv and t[5] is not None:
                        live |= f._live[lv][t[5]]
                    # destination place may be a projection
                    if t[3][1]:
                        live.add(t[3][0])
                        for e in t[3][1]:
                            if isinstance(e, list) and e[0] == "i":
                                live.add(e[1])
                elif t[0] == "drop":
                    live |= f._live[lv][t[3]]
                    if lv and t[4] is not None:
                        live |= f._live[lv][t[4]]
                    live.add(t[1][0])
            keep[c] = live
            if c.parent is None and self.keep_args:
                keep[c] = set(live) | set(range(1, f.argc + 1))
            b = c.pblock
            c = c.parent
            top = False
        seen = set()
        atoms = set()
        stack = []
        newmem = {}

        def visit_v(v):
            atoms.update(v.atoms)
            for r in self.refs_in(v):
                if r not in seen:
                    seen.add(r)
                    stack.append(r)
        for cell, v in mem.items():
            if cell[0] == "L":
                live = keep.get(cell[1])
                if live is not None and cell[2] in live:
                    if cell not in seen:
                        seen.add(cell)
                        stack.append(cell)
        self.mon_roots(st.mon, visit_v)
        if self.pin:
            for v in self.pin(self, st):
                visit_v(v)
        pend = [c for c in mem if c[0] in ("H", "D")]
        while True:
            while stack:
                cell = stack.pop()
                v = mem.get(cell)
                if v is not None:
                    newmem[cell] = v
                    visit_v(v)
                if cell[0] in ("H", "D"):
                    atoms.update(cell[1].atoms)
            # D cells whose pointer's atoms are all reachable
            added = False
            rest = []
            for c in pend:
                if c in newmem:
                    continue
                if c[0] == "D" and c[1].atoms <= atoms:
                    if c not in seen:
                        seen.add(c)
                        stack.append(c)
                        added = True
                else:
                    rest.append(c)
            pend = rest
            if not added:
                break
        st.mem = newmem
        st.facts = {t: f for t, f in st.facts.items() if t.atoms <= atoms}
        if st.rel:
            self.project(st, atoms)

    def project(self, st, atoms):
        dead = set()
        for x, y in st.rel:
            for v in (x, y):
                if v is not None and not (v.atoms <= atoms):
                    dead.add(v)
        for d in dead:
            ins = [(x, c) for (x, y), c in st.rel.items() if y is d]   # x - d <= c
            outs = [(y, c) for (x, y), c in st.rel.items() if x is d]  # d - y <= c
            lo, hi = self.range(st, d)
            if lo is not None:
                ins.append((None, -lo))
            if hi is not None and hi < (1 << 62):
                outs.append((None, hi))
            for x, c1 in ins:
                for y, c2 in outs:
                    if x is y or x is d or y is d:
                        continue
                    k = (x, y)
                    if k not in st.rel or st.rel[k] > c1 + c2:
                        st.rel[k] = c1 + c2
            st.rel = {k: c for k, c in st.rel.items() if k[0] is not d and k[1] is not d}

    _refcache = {}

    def refs_in(self, v):
        r = Engine._refcache.get(v)
        if r is None:
            s = set()
            if v.k == "ref":
                s.add(v.a[0])
            for x in self._kids(v.a):
                s |= self.refs_in(x)
            r = frozenset(s)
            Engine._refcache[v] = r
        return r

    def _kids(self, a):
        for x in a:
            if isinstance(x, V):
                yield x
            elif isinstance(x, tuple):
                yield from self._kids(x)

    def mon_roots(self, m, visit):
        if isinstance(m, V):
            visit(m)
        elif isinstance(m, (tuple, frozenset)):
            for x in m:
                self.mon_roots(x, visit)

    # ---- interning / widening ---------------------------------------------
    def is_join(self, ctx, block, via_return):
        f = ctx.fn
        FX.analyse(f)
        return via_return or f._preds[block] > 1 or block in f._heads

    def intern(self, ctx, block, st):
        self.gc(ctx, block, st)
        f = ctx.fn
        loc = (ctx, block)
        if block in f._heads:
            return self.intern_head(loc, st)
        key = st.key()
        tb = self.table.setdefault(loc, {})
        n = tb.get(key)
        if n is not None:
            return n, False
        n = self.newnode(ctx, block, st)
        tb[key] = n
        return n, True

    def newnode(self, ctx, block, st, kind="join", val=None):
        if len(self.nodes) >= self.max_nodes:
            raise Overflow("more than %d abstract states (at %s bb%s)" % (self.max_nodes, ctx, block))
        if time.time() - self.t0 > self.max_sec:
            raise Overflow("analysis time limit")
        n = Node(len(self.nodes), ctx, block, st, kind, val)
        self.nodes.append(n)
        return n

    def skel(self, st, v):
        k = v.k
        if k == "i":
            return "n"
        if k in ("b", "s", "bs", "moved", "uninit", "fnv"):
            return v
        if k == "agg":
            return (v.a[0], v.a[1], tuple(self.skel(st, x) for x in v.a[2]))
        if k == "upd":
            return ("upd", self.skel(st, v.a[0]), tuple((e, self.skel(st, x)) for e, x in v.a[1]))
        if k == "ref":
            cell, path = v.a
            c = cell
            if cell[0] in ("D", "K") and isinstance(cell[1], V):
                c = (cell[0], "?")
            elif cell[0] == "H":
                c = cell
            return ("ref", c, uncycle(tuple((e[0],) + tuple("?" if isinstance(z, V) else z for z in e[1:]) for e in path)))
        f = st.facts.get(v)
        if f is not None and f[0] in ("v", "nv"):
            return ("?", f)
        if f is not None and self.vty.get(v) == "bool":
            return ("?", f)
        return "?" if k != "i" else "n"

    def intern_head(self, loc, st):
        ctx, block = loc
        cells = sorted(st.mem, key=cellkey)
        sig = (tuple((c if c[0] not in ("D",) else ("D", "?"), self._sk(self.skel(st, st.mem[c]))) for c in cells), self.mon_skel(st.mon))
        tb = self.heads.setdefault(loc, {})
        cur = tb.get(sig)
        if cur is None:
            if len(tb) > 400:
                raise Overflow("too many loop-head states at %s bb%s" % (ctx, block))
            n = self.newnode(ctx, block, st.copy())
            tb[sig] = (n, 0)
            return n, True
        node, cnt = cur
        W = self.widen(loc, node.st, st, cnt)
        if W is None:
            return node, False
        n = self.newnode(ctx, block, W)
        tb[sig] = (n, cnt + 1)
        return n, True

    def _sk(self, s):
        # ints and symbols are interchangeable under widening
        if s == "n":
            return "?"
        if isinstance(s, tuple):
            return tuple(self._sk(x) if isinstance(x, (tuple, str)) else x for x in s)
        return s

    def mon_skel(self, m):
        if isinstance(m, V):
            return m if m.k in ("b", "s") else "V"
        if isinstance(m, tuple):
            return tuple(self.mon_skel(x) for x in m)
        if isinstance(m, frozenset):
            return frozenset(self.mon_skel(x) for x in m)
        return m

    def widen(self, loc, C, S, cnt):
        """None if S is covered by C, else the widened state"""
        ctx, block = loc
        site = mksite(ctx, block, "phi")
        phis = {}     # label -> (phi, cval, sval)
        inv = {}      # (cval,sval) -> phi  (share equal pairs)

        def is_myphi(v):
            return v.k == "phi" and v.a[0] is site

        def leaf(c, s, label):
            if c is s and not any(is_myphi(a) for a in s.atoms):
                return c
            if is_myphi(c):
                phis[c] = (c, s)
                (cb, off), (sb, so) = unlin(c), unlin(s)
                inv.setdefault((cb, sb, off - so), (c, off))
                return c
            if c is s:
                # contains a phi of this head: an old value surviving the iteration
                pass
            # values at a constant distance in both states stay at that distance
            (cb, off), (sb, so) = unlin(c), unlin(s)
            key = (cb, sb, off - so)
            if key in inv:
                p, o = inv[key]
                return lin(p, off - o)
            p = mk("phi", site, label)
            inv[key] = (p, off)
            phis[p] = (c, s)
            tt = self.vty.get(c) or self.vty.get(s) or self.vty.get(cb) or self.vty.get(sb)
            if not tt and any(x is not None and x.k == "app" and x.a[0] in ("len", "add", "sub") for x in (cb, sb)):
                tt = "usize"
            if tt:
                self.vty.setdefault(p, tt)
            if c.k == "i" or s.k == "i":
                self.vty.setdefault(p, "usize")
            return p

        def zip_(c, s, label):
            if c is s and not any(is_myphi(a) for a in c.atoms):
                return c
            if c.k == "agg" and s.k == "agg" and c.a[0] == s.a[0] and c.a[1] == s.a[1] and len(c.a[2]) == len(s.a[2]):
                return mk("agg", c.a[0], c.a[1], tuple(zip_(x, y, label + (i,)) for i, (x, y) in enumerate(zip(c.a[2], s.a[2]))))
            if c.k == "upd" and s.k == "upd" and [e for e, _ in c.a[1]] == [e for e, _ in s.a[1]]:
                return mk("upd", zip_(c.a[0], s.a[0], label + ("b",)),
                          tuple((e, zip_(x, y, label + (str(e),))) for (e, x), (_, y) in zip(c.a[1], s.a[1])))
            if c.k == "ref" and s.k == "ref" and c.a[0] == s.a[0] and len(c.a[1]) == len(s.a[1]):
                path = []
                ok = True
                for i, (e, g) in enumerate(zip(c.a[1], s.a[1])):
                    if e == g and not any(isinstance(x, V) and any(is_myphi(a) for a in x.atoms) for x in e[1:]):
                        path.append(e)
                    elif e[0] == g[0] and len(e) == len(g):
                        path.append((e[0],) + tuple(zip_(x, y, label + ("p%d" % i,)) if isinstance(x, V) and isinstance(y, V) else x for x, y in zip(e[1:], g[1:])))
                    else:
                        ok = False
                if ok:
                    return mk("ref", c.a[0], tuple(path))
            if c.k == "app" and s.k == "app" and c.a[0] == s.a[0] and len(c.a) == len(s.a) and (c.a[0] in ("iter", "slice") or c.a[0].startswith("it:")):
                r = app(c.a[0], *[zip_(x, y, label + (i,)) if isinstance(x, V) and isinstance(y, V) else x for i, (x, y) in enumerate(zip(c.a[1:], s.a[1:]))])
                if self.vty.get(c):
                    self.vty.setdefault(r, self.vty[c])
                return r
            if c.k == "idx" and s.k == "idx":
                r = mk("idx", zip_(c.a[0], s.a[0], label + (0,)), zip_(c.a[1], s.a[1], label + (1,)))
                if self.vty.get(c):
                    self.vty.setdefault(r, self.vty[c])
                return r
            return leaf(c, s, label)

        ccells = sorted(C.mem, key=cellkey)
        scells = sorted(S.mem, key=cellkey)
        mem = {}
        covered = True
        cellmap = {}
        for c, s in zip(ccells, scells):
            if c != s:
                # D cells under different pointers: keep under the canonical name
                if c[0] == "D" and s[0] == "D":
                    p = zip_(c[1], s[1], ("cell", c[1].n))
                    cell = ("D", p)
                else:
                    cell = c
            else:
                cell = c
            lab = (cellname(cell),)
            w = zip_(C.mem[c], S.mem[s], lab)
            mem[cell] = w
            if cell != c or w is not C.mem[c]:
                covered = False
        # monitors
        mon = self.zip_mon(C.mon, S.mon, zip_)
        if mon != C.mon:
            covered = False
        # ---- facts
        newphi = [p for p in phis if phis[p][0] is not p]
        csub = {phis[p][0]: p for p in newphi if phis[p][0].k not in ("i", "b", "s")}
        facts = {}
        phiset = set(phis)
        for t, f in C.facts.items():
            # facts on terms that survive unchanged in both
            if t in phiset:
                g = self.getfact(S, phis[t][1])
                h = joinfact(f, g)
                if h is not None:
                    facts[t] = h
                if h != f:
                    covered = False
                continue
            if any(is_myphi(a) for a in t.atoms):
                # does the corresponding fact hold for S under phi -> sval?
                m = {p: phis[p][1] for p in t.atoms if p in phiset}
                if len(m) == len([a for a in t.atoms if is_myphi(a)]):
                    g = self.getfact(S, subst(t, m))
                    h = joinfact(f, g)
                else:
                    h = None
                if h is not None:
                    facts[t] = h
                if h != f:
                    covered = False
                continue
            g = self.getfact(S, t)
            h = joinfact(f, g)
            if h is not None:
                facts[t] = h
            if h != f:
                covered = False
        for p in newphi:
            c, s = phis[p]
            f = self.getfact(C, c)
            g = self.getfact(S, s)
            h = joinfact(f, g)
            if h is not None:
                facts[p] = h
        # ---- relations
        rel = {}
        if self.numeric:
            terms = set()
            for x, y in list(C.rel) + list(S.rel):
                for v in (x, y):
                    if v is not None and v not in phiset and not any(is_myphi(a) for a in v.atoms):
                        terms.add(v)
            numphis = [p for p in phis if self.vty.get(p) in ("usize", "u64", "u32", "u8", "u16")]
            # lengths of phi containers
            lens = []
            for p in phis:
                if p not in numphis:
                    cc, ss = phis[p]
                    lc, ls = self.length(cc), self.length(ss)
                    if lc.k == "i" or ls.k == "i" or any(x is not None and (x is unlin(lc)[0] or x is unlin(ls)[0]) for k in list(C.rel) + list(S.rel) for x in k) or unlin(ls)[0] is unlin(lc)[0]:
                        lens.append((self.length(p), lc, ls))
            allt = [(None, I(0), I(0))] + [(t, t, t) for t in terms] + [(p, phis[p][0], phis[p][1]) for p in numphis] + lens
            for i, (x, cx, sx) in enumerate(allt):
                for j, (y, cy, sy) in enumerate(allt):
                    if i == j or x is y:
                        continue
                    b1 = self.bound(C, cx, cy)
                    if b1 is None:
                        continue
                    b2 = self.bound(S, sx, sy)
                    if b2 is None:
                        if (x, y) in C.rel:
                            covered = False
                        continue
                    b = max(b1, b2)
                    if b > b1:
                        t = [k for k in self.consts if k >= b] if cnt >= 2 and cnt < 10 and y is None and (x, y) in C.rel else []
                        if t:
                            b = min(t)      # widening with the constants compared with as thresholds
                        elif cnt >= 2 and (x, y) in C.rel:
                            covered = False
                            continue
                        elif cnt >= 2:
                            continue
                    if abs(b) > (1 << 40):
                        continue
                    rel[(x, y)] = b
            for k, c in C.rel.items():
                if k not in rel or rel[k] > c:
                    covered = False
        if covered:
            return None
        return State(mem, facts, rel, mon)

    def zip_mon(self, a, b, zip_, lab=("mon",)):
        if isinstance(a, V) and isinstance(b, V):
            return zip_(a, b, lab)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.zip_mon(x, y, zip_, lab + (i,)) for i, (x, y) in enumerate(zip(a, b)))
        return b

    def getfact(self, st, v):
        if v.k == "i":
            return ("in", frozenset([v.a[0]]))
        if v.k == "b":
            return ("in", frozenset([v.a[0]]))
        f = st.facts.get(v)
        if f is None and self.vty.get(v) == "u8":
            return ("in", frozenset(range(256)))
        return f

    # ---- driver --------------------------------------------------------------
    def emit(self, st, evs, e):
        evs.append(e)
        if self.monitors:
            mon = list(st.mon)
            for i, m in enumerate(self.monitors):
                mon[i] = m.event(mon[i], e, st, self)
            st.mon = tuple(mon)

    def run(self, fn, args=None, mem=None, facts=None, rel=None):
        self.t0 = time.time()
        ctx = mkctx(fn, None, None)
        st = State(mon=tuple(m.init() for m in self.monitors))
        if mem:
            st.mem.update(mem)
        if facts:
            st.facts.update(facts)
        if rel:
            st.rel.update(rel)
        for i in range(fn.argc):
            v = args[i] if args is not None and i < len(args) and args[i] is not None else mk("arg", i)
            st.mem[("L", ctx, i + 1)] = v
            ty = self.P.types[fn.locals[i + 1]]
            if ty["k"] in ("uint", "int", "bool", "char"):
                self.vty.setdefault(v, ty["s"])
        self.root = self.newnode(ctx, 0, st)
        work = [(ctx, 0, st.copy(), self.root, [], True)]
        while work:
            ctx, block, st, pred, evs, fresh_ = work.pop()
            while True:
                if not fresh_ and evs is not None and self.is_join(ctx, block, self._via):
                    if block in ctx.fn._heads:
                        sp = self.split_bool(ctx, block, st, evs)
                        if sp is not None:
                            for s2, e2 in sp:
                                work.append((ctx, block, s2, pred, e2, None if self._via else False))
                            self._via = bool(work and work[-1][5] is None)
                            break
                        for i_, mo in enumerate(self.monitors):
                            if hasattr(mo, "head"):
                                ms = list(st.mon)
                                ms[i_] = mo.head(ms[i_], ctx, block, st, self)
                                st.mon = tuple(ms)
                    n, new = self.intern(ctx, block, st)
                    pred.succ.append((evs, n))
                    if not new:
                        break
                    if n.pred is None:
                        n.pred = (pred, evs)
                    pred, evs = n, []
                    st = n.st.copy()
                fresh_ = False
                self._via = False
                out = self.block(ctx, block, st, evs, pred)
                if not out:
                    break
                for (c2, b2, s2, e2, via) in out[1:]:
                    work.append((c2, b2, s2, pred, e2, False if not via else None))
                ctx, block, st, evs, via = out[0]
                self._via = via
            # deferred items carry their via flag in the last slot (None = via return)
            self._via = bool(work and work[-1][5] is None)
        return self

    _via = False

    def split_bool(self, ctx, block, st, evs):
        """case split on an undecided condition held in a live variable at a loop head (so that joins keep what it means)"""
        self.gc(ctx, block, st)
        for cell, v in list(st.mem.items()):
            if cell[0] != "L" or v.k not in ("app", "op", "not", "ret", "fld", "isv"):
                continue
            if v.k in ("app", "ret", "fld") and self.vty.get(v) != "bool":
                continue
            d = self.decide(st, v)
            if d is not None:
                st.mem[cell] = B(d)
                continue
            out = []
            for b in (True, False):
                s2 = st.copy()
                e2 = list(evs)
                if self.assume(s2, v, b):
                    s2.mem[cell] = B(b)
                    if self.branch_events:
                        self.emit(s2, e2, Event("branch", None, (v,), B(b), ctx, block))
                    out.append((s2, e2))
            return out
        return None

    def end(self, kind, ctx, block, st, evs, pred, val=None):
        n = self.newnode(ctx, block, st, kind, val)
        pred.succ.append((evs, n))
        n.pred = (pred, evs)
        self.ends.append(n)

    def block(self, ctx, block, st, evs, pred):
        """returns successor list [(ctx, block, st, evs, via_return)]"""
        f = ctx.fn
        self.stats["blocks"] += 1
        self.stats["fns"].add(f.key)
        sts, t, span = f.blocks[block]
        for i, s in enumerate(sts):
            k = s[0]
            if k == "=":
                v = self.rvalue(ctx, st, s[2], (ctx, block, i))
                cell, path = self.resolve(ctx, st, s[1])
                if v.k not in ("agg", "i", "b", "s", "ref") and v not in self.vty and not s[1][1]:
                    ts = self.P.types[f.locals[s[1][0]]]
                    if ts["k"] in ("uint", "int", "bool", "char"):
                        self.vty[v] = ts["s"]
                self.store(st, cell, path, v)
            elif k == "dead":
                st.mem.pop(("L", ctx, s[1]), None)
            elif k == "sd":
                pass
        k = t[0]
        if k == "goto":
            return [(ctx, t[1], st, evs, False)]
        if k == "switch":
            return self.switch(ctx, block, st, evs, t, pred)
        if k == "return":
            return self.do_return(ctx, block, st, evs, pred)
        if k == "call":
            return self.do_call(ctx, block, st, evs, t, pred)
        if k == "drop":
            return self.do_drop(ctx, block, st, evs, t, pred)
        if k == "assert":
            return self.do_assert(ctx, block, st, evs, t, pred)
        if k == "resume":
            return self.do_unwind(ctx, st, evs, pred)
        if k == "unreachable":
            return []
        if k == "abort":
            self.end("abort", ctx, block, st, evs, pred)
            return []
        return []

    def do_unwind(self, ctx, st, evs, pred):
        c = ctx
        for cell in [x for x in st.mem if x[0] == "L" and x[1] is c]:
            del st.mem[cell]
        p = c.parent
        if p is None:
            self.end("unwound", c, 0, st, evs, pred)
            return []
        t = p.fn.blocks[c.pblock][1]
        uw = t[5] if t[0] == "call" else t[4]
        if uw is None:
            return self.do_unwind(p, st, evs, pred)
        return [(p, uw, st, evs, False)]

    def unwind_from(self, ctx, block, st, evs, pred, uw, why):
        self.emit(st, evs, Event("unwind", why, ctx=ctx, block=block))
        if uw is None:
            return self.do_unwind(ctx, st, evs, pred)
        return [(ctx, uw, st, evs, False)]

    def switch(self, ctx, block, st, evs, t, pred):
        v = self.operand(ctx, st, t[1])
        ty = self.P.types[t[2]]
        arms = t[3]
        other = t[4]
        if v.k in ("i", "b"):
            for val, b in arms:
                if val == v.a[0]:
                    return [(ctx, b, st, evs, False)]
            return [(ctx, other, st, evs, False)] if other is not None else []
        out = []
        if v.k == "discr":
            x, tt = v.a
            vs = self.variants(tt) if tt is not None else None
            n = len(vs) if vs else None
            rest = st
            for val, b in arms:
                var = vs.index(val) if vs and val in vs else val
                s2 = st.copy()
                if self.assume_variant(s2, x, var, True, n):
                    e2 = list(evs)
                    if self.branch_events:
                        self.emit(s2, e2, Event("variant", None, (x,), I(var), ctx, block, tt))
                    out.append((ctx, b, s2, e2, False))
            if other is not None and ctx.fn.blocks[other][1][0] != "unreachable":
                s2 = st.copy()
                ok = True
                for val, b in arms:
                    var = vs.index(val) if vs and val in vs else val
                    if not self.assume_variant(s2, x, var, False, n):
                        ok = False
                        break
                if ok:
                    e2 = list(evs)
                    if self.branch_events:
                        kf = s2.facts.get(x.a[0] if x.k == "upd" else x)
                        self.emit(s2, e2, Event("variant", None, (x,), I(kf[1]) if kf and kf[0] == "v" else None, ctx, block, tt))
                    out.append((ctx, other, s2, e2, False))
            return out
        if ty["k"] == "bool":
            for val, b in arms + ([[None, other]] if other is not None else []):
                truth = bool(val) if val is not None else not bool(arms[0][0])
                s2 = st.copy()
                if self.assume(s2, v, truth):
                    e2 = list(evs)
                    if self.branch_events:
                        self.emit(s2, e2, Event("branch", None, (v,), B(truth), ctx, block))
                    out.append((ctx, b, s2, e2, False))
            return out
        # integers / chars
        used = []
        for val, b in arms:
            s2 = st.copy()
            used.append(val)
            if self.assume(s2, self.binop(s2, "Eq", v, I(val)), True):
                e2 = list(evs)
                if self.branch_events:
                    self.emit(s2, e2, Event("branch", None, (mk("op", "Eq", v, I(val)),), TRUE, ctx, block))
                out.append((ctx, b, s2, e2, False))
        if other is not None and ctx.fn.blocks[other][1][0] != "unreachable":
            s2 = st.copy()
            if all(self.assume(s2, self.binop(s2, "Eq", v, I(x)), False) for x in used):
                e2 = list(evs)
                if self.branch_events:
                    self.emit(s2, e2, Event("branch", None, (app("in", v, *[I(x) for x in used]),), FALSE, ctx, block))
                out.append((ctx, other, s2, e2, False))
        return out

    def do_assert(self, ctx, block, st, evs, t, pred):
        if isinstance(t[3], list) and len(t[3]) > 1 and t[3][0] == "other" and re.search("MisalignedPointer|NullPointer", str(t[3][1])):
            # checks of raw pointers added to debug builds; safe code can not fail them
            return [(ctx, t[4], st, evs, False)]
        c = self.operand(ctx, st, t[1])
        want = t[2]
        cond = c if want else neg(c)
        proven = self.prove_assert(st, cond)
        msg = t[3][0] if isinstance(t[3], list) and t[3] else str(t[3])
        self.emit(st, evs, Event("oblig", str(msg), (cond,), B(bool(proven)), ctx, block, t[3]))
        if not self.assume_assert(st, cond):
            self.end("panic", ctx, block, st, evs, pred)
            return []
        return [(ctx, t[4], st, evs, False)]

    def prove_assert(self, st, cond):
        d = self.decide(st, cond)
        if d is not None:
            return d
        if cond.k == "not" and cond.a[0].k == "op" and cond.a[0].a[0].startswith("Ovf"):
            op, a, b = cond.a[0].a
            ty = self.vty.get(a) or self.vty.get(b) or "usize"
            if op == "OvfSub":
                return self.prove_le(st, b, a, 0) if self.numeric else False
            if op == "OvfAdd" and self.numeric:
                mx = {"u8": 255, "u16": 65535, "u32": (1 << 32) - 1}.get(ty, (1 << 64) - 1)
                ua = self.bound(st, a, I(0))
                ub = self.bound(st, b, I(0))
                return ua is not None and ub is not None and ua + ub <= mx
        if cond.k == "op" and cond.a[0] == "Lt" and self.numeric:
            return self.prove_le(st, cond.a[1], cond.a[2], -1)
        return False

    def assume_assert(self, st, cond):
        if cond.k == "not" and cond.a[0].k == "op" and cond.a[0].a[0].startswith("Ovf"):
            op, a, b = cond.a[0].a
            if op == "OvfSub" and self.numeric:
                self.add_le(st, b, a, 0)
            return True
        return self.assume(st, cond, True)

    # ---- calls ------------------------------------------------------------
    def do_return(self, ctx, block, st, evs, pred):
        v = self.load(st, ("L", ctx, 0))
        p = ctx.parent
        if p is None:
            self.emit(st, evs, Event("return", None, (v,), None, ctx, block))
            self.end("return", ctx, block, st, evs, pred, v)
            return []
        for cell in [x for x in st.mem if x[0] == "L" and x[1] is ctx]:
            del st.mem[cell]
        t = p.fn.blocks[ctx.pblock][1]
        if t[0] == "drop":
            self.drop_events(p, ctx.pblock, st, evs, t, fields_only=True)
            return [(p, t[3], st, evs, True)]
        if ctx.fn.name.endswith("as std::ops::Drop>::drop") and self.is_memdrop(p.fn, t):
            self.drop_rec(p, ctx.pblock, st, evs, self.load(st, ("H", mk("heap", mksite(p, ctx.pblock, "drop")))), t[6][0], 0, True)
        cell, path = self.resolve(p, st, t[3])
        self.store(st, cell, path, v)
        self.emit(st, evs, Event("ret", ctx.fn.name, (v,), v, p, ctx.pblock, ctx.fn))
        if t[4] is None:
            return []
        return [(p, t[4], st, evs, True)]

    def is_memdrop(self, fn, t):
        o = t[1]
        return t[0] == "call" and o[0] == "k" and "fn" in o[1]["v"] and o[1]["v"]["fn"].get("def") == "std::mem::drop"

    def callee(self, fv):
        return self.fninfo.get(fv)

    def do_call(self, ctx, block, st, evs, t, pred):
        self.stats["calls"] += 1
        fv = self.operand(ctx, st, t[1])
        args = [self.operand(ctx, st, o) for o in t[2]]
        x = self.fninfo.get(fv)
        c = Call()
        c.eng, c.ctx, c.block, c.args, c.argtys, c.destty = self, ctx, block, args, t[6], t[7]
        c.site = mksite(ctx, block)
        c.span = ctx.fn.blocks[block][2]
        c.evs = evs
        c.args_ops = t[2]
        if x is None:
            c.x = {"kind": "indirect", "name": "indirect", "def": "indirect"}
            c.tdef = c.name = "indirect"
            return self.ext(c, ctx, block, st, evs, t, pred, Event("call", "indirect", [fv] + args, None, ctx, block, c.x))
        c.x = x
        c.name = x.get("name") or x["def"]
        c.tdef = x.get("tdef") or x["def"]
        # analysis specific hook
        if self.hook:
            r = self.hook(c, st)
            if r is not None:
                return self.finish(c, r, ctx, block, evs, t, pred, st)
        if self.numeric:
            pre = self.models.PRE.get(c.tdef)
            for what, cond in (pre(c, st) if pre is not None else ()):
                self.emit(st, evs, Event("oblig", what, (cond,), B(bool(self.prove_assert(st, cond))), ctx, block, c.x))
                if not self.assume_assert(st, cond):
                    self.end("panic", ctx, block, st, evs, pred)
                    return []
        if c.tdef in TRY_FN:
            r = self.invoke(c, ctx, block, st, evs, t, pred)
            if r is not None:
                return r
        m = self.models.MODELS.get(c.tdef)
        if m is not None:
            r = m(c, st)
            if r is not None:
                if isinstance(r, tuple) and r and r[0] == "pseudo":
                    return self.push(ctx, block, st, evs, r[1], r[2])
                return self.finish(c, r, ctx, block, evs, t, pred, st)
        f = self.P.fns.get(x.get("key"))
        if f is not None and not f.poly and x.get("kind") in ("item", "shim"):
            if self.recursive(ctx, f) or ctx.depth > 60 or (self.P.local(f) and self.opaque(x, f)):
                return self.ext(c, ctx, block, st, evs, t, pred, Event("call", c.tdef, args, None, ctx, block, x))
            self.stats["inlined"] += 1
            if self.P.local(f):
                self.emit(st, evs, Event("enter", f.name, args, None, ctx, block, x))
            return self.push(ctx, block, st, evs, f, args)
        return self.ext(c, ctx, block, st, evs, t, pred, Event("call", c.tdef, args, None, ctx, block, x))

    def recursive(self, ctx, f):
        c = ctx
        while c is not None:
            if c.fn is f:
                return True
            c = c.parent
        return False

    def push(self, ctx, block, st, evs, f, args):
        c2 = mkctx(f, ctx, block)
        for i, a in enumerate(args):
            st.mem[("L", c2, i + 1)] = a
        return [(c2, 0, st, evs, False)]

    def closure_body(self, v, st):
        """function to run for calling closure value v (agg) -> (Fn, selfarg by ref?)"""
        if v.k == "fnv":
            f = self.P.fns.get(v.a[1])
            return (f, None) if f is not None and not f.poly else (None, None)
        if v.k != "agg":
            return None, None
        ti = self.P.tindex.get(v.a[0])
        if ti is None or self.P.types[ti]["k"] != "closure":
            return None, None
        key = self.P.types[ti].get("once")
        f = self.P.fns.get(key)
        if f is None:
            return None, None
        if f.kind == "shim":
            for b in f.blocks:
                if b[1][0] == "call":
                    o = b[1][1]
                    if o[0] == "k" and "fn" in o[1]["v"]:
                        k2 = o[1]["v"]["fn"].get("key")
                        if k2 in self.P.fns:
                            return self.P.fns[k2], True
        t1 = self.P.types[f.locals[1]]
        return f, t1["k"] in ("ref", "ptr")

    def invoke(self, c, ctx, block, st, evs, t, pred):
        selfv = c.args[0]
        v = self.content(st, selfv) if selfv.k == "ref" else selfv
        if v.k == "ref":
            v = self.content(st, v)
        while v.k == "agg" and v.a[0].startswith("std::panic::AssertUnwindSafe<") and len(v.a[2]) == 1:
            # transparent wrapper
            v = selfv = v.a[2][0]
            if v.k == "ref":
                v = self.content(st, v)
            c.args = [selfv] + list(c.args[1:])
        f, byref = self.closure_body(v, st)
        virt = c.x.get("kind") == "virtual" or "dyn " in c.self_ty
        if f is None and v.k == "fnv":
            r = self.construct(v, c.destty, c.args[1] if len(c.args) > 1 else UNIT)
            if r is not None:
                return self.finish(c, [(r, st)], ctx, block, evs, t, pred, st)
            x = self.fninfo.get(v)
            ty = self.P.types[c.argtys[1]] if len(c.argtys) > 1 else {}
            if x is not None and ty.get("k") == "tuple":
                # a function of another crate used as a value
                import copy
                c2 = copy.copy(c)
                c2.x, c2.name, c2.tdef, c2.argtys = x, x.get("name") or x["def"], x.get("tdef") or x["def"], list(ty["f"])
                c2.args = [self.proj(c.args[1], ("f", i)) for i in range(len(ty["f"]))]
                m = self.models.MODELS.get(c2.tdef)
                r = (self.hook(c2, st) if self.hook else None) or (m(c2, st) if m is not None else None)
                if r is not None and not (isinstance(r, tuple) and r and r[0] == "pseudo"):
                    return self.finish(c, r, ctx, block, evs, t, pred, st)
        if f is None:
            f2 = self.P.fns.get(c.x.get("key"))
            if f2 is not None and not f2.poly and c.x.get("kind") in ("item", "shim") and not self.recursive(ctx, f2) and not virt:
                # resolved instance: body or shim
                args = list(c.args)
                if f2.argc != len(args) or (f2.kind != "shim" and len(args) == 2 and f2.spread is None and "{closure" in f2.name):
                    tup = args.pop()
                    args += [self.proj(tup, ("f", i)) for i in range(f2.argc - 1)]
                if self.P.local(f2) and self.opaque(c.x, f2):
                    return self.ext(c, ctx, block, st, evs, t, pred, Event("call", f2.name, args, None, ctx, block, c.x))
                return self.push(ctx, block, st, evs, f2, args)
            return self.ext(c, ctx, block, st, evs, t, pred, Event("invoke", c.tdef, c.args, None, ctx, block, c.x))
        if self.recursive(ctx, f):
            return None
        tup = c.args[1] if len(c.args) > 1 else UNIT
        if f.kind == "shim" or "{closure" in f.name:
            sargs = []
            if byref is None:
                nparam = f.argc
                base = 0
            else:
                nparam = f.argc - 1
                base = 1
                if byref:
                    sargs.append(selfv if selfv.k == "ref" and self.deref(st, selfv) is v else self.box(st, c.site, v))
                else:
                    sargs.append(v)
            sargs += [self.proj(tup, ("f", i)) for i in range(nparam)]
        else:
            sargs = [self.proj(tup, ("f", i)) for i in range(f.argc)]
        if self.hook and v.k == "fnv":
            import copy
            c2 = copy.copy(c)
            c2.x, c2.name, c2.tdef, c2.args = {"name": f.name, "def": f.defp, "tdef": f.defp, "key": f.key, "kind": "item"}, f.name, f.defp, sargs
            c2.argtys = list(f.locals[1:1 + f.argc])
            r = self.hook(c2, st)
            if r is not None:
                return self.finish(c, r, ctx, block, evs, t, pred, st)
        if self.P.local(f):
            if self.opaque({"def": f.defp, "name": f.name, "key": f.key, "tdef": f.defp}, f):
                return self.ext(c, ctx, block, st, evs, t, pred, Event("call", f.name, sargs, None, ctx, block, c.x))
            self.emit(st, evs, Event("enter", f.name, sargs, None, ctx, block, c.x))
        return self.push(ctx, block, st, evs, f, sargs)

    def construct(self, v, destty, tup):
        """the value a constructor used as a function makes"""
        ty = self.P.types[destty]
        last = v.a[0].split("::")[-1]
        if ty["k"] != "adt" or tup.k != "agg":
            return None
        for i, x in enumerate(ty.get("variants") or ()):
            if x[0] == last and len(x[1]) == len(tup.a[2]):
                return mk("agg", ty["s"], i if ty.get("akind") == "Enum" else None, tup.a[2])
        return None

    def box(self, st, site, v, sub="box"):
        h = mk("heap", mksite(site.ctx, site.block, sub))
        self.retire(st, h)
        st.mem[("H", h)] = v
        return ref(("H", h))

    def finish(self, c, outcomes, ctx, block, evs, t, pred, st0):
        """outcomes: list of (ret, state[, event]) from a model"""
        res = []
        multi = len(outcomes) > 1
        for o in outcomes:
            ret, st = o[0], o[1]
            e2 = list(evs) if multi else evs
            if len(o) > 2 and o[2] is not None:
                for e in (o[2] if isinstance(o[2], list) else [o[2]]):
                    self.emit(st, e2, e)
            if self.unwinds and len(o) > 3 and o[3]:
                s3 = st.copy()
                e3 = list(e2)
                res += self.unwind_from(ctx, block, s3, e3, pred, t[5], c.tdef)
            if t[4] is None or ret is PANIC:
                self.end("panic", ctx, block, st, e2, pred)
                continue
            cell, path = self.resolve(ctx, st, t[3])
            self.store(st, cell, path, ret)
            self.typed(ret, t[7])
            res.append((ctx, t[4], st, e2, False))
        return res

    def typed(self, v, ty):
        if v.k in ("agg", "i", "b", "s", "ref") or v in self.vty:
            return
        ts = self.P.types[ty]
        if ts["k"] in ("uint", "int", "bool", "char"):
            self.vty[v] = ts["s"]

    def ext(self, c, ctx, block, st, evs, t, pred, e):
        """default treatment of a call whose body is not analysed"""
        self.stats["external"] += 1
        self.stats["ext"][c.tdef] = self.stats["ext"].get(c.tdef, 0) + 1
        ret = c.sym(st)
        e.ret = ret
        self.typed(ret, c.destty)
        res = []
        if self.unwinds and self.unwinds(c, e):
            s3 = st.copy()
            e3 = list(evs)
            self.havoc_args(c, s3)
            if e.kind == "invoke":
                # the callee was entered (and owns what was moved into it) before it panicked
                self.emit(s3, e3, Event("invoke", e.name, e.args, None, ctx, block, c.x))
            res += self.unwind_from(ctx, block, s3, e3, pred, t[5], e.name)
        self.emit(st, evs, e)
        self.havoc_args(c, st)
        if t[4] is None:
            kind = "panic"
            if c.tdef in ("std::process::exit", "std::process::abort"):
                kind = "exit"
            self.end(kind, ctx, block, st, evs, pred, e)
            if self.unwinds and kind == "panic":
                s3 = st.copy()
                res += self.unwind_from(ctx, block, s3, list(evs), pred, t[5], "panic")
            return res
        cell, path = self.resolve(ctx, st, t[3])
        self.store(st, cell, path, ret)
        return [(ctx, t[4], st, evs, False)] + res

    def havoc_args(self, c, st):
        for i, a in enumerate(c.args):
            if i >= len(c.argtys):
                break
            self.havoc_val(c, st, a, c.argtys[i], (i,), set())

    def havoc_val(self, c, st, a, ti, lab, seen):
        """unanalysed code got value a: everything it can reach through mutable references may change"""
        ty = self.P.types[ti]
        k = ty["k"]
        if k == "ref" and ty["mut"]:
            cell, path = self.ptr(a)
            if (cell, path) in seen or len(seen) > 12:
                return
            seen.add((cell, path))
            old = self.load(st, cell, path)
            if old.k in ("moved",):
                return
            if old.k in ("agg", "upd"):
                self.havoc_val(c, st, old, ty["e"], lab + ("*",), seen)
            s = self.fresh(st, "mut", c.site, lab[0] if len(lab) == 1 else lab)
            cell, path = self.ptr(self._rn(st, a))
            self.store(st, cell, path, s)
            return
        if a.k == "upd":
            for e, x in a.a[1]:
                if e[0] == "f" and k in ("adt", "tuple", "closure"):
                    fs = self.field_types(ty, None)
                    if fs is not None and e[1] < len(fs):
                        self.havoc_val(c, st, x, fs[e[1]], lab + (e[1],), seen)
            return
        if a.k != "agg":
            return
        fs = self.field_types(ty, a.a[1])
        if k == "closure" or (fs is None and a.a[0].startswith("{closure")):
            t2 = self.P.tindex.get(a.a[0])
            fs = self.P.types[t2].get("up") if t2 is not None else None
        if fs is None:
            return
        for j, x in enumerate(a.a[2]):
            if j < len(fs) and x.k in ("ref", "agg", "upd"):
                self.havoc_val(c, st, x, fs[j], lab + (j,), seen)

    def field_types(self, ty, var):
        if ty["k"] == "tuple":
            return ty.get("f")
        if ty["k"] == "closure":
            return ty.get("up")
        if ty["k"] == "adt" and ty.get("variants"):
            vs = ty["variants"]
            if var is None:
                var = 0 if len(vs) == 1 else None
            if var is None or var >= len(vs):
                return None
            return [x[1] for x in vs[var][1]]
        return None

    def _rn(self, st, a):
        return a

    def do_drop(self, ctx, block, st, evs, t, pred):
        cell, path = self.resolve(ctx, st, t[1])
        v = self.load(st, cell, path)
        if v.k in ("moved", "uninit"):
            return [(ctx, t[3], st, evs, False)]
        ty = self.P.types[t[2]]
        dk = ty.get("dropkey")
        f = self.P.fns.get(dk) if dk else None
        if f is not None and not f.poly and self.inline_drop and not self.recursive(ctx, f) and not self.opaque({"def": f.defp, "name": f.name, "key": f.key, "tdef": "std::ops::Drop::drop"}, f):
            self.emit(st, evs, Event("drop", ty["s"], (v,), None, ctx, block, t[2]))
            return self.push(ctx, block, st, evs, f, [mk("ref", cell, path)])
        self.drop_events(ctx, block, st, evs, t)
        return [(ctx, t[3], st, evs, False)]

    def drop_events(self, ctx, block, st, evs, t, fields_only=False):
        cell, path = self.resolve(ctx, st, t[1])
        v = self.load(st, cell, path)
        self.drop_rec(ctx, block, st, evs, v, t[2], 0, fields_only)
        if cell[0] in ("L", "H"):
            self.store(st, cell, path, MOVED)

    def drop_rec(self, ctx, block, st, evs, v, ti, d, fields_only=False):
        if v.k in ("moved", "uninit") or d > 6:
            return
        ty = self.P.types[ti] if ti is not None else None
        if ty is None or ty["k"] in ("uint", "int", "bool", "char", "ref", "ptr", "fndef", "str", "never", "fnptr"):
            return
        if not fields_only:
            self.emit(st, evs, Event("drop", ty["s"], (v,), None, ctx, block, ti))
        if v.k == "upd":
            for e, x in v.a[1]:
                if e[0] == "f" and ty["k"] == "adt" and ty["variants"] and isinstance(e[1], int) and e[1] < len(ty["variants"][0][1]):
                    self.drop_rec(ctx, block, st, evs, x, ty["variants"][0][1][e[1]][1], d + 1)
            return
        if v.k == "agg":
            fts = []
            if ty["k"] == "adt" and ty["variants"]:
                var = v.a[1] or 0
                if var < len(ty["variants"]):
                    fts = [x[1] for x in ty["variants"][var][1]]
            elif ty["k"] == "tuple":
                fts = ty["f"]
            elif ty["k"] == "closure":
                fts = ty.get("up") or []
            elif ty["k"] == "array":
                fts = [ty["e"]] * len(v.a[2])
            for x, ft in zip(v.a[2], fts):
                self.drop_rec(ctx, block, st, evs, x, ft, d + 1)
        elif v.k == "ref" and ty["k"] == "adt" and ty["s"].startswith("std::boxed::Box<") and ty["args"]:
            inner = self.load(st, v.a[0], v.a[1])
            self.drop_rec(ctx, block, st, evs, inner, ty["args"][0], d + 1)

    # ---- graph helpers ------------------------------------------------------
    def path_to(self, node, last=()):
        """events along one abstract path root -> node"""
        out = []
        n = node
        chain = []
        while n is not None and n.pred is not None:
            chain.append(n.pred[1])
            n = n.pred[0]
        for evs in reversed(chain):
            out += evs
        return out

    def all_events(self):
        seen = set()
        for n in self.nodes:
            for evs, m in n.succ:
                for e in evs:
                    if id(e) not in seen:
                        seen.add(id(e))
                        yield e


def cellkey(c):
    if c[0] == "L":
        return (0, c[1].n, c[2], 0)
    if c[0] == "G":
        return (1, 0, 0, 0)
    return (2 if c[0] == "H" else 3, c[1].depth, 0, c[1].n)


def cellname(c):
    if c[0] == "L":
        return ("L", c[1].n, c[2])
    return (c[0], c[1].n if isinstance(c[1], V) else str(c[1]))


def uncycle(p):
    """a path with immediately repeated parts (of a recursive structure) left out"""
    i = 0
    while i < len(p) - 3:
        for n in range(2, (len(p) - i) // 2 + 1):
            if p[i:i + n] == p[i + n:i + 2 * n]:
                p = p[:i] + p[i + n:]
                i = -1
                break
        i += 1
    return p


def joinfact(f, g):
    if f is None or g is None:
        return None
    if f == g:
        return f
    if f[0] == "in" and g[0] == "in":
        u = f[1] | g[1]
        return ("in", u) if len(u) <= 256 else None
    if f[0] == "ne" and g[0] == "ne":
        u = f[1] & g[1]
        return ("ne", u) if u else None
    if f[0] == "ne" and g[0] == "in":
        u = f[1] - g[1]
        return ("ne", u) if u else None
    if f[0] == "in" and g[0] == "ne":
        u = g[1] - f[1]
        return ("ne", u) if u else None
    if f[0] == "nv" and g[0] == "v":
        u = f[1] - {g[1]}
        return ("nv", u) if u else None
    if f[0] == "v" and g[0] == "nv":
        u = g[1] - {f[1]}
        return ("nv", u) if u else None
    if f[0] == "nv" and g[0] == "nv":
        u = f[1] & g[1]
        return ("nv", u) if u else None
    return None
