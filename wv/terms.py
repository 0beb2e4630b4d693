"""Hash-consed abstract values (Herbrand terms)."""

ATOMIC = {"ret", "mut", "fresh", "elem", "phi", "arg", "heap", "old", "hv"}
MAXDEPTH = 14
_EMPTY = frozenset()


class V:
    __slots__ = ("k", "a", "atoms", "depth", "n")
    _count = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


_tab = {}


def _children(a):
    for x in a:
        if isinstance(x, V):
            yield x
        elif isinstance(x, tuple):
            yield from _children(x)


def mk(k, *a):
    key = (k,) + a
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        at = set()
        d = 0
        for c in _children(a):
            at |= c.atoms
            if c.depth > d:
                d = c.depth
        v.depth = d + 1
        if k in ATOMIC:
            at.add(v)
        v.atoms = frozenset(at) if at else _EMPTY
        V._count += 1
        v.n = V._count
        _tab[key] = v
    return v


MOVED = mk("moved")
UNINIT = mk("uninit")
UNIT = mk("agg", "tuple", None, ())
TRUE = mk("b", 1)
FALSE = mk("b", 0)
EMPTY = mk("app", "empty")
PANIC = mk("panic")      # outcome of a model: the call panics


def I(n):
    return mk("i", n)


def S(t):
    return mk("s", t)


def B(x):
    return TRUE if x else FALSE


def app(name, *args):
    d = max([x.depth for x in args if isinstance(x, V)] or [0])
    if d > MAXDEPTH:
        args = tuple(trim(x, MAXDEPTH - 2) if isinstance(x, V) else x for x in args)
    return mk("app", name, *args)


def trim(v, d):
    if v.depth <= d:
        return v
    if d <= 1:
        return mk("cut", v.k, v.a[0] if v.a and isinstance(v.a[0], str) else "")
    return mk(v.k, *[_trimx(x, d - 1) for x in v.a])


def _trimx(x, d):
    if isinstance(x, V):
        return trim(x, d)
    if isinstance(x, tuple):
        return tuple(_trimx(y, d) for y in x)
    return x


def ref(cell, path=()):
    return mk("ref", cell, path)


def const_ref(v):
    return mk("ref", ("K", v), ())


def is_const(v):
    return v.k in ("i", "b", "s", "bs")


def subst(v, m, memo=None):
    """replace atoms (keys of m) inside v"""
    if not (v.atoms and any(a in m for a in v.atoms)):
        return v
    if v in m:
        return m[v]
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is None:
        r = mk(v.k, *[_substx(x, m, memo) for x in v.a])
        if v.k == "lin" and r.a[0].k in ("lin", "i"):
            r = lin(r.a[0], r.a[1])
        memo[v] = r
    return r


def _substx(x, m, memo):
    if isinstance(x, V):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_substx(y, m, memo) for y in x)
    return x


def lin(base, c):
    """base + c"""
    if base.k == "i":
        return I(base.a[0] + c)
    if base.k == "lin":
        base, c = base.a[0], base.a[1] + c
    if c == 0:
        return base
    return mk("lin", base, c)


def unlin(v):
    """v = base + c (base None: constant)"""
    if v.k == "i":
        return None, v.a[0]
    if v.k == "lin":
        return v.a[0], v.a[1]
    return v, 0


def neg(v):
    if v.k == "b":
        return B(1 - v.a[0])
    if v.k == "not":
        return v.a[0]
    return mk("not", v)


def contains(v, x):
    """x is a subterm of v"""
    if v is x:
        return True
    if x.depth >= v.depth:
        return False
    return any(contains(c, x) for c in _children(v.a))


def walk(v):
    yield v
    for c in _children(v.a):
        yield from walk(c)


def _sh(x, d):
    if isinstance(x, V):
        return show(x, d)
    if isinstance(x, tuple):
        return "(" + ",".join(_sh(y, d) for y in x) + ")"
    if hasattr(x, "short"):
        return x.short()
    return str(x)


def show(v, d=5):
    if d <= 0:
        return "…"
    k, a = v.k, v.a
    if k == "i":
        return str(a[0])
    if k == "b":
        return "true" if a[0] else "false"
    if k == "s":
        return repr(a[0])
    if k == "agg":
        tag, var, fs = a
        nm = tag.split("<")[0].split("::")[-1] if not tag.startswith("{closure") else "closure"
        return "%s%s{%s}" % (nm, "" if var is None else "#%d" % var, ", ".join(_sh(f, d - 1) for f in fs))
    if k == "ref":
        return "&" + _sh(a[0], d - 1) + "".join("." + _sh(e, d - 1) for e in a[1])
    if k == "app":
        return "%s(%s)" % (a[0], ", ".join(_sh(x, d - 1) for x in a[1:]))
    if k == "lin":
        return "(%s%+d)" % (_sh(a[0], d), a[1])
    if k == "op":
        return "(%s %s %s)" % (_sh(a[1], d - 1), a[0], _sh(a[2], d - 1))
    if k == "not":
        return "!" + _sh(a[0], d)
    if k == "fld":
        return "%s.%s" % (_sh(a[0], d - 1), a[1])
    if k == "as":
        return "%s@%s" % (_sh(a[0], d - 1), a[1])
    if k == "deref":
        return "*" + _sh(a[0], d - 1)
    if k == "ret":
        return "ret<%s>(%s)" % (a[0].split("::")[-1], ", ".join(_sh(x, d - 2) for x in a[2]))
    if k == "fnv":
        return "fn " + a[0]
    return "%s(%s)" % (k, ",".join(_sh(x, d - 1) for x in a))
