"""Contracts of library functions (std, log, ...), as transfer functions on abstract states.

A model takes (call, state) and returns a list of outcomes (ret, state[, event(s)[, may_unwind]]),
("pseudo", Fn, args), or None (default: unknown result, &mut arguments havocked, the call is an event)."""
import re
from .terms import *
from . import facts as FX

MODELS = {}
A = frozenset
UPPER = A(range(65, 91))
LOWER = A(range(97, 123))
DIGIT = A(range(48, 58))
GRAPHIC = A(range(33, 127))
CLASSES = {
    "is_ascii": A(range(128)),
    "is_ascii_alphabetic": UPPER | LOWER,
    "is_ascii_alphanumeric": UPPER | LOWER | DIGIT,
    "is_ascii_digit": DIGIT,
    "is_ascii_graphic": GRAPHIC,
    "is_ascii_uppercase": UPPER,
    "is_ascii_lowercase": LOWER,
    "is_ascii_punctuation": GRAPHIC - UPPER - LOWER - DIGIT,
    "is_ascii_control": A(range(32)) | {127},
    "is_ascii_whitespace": A([9, 10, 12, 13, 32]),
    "is_ascii_hexdigit": DIGIT | A(range(65, 71)) | A(range(97, 103)),
    # unicode predicates on latin-1 code points
    "is_alphanumeric": A(c for c in range(256) if chr(c).isalnum() or chr(c) in "²³¹¼½¾"),
    "is_alphabetic": A(c for c in range(256) if chr(c).isalpha()),
    "is_numeric": A(c for c in range(256) if chr(c).isnumeric()),
    "is_control": A(range(32)) | A(range(127, 160)),
    "is_whitespace": A([9, 10, 11, 12, 13, 32, 0x85, 0xA0]),
    "is_uppercase": A(c for c in range(256) if chr(c).isupper()),
    "is_lowercase": A(c for c in range(256) if chr(c).islower()),
    "is_digit": DIGIT,
}


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


# ---- what std functions demand of their caller (checked in numeric runs only): {function: call, state -> [(kind, condition)]}
def _len(c, st, i=0):
    e = c.eng
    return e.length(e.content(st, e.deref(st, c.args[i])))


def _pre_at(i, strict=False, text=False):
    def f(c, st):
        e = c.eng
        cont = e.content(st, e.deref(st, c.args[0]))
        n, k = e.length(cont), c.args[i]
        out = [("index", e.binop(st, "Lt", k, n) if strict else neg(e.binop(st, "Lt", n, k)))]
        if text and not boundary(c, st, k, n, cont):
            out.append(("char-boundary", mk("app", "boundary", k)))
        return out
    return f


def boundary(c, st, v, n, cont=None):
    """v is known to lie between two characters of the text"""
    if v.k == "i" and cont is not None:
        # right after a text it is known to start with
        for t, f in st.facts.items():
            if t.k == "app" and t.a[0] in ("starts_with", "eq") and t.a[1] is cont and f == ("in", frozenset([1])) and t.a[2].k in ("s", "i"):
                w = (t.a[2].a[0] if t.a[2].k == "s" else chr(t.a[2].a[0])).encode()
                if v.a[0] < len(w) and w[v.a[0]] & 0xc0 != 0x80 or v.a[0] == len(w):
                    return True
    return (v.k == "i" and v.a[0] == 0) or v is n or any(x.k == "ret" and isinstance(x.a[0], str) and re.search(r"<impl str>::(r?find|len|floor_char_boundary)$|String::len$", x.a[0]) for x in walk(unlin(v)[0] or v)) and unlin(v)[1] == 0


def _pre_same_len(c, st):
    return [("index", c.eng.binop(st, "Eq", _len(c, st, 0), _len(c, st, 1)))]


def _pre_nonzero(i):
    return lambda c, st: [("index", neg(c.eng.binop(st, "Eq", c.args[i], I(0))))]


ROOM = 1 << 40


def room(e, st, n):
    """n stays far below what can be asked of the allocator: what is there already, constants and sums of them"""
    x, k = unlin(n)
    if n.k == "i":
        return n.a[0]
    if k and x is not n:
        r = room(e, st, x)
        return None if r is None else r + max(k, 0)
    if x.k == "app":
        f, a = x.a[0], x.a[1:]
        if f == "len":
            return ROOM
        if f in ("add", "saturating_add", "max") and len(a) == 2:
            l, r = room(e, st, a[0]), room(e, st, a[1])
            return None if l is None or r is None else l + r
        if f == "mul" and len(a) == 2:
            l, r = room(e, st, a[0]), room(e, st, a[1])
            return None if l is None or r is None else l * r
        if f == "min" and len(a) == 2:
            return min((r for r in (room(e, st, y) for y in a) if r is not None), default=None)
        if f in ("sub", "saturating_sub", "rem", "div") and a:
            return room(e, st, a[0])
    if e.vty.get(x) in ("u8", "u16", "u32", "bool"):
        return 1 << 32
    return ROOM if e.prove_le(st, x, I(0), ROOM) else None


def _pre_room(i):
    def f(c, st):
        r = room(c.eng, st, c.args[i])
        return [("capacity", TRUE if r is not None and r < 1 << 60 else mk("op", "Lt", c.args[i], I(1 << 60)))]
    return f


PRE = {
    **{k: _pre_room(0) for k in ("std::vec::Vec::<T>::with_capacity", "std::string::String::with_capacity", "std::collections::VecDeque::<T>::with_capacity",
                                 "std::collections::HashMap::<K, V>::with_capacity", "std::io::BufReader::<R>::with_capacity", "std::io::BufWriter::<W>::with_capacity")},
    **{k: _pre_room(1) for k in ("std::vec::from_elem", "std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::reserve_exact", "std::vec::Vec::<T, A>::resize",
                                 "std::string::String::reserve", "std::string::String::reserve_exact", "std::string::String::repeat", "core::str::<impl str>::repeat",
                                 "std::collections::VecDeque::<T, A>::reserve")},
    "core::slice::<impl [T]>::split_at": _pre_at(1), "core::slice::<impl [T]>::split_at_mut": _pre_at(1), "std::vec::Vec::<T, A>::split_off": _pre_at(1),
    "std::vec::Vec::<T, A>::insert": _pre_at(1), "std::vec::Vec::<T, A>::remove": _pre_at(1, True), "std::vec::Vec::<T, A>::swap_remove": _pre_at(1, True),
    "core::slice::<impl [T]>::swap": lambda c, st: [("index", c.eng.binop(st, "Lt", c.args[1], _len(c, st))), ("index", c.eng.binop(st, "Lt", c.args[2], _len(c, st)))],
    "core::slice::<impl [T]>::copy_from_slice": _pre_same_len, "core::slice::<impl [T]>::clone_from_slice": _pre_same_len,
    "core::slice::<impl [T]>::chunks": _pre_nonzero(1), "core::slice::<impl [T]>::chunks_exact": _pre_nonzero(1), "core::slice::<impl [T]>::windows": _pre_nonzero(1),
    "std::iter::Iterator::step_by": _pre_nonzero(1),
    "core::str::<impl str>::split_at": _pre_at(1, text=True), "std::string::String::split_off": _pre_at(1, text=True), "std::string::String::truncate": _pre_at(1, text=True),
    "std::string::String::remove": _pre_at(1, True, True), "std::string::String::insert": _pre_at(1, text=True), "std::string::String::insert_str": _pre_at(1, text=True),
}


def event(c, ret=None, kind="call"):
    from .interp import Event
    return Event(kind, c.tdef, c.args, ret, c.ctx, c.block, c.x)


def local_body(c):
    f = c.eng.P.fns.get(c.x.get("key"))
    return f is not None and not f.poly and c.eng.P.local(f)


def has_body(c):
    f = c.eng.P.fns.get(c.x.get("key"))
    return f is not None and not f.poly


def dty(c):
    return c.eng.P.types[c.destty]


def opt_ty(c):
    return dty(c)["s"]


def none(c):
    return mk("agg", opt_ty(c), 0, ())


def some(c, v):
    return mk("agg", opt_ty(c), 1, (v,))


def ok(c, v):
    return mk("agg", opt_ty(c), 0, (v,))


def err(c, v):
    return mk("agg", opt_ty(c), 1, (v,))


def strip(s):
    while s.startswith("&"):
        s = re.sub(r"^&('\w+ )?(mut )?", "", s)
    return s


STRINGY = ("std::string::String", "str", "std::borrow::Cow<'_, str>", "std::borrow::Cow<'static, str>", "std::path::PathBuf", "std::path::Path",
           "std::ffi::OsString", "std::ffi::OsStr", "std::boxed::Box<str>")


def stringy(t):
    t = strip(t)
    return t in STRINGY or t.startswith("std::borrow::Cow<")


def byteslike(t):
    t = strip(t)
    return t in ("[u8]", "std::vec::Vec<u8>") or t.startswith("[u8;")


# ---------------------------------------------------------------- references
def _ptr_of(c, st, v):
    """value used as pointer"""
    return v


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut",
       "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut", "std::option::Option::<T>::as_deref_x")
def m_deref(c, st):
    if local_body(c):
        return None
    t = c.tys(0)
    inner = re.sub(r"^&('\w+ )?(mut )?", "", t)
    p = c.args[0]
    if inner.startswith(("std::string::String", "str", "std::vec::Vec<", "std::path::PathBuf", "std::path::Path", "std::borrow::Cow<", "[", "std::ffi::", "std::array")):
        return [(p, st)]
    if inner.startswith(("std::sync::Arc<", "std::rc::Rc<", "std::boxed::Box<")):
        v = c.eng.deref(st, p)
        return [(v, st)]
    if "Guard<" in inner or "AtomicRef" in inner or inner.startswith(("std::cell::Ref", "std::panic::AssertUnwindSafe")):
        v = c.eng.deref(st, p)
        if v.k == "agg" and v.a[2]:
            return [(v.a[2][0], st)]
        return [(app("gref", v), st)]
    if inner.startswith("&"):
        return [(c.eng.deref(st, p), st)]
    return [(app("dref", p), st)]


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(c, st):
    if local_body(c):
        return None
    from .interp import Event
    e = c.eng
    p, i = c.args
    it = c.tys(1)
    inner = strip(c.tys(0))
    if not inner.startswith(("std::vec::Vec<", "[", "str", "std::string::String", "std::collections::VecDeque<")):
        return None
    cell, path = e.ptr(p)
    cont = e.load(st, cell, path)
    while cont.k == "ref":
        cell, path = cont.a
        cont = e.load(st, cell, path)
    n = e.length(cont)
    evs = []

    def oblig(cond, what):
        pr = e.prove_assert(st, cond)
        evs.append(Event("oblig", what, (cond,), B(bool(pr)), c.ctx, c.block, c.x))
        return e.assume_assert(st, cond)
    okk = True
    if it == "usize":
        okk = oblig(e.binop(st, "Lt", i, n), "index")
        r = ref(cell, path + (("i", i),))
        if byteslike(c.tys(0)):
            v = e.load(st, cell, path + (("i", i),))
            if v.k != "i":
                e.vty.setdefault(v, "u8")
    elif it.startswith("std::ops::RangeFull"):
        r = ref(cell, path)
    else:
        bb = _bounds(e, it, i)
        if bb is None:
            return None
        lo, hi = bb[0], (n if bb[1] is None else bb[1])
        if not (lo.k == "i" and lo.a[0] == 0):
            okk = oblig(neg(e.binop(st, "Lt", hi, lo)), "range-order") and okk
        if hi is not n:
            okk = oblig(neg(e.binop(st, "Lt", n, hi)), "range-end") and okk
        if inner in ("str", "std::string::String") and not (it.startswith("std::ops::RangeFull")):
            isb = boundary(c, st, lo, n, cont) and boundary(c, st, hi, n, cont)
            evs.append(Event("oblig", "char-boundary", (lo, hi), B(isb), c.ctx, c.block, c.x))
        r = subslice(e, st, cell, path, lo, hi, n)
    for x in evs:
        e.emit(st, c.evs, x)
    if not okk:
        return [(PANIC, st)]
    return [(r, st)]


def subslice(e, st, cell, path, lo, hi, n):
    """reference to the elements lo..hi of the sequence of length n at (cell, path)"""
    if path and path[-1][0] == "sl":      # a slice of a slice is one slice
        l0, h0 = path[-1][1], path[-1][2]
        path = path[:-1]
        hi = h0 if hi is n else e.binop(st, "Add", l0, hi)
        lo = e.binop(st, "Add", l0, lo)
    elif hi is n:
        hi = None
    return ref(cell, path + (("sl", lo, hi),))


def _seq(c, st, i=0):
    """(cell, path, length) of the sequence argument i refers to"""
    e = c.eng
    cell, path = e.ptr(c.args[i])
    cont = e.load(st, cell, path)
    while cont.k == "ref":
        cell, path = cont.a
        cont = e.load(st, cell, path)
    return cell, path, e.length(cont)


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut", "core::str::<impl str>::split_at")
def m_split_at(c, st):
    e = c.eng
    cell, path, n = _seq(c, st)
    k = c.args[1]
    if not e.assume(st, neg(e.binop(st, "Lt", n, k)), True):
        return [(PANIC, st)]
    return [(mk("agg", "tuple", None, (subslice(e, st, cell, path, I(0), k, n), subslice(e, st, cell, path, k, n, n))), st)]


@model("std::vec::Vec::<T, A>::pop", "std::string::String::pop")
def m_pop(c, st):
    e = c.eng
    if c.tdef.startswith("std::vec") and not byteslike(c.tys(0)):
        return None
    cell, path = e.ptr(c.args[0])
    cont = e.load(st, cell, path)
    n = e.length(cont)
    out = []
    s1, s2 = st.copy(), st.copy()
    if e.assume(s1, e.binop(s1, "Lt", I(0), n), True):
        at = e.binop(s1, "Sub", n, I(1))
        text = c.tdef.startswith("std::string")
        if text:
            last, new = e.fresh(s1, "fresh", "popped", c.site), app("popped", cont)
        else:
            last, new = e.load(s1, cell, path + (("i", at),)), e.slice(cont, I(0), at)
            if last.k != "i":
                e.vty.setdefault(last, "u8")
        e.store(s1, cell, path, new)
        x = some(c, last)
        out.append((x, s1, event(c, x)))
    if e.assume(s2, e.binop(s2, "Eq", n, I(0)), True):
        out.append((none(c), s2, event(c, none(c))))
    return out


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last",
       "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
def m_first(c, st):
    e = c.eng
    if local_body(c):
        return None
    op = c.tdef.split("::")[-1]
    cell, path, n = _seq(c, st)
    out = []
    s1, s2 = st.copy(), st.copy()
    if e.assume(s1, e.binop(s1, "Lt", I(0), n), True):
        last = "last" in op
        at = e.binop(s1, "Sub", n, I(1)) if last else I(0)
        el = ref(cell, path + (("i", at),))
        if byteslike(c.tys(0)):
            v = e.load(s1, cell, path + (("i", at),))
            if v.k != "i":
                e.vty.setdefault(v, "u8")
        if op.startswith("split"):
            el = mk("agg", "tuple", None, (el, subslice(e, s1, cell, path, I(0), at, n) if last else subslice(e, s1, cell, path, I(1), n, n)))
        out.append((some(c, el), s1))
    if e.assume(s2, e.binop(s2, "Eq", n, I(0)), True):
        out.append((none(c), s2))
    return out


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "std::vec::Vec::<T, A>::get")
def m_get(c, st):
    e = c.eng
    if c.tys(1) != "usize":
        return _get_range(c, st)
    cell, path, n = _seq(c, st)
    cond = e.binop(st, "Lt", c.args[1], n)
    out = []
    s1 = st.copy()
    if e.assume(s1, cond, True):
        if byteslike(c.tys(0)):
            v = e.load(s1, cell, path + (("i", c.args[1]),))
            if v.k != "i":
                e.vty.setdefault(v, "u8")
        out.append((some(c, ref(cell, path + (("i", c.args[1]),))), s1, tested(c, cond, True)))
    s2 = st.copy()
    if e.assume(s2, cond, False):
        out.append((none(c), s2, tested(c, cond, False)))
    return out


def tested(c, cond, holds):
    """the comparison a library function makes, as the program could have made it itself"""
    from .interp import Event
    return Event("branch", None, (cond,), B(holds), c.ctx, c.block) if cond.k not in ("b", "i") else None


def _get_range(c, st):
    e = c.eng
    b = _bounds(e, c.tys(1), c.args[1])
    if b is None or not c.tys(1).startswith("std::ops::Range"):
        return None
    cell, path, n = _seq(c, st)
    lo, hi = b[0], (n if b[1] is None else b[1])
    out = []
    s1 = st.copy()
    if e.assume(s1, neg(e.binop(s1, "Lt", hi, lo)), True) and e.assume(s1, neg(e.binop(s1, "Lt", n, hi)), True):
        out.append((some(c, subslice(e, s1, cell, path, lo, hi, n)), s1))
    for cond in (e.binop(st, "Lt", hi, lo), e.binop(st, "Lt", n, hi)):
        s2 = st.copy()
        if e.assume(s2, cond, True):
            out.append((none(c), s2))
    return out


def _bounds(e, it, i):
    """(low, high or None for the end) of a range value of type `it`"""
    if it.startswith("std::ops::RangeFull"):
        return I(0), None
    if it.startswith("std::ops::RangeTo<"):
        return I(0), e.proj(i, ("f", 0))
    if it.startswith("std::ops::RangeFrom<"):
        return e.proj(i, ("f", 0)), None
    if it.startswith("std::ops::RangeInclusive<"):
        return e.proj(i, ("f", 0)), lin(e.proj(i, ("f", 1)), 1)
    if it.startswith("std::ops::RangeToInclusive<"):
        return I(0), lin(e.proj(i, ("f", 0)), 1)
    if it.startswith("std::ops::Range<"):
        return e.proj(i, ("f", 0)), e.proj(i, ("f", 1))
    return None


# ---------------------------------------------------------------- cloning and conversions
@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "core::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::to_vec",
       "std::string::String::as_str", "std::string::String::as_bytes", "core::str::<impl str>::as_bytes", "std::string::String::into_bytes",
       "std::path::Path::to_path_buf", "std::string::String::as_mut_str", "std::vec::Vec::<T, A>::as_slice", "std::path::Path::as_os_str",
       "std::slice::<impl [T]>::into_vec", "std::string::String::into_boxed_str", "std::path::Path::new", "std::ffi::OsStr::new",
       "std::string::String::as_mut_vec", "std::vec::Vec::<T, A>::as_mut_slice", "std::borrow::Cow::<'_, B>::into_owned", "std::path::PathBuf::as_path",
       "std::vec::Vec::<T, A>::into_boxed_slice")
def m_clone(c, st):
    if local_body(c):
        return None
    d = dty(c)
    p = c.args[0]
    if d["k"] == "ref":
        if c.tys(0).startswith("&&"):
            p = c.eng.deref(st, p)
        return [(p, st)]
    if c.tys(0).startswith("&"):
        v = c.eng.deref(st, p)
        while v.k == "ref" and not d["s"].startswith(("std::sync::Arc<", "std::rc::Rc<", "&", "std::boxed::Box<")):
            v = c.eng.deref(st, v)
    else:
        v = p
    s = d["s"]
    if s in ("std::string::String", "std::path::PathBuf", "std::vec::Vec<u8>") or s.startswith(("std::sync::Arc<", "std::vec::Vec<", "std::sync::Weak<", "std::rc::Rc<", "std::borrow::Cow<")) or d["k"] in ("uint", "int", "bool", "char", "ref", "fnptr"):
        return [(v, st)]
    return [(v if v.k not in ("moved", "uninit") else app("clone", v), st)]


@model("std::string::ToString::to_string")
def m_tostring(c, st):
    if local_body(c):
        return None
    v = c.eng.content(st, c.args[0])
    t = strip(c.tys(0))
    if stringy(t):
        return [(v, st)]
    if t in ("usize", "u64", "u32", "i32", "u16", "u8", "i64", "u128", "i128"):
        if v.k == "i":
            return [(S(str(v.a[0])), st)]
        return [(app("tostr", v), st)]
    if t == "char":
        return [(S(chr(v.a[0])) if v.k == "i" else app("push", EMPTY, v), st)]
    # a local Display impl
    f = display_impl(c.eng, t)
    if f is not None:
        return display_call(c, st, f, t)
    return [(app("tostr", v), st)]


def display_impl(eng, t, tr="Display"):
    n = "<%s as std::fmt::%s>::fmt" % (t, tr)
    fs = [f for f in eng.P.by_name.get(n, []) if not f.poly]
    return fs[0] if fs else None


def display_call(c, st, f, t):
    """`{}` of a workspace value: pure uninterpreted string"""
    v = c.eng.content(st, c.args[0])
    return [(app("tostr", v), st)]


@model("std::convert::From::from", "std::convert::Into::into", "std::convert::TryFrom::try_from_x")
def m_from(c, st):
    if local_body(c):
        return None
    e = c.eng
    src, dst = c.tys(0), dty(c)["s"]
    v = c.args[0]
    if c.tdef == "std::convert::Into::into":
        # Into is blanket over From: use the workspace's impl when there is one
        for f in e.P.by_name.get("<%s as std::convert::From<%s>>::from" % (dst, src), []):
            if not f.poly:
                if e.recursive(c.ctx, f) or e.opaque({"def": f.defp, "name": f.name, "key": f.key, "tdef": "std::convert::From::from"}, f):
                    return None
                return ("pseudo", f, list(c.args))
    if src == dst:
        return [(v, st)]
    if dst in ("std::string::String", "std::vec::Vec<u8>", "std::path::PathBuf", "std::ffi::OsString") or dst.startswith("std::vec::Vec<") or dst.startswith("std::borrow::Cow<"):
        if stringy(src) or byteslike(src) or src.startswith(("&[", "std::vec::Vec<", "[")):
            return [(e.content(st, v) if v.k == "ref" or src.startswith("&") else v, st)]
        if src == "char":
            return [(app("push", EMPTY, v), st)]
    if dst == "std::io::Error" and src.endswith("ErrorKind"):
        return [(mk("agg", "std::io::Error", None, (v, UNIT)), st)]
    if dst.startswith("std::boxed::Box<"):
        if src.startswith("std::boxed::Box<"):
            return [(v, st)]
        if dst.startswith("std::boxed::Box<dyn std::error::Error") and stringy(src):
            return [(e.box(st, c.site, e.content(st, v)), st)]
        return [(e.box(st, c.site, v), st)]
    if dst.startswith("std::sync::Arc<"):
        return [(e.box(st, c.site, v), st)]
    W = ("u8", "u16", "u32", "u64", "usize", "char", "u128", "i32", "i64")
    if dst in W and src in W:
        return [(v, st)]
    r = app("from", S(dst), v)
    return [(r, st)]


@model("std::sync::Arc::<T>::new", "std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new", "std::boxed::Box::<T>::pin")
def m_box(c, st):
    return [(c.eng.box(st, c.site, c.args[0]), st)]


@model("std::sync::Arc::<T, A>::downgrade")
def m_downgrade(c, st):
    return [(app("weak", c.eng.deref(st, c.args[0])), st)]


@model("std::boxed::Box::<T>::new_uninit")
def m_uninit(c, st):
    return [(c.eng.box(st, c.site, app("uninit")), st)]


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(c, st):
    e = c.eng
    v = e.content(st, c.args[0])
    for x in walk(v):
        if x.k == "agg" and x.a[0] == "array":
            return [(mk("agg", "vec", x.a[1], x.a[2]), st)]
    return None


@model("std::sync::Weak::<T, A>::upgrade")
def m_upgrade(c, st):
    w = c.eng.deref(st, c.args[0])
    arc = w.a[1] if w.k == "app" and w.a[0] == "weak" else app("up", w)
    s1, s2 = st.copy(), st.copy()
    return [(none(c), s1, event(c, none(c))), (some(c, arc), s2, event(c, some(c, arc)))]


# ---------------------------------------------------------------- containers
@model("std::string::String::new", "std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::string::String::with_capacity",
       "std::collections::HashMap::<K, V>::new", "std::collections::VecDeque::<T>::new", "std::path::PathBuf::new",
       "std::collections::VecDeque::<T>::with_capacity", "std::collections::HashMap::<K, V>::with_capacity", "std::collections::BTreeMap::<K, V>::new")
def m_new(c, st):
    return [(EMPTY, st)]


@model("std::default::Default::default")
def m_default(c, st):
    if has_body(c):
        return None
    s = dty(c)["s"]
    if s.startswith(("std::string::String", "std::vec::Vec<", "std::collections::", "std::path::PathBuf")):
        return [(EMPTY, st)]
    if dty(c)["k"] in ("uint", "int"):
        return [(I(0), st)]
    if dty(c)["k"] == "bool":
        return [(FALSE, st)]
    if s.startswith("std::option::Option<"):
        return [(none(c), st)]
    return None


@model("std::vec::Vec::<T, A>::len", "std::string::String::len", "core::str::<impl str>::len", "core::slice::<impl [T]>::len",
       "std::collections::HashMap::<K, V, S, A>::len", "std::collections::VecDeque::<T, A>::len", "std::collections::HashMap::<K, V, S>::len")
def m_len(c, st):
    return [(c.eng.length(c.eng.content(st, c.eng.deref(st, c.args[0]))), st)]


@model("std::vec::Vec::<T, A>::is_empty", "std::string::String::is_empty", "core::str::<impl str>::is_empty", "core::slice::<impl [T]>::is_empty",
       "std::collections::HashMap::<K, V, S, A>::is_empty", "std::collections::VecDeque::<T, A>::is_empty")
def m_isempty(c, st):
    n = c.eng.length(c.eng.content(st, c.eng.deref(st, c.args[0])))
    return [(c.eng.binop(st, "Eq", n, I(0)), st)]


@model("std::ops::RangeInclusive::<Idx>::new")
def m_rangeincl(c, st):
    return [(mk("agg", "std::ops::RangeInclusive", 0, (c.args[0], c.args[1], FALSE)), st)]


@model("std::vec::Vec::<T, A>::resize", "std::vec::Vec::<T, A>::resize_with")
def m_resize(c, st):
    e = c.eng
    cell, path = e.ptr(c.args[0])
    old = e.load(st, cell, path)
    if old is not EMPTY:
        return None
    st = st.copy()
    e.store(st, cell, path, app("filled", c.args[1], c.args[2]))
    return [(UNIT, st, event(c, UNIT))]


@model("std::iter::Step::forward_unchecked", "std::iter::Step::forward")
def m_step(c, st):
    a, n = c.args
    if n.k != "i":
        return None
    return [(lin(a, n.a[0]), st)]


@model("std::vec::Vec::<T, A>::push", "std::string::String::push", "std::collections::VecDeque::<T, A>::push_back",
       "std::vec::Vec::<T, A>::extend_from_slice", "std::string::String::push_str", "std::vec::Vec::<T, A>::append", "std::path::PathBuf::push",
       "std::collections::VecDeque::<T, A>::push_front")
def m_push(c, st):
    e = c.eng
    p = c.args[0]
    cell, path = e.ptr(p)
    old = e.load(st, cell, path)
    ev = event(c, UNIT)
    n = c.tdef.split("::")[-1]
    x = c.args[1]
    if n in ("push", "push_back") and not c.tdef.startswith("std::path"):
        if c.tdef.startswith("std::string"):
            new = cat(old, S(chr(x.a[0]))) if x.k == "i" else app("pushc", old, x)
        else:
            new = app("push", old, x)
    elif n in ("extend_from_slice", "push_str", "append"):
        y = e.content(st, x)
        new = cat(old, y)
        if n == "append":
            c2, p2 = e.ptr(x)
            e.store(st, c2, p2, EMPTY)
    elif c.tdef.startswith("std::path"):
        new = app("join", old, e.content(st, x))
    else:
        new = app("pushf", old, x)
    e.store(st, cell, path, new)
    return [(UNIT, st, ev)]


def cat(a, b):
    if a is EMPTY or (a.k == "s" and a.a[0] == ""):
        return b
    if b is EMPTY or (b.k == "s" and b.a[0] == ""):
        return a
    if a.k == "s" and b.k == "s":
        return S(a.a[0] + b.a[0])
    return app("cat", a, b)


@model("std::path::PathBuf::pop")
def m_path_pop(c, st):
    """the path becomes its parent, if it has one"""
    e = c.eng
    cell, path = e.ptr(c.args[0])
    old = e.load(st, cell, path)
    q = app("parent", old)
    out = []
    s1, s2 = st.copy(), st.copy()
    if e.assume_variant(s1, q, 1, True, 2):
        e.store(s1, cell, path, app("join", EMPTY, mk("fld", mk("as", q, 1), 0)))
        out.append((B(1), s1, event(c, B(1))))
    if e.assume_variant(s2, q, 0, True, 2):
        out.append((B(0), s2, event(c, B(0))))
    return out


@model("std::vec::Vec::<T, A>::truncate", "std::string::String::truncate")
def m_truncate(c, st):
    e = c.eng
    if not c.tdef.startswith("std::string") and not byteslike(c.tys(0)):
        return None
    cell, path = e.ptr(c.args[0])
    cont = e.load(st, cell, path)
    n, at = e.length(cont), c.args[1]
    out = []
    s1, s2 = st.copy(), st.copy()
    if e.assume(s1, e.binop(s1, "Lt", at, n), True):
        e.store(s1, cell, path, e.slice(cont, I(0), at))
        out.append((UNIT, s1, event(c, UNIT)))
    if e.assume(s2, e.binop(s2, "Lt", at, n), False):
        out.append((UNIT, s2, event(c, UNIT)))
    return out


@model("std::vec::Vec::<T, A>::clear", "std::string::String::clear", "std::collections::HashMap::<K, V, S, A>::clear", "std::collections::VecDeque::<T, A>::clear")
def m_clear(c, st):
    cell, path = c.eng.ptr(c.args[0])
    ev = event(c, UNIT)
    c.eng.store(st, cell, path, EMPTY)
    return [(UNIT, st, ev)]


@model("std::vec::Vec::<T, A>::reserve", "std::string::String::reserve", "std::vec::Vec::<T, A>::shrink_to_fit", "std::vec::Vec::<T, A>::reserve_exact")
def m_nop(c, st):
    return [(UNIT, st)]


@model("std::boxed::box_new_uninit")
def m_bnu(c, st):
    return None


@model("core::slice::<impl [T]>::contains")
def m_contains(c, st):
    e = c.eng
    cont = e.content(st, c.args[0])
    x = e.content(st, c.args[1])
    vals = None
    if cont.k == "bs":
        vals = [I(b) for b in cont.a[0]]
    elif cont.k == "agg" and cont.a[0] in ("array", "vec"):
        vals = list(cont.a[2])
    if vals is not None and all(v.k == "i" for v in vals):
        return [(app("inset", x, *vals), st)]
    return [(app("containsel", cont, x), st)]


# ---------------------------------------------------------------- comparison
@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne", "core::str::<impl str>::eq_ignore_ascii_case", "std::cmp::Eq::eq")
def m_eq(c, st):
    if local_body(c):
        return None
    e = c.eng
    a, b = e.content(st, c.args[0]), e.content(st, c.args[1])
    ne = c.tdef.endswith("::ne")
    if c.tdef.endswith("eq_ignore_ascii_case"):
        a, b = mklower(a), mklower(b)
    r = eqterm(e, st, a, b)
    if ne:
        r = neg(r)
    return [(r, st)]


def mklower(a):
    if a.k == "app" and a.a[0] == "lower":
        return a
    if a.k == "s":
        return S(a.a[0].lower())
    return app("lower", a)


def eqterm(e, st, a, b):
    if a is b:
        return TRUE
    if a.k in ("bs",) and b.k == "s":
        b = mk("bs", b.a[0].encode())
    if b.k in ("bs",) and a.k == "s":
        a = mk("bs", a.a[0].encode())
    if a.k in ("s", "i", "b", "bs") and a.k == b.k:
        return B(a.a[0] == b.a[0])
    if a.k in ("s", "bs") and b is EMPTY:
        return B(len(a.a[0]) == 0)
    if b.k in ("s", "bs") and a is EMPTY:
        return B(len(b.a[0]) == 0)
    if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if not a.a[2] and not b.a[2]:
            return TRUE
        rs = [eqterm(e, st, e.content(st, x) if x.k == "ref" else x, e.content(st, y) if y.k == "ref" else y) for x, y in zip(a.a[2], b.a[2])]
        if all(r is TRUE for r in rs):
            return TRUE
        if any(r is FALSE for r in rs):
            return FALSE
        rs = [r for r in rs if r is not TRUE]
        if len(rs) == 1 and len(a.a[2]) == len(b.a[2]):
            return rs[0]
    if a.k in ("s", "bs", "i", "b", "agg") or (b.k not in ("s", "bs", "i", "b", "agg") and b.n < a.n):
        a, b = b, a
    if b.k in ("i", "b") or (e.vty.get(a) or e.vty.get(b)) in ("char", "u8", "usize", "u16", "u32", "u64"):
        return e.binop(st, "Eq", a, b)
    r = app("eq", a, b)
    e.vty.setdefault(r, "bool")
    return r


@model("std::cmp::PartialOrd::le", "std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::ge", "std::cmp::PartialOrd::gt")
def m_le(c, st):
    if local_body(c):
        return None
    t = c.tys(0)
    if "log::Level" in t or "log::LevelFilter" in t:
        if c.eng.logs:
            return None
        return [(FALSE, st)]
    e = c.eng
    a, b = e.content(st, c.args[0]), e.content(st, c.args[1])
    op = {"le": "Le", "lt": "Lt", "ge": "Ge", "gt": "Gt"}[c.tdef.split("::")[-1]]
    r = e.binop(st, op, a, b)
    return [(r, st)]


def _log_nop(c, st):
    return [(UNIT, st)]


for _p in ("log", "wruster::log", "wrusdummy::log", "wrustatic::log", "wruster_handlers::log"):
    MODELS[_p + "::__private_api::log"] = _log_nop if False else None
    del MODELS[_p + "::__private_api::log"]


@model("std::cmp::Ord::min", "std::cmp::min", "core::cmp::Ord::min", "std::cmp::Ord::max", "std::cmp::max")
def m_min(c, st):
    if local_body(c):
        return None
    e = c.eng
    a, b = c.args
    if dty(c)["k"] not in ("uint", "int"):
        return None
    mx = "max" in c.tdef.split("::")[-1]
    out = []
    s1, s2 = st.copy(), st.copy()
    lt = e.binop(st, "Lt", b, a)      # b < a
    if e.assume(s1, lt, True):
        out.append((a if mx else b, s1))
    if e.assume(s2, lt, False):
        out.append((b if mx else a, s2))
    return out


# ---------------------------------------------------------------- pure functions
PURE = """
core::str::<impl str>::parse core::str::<impl str>::trim core::str::<impl str>::trim_end core::str::<impl str>::trim_start
core::str::<impl str>::starts_with core::str::<impl str>::ends_with core::str::<impl str>::contains core::str::<impl str>::strip_prefix
core::str::<impl str>::strip_suffix core::str::<impl str>::trim_matches core::str::<impl str>::trim_start_matches core::str::<impl str>::trim_end_matches
core::str::<impl str>::split_once core::str::<impl str>::rsplit_once core::str::<impl str>::find core::str::<impl str>::rfind core::str::<impl str>::replace
std::str::<impl str>::replace std::str::<impl str>::replacen
core::str::<impl str>::split core::str::<impl str>::lines core::str::<impl str>::split_whitespace core::str::<impl str>::split_ascii_whitespace
core::str::<impl str>::splitn core::str::<impl str>::rsplit core::str::<impl str>::char_indices
core::slice::<impl [T]>::starts_with core::slice::<impl [T]>::ends_with core::slice::<impl [T]>::strip_prefix core::slice::<impl [T]>::strip_suffix
std::time::Duration::as_secs std::time::Duration::from_secs std::time::Duration::as_millis std::time::Duration::from_millis std::time::Duration::is_zero
std::time::Duration::checked_sub std::time::Duration::saturating_sub std::time::Duration::as_secs_f64 std::time::Duration::as_nanos std::time::Duration::subsec_nanos
std::time::Duration::as_micros std::time::Duration::from_nanos std::time::Duration::from_secs_f64
std::ops::Sub::sub std::ops::Add::add std::ops::Mul::mul std::ops::Div::div std::ops::Rem::rem
std::time::Instant::duration_since std::time::Instant::checked_duration_since std::time::Instant::saturating_duration_since std::time::Instant::checked_add
core::num::<impl u64>::pow core::num::<impl usize>::pow core::num::<impl usize>::checked_sub core::num::<impl usize>::saturating_sub
core::num::<impl usize>::checked_add core::num::<impl usize>::saturating_add core::num::<impl u64>::saturating_sub core::num::<impl u64>::checked_sub
core::num::<impl u64>::checked_add core::num::<impl u64>::saturating_add core::num::<impl usize>::min std::intrinsics::saturating_add std::intrinsics::saturating_sub
core::num::<impl usize>::wrapping_sub core::num::<impl usize>::wrapping_add core::num::<impl usize>::abs_diff
std::net::SocketAddr::port std::net::SocketAddr::ip std::net::SocketAddrV4::new std::net::SocketAddrV4::port std::fs::Metadata::len std::fs::Metadata::is_file std::fs::Metadata::is_dir std::fs::Metadata::file_type
std::fs::FileType::is_file std::fs::FileType::is_dir std::path::Path::is_absolute std::path::Path::has_root std::path::Path::parent std::path::Path::join std::path::Path::file_name std::path::Path::components
std::path::Path::to_str std::path::Path::to_string_lossy std::path::Path::starts_with std::path::Path::strip_prefix std::path::Path::extension std::path::Path::display
std::string::String::from_utf8_lossy core::str::from_utf8 std::str::from_utf8 std::string::String::from_utf8 std::str::FromStr::from_str
std::path::Component::<'a>::as_os_str std::path::Component::<'_>::as_os_str std::num::NonZero::<T>::get
polling::Event::all polling::Event::readable polling::Event::writable polling::Event::none
std::io::Read::take std::io::Cursor::<T>::new std::io::BufReader::<R>::new std::io::BufWriter::<W>::new std::io::BufReader::<R>::with_capacity
std::io::BufWriter::<W>::with_capacity std::io::LineWriter::<W>::new std::io::BufReader::<R>::get_ref std::io::BufReader::<R>::buffer std::io::Read::chain
std::convert::TryInto::try_into std::convert::TryFrom::try_from std::thread::JoinHandle::<T>::thread
mime_guess::from_path mime_guess::MimeGuess::first_or_octet_stream mime_guess::MimeGuess::first std::any::Any::type_id std::mem::size_of
std::sync::Arc::<T, A>::as_ptr std::sync::Arc::<T, A>::ptr_eq
""".replace("\n", " ").split("  ")
PURE = [x for ln in PURE for x in re.findall(r"\S.*?(?= (?:std|core|alloc|polling|mime_guess)::|$)", ln)]


def dzero(v):
    """the constant Duration of no time"""
    return v.k == "agg" and v.a[0] == "std::time::Duration" and all(x.k == "i" and x.a[0] == 0 or x.k == "agg" and all(y.k == "i" and y.a[0] == 0 for y in x.a[2]) for x in v.a[2])


def dadd(a, b):
    return b if dzero(a) else (a if dzero(b) else app("dadd", a, b))


@model("std::ops::AddAssign::add_assign", "std::ops::SubAssign::sub_assign")
def m_addassign(c, st):
    if c.tys(0) == "&mut std::string::String":
        cell, path = c.eng.ptr(c.args[0])
        c.eng.store(st, cell, path, cat(c.eng.load(st, cell, path), c.eng.content(st, c.args[1])))
        return [(UNIT, st, event(c, UNIT))]
    if c.tys(0) != "&mut std::time::Duration":
        return None
    cell, path = c.eng.ptr(c.args[0])
    old = c.eng.load(st, cell, path)
    ev = event(c, UNIT)
    n = "dadd" if c.tdef.endswith("add_assign") else "dsub"
    c.eng.store(st, cell, path, dadd(old, c.args[1]) if n == "dadd" else app(n, old, c.args[1]))
    return [(UNIT, st, ev)]


def m_pure(c, st):
    if local_body(c):
        return None
    e = c.eng
    n = c.tdef.split("::")[-1]
    d = dty(c)
    args = []
    for i, a in enumerate(c.args):
        t = c.tys(i)
        if t.startswith("&mut"):
            args.append(a)
        elif t.startswith("&") and not _sharedref(t):
            args.append(e.content(st, a))
        else:
            args.append(a)
    if d["k"] in ("uint", "int") and n in ("saturating_sub",) and len(args) == 2 and args[0].k == args[1].k == "i":
        return [(I(max(0, args[0].a[0] - args[1].a[0])), st)]
    if n == "saturating_add" and len(args) == 2:
        if args[0].k == "i" and args[1].k == "i":
            return [(I(args[0].a[0] + args[1].a[0]), st)]
    if n == "pow" and all(a.k == "i" for a in args):
        return [(I(args[0].a[0] ** args[1].a[0]), st)]
    if n in ("from_utf8_lossy", "to_string_lossy"):
        # lossless on valid text; kept as an explicit wrapper
        if args[0].k in ("s",):
            return [(args[0], st)]
        if args[0] is EMPTY:
            return [(S(""), st)]
        return [(app("utf8", args[0]), st)]
    if n in ("take",):
        return [(app("take", args[0] if not c.tys(0).startswith("&") else c.args[0], args[1]), st)]
    if c.tdef.startswith(("std::io::BufReader", "std::io::BufWriter", "std::io::Cursor", "std::io::LineWriter")) and n in ("new", "with_capacity"):
        return [(mk("agg", d["s"], None, (c.args[-1],)), st)]
    if n in ("parse", "from_str") and d["k"] == "adt" and d["args"]:
        n = "parse:" + e.P.types[d["args"][0]]["s"].split("::")[-1]
        u = d["args"][0]
        r = app(n, *args)
        if e.P.types[u]["k"] in ("uint", "int"):
            e.vty.setdefault(mk("fld", mk("as", r, 0), 0), e.P.types[u]["s"])
        return [(r, st)]
    if args and args[0].k == "s" and all(a.k in ("s", "i") for a in args[1:]):
        s = args[0].a[0]
        o = args[1].a[0] if len(args) > 1 else None
        if isinstance(o, int):
            o = chr(o)
        if n == "starts_with" and o is not None:
            return [(B(s.startswith(o)), st)]
        if n == "ends_with" and o is not None:
            return [(B(s.endswith(o)), st)]
        if n == "contains" and o is not None:
            return [(B(o in s), st)]
        if n == "strip_prefix" and o is not None and c.tdef.startswith("core::str"):
            return [(some(c, const_ref(S(s[len(o):]))) if s.startswith(o) else none(c), st)]
        if n == "strip_suffix" and o is not None and c.tdef.startswith("core::str"):
            return [(some(c, const_ref(S(s[:len(s) - len(o)]))) if s.endswith(o) else none(c), st)]
        if n == "trim" and o is None:
            return [(const_ref(S(s.strip())), st)]
    if n == "contains" and args and args[0].k == "s" and len(args) == 2 and c.tys(1) == "char":
        r = app("inset", args[1], *[I(ord(x)) for x in args[0].a[0]])
        e.vty.setdefault(r, "bool")
        return [(r, st)]
    if n == "is_zero" and dzero(args[0]):
        return [(B(1), st)]
    if n == "saturating_sub" and "Duration" in d["s"] and dzero(args[1]):
        return [(args[0], st)]
    if n == "sub" and d["s"] == "std::time::Duration" and c.tys(0) == "std::time::Duration" and dzero(args[1]):
        return [(args[0], st)]
    if n == "add" and d["s"] == "std::time::Duration":
        return [(dadd(*args), st)]
    if n in ("starts_with", "ends_with", "contains", "is_zero", "has_root", "is_absolute"):
        r = app(n, *args)
        e.vty.setdefault(r, "bool")
        return [(r, st)]
    if n == "add" and d["s"] == "std::string::String":
        return [(cat(*args), st)]
    if c.tdef.startswith("std::ops::"):
        if d["k"] in ("uint", "int"):
            return [(e.binop(st, n.capitalize(), args[0], args[1]), st)]
        n = n + ":" + d["s"].split("::")[-1]
    r = app(n, *args)
    e.typed(r, c.destty)
    if d["k"] == "ref":
        return [(const_ref(r), st)]
    return [(r, st)]


@model("std::slice::<impl [T]>::join", "std::slice::<impl [T]>::concat", "alloc::slice::<impl [T]>::join", "alloc::slice::<impl [T]>::concat")
def m_concat(c, st):
    e = c.eng
    v = e.content(st, c.args[0])
    if dty(c)["s"] != "std::string::String" or v.k != "agg" or v.a[0] not in ("array", "vec"):
        return None
    sep = e.content(st, c.args[1]) if len(c.args) > 1 else None
    out = EMPTY
    for i, x in enumerate(v.a[2]):
        if i and sep is not None:
            out = cat(out, sep)
        out = cat(out, e.content(st, x))
    return [(out, st)]


@model("std::io::Read::by_ref", "std::io::Write::by_ref")
def m_by_ref(c, st):
    return None if local_body(c) else [(c.args[0], st)]


def _sharedref(t):
    return any(z in t for z in ("Arc<", "Mutex<", "RwLock<", "Atomic", "TcpStream"))


for _n in PURE:
    MODELS.setdefault(_n.strip(), m_pure)


@model("std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_ascii_lowercase", "core::str::<impl str>::to_lowercase",
       "core::str::<impl str>::to_ascii_lowercase")
def m_lower(c, st):
    return [(mklower(c.eng.content(st, c.args[0])), st)]


@model("std::str::<impl str>::to_uppercase", "std::str::<impl str>::to_ascii_uppercase")
def m_upper(c, st):
    a = c.eng.content(st, c.args[0])
    return [(S(a.a[0].upper()) if a.k == "s" else app("upper", a), st)]


def m_charconv(c, st):
    e = c.eng
    n = c.tdef.split("::")[-1]
    v = c.args[0]
    if c.tys(0).startswith("&"):
        v = e.content(st, v)
    s = e.intset(st, v)
    lower = "lower" in n

    def f(x):
        if lower and 65 <= x <= 90: return x + 32
        if not lower and 97 <= x <= 122: return x - 32
        return x
    if v.k == "i":
        return [(I(f(v.a[0])), st)]
    r = app("chr_lower" if lower else "chr_upper", v)
    if s is not None:
        st.facts[r] = ("in", frozenset(f(x) for x in s))
        e.vty.setdefault(r, "u8")
    return [(r, st)]


for _t in ("char", "u8"):
    for _n in ("to_ascii_lowercase", "to_ascii_uppercase"):
        MODELS["std::char::methods::<impl char>::" + _n] = m_charconv
        MODELS["core::char::methods::<impl char>::" + _n] = m_charconv
        MODELS["core::num::<impl u8>::" + _n] = m_charconv


def m_cls(c, st):
    e = c.eng
    n = c.tdef.split("::")[-1]
    v = c.args[0]
    if c.tys(0).startswith("&"):
        v = e.content(st, v)
    if v.k == "i":
        return [(B(v.a[0] in CLASSES[n]), st)]
    r = app("cls:" + n, v)
    e.vty.setdefault(r, "bool")
    return [(r, st)]


for _n in CLASSES:
    for _p in ("std::char::methods::<impl char>::", "core::char::methods::<impl char>::", "core::num::<impl u8>::", "std::num::<impl u8>::"):
        MODELS[_p + _n] = m_cls


# ---------------------------------------------------------------- errors
@model("std::io::Error::new", "alloc::io::error::<impl std::io::Error>::new", "std::io::error::<impl std::io::Error>::new", "std::io::Error::other",
       "alloc::io::error::<impl std::io::Error>::other")
def m_ioerr(c, st):
    if c.tdef.endswith("::other"):
        return [(mk("agg", "std::io::Error", None, (app("kind:Other"), c.args[0])), st)]
    return [(mk("agg", "std::io::Error", None, (c.args[0], c.args[1])), st)]


@model("std::io::Error::kind")
def m_kind(c, st):
    v = c.eng.content(st, c.args[0])
    if v.k == "agg":
        return [(v.a[2][0], st)]
    return [(app("errkind", v), st)]


# ---------------------------------------------------------------- locks
def _lock(kind, can_fail, havoc):
    def m(c, st):
        e = c.eng
        p = c.args[0]
        cell, path = e.ptr(p)
        ipath = path + (("mx",),)
        out = []
        g_ty = "guard:" + kind
        ev = event(c)
        s1 = st.copy()
        if havoc:
            cur = e.load(s1, cell, ipath)
            # other threads may have changed the protected data
            fr = e.fresh(s1, "mut", c.site, "lk")
            cell1, _ = e.ptr(p)
            e.store(s1, cell1, ipath, fr)
        g = mk("agg", g_ty, None, (ref(cell, ipath),))
        if can_fail:
            out.append((ok(c, g), s1, event(c, g, "lock")))
            if e.poison:
                s2 = st.copy()
                pe = mk("agg", "poison", None, (g,))
                out.append((err(c, pe), s2, event(c, g, "lock")))
        else:
            out.append((g, s1, event(c, g, "lock")))
        return out
    return m


MODELS["std::sync::Mutex::<T>::lock"] = _lock("mutex", True, True)
MODELS["std::sync::RwLock::<T>::read"] = _lock("read", True, True)
MODELS["std::sync::RwLock::<T>::write"] = _lock("write", True, True)
MODELS["atomic_refcell::AtomicRefCell::<T>::borrow"] = _lock("aref", False, False)
MODELS["atomic_refcell::AtomicRefCell::<T>::borrow_mut"] = _lock("amut", False, False)
MODELS["std::cell::RefCell::<T>::borrow"] = _lock("aref", False, False)
MODELS["std::cell::RefCell::<T>::borrow_mut"] = _lock("amut", False, False)


@model("std::sync::Mutex::<T>::new", "std::sync::RwLock::<T>::new", "atomic_refcell::AtomicRefCell::<T>::new", "std::cell::RefCell::<T>::new")
def m_mxnew(c, st):
    return [(mk("agg", dty(c)["s"], None, (c.args[0],)), st)]


@model("std::sync::PoisonError::<T>::into_inner")
def m_poison(c, st):
    v = c.args[0]
    if v.k == "agg" and v.a[0] == "poison":
        return [(v.a[2][0], st)]
    return None


@model("std::sync::Mutex::<T>::into_inner", "std::sync::RwLock::<T>::into_inner")
def m_mxinto(c, st):
    return [(ok(c, c.eng.proj(c.args[0], ("mx",))), st)]


# ---------------------------------------------------------------- iterators
@model("std::iter::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "core::str::<impl str>::chars",
       "core::str::<impl str>::bytes", "std::collections::HashMap::<K, V, S, A>::iter", "std::collections::HashMap::<K, V, S, A>::values",
       "std::collections::HashMap::<K, V, S, A>::keys", "std::collections::HashMap::<K, V, S, A>::iter_mut", "std::collections::HashMap::<K, V, S, A>::values_mut",
       "std::collections::VecDeque::<T, A>::iter", "std::collections::HashMap::<K, V, S, A>::drain", "std::vec::Vec::<T, A>::drain",
       "std::collections::VecDeque::<T, A>::drain", "std::iter::Iterator::by_ref")
def m_iter(c, st):
    if has_body(c) and c.tdef == "std::iter::IntoIterator::into_iter":
        return None
    e = c.eng
    n = c.tdef.split("::")[-1]
    t = c.tys(0)
    a = c.args[0]
    if n in ("by_ref",):
        return [(a, st)]
    if n == "into_iter" and not any(z in strip(t)[:40] for z in ("vec::Vec<", "HashMap<", "VecDeque<", "[", "option::Option", "HashSet<")):
        return [(a, st)]     # already an iterator
    if n == "drain":
        cell, path = e.ptr(a)
        old = e.load(st, cell, path)
        ev = event(c)
        e.store(st, cell, path, EMPTY if len(c.args) == 1 else app("drained", old))
        return [(app("iter", old, S("drain")), st, ev)]
    cont = e.content(st, a) if t.startswith("&") else a
    kind = {"into_iter": "ref" if t.startswith("&") else "own"}.get(n, n)
    r = app("iter", cont, S(kind))
    if "mut" in n or t.startswith("&mut"):
        r = app("iterm", a)
    return [(r, st)]


def _gives_option(e, clo, st):
    p = _param(e, clo, st)
    return p is not None and e.P.types[p[1]]["s"].startswith("std::option::Option<")


ITER_ADAPT = """rev enumerate peekable cloned copied skip take skip_while take_while filter map filter_map zip chain step_by inspect flatten flat_map fuse windows chunks"""
for _n in ITER_ADAPT.split():
    def _mk(n):
        def m(c, st):
            if local_body(c):
                return None
            if n in ("take", "chain") and "Read" in c.tdef:
                return m_pure(c, st)
            # closures passed to lazy adaptors are recorded in the term
            if n in ("map", "filter", "filter_map", "cloned", "copied", "enumerate", "rev", "fuse", "inspect"):
                return [(mk("agg", "it:" + n, None, tuple(c.args)), st)]
            if n == "flat_map" and _gives_option(c.eng, c.args[1], st):
                return [(mk("agg", "it:filter_map", None, tuple(c.args)), st)]
            x = c.args[0] if c.args else None
            if n == "flatten" and x.k == "agg" and x.a[0] == "it:map" and _gives_option(c.eng, x.a[2][1], st):
                return [(mk("agg", "it:filter_map", None, x.a[2]), st)]
            return [(app("it:" + n, *c.args), st)]
        return m
    MODELS["std::iter::Iterator::" + _n] = _mk(_n)


def item_kind(c):
    """type of the items for a call whose result is Option<Item>"""
    d = dty(c)
    if d["k"] == "adt" and d["args"]:
        return c.eng.P.types[d["args"][0]]
    return {"k": "?", "s": "?"}


@model("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def m_next(c, st):
    e = c.eng
    it = e.deref(st, c.args[0])
    while it.k == "ref":
        it = e.deref(st, it)
    if it.k == "agg" and it.a[0].startswith("list:"):
        return next_listed(c, st, it)
    if it.k == "agg" and it.a[0].startswith("it:"):
        r = next_adapted(c, st, it)
        if r is not None:
            return r
    if it.k == "app" and it.a[0] == "iter" and it.a[2].k == "s" and it.a[2].a[0] in ("own", "ref", "iter"):
        x = e.content(st, it.a[1]) if it.a[1].k == "ref" else it.a[1]
        if x.k == "agg" and x.a[0] in ("array", "vec") and 0 < len(x.a[2]) <= 12 and not all(y.k == "i" for y in x.a[2]):
            # a short list that is spelt out: one item after the other
            return next_listed(c, st, mk("agg", "list:" + ("own" if it.a[2].a[0] == "own" else "ref"), None, x.a[2]))
    if has_body(c):
        return None
    if it.k == "agg" and it.a[0].startswith("std::ops::Range<"):
        r = _range_next(c, st, it)
        if r is not None:
            return r
    q = re.match(r"(&mut )*std::sync::mpsc::(Iter|IntoIter|TryIter)<", c.tys(0))
    if q:
        from .interp import Event
        # the next job of a queue, or None when it is closed (or empty, for the iterator that does not wait)
        out = []
        s1 = st.copy()
        x = e.fresh(s1, "ret", c.tdef, c.site, ())
        e.typed(x, dty(c)["args"][0])
        for r, s in ((some(c, x), s1), (none(c), st.copy())):
            out.append((r, s, Event("call", "std::sync::mpsc::%s::next" % q.group(2), c.args, r, c.ctx, c.block, c.x)))
        return out
    base = it
    s1, s2 = st.copy(), st.copy()
    out = []
    # a known-empty container
    if not (base.k == "app" and base.a[0] == "iter" and base.a[1] is EMPTY):
        el = e.fresh(s2, "elem", trim(base, 8), c.site)
        ik = item_kind(c)
        v = typed_item(e, el, ik)
        if base.k == "app" and base.a[0] == "iter":
            cont = e.content(s2, base.a[1]) if base.a[1].k == "ref" else base.a[1]
            if cont.k == "agg" and cont.a[0] in ("array", "vec") and cont.a[2] and all(y.k == "i" for y in cont.a[2]):
                s2.facts[el] = ("in", frozenset(y.a[0] for y in cont.a[2]))
            elif cont.k == "bs" and cont.a[0]:
                s2.facts[el] = ("in", frozenset(cont.a[0]))
        r = some(c, v)
        out.append((r, s2, event(c, r)))
    r = none(c)
    out.append((r, s1, event(c, r)))
    return out


def typed_item(e, el, ik):
    P = e.P
    if ik["k"] in ("uint", "int", "bool", "char"):
        e.vty.setdefault(el, ik["s"])
        return el
    if ik["k"] == "ref":
        t = P.types[ik["e"]]
        if t["k"] in ("uint", "int", "bool", "char"):
            e.vty.setdefault(el, t["s"])
            return const_ref(el)
        return el
    if ik["k"] == "tuple":
        return mk("agg", "tuple", None, tuple(typed_item(e, mk("fld", el, i), P.types[t]) for i, t in enumerate(ik["f"])))
    return el


# ---------------------------------------------------------------- formatting
@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_hex",
       "core::fmt::rt::Argument::<'_>::new_upper_hex")
def m_arg(c, st):
    e = c.eng
    v = e.content(st, c.args[0])
    t = strip(c.tys(0))
    if c.tdef.endswith("new_display"):
        if stringy(t):
            return [(mk("agg", "fmtarg", None, (v,)), st)]
        if v.k == "i" and t in ("usize", "u64", "u32", "i32", "u16", "u8"):
            return [(mk("agg", "fmtarg", None, (S(str(v.a[0])),)), st)]
        return [(mk("agg", "fmtarg", None, (app("tostr", v),)), st)]
    return [(mk("agg", "fmtarg", None, (app("dbg", v),)), st)]


def decode_template(bs):
    """pieces of a format template: str literals and None for a placeholder"""
    out = []
    i = 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(bs[i + 1:i + 1 + b].decode("utf8", "replace"))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(bs[i + 3:i + 3 + n].decode("utf8", "replace"))
            i += 3 + n
        elif b & 0xC0 == 0xC0:
            out.append(None if b == 0xC0 else ("spec", b))
            i += 1
            if b & 1: i += 4
            if b & 2: i += 2
            if b & 4: i += 2
            if b & 8: i += 2
        else:
            return None
    return out


def fmt_join(ps):
    out = []
    for p in ps:
        if p.k == "s":
            if out and out[-1].k == "s":
                out[-1] = S(out[-1].a[0] + p.a[0])
                continue
            if p.a[0] == "":
                continue
        elif p.k == "app" and p.a[0] == "fmt":
            out += list(p.a[1:])
            continue
        elif p is EMPTY:
            continue
        out.append(p)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return app("fmt", *out)


@model("std::fmt::Arguments::<'a>::new")
def m_args(c, st):
    e = c.eng
    tb = e.content(st, c.args[0])
    arr = e.content(st, c.args[1])
    if tb.k == "bs" and arr.k == "agg":
        t = decode_template(tb.a[0])
        if t is not None:
            ps, i = [], 0
            for x in t:
                if isinstance(x, str):
                    ps.append(S(x))
                else:
                    a = arr.a[2][i] if i < len(arr.a[2]) else None
                    i += 1
                    if a is None:
                        ps.append(app("arg?"))
                    else:
                        v = a.a[2][0] if a.k == "agg" else a
                        ps.append(v if x is None else app("spec%d" % x[1], v))
            return [(fmt_join(ps), st)]
    return [(app("fmt?", trim(tb, 3), trim(arr, 6)), st)]


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new_const")
def m_args_s(c, st):
    return [(c.eng.content(st, c.args[0]), st)]


@model("std::fmt::format", "std::hint::must_use", "alloc::fmt::format", "std::convert::identity", "std::hint::black_box")
def m_id(c, st):
    return [(c.args[0], st)]


@model("std::mem::drop")
def m_drop(c, st):
    # moving into drop() releases the value: same events as a drop at end of scope
    e = c.eng
    from .interp import Event
    e.emit(st, c.evs, Event("call", c.tdef, c.args, UNIT, c.ctx, c.block, c.x))
    ti = c.argtys[0]
    ty = e.P.types[ti]
    dk = ty.get("dropkey")
    f = e.P.fns.get(dk) if dk else None
    if f is not None and not f.poly and e.inline_drop and not e.recursive(c.ctx, f) and not e.opaque({"def": f.defp, "name": f.name, "key": f.key, "tdef": "std::ops::Drop::drop"}, f):
        r = e.box(st, c.site, c.args[0], "drop")
        e.emit(st, c.evs, Event("drop", ty["s"], (c.args[0],), None, c.ctx, c.block, ti))
        return ("pseudo", f, [r])
    e.drop_rec(c.ctx, c.block, st, c.evs, c.args[0], ti, 0)
    return [(UNIT, st)]


@model("std::mem::replace", "std::mem::take", "std::mem::swap", "std::option::Option::<T>::take_x")
def m_replace(c, st):
    e = c.eng
    n = c.tdef.split("::")[-1]
    cell, path = e.ptr(c.args[0])
    old = e.load(st, cell, path)
    ev = event(c)
    if n == "replace":
        e.store(st, cell, path, c.args[1])
        return [(old, st, ev)]
    if n == "swap":
        c2, p2 = e.ptr(c.args[1])
        o2 = e.load(st, c2, p2)
        e.store(st, cell, path, o2)
        e.store(st, c2, p2, old)
        return [(UNIT, st, ev)]
    s = dty(c)["s"]
    new = None
    if s.startswith(("std::string::String", "std::vec::Vec<", "std::collections::")):
        new = EMPTY
    elif s.startswith("std::option::Option<"):
        new = none(c)
    elif dty(c)["k"] in ("uint", "int"):
        new = I(0)
    elif dty(c)["k"] == "bool":
        new = FALSE
    else:
        return None
    e.store(st, cell, path, new)
    return [(old, st, ev)]


# ---------------------------------------------------------------- I/O
@model("std::io::BufRead::read_until", "std::io::BufRead::read_line")
def m_read_until(c, st):
    if local_body(c):
        return None
    e = c.eng
    last = c.args[-1]
    out = []
    s_err = st.copy()
    er = e.fresh(s_err, "ret", c.tdef + ":err", c.site, ())
    cell, path = e.ptr(last)
    old = e.load(s_err, cell, path)
    e.store(s_err, cell, path, app("cat", old, e.fresh(s_err, "mut", c.site, "chunk")))
    x = err(c, er)
    out.append((x, s_err, event(c, x)))
    if not e.eof:
        s1 = st.copy()
        ch = e.fresh(s1, "mut", c.site, "chunk")
        old = e.load(s1, cell, path)
        n = e.length(ch)
        if e.numeric:
            e.add_le(s1, I(1), n, 0)
        e.assume(s1, e.binop(s1, "Eq", n, I(0)), False)
        e.store(s1, cell, path, cat(old, ch))
        x = ok(c, n)
        out.append((x, s1, event(c, x)))
    s0 = st.copy()
    x = ok(c, I(0))
    out.append((x, s0, event(c, x)))
    return out


# ---------------------------------------------------------------- threads, unwinding
@model("std::thread::spawn", "std::thread::Builder::spawn", "std::thread::Builder::spawn_unchecked")
def m_spawn(c, st):
    e = c.eng
    ret = c.sym(st)
    ev = event(c, ret)
    e.spawned.append((c.args[-1], st.copy(), ev))
    return [(ret, st, ev)]


@model("std::sync::mpsc::SyncSender::<T>::try_send", "std::sync::mpsc::SyncSender::<T>::send", "std::sync::mpsc::Sender::<T>::send")
def m_send(c, st):
    """Ok: the value now belongs to the receiver; otherwise the error gives the very same value back"""
    e = c.eng
    v = c.args[1]
    okv = ok(c, UNIT)
    et = dty(c)["args"][1]
    ets = e.P.types[et]["s"]
    out = [(okv, st.copy(), event(c, okv))]
    if c.tdef.endswith("try_send"):
        for k in (0, 1):
            r = err(c, mk("agg", ets, k, (v,)))
            out.append((r, st.copy(), event(c, r)))
    else:
        r = err(c, mk("agg", ets, None, (v,)))
        out.append((r, st.copy(), event(c, r)))
    return out


@model("std::sync::mpsc::Receiver::<T>::recv", "std::sync::mpsc::Receiver::<T>::recv_timeout", "std::sync::mpsc::Receiver::<T>::try_recv")
def m_recv(c, st):
    e = c.eng
    out = []
    et = dty(c)["args"][1]
    if c.tdef.endswith("::recv"):
        errs = [mk("agg", e.P.types[et]["s"], None, ())]
    else:
        errs = [mk("agg", e.P.types[et]["s"], k, ()) for k in (0, 1)]
    s1 = st.copy()
    x = e.fresh(s1, "ret", c.tdef, c.site, ())
    e.typed(x, dty(c)["args"][0])
    r = ok(c, x)
    out.append((r, s1, event(c, r)))
    for ev in errs:
        r = err(c, ev)
        out.append((r, st.copy(), event(c, r)))
    return out


@model("std::sync::mpsc::sync_channel", "std::sync::mpsc::channel")
def m_chan(c, st):
    r = c.sym(st)
    t = dty(c)
    return [(mk("agg", t["s"], None, (app("sender", r), app("receiver", r))), st, event(c, r))]


def synth(name, locals_, blocks, argc, span):
    f = FX.Fn()
    f.key = f.name = name
    f.crate = "synthetic"
    f.kind = "item"
    f.poly = False
    f.args = []
    f.assoc = None
    f.vis = None
    f.argc = argc
    f.locals = locals_
    f.names = []
    f.blocks = blocks
    f.span = span
    f.spread = None
    f.defp = name
    f.unit = "synthetic"
    f._live = f._preds = f._heads = f._rpo = f._borrowed = None
    return f


_SYN = {}


@model("std::panic::catch_unwind")
def m_catch(c, st):
    e = c.eng
    ct, dt = c.argtys[0], c.destty
    k = ("catch", ct, dt, str(c.span))
    f = _SYN.get(k)
    if f is None:
        rt = e.P.types[dt]["args"][0]
        ut = e.P.tindex.get("()", rt)
        sp = c.span
        fnc = ["k", {"ty": ct, "v": {"fn": {"kind": "virtual", "name": "std::ops::FnOnce::call_once", "def": "std::ops::FnOnce::call_once",
                                            "tdef": "std::ops::FnOnce::call_once", "key": None, "args": [], "crate": "core"}}}]
        anyc = ["k", {"ty": ct, "v": {"opaque": "panic payload"}}]
        blocks = [
            [[], ["call", fnc, [["m", [1, []]], ["k", {"ty": ut, "v": {"tuple": []}}]], [2, []], 1, 2, [ct, ut], rt], sp],
            [[["=", [0, []], ["agg", ["adt", dt, 0, None], [["m", [2, []]]]], sp]], ["return"], sp],
            [[["=", [0, []], ["agg", ["adt", dt, 1, None], [anyc]], sp]], ["return"], sp],
        ]
        f = synth("std::panic::catch_unwind", [dt, ct, rt], blocks, 1, sp)
        _SYN[k] = f
    return ("pseudo", f, [c.args[0]])


# ---- adaptors and consumers of iterators: synthesized loops that call next and the closures
def _opt(P, ti):
    """type index of Option<types[ti]>"""
    n = "std::option::Option<%s>" % P.types[ti]["s"]
    i = P.tindex.get(n)
    if i is None:
        i = len(P.types)
        P.types.append({"s": n, "k": "adt", "def": "std::option::Option", "crate": "core", "akind": "Enum", "args": [ti],
                        "variants": [["None", [], "0"], ["Some", [["0", ti]], "1"]]})
        P.tindex[n] = i
    return i


def _reft(P, ti, mut=True):
    n = "&%s%s" % ("mut " if mut else "", P.types[ti]["s"])
    i = P.tindex.get(n)
    if i is None:
        i = len(P.types)
        P.types.append({"s": n, "k": "ref", "e": ti, "mut": mut})
        P.tindex[n] = i
    return i


def _prim(P, n):
    i = P.tindex.get(n)
    if i is None:
        i = len(P.types)
        P.types.append({"s": n, "k": "tuple", "f": []} if n == "()" else {"s": n, "k": n})
        P.tindex[n] = i
    return i


class Build:
    """a small MIR builder"""
    def __init__(self, P, span):
        self.P, self.span, self.loc, self.blocks = P, span, [], []

    def local(self, ti):
        self.loc.append(ti)
        return len(self.loc) - 1

    def block(self):
        self.blocks.append([[], ["unreachable"], self.span])
        return len(self.blocks) - 1

    def asg(self, b, l, rv):
        self.blocks[b][0].append(["=", [l, []], rv, self.span])

    def fnop(self, name):
        return ["k", {"ty": _prim(self.P, "()"), "v": {"fn": {"kind": "virtual", "name": name, "def": name, "tdef": name, "key": None, "args": [], "crate": "core"}}}]

    def call(self, b, name, args, dest, target):
        """args: [(operand, type)]"""
        self.blocks[b][1] = ["call", self.fnop(name), [o for o, t in args], [dest, []], target, None, [t for o, t in args], self.loc[dest]]

    def switch(self, b, l, arms, other=None):
        d = self.local(_prim(self.P, "isize") if self.P.tindex.get("isize") is not None else _prim(self.P, "usize"))
        self.blocks[b][0].append(["=", [d, []], ["discr", [l, []]], self.span])
        self.blocks[b][1] = ["switch", ["m", [d, []]], self.loc[d], arms, other]

    def ret(self, b, rv=None):
        if rv is not None:
            self.asg(b, 0, rv)
        self.blocks[b][1] = ["return"]


def _param(e, v, st):
    """(type index of the item a closure takes, result type) or None"""
    f, byref = e.closure_body(v, st)
    if f is None:
        return None
    i = 1 if byref is None else 2
    if i > f.argc:
        return None
    return f.locals[i], f.locals[0], f


def _clo(e, c, st, i):
    v = c.args[i]
    if v.k == "ref":
        v = e.load(st, v.a[0], v.a[1])
    return v


def _itcall(c, st, kind, itref, itt, clo, extra=()):
    """push the synthesized body `kind` with arguments (iterator reference, closure reference, extra...)"""
    e, P = c.eng, c.eng.P
    p = _param(e, clo, st)
    if p is None:
        return None
    par, res, f = p
    if f.locals and e.recursive(c.ctx, f):
        return None
    item = par
    if kind in ("filter", "find"):
        if P.types[par]["k"] != "ref":
            return None
        item = P.types[par]["e"]
    if kind == "fold":
        i = 2 if e.closure_body(clo, st)[1] is None else 3
        if i > f.argc:
            return None
        item = f.locals[i]
    key = ("it", kind, itt, item, par, res, c.destty, str(c.span), tuple(t for v, t in extra))
    g = _SYN.get(key)
    if g is None:
        g = _SYN[key] = _body(P, c.span, kind, itt, item, par, res, c.destty, [t for v, t in extra])
    cr = e.box(st, c.site, clo, "closure:" + kind)
    if clo.k == "agg" and c.args and any(x.k == "ref" and e.load(st, x.a[0], x.a[1]) is clo for x in c.args[1:]):
        cr = [x for x in c.args[1:] if x.k == "ref" and e.load(st, x.a[0], x.a[1]) is clo][0]
    return ("pseudo", g, [itref, cr] + [v for v, t in extra])


def _body(P, span, kind, itt, item, par, res, dest, extra):
    b = Build(P, span)
    unit = _prim(P, "()")
    b.local(dest)                       # 0
    it = b.local(itt)                   # 1: &mut iterator
    fr = b.local(unit)                  # 2: &mut closure
    ex = [b.local(t) for t in extra]
    o = b.local(_opt(P, item))
    x = b.local(item)
    r = b.local(res)
    tup = b.local(unit)
    head = b.block()
    test, some_, done = b.block(), b.block(), b.block()
    if kind == "fold":
        acc = b.local(dest)
        st0 = head
        head = b.block()
        b.asg(st0, acc, ["use", ["m", [ex[0], []]]])
        b.blocks[st0][1] = ["goto", head]
    b.call(head, "std::iter::Iterator::next", [(["c", [it, []]], itt)], o, test)
    b.switch(test, o, [[0, done], [1, some_]])
    b.asg(some_, x, ["use", ["m", [o, [["d", 1], ["f", 0, item]]]]])
    arg = ["m", [x, []]]
    if kind in ("filter", "find"):
        rx = b.local(par)
        b.asg(some_, rx, ["ref", "shr", [x, []]])
        arg = ["m", [rx, []]]
    b.asg(some_, tup, ["agg", ["tuple"], ([["m", [acc, []]]] if kind == "fold" else []) + [arg]])
    after = b.block()
    b.call(some_, "std::ops::FnMut::call_mut", [(["c", [fr, []]], unit), (["m", [tup, []]], unit)], r, after)
    use = lambda l: ["use", ["m", [l, []]]]
    none_ = ["agg", ["adt", dest, 0, None], []]
    wrap = lambda l: ["agg", ["adt", dest, 1, None], [["m", [l, []]]]]
    boolc = lambda v: ["use", ["k", {"ty": _prim(P, "bool"), "v": {"int": str(int(v))}}]]
    unitc = ["agg", ["tuple"], []]
    if kind == "map":
        b.ret(after, wrap(r)); b.ret(done, none_)
    elif kind == "for_each":
        b.blocks[after][1] = ["goto", head]; b.ret(done, unitc)
    elif kind == "fold":
        b.asg(after, acc, use(r)); b.blocks[after][1] = ["goto", head]; b.ret(done, use(acc))
    elif kind == "position":
        yes = b.block()
        fin = b.block()
        k = b.local(_prim(P, "usize"))
        b.blocks[after][1] = ["switch", ["m", [r, []]], _prim(P, "bool"), [[0, head]], yes]
        b.call(yes, "wv::index", [(["c", [it, []]], itt)], k, fin)
        b.ret(fin, wrap(k)); b.ret(done, none_)
    elif kind in ("any", "all", "filter", "find"):
        yes, no = b.block(), b.block()
        b.blocks[after][1] = ["switch", ["m", [r, []]], _prim(P, "bool"), [[0, no]], yes]
        if kind == "any":
            b.ret(yes, boolc(1)); b.blocks[no][1] = ["goto", head]; b.ret(done, boolc(0))
        elif kind == "all":
            b.blocks[yes][1] = ["goto", head]; b.ret(no, boolc(0)); b.ret(done, boolc(1))
        else:
            b.ret(yes, wrap(x)); b.blocks[no][1] = ["goto", head]; b.ret(done, none_)
    elif kind in ("filter_map", "find_map"):
        yes, no = b.block(), b.block()
        b.switch(after, r, [[0, no], [1, yes]])
        b.ret(yes, use(r)); b.blocks[no][1] = ["goto", head]; b.ret(done, none_)
    elif kind == "try_for_each":
        go = 0 if P.types[res]["s"].startswith("std::result::Result") else 1
        yes, no = b.block(), b.block()
        b.switch(after, r, [[go, yes], [1 - go, no]])
        b.blocks[yes][1] = ["goto", head]
        b.ret(no, use(r))
        u = b.local(unit)
        b.asg(done, u, unitc)
        b.ret(done, ["agg", ["adt", dest, go, None], [["m", [u, []]]]])
    return synth("std::iter::%s" % kind, b.loc, b.blocks, 2 + len(extra), span)


def _itref(c, st, i=0, boxed=True):
    """reference to the iterator argument i"""
    e = c.eng
    v = c.args[i]
    if strip_ref(c.tys(i)) != c.tys(i):
        return v
    return e.box(st, c.site, v, "iterator")


def strip_ref(s):
    return s[5:] if s.startswith("&mut ") else s


def iterfn(kind):
    def m(c, st):
        if local_body(c):
            return None
        e, P = c.eng, c.eng.P
        kind_ = "position" if kind == "rposition" else kind
        fi = 2 if kind == "fold" else 1
        if len(c.args) <= fi:
            return None
        clo = _clo(e, c, st, fi)
        itt = c.argtys[0] if c.tys(0).startswith("&mut") else _reft(P, c.argtys[0])
        extra = [(c.args[1], c.argtys[1])] if kind == "fold" else []
        return _itcall(c, st, kind_, _itref(c, st), itt, clo, extra)
    return m


for _n in ("for_each", "any", "all", "find", "try_for_each", "fold", "find_map", "position", "rposition"):
    MODELS["std::iter::Iterator::" + _n] = iterfn(_n)


def next_listed(c, st, it):
    """next of what remains of a list of known length"""
    e = c.eng
    a = c.args[0]
    for _ in range(6):
        v = e.load(st, a.a[0], a.a[1])
        if v.k != "ref":
            break
        a = v
    rest = it.a[2]
    if not rest:
        r = none(c)
        return [(r, st, event(c, r))]
    back = c.tdef.endswith("::next_back")
    x, rest = (rest[-1], rest[:-1]) if back else (rest[0], rest[1:])
    e.store(st, a.a[0], a.a[1], mk("agg", it.a[0], None, rest))
    if it.a[0].endswith(":ref"):
        x = const_ref(x)
    r = some(c, x)
    return [(r, st, event(c, r))]


def next_adapted(c, st, it):
    """next of an adaptor kept as a structure"""
    e, P = c.eng, c.eng.P
    n = it.a[0][3:]
    a = c.args[0]
    for _ in range(4):
        if a.k != "ref":
            break
        v = e.load(st, a.a[0], a.a[1])
        if v.k != "ref":
            break
        a = v
    if a.k != "ref":
        a = e.box(st, c.site, it, "adaptor")
    base = mk("ref", a.a[0], a.a[1] + (("f", 0),))
    bt = _reft(P, _prim(P, "()"))
    if n in ("map", "filter", "filter_map"):
        cref = mk("ref", a.a[0], a.a[1] + (("f", 1),))
        clo = it.a[2][1]
        p = _param(e, clo, st)
        if p is None:
            return None
        par, res, f = p
        item = par if n != "filter" else P.types[par].get("e")
        if item is None:
            return None
        key = ("it", n, bt, item, par, res, c.destty, str(c.span))
        g = _SYN.get(key)
        if g is None:
            g = _SYN[key] = _body(P, c.span, n, bt, item, par, res, c.destty, [])
        return ("pseudo", g, [base, cref])
    # element wise wrappers without closure
    oi = dty(c)
    item = oi["args"][0]
    key = ("itw", n, c.destty, str(c.span))
    g = _SYN.get(key)
    if g is None:
        b = Build(P, c.span)
        b.local(c.destty)
        i = b.local(bt)
        if n == "enumerate":
            t = P.types[item]
            inner = t["f"][1] if t["k"] == "tuple" else item
        else:
            inner = item if n not in ("cloned", "copied") else _reft(P, item, False)
        o = b.local(_opt(P, inner))
        h, te, so, do = b.block(), b.block(), b.block(), b.block()
        b.call(h, "std::iter::Iterator::next", [(["c", [i, []]], bt)], o, te)
        b.switch(te, o, [[0, do], [1, so]])
        b.ret(do, ["agg", ["adt", c.destty, 0, None], []])
        x = b.local(inner)
        b.asg(so, x, ["use", ["m", [o, [["d", 1], ["f", 0, inner]]]]])
        if n in ("cloned", "copied"):
            y = b.local(item)
            fin = b.block()
            b.call(so, "std::clone::Clone::clone", [(["m", [x, []]], inner)], y, fin)
            b.ret(fin, ["agg", ["adt", c.destty, 1, None], [["m", [y, []]]]])
        elif n == "enumerate":
            k = b.local(_prim(P, "usize"))
            y = b.local(item)
            fin = b.block()
            b.call(so, "wv::index", [(["c", [i, []]], bt)], k, fin)
            b.asg(fin, y, ["agg", ["tuple"], [["m", [k, []]], ["m", [x, []]]]])
            b.ret(fin, ["agg", ["adt", c.destty, 1, None], [["m", [y, []]]]])
        else:
            b.ret(so, ["agg", ["adt", c.destty, 1, None], [["m", [x, []]]]])
        g = _SYN[key] = synth("std::iter::%s::next" % n, b.loc, b.blocks, 1, c.span)
    return ("pseudo", g, [base])


@model("wv::index")
def m_index_of(c, st):
    e = c.eng
    v = e.fresh(st, "fresh", "index", c.site)
    e.vty.setdefault(v, "usize")
    n = iter_len(e, st, c.args[0])
    if e.numeric and n is not None:
        e.add_le(st, v, n, -1)
    return [(v, st)]


def iter_len(e, st, it):
    """an upper bound of the number of items an iterator yields, as a term"""
    for _ in range(12):
        if it.k == "ref":
            it = e.load(st, it.a[0], it.a[1])
        elif it.k == "agg" and it.a[0].startswith("list:"):
            return I(len(it.a[2]))
        elif it.k == "agg" and it.a[0].startswith("it:") and it.a[2]:
            it = it.a[2][0]
        elif it.k == "app" and it.a[0] in ("it:skip", "it:take", "it:peekable", "it:step_by"):
            it = it.a[1]
        else:
            break
    if it.k == "app" and it.a[0] == "iter" and it.a[2].k == "s" and it.a[2].a[0] in ("iter", "iter_mut", "ref", "own", "chars", "bytes", "char_indices"):
        return e.length(it.a[1])
    if it.k == "app" and it.a[0] == "iterm":
        return e.length(e.content(st, it.a[1]))
    return None


def _range_next(c, st, it):
    P = c.eng.P
    r = it.a[0]
    for f in P.fns.values():
        if not f.poly and f.name.startswith("<%s as std::iter" % r) and f.name.endswith("spec_next" if c.tdef.endswith("::next") else "spec_next_back"):
            return ("pseudo", f, [c.args[0]])
    return None


def _grow(c, st, coll, itref, itt, item, into):
    """loop adding every element of the iterator to the collection behind `coll` ; into: True returns the collection"""
    P = c.eng.P
    cn = strip(P.types[into]["s"])
    push = None
    if cn.startswith(("std::vec::Vec<", "std::collections::VecDeque<")):
        push = _pushfn(P, into)
    elif cn == "std::string::String" and P.types[item]["k"] == "char":
        push = "std::string::String::push"
    elif cn == "std::string::String":
        push = "std::string::String::push_str"
    elif cn.startswith("std::collections::HashMap<") and P.types[item]["k"] == "tuple":
        push = "std::collections::HashMap::<K, V, S, A>::insert"
    if push is None:
        return None
    key = ("grow", itt, item, into, c.destty, str(c.span))
    g = _SYN.get(key)
    if g is None:
        b = Build(P, c.span)
        unit = _prim(P, "()")
        b.local(unit)
        co = b.local(_reft(P, into))
        i = b.local(itt)
        o = b.local(_opt(P, item))
        x = b.local(item)
        u = b.local(unit)
        h, te, so, do, back = b.block(), b.block(), b.block(), b.block(), b.block()
        b.call(h, "std::iter::Iterator::next", [(["c", [i, []]], itt)], o, te)
        b.switch(te, o, [[0, do], [1, so]])
        b.asg(so, x, ["use", ["m", [o, [["d", 1], ["f", 0, item]]]]])
        if "HashMap" in push:
            ts = P.types[item]["f"]
            args = [(["m", [x, [["f", 0, ts[0]]]]], ts[0]), (["m", [x, [["f", 1, ts[1]]]]], ts[1])]
        else:
            args = [(["m", [x, []]], item)]
        b.call(so, push, [(["c", [co, []]], b.loc[co])] + args, u, back)
        b.blocks[back][1] = ["goto", h]
        b.ret(do, ["agg", ["tuple"], []])
        g = _SYN[key] = synth("std::iter::Extend::extend", b.loc, b.blocks, 2, c.span)
    return ("pseudo", g, [coll, itref])


def _item_of(P, v, st, e, into):
    """type index of the elements added to a collection type"""
    t = P.types[into]
    if strip(t["s"]).startswith(("std::vec::Vec<", "std::collections::VecDeque<")):
        return t["args"][0]
    return None


def _pushfn(P, into):
    return "std::collections::VecDeque::<T, A>::push_back" if "VecDeque<" in P.types[into]["s"] else "std::vec::Vec::<T, A>::push"


@model("std::iter::Extend::extend")
def m_extend(c, st):
    if local_body(c) or len(c.args) < 2:
        return None
    e, P = c.eng, c.eng.P
    into = P.types[c.argtys[0]].get("e")
    if into is None:
        return None
    v = c.args[1]
    if not (v.k == "agg" and (v.a[0].startswith("it:") or v.a[0].startswith("std::ops::Range<"))):
        return None
    item = _item_of(P, v, st, e, into)
    if item is None:
        return None
    return _grow(c, st, c.args[0], e.box(st, c.site, v, "iterator"), _reft(P, c.argtys[1]), item, into)


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(c, st):
    """only into vectors from an adaptor kept as a structure; the rest stays as it was"""
    e, P = c.eng, c.eng.P
    v = c.args[0]
    if not (v.k == "agg" and (v.a[0].startswith("it:") or v.a[0].startswith("std::ops::Range<"))):
        return None
    into = c.destty
    item = _item_of(P, v, st, e, into)
    if item is None:
        return None
    itt = _reft(P, c.argtys[0])
    key = ("collect", itt, item, into, str(c.span))
    g = _SYN.get(key)
    if g is None:
        b = Build(P, c.span)
        unit = _prim(P, "()")
        b.local(into)
        i = b.local(itt)
        rv = b.local(_reft(P, into))
        o = b.local(_opt(P, item))
        x = b.local(item)
        u = b.local(unit)
        s0, h, te, so, do, back = [b.block() for _ in range(6)]
        b.call(s0, "std::vec::Vec::<T>::new", [], 0, h)
        b.call(h, "std::iter::Iterator::next", [(["c", [i, []]], itt)], o, te)
        b.switch(te, o, [[0, do], [1, so]])
        b.asg(so, x, ["use", ["m", [o, [["d", 1], ["f", 0, item]]]]])
        b.asg(so, rv, ["ref", "mut", [0, []]])
        b.call(so, _pushfn(P, into), [(["m", [rv, []]], b.loc[rv]), (["m", [x, []]], item)], u, back)
        b.blocks[back][1] = ["goto", h]
        b.ret(do)
        g = _SYN[key] = synth("std::iter::collect", b.loc, b.blocks, 1, c.span)
    return ("pseudo", g, [e.box(st, c.site, v, "iterator")])
