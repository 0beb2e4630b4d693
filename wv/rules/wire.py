"""Shared analysis of how messages are written: every operation on the destination, with the text it writes."""
from .common import *
from . import server, conv, p08

OPS = {"write_all": "all", "write_fmt": "all", "flush": "flush", "write": "part", "write_vectored": "part", "into_inner": "flush"}


def opaque(x, f):
    if value_opaque(x, f):
        return True
    if re.search(r"^<?wruster::streams::.* as std::io::(Write|Read)", f.name):
        return True
    return re.search(r"^wruster::http::headers::Headers::(add|get)$", server.bare(f.name)) is not None


def sink(eng, st, v, d=0):
    """'raw' when v designates the destination (argument 1), the BufWriter value around it, else None"""
    if d > 8:
        return None
    if v is mk("arg", 1) or (v.k in ("ret", "fld", "deref", "mut", "app") and v.k != "mut" and _wraps(eng, st, v, d)):
        return "raw"
    if v.k == "ref":
        c = eng.load(st, v.a[0], v.a[1])
        if c is not v:
            s = sink(eng, st, c, d + 1)
            if s == "raw" or s is None:
                return s
            return v
        return None
    if v.k == "agg" and "BufWriter" in str(v.a[0]) and v.a[2]:
        return "buf" if sink(eng, st, v.a[2][0], d + 1) else None
    if v.k == "agg" and len(v.a[2]) == 1:
        return sink(eng, st, v.a[2][0], d + 1)
    return None


def _wraps(eng, st, v, d):
    if v.k == "ret" and ("by_ref" in str(v.a[0]) or "deref" in str(v.a[0])):
        return any(isinstance(x, V) and sink(eng, st, x, d + 1) for x in v.a[1:])
    if v.k == "deref":
        return sink(eng, st, v.a[0], d + 1) == "raw"
    return False


def operation(eng, st, e):
    """(kind, destination, data value) of an operation on a writer"""
    if e.kind != "call" or not e.args:
        return None
    last = e.name.rsplit("::", 1)[-1]
    if last == "copy" and "io::" in e.name and len(e.args) > 1:
        return "copy", e.args[1], e.args[0]
    if last in OPS and ("io::Write" in e.name or "BufWriter" in e.name):
        return OPS[last], e.args[0], e.args[1] if len(e.args) > 1 else None
    return None


def roots(P, rep):
    """[(kind, Fn)] the ways to write messages, one per destination type in use"""
    out, seen = [], set()
    for kind, pat, n in (("response", r"^wruster::http::Response::write::<", 2), ("request", r"^wruster::http::Request::write::<", 1)):
        got = [f for f in fns(P, pat, None) if "{closure" not in f.name]
        for f in got:
            if f.name not in seen:
                seen.add(f.name)
                out.append((kind, f))
        rep.floor("ways a %s is written" % kind, len({f.name for f in got}), n)
    return out
