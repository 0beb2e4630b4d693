"""Anchors of the server: entry points, accept thread, conversation job."""
from .common import *

W = r"^wruster::"
TYPES_OPAQUE = re.compile(r"thread_pool::|http::headers::Headers|http::Request|http::Response|http::Body|observable::ObservedStreamList|"
                          r"cancellable_stream::CancellableStream|timeout_stream::TimeoutStream|router::Router|router::Normalize|tls::|http::client")


def bare(n):
    """a function name without its generic arguments (the self type of an impl stays)"""
    out, d = [], 0
    for i, c in enumerate(n):
        if c == "<" and (d or (i and (n[i - 1].isalnum() or n[i - 1] in "_:"))):
            d += 1
        elif c == ">" and d and n[i - 1] != "-":
            d -= 1
        elif not d:
            out.append(c)
    return "".join(out)


def api_opaque(*extra, keep=()):
    """calls into the named, separately analysed types stay calls"""
    ex = [re.compile(x) for x in extra]
    kp = [re.compile(x) for x in keep]

    def f(x, g):
        n = bare(g.name)
        if any(k.search(n) for k in kp):
            return False
        if value_opaque(x, g):
            return True
        if "{closure" in n and not any(r.search(n) for r in ex):
            return False
        return bool(TYPES_OPAQUE.search(n)) or any(r.search(n) for r in ex)
    return f


def entries(P, rep):
    return [("run", fn1(P, rep, W + r"Server::run$")), ("run_tls", fn1(P, rep, W + r"Server::run_tls$"))]


def starts(P, rep, **kw):
    """[(name, Fn, engine)] of the two ways to start a server"""
    out = []
    for k, f in entries(P, rep):
        if f is None:
            continue
        e = Engine(P, opaque=api_opaque(), poison=False, keep_args=True, **kw)
        e.run(f)
        rep.engine(e, f)
        out.append((k, f, e))
    return out


def accept_threads(P, rep, ss):
    out = []
    for k, f, e in ss:
        got = spawned_bodies(e)
        for wf, v, st, ev, byref in got:
            if wf is None:
                rep.bad("anchor", "accept thread of " + k, "the body of the thread started by %s cannot be resolved" % k, ev.where())
                continue
            out.append((k, wf, v, st, byref, ev))
        rep.floor("threads started by " + k, len(got), 1)
    return out


def fields(P, path):
    """[(index, type string)] of a struct"""
    for t in P.types:
        if t["k"] == "adt" and t["s"] == path and t.get("variants"):
            return [(i, P.types[x[1]]["s"]) for i, x in enumerate(t["variants"][0][1])]
    return []


def field_of(P, rep, path, pat):
    r = [i for i, s in fields(P, path) if re.search(pat, s)]
    if len(r) != 1:
        rep.bad("anchor", "%s field %s" % (path, pat), "%s has %d fields of type %s" % (path, len(r), pat))
        return None
    return r[0]
