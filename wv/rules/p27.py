"""P27: a connection of a client serves one request at a time and is kept only when nothing of the exchange is left on it."""
from .common import *
from . import server, conv
from .p03 import payload

MAP = re.compile(r"^std::collections::(HashMap|BTreeMap)::<K, V(, S)?(, A)?>::(\w+)$")
CLONE = re.compile(r"^std::net::TcpStream::try_clone$")
OPAQUE = re.compile(r"^wruster::http::(Response::read_from|Request::write|Request::is_connection_persistent|Body::ensure_read|headers::Headers::add)(::)?$")
READ, WRITE, ENSURE = (re.compile(r"^wruster::http::" + x + r"(::)?$") for x in ("Response::read_from", "Request::write", "Body::ensure_read"))
PERS = re.compile(r"is_connection_persistent$")
NEXT = "std::iter::Iterator::next"
DRAIN = re.compile(r"^std::collections::(HashMap|BTreeMap)::<.*>::(drain|retain|into_iter|iter|values|keys|len|contains_key)$")


def opaque(x, f):
    return value_opaque(x, f) or OPAQUE.search(server.bare(f.name)) is not None


def hook(c, st):
    if conv.HGET.search(server.bare(c.x.get("name") or "")) or conv.HGET.search(server.bare(c.tdef)):
        e = c.eng
        name = e.content(st, c.args[1])
        return [(app("header", conv.value(e, st, c.args[0]), S(name.a[0].lower()) if name.k == "s" else name), st)]
    n = server.bare(c.x.get("name") or c.tdef)
    if WRITE.search(n) or READ.search(n) or c.tdef == "std::io::Write::flush":
        # the stream stays the same stream
        r = c.sym(st)
        return [(r, st, Event("call", n, c.args, r, c.ctx, c.block, c.x))]
    return None


def origin(eng, st, v, clones=(), d=0):
    """the connection v stands for: what remains without references, boxes, wrappers and duplicates of the handle"""
    cl = dict(clones)
    while d < 40:
        d += 1
        if v.k == "ref":
            n = eng.load(st, v.a[0], v.a[1])
            if n is v or n.k == "uninit":
                return v
            v = n
            continue
        if v in cl:
            v = cl[v]
            continue
        if v.k == "fld" and v.a[0].k == "as" and v.a[0].a[0].k == "ret" and "HashMap" in str(v.a[0].a[0].a[0]) or (v.k == "fld" and v.a[0].k == "as" and v.a[0].a[0].k == "ret" and str(v.a[0].a[0].a[0]).split("::")[-1] in ("remove", "connect", "connect_timeout", "try_clone")):
            x = v.a[0].a[0]
            if x in cl:
                v = cl[x]
                continue
            return x
        if v.k == "fld" or v.k == "deref":
            # the resource inside of a pooled entry
            v = v.a[0]
            continue
        if v.k == "upd" or v.k == "mut":
            return v
        if v.k == "agg":
            t = [x for x in v.a[2] if isinstance(x, V) and x.k in ("ref", "fld", "ret", "agg", "deref", "arg", "as")]
            t = [x for x in t if not (x.k == "agg" and not x.a[2])]
            o = []
            for x in t:
                y = origin(eng, st, x, clones, d)
                if y.k == "ret" and str(y.a[0]).split("::")[-1] in ("remove", "connect", "connect_timeout") and y not in o:
                    o.append(y)
            return o[0] if len(o) == 1 else v
        if v.k == "as":
            v = v.a[0]
            continue
        return v
    return v


class Run(Monitor):
    """(steps…) of one request: ("clone", ret, origin), ("take", key, ret, map), ("open", ret), ("write", stream origin, ret, request), ("read", origin, ret), ("close", what is known of the
    values of the Connection header: pending element or None, seen "close"), marks; terms that the facts must outlive"""
    def event(self, m, e, st, eng):
        if e.kind == "branch" or e.kind == "variant":
            return self.look(m, e)
        if e.kind == "lock":
            return locked(m, e, st, eng)
        if e.kind != "call":
            return m
        n = server.bare(e.name)
        cl = [(x[1], x[2]) for x in m if isinstance(x, tuple) and x[0] == "clone"]
        if CLONE.search(e.name):
            return m + (("clone", e.ret, origin(eng, st, e.args[0], cl)),)
        g = MAP.search(e.name)
        if g:
            op = g.group(4)
            if op in ("remove", "remove_entry"):
                return m + (("take", eng.content(st, e.args[1]), e.ret, e.args[0]),)
            if op in ("len", "contains_key", "is_empty"):
                return m
            return mark(m, "running a request does %s on the pool of connections" % op)
        if PERS.search(n) and e.args:
            return m + (("pers", conv.base(conv.value(eng, st, e.args[0])), e.ret),)
        if WRITE.search(n):
            return m + (("write", origin(eng, st, e.args[1], cl), e.ret, conv.base(e.args[0])),)
        if READ.search(n):
            w = [x for x in m if isinstance(x, tuple) and x[0] == "write"]
            if not (len(w) == 1 and w[0][1] is origin(eng, st, e.args[0], cl) and variant(eng, st, w[0][2]) == 0):
                m = mark(m, "a response is read from another connection than the one the request was completely written to")
            return m + (("read", origin(eng, st, e.args[0], cl), e.ret),)
        if n.endswith("TcpStream::connect") or n.endswith("TcpStream::connect_timeout"):
            return m + (("open", eng.content(st, e.args[0]), e.ret),)
        if n == NEXT and e.ret is not None and e.ret.k == "agg":
            if e.ret.a[1] == 1:
                x = e.ret.a[2][0]
                h = header_of(x)
                if h is not None:
                    it = eng.content(st, e.args[0])
                    if any(y.k == "app" and re.match(r"it:(skip|take|step_by|take_while|skip_while|filter_map|filter|nth|rev_skip)$", str(y.a[0])) for y in walk(it)):
                        m = mark(m, "only a selection of the values of the response's Connection header is looked at")
                    m = tuple(y for y in m if not (isinstance(y, tuple) and y[0] == "value")) if not any(isinstance(y, tuple) and y[0] == "value" and y[2] == "?" for y in m) else mark(m, "a value of the response's Connection header is not looked at")
                    return m + (("value", x, "?"),)
            else:
                return self.ended(m)
        return m

    def ended(self, m):
        if any(isinstance(y, tuple) and y[0] == "value" and y[2] == "?" for y in m):
            return mark(m, "a value of the response's Connection header is not looked at")
        return m if "all values" in m else m + ("all values",)

    def look(self, m, e):
        for i, y in enumerate(m):
            if isinstance(y, tuple) and y[0] == "value" and y[2] == "?":
                t, b = e.args[0] if e.args else None, bool(e.ret.a[0]) if e.ret is not None and e.ret.k in ("b", "i") else None
                while t is not None and t.k == "not":
                    t, b = t.a[0], not b
                if t is not None and t.k == "app" and t.a[0] in ("eq", "eqi", "eq_ignore_ascii_case") and contains(t, y[1]):
                    c = [z for z in t.a[1:] if z.k == "s"]
                    o = [z for z in t.a[1:] if z.k != "s"]
                    fold = t.a[0] != "eq" or any(z.k == "app" and z.a[0] in ("lower", "upper") and c and c[0].a[0] == getattr(c[0].a[0], z.a[0])() for z in o)
                    if c and c[0].a[0].lower() == "close" and fold:
                        return m[:i] + ((y[0], y[1], "close" if b else "other"),) + m[i + 1:]
        return m


def locked(m, e, st, eng):
    """remembers what lock a protected value came out of"""
    g = e.ret
    while g is not None and g.k == "agg" and g.a[2]:
        g = g.a[2][0]
    if g is None or g.k != "ref":
        return m
    v = eng.load(st, g.a[0], g.a[1])
    return m + (("lock", v, e.args[0]),) if v.k == "mut" and not any(isinstance(x, tuple) and x[0] == "lock" and x[1] is v for x in m) else m


def of_client(m, v):
    """v belongs to the client (argument 0), directly or through locks"""
    todo, seen = [v], set()
    while todo:
        for x in walk(todo.pop()):
            if x is mk("arg", 0):
                return True
            for y in m:
                if isinstance(y, tuple) and y[0] == "lock" and y[1] is x and x not in seen:
                    seen.add(x)
                    todo.append(y[2])
    return False


def header_of(x):
    """the term of the header this value belongs to"""
    for y in walk(x):
        if y.k == "app" and y.a[0] == "header" and len(y.a) > 2 and y.a[2] is S("connection"):
            return y
    return None


class Dropped(Monitor):
    """what the destructor of a response does to the pool; keeps the terms of the run alive"""
    def __init__(self, pre):
        self.pre = pre

    def init(self):
        return self.pre

    def event(self, m, e, st, eng):
        if e.kind == "lock":
            return locked(m, e, st, eng)
        if e.kind != "call":
            return m
        n = server.bare(e.name)
        cl = [(x[1], x[2]) for x in m if isinstance(x, tuple) and x[0] == "clone"]
        if CLONE.search(e.name):
            return m + (("clone", e.ret, origin(eng, st, e.args[0], cl)),)
        if ENSURE.search(n):
            return m + (("skip", conv.base(conv.value(eng, st, e.args[0])), e.ret),)
        g = MAP.search(e.name)
        if g and g.group(4) in ("insert", "entry", "try_insert") and len(e.args) > 2:
            k = eng.content(st, e.args[1])
            if any(y.k in ("elem", "old", "phi") for y in walk(e.args[2])) and origin(eng, st, e.args[2], cl).k != "ret":
                return m                                   # an entry put back
            return m + (("keep", k, origin(eng, st, e.args[2], cl), e.args[0]),)
        return m


def keeps(eng, st, m):
    return [x for x in m if isinstance(x, tuple) and x[0] == "keep"]


def reply(P, rep, e, n, drops, k):
    """what happens to the connection of the response this end of run returns"""
    m = n.st.mon[0]
    rd = [x for x in m if isinstance(x, tuple) and x[0] == "read"]
    p = short(e.path_to(n))
    if not rep.check("one-reply", len(rd) == 1, "run", "a response is returned after reading %d messages" % len(rd), "client/mod.rs", p):
        return 0
    resp = payload(rd[0][2])
    conn = rd[0][1]
    # where in the value returned is the response
    val = n.val.a[2][0] if n.val.k == "agg" and n.val.a[1] == 0 else None
    if val is not None and val.k == "ref":
        val = e.load(n.st, val.a[0], val.a[1])
    if not rep.check("reply", val is not None and contains(val, resp), "run", "what is returned is not the message that was read", "client/mod.rs", p):
        return 0
    names = conv.field_names(P, "wruster::http::Response")
    b, h = names.get("body"), names.get("headers")
    hdr = lambda s: app("header", mk("fld", resp, h), S(s))
    pers = [x for x in m if isinstance(x, tuple) and x[0] == "pers"]
    got = 0
    for who, cur in (("the response as it was read", resp), ("a response whose parts were taken out", mk("arg", 900))):
        v = val if cur is resp else swap(val, resp, cur)
        if v is val and cur is not resp:
            rep.bad("whole", "run", "the response returned does not hold the message read as a whole", "client/mod.rs", p)
        pre = tuple(x for x in m if isinstance(x, tuple) and x[0] in ("clone", "pers", "value")) + tuple(x for x in m if x == "all values") + (("know", hdr("content-length"), hdr("connection"), mk("fld", resp, b), mk("fld", cur, b)),)
        mon = Dropped(pre)
        e2 = Engine(P, monitors=[mon], opaque=opaque, poison=False, keep_args=True, hook=hook)
        mem = dict(n.st.mem)
        c = ("H", mk("heap", "reply"))
        mem[c] = v
        e2.run(drops, [ref(c)], mem, dict(n.st.facts), dict(n.st.rel))
        rep.engine(e2, drops)
        for x in e2.ends:
            if x.kind == "panic":
                continue
            ks = keeps(e2, x.st, x.st.mon[0])
            if not ks:
                continue
            got += 1
            st, q = x.st, p[-12:] + short(e2.path_to(x))
            F = drops.span[0]
            rep.check("once", len(ks) == 1, "drop", "the connection is handed to the pool %d times" % len(ks), F, q)
            kk = ks[0]
            rep.check("own", kk[2] is conn, "drop", "the connection kept is not the one the response came from", F, q)
            rep.check("key", kk[1] is mk("arg", 1) or kk[1] is mk("deref", mk("arg", 1)), "drop", "the connection is kept under another address than the one it leads to", F, q)
            rep.check("pool", of_client(x.st.mon[0], kk[3]), "drop", "the connection is kept in another pool than its client's", F, q)
            ok = bool(pers) and all(e2.decide(st, y[2]) is True for y in pers[-1:])
            rep.check("asked", ok, "drop", "the connection is kept although the request did not ask for that", F, q)
            rep.check("delimited", variant(e2, st, hdr("content-length")) == 1, "drop", "the connection is kept although the end of the response is not known", F, q)
            mm = x.st.mon[0]
            vals = [y for y in mm if isinstance(y, tuple) and y[0] == "value"]
            cv = variant(e2, st, hdr("connection"))
            rep.check("not-closing", cv == 0 or (not any(y[2] in ("close", "?") for y in vals) and "all values" in mm), "drop", "the connection is kept although the server may have announced to close it", F, q)
            o, w = variant(e2, st, mk("fld", resp, b)), variant(e2, st, mk("fld", cur, b))
            sk = [y for y in mm if isinstance(y, tuple) and y[0] == "skip"]
            good = any((y[1] is payload1(mk("fld", cur, b)) or contains(y[1], mk("fld", cur, b))) and variant(e2, st, y[2]) == 0 for y in sk)
            rep.check("drained:" + ("read" if cur is resp else "taken"), good or (o == 0 and w != 1), "drop", "the connection is kept although not all of its body was read (%s)" % who, F, q)
    return got


def swap(v, a, b):
    """the aggregate v with its component a replaced by b (what was computed from a earlier stays)"""
    if v is a:
        return b
    if v.k == "agg":
        return mk("agg", v.a[0], v.a[1], tuple(swap(x, a, b) if isinstance(x, V) else x for x in v.a[2]))
    return v


def payload1(x):
    return mk("fld", mk("as", x, 1), 0)


def variant(eng, st, x):
    k = known_variant(st, x)
    if k is not None:
        return k
    for i in (0, 1):
        for t in [f for f in st.facts if f.k == "op" and f.a[0] == "Eq" and any(y.k == "discr" and y.a[0] is x for y in f.a[1:] if isinstance(y, V))]:
            d = eng.decide(st, t)
            c = [y for y in t.a[1:] if isinstance(y, V) and y.k == "i"]
            if d is not None and c and c[0].a[0] in (0, 1):
                return c[0].a[0] if d else 1 - c[0].a[0]
    return None


def run(P, rep):
    rep.rules += ["a request runs on a connection taken out of the pool under the address asked for, or on a new connection to that address; running never puts one into the pool",
                  "the response is read from the connection the request was completely written to",
                  "the destructor of every response that can be returned keeps only its own connection, once, under its address, in its client's pool, and only if the request asked for it, the response has a length, no value of its Connection header is close, "
                  "and its body has been read to the end (also when the body was taken out of the response)"]
    f = fn1(P, rep, r"^wruster::http::client::Client::run$")
    ds = fns(P, r"^<wruster::http::client::ClientResponse as std::ops::Drop>::drop$")
    if f is None:
        return
    if not rep.check("destructor", len(ds) == 1, "ClientResponse", "the response of a client has no destructor", "client/mod.rs"):
        return
    e = Engine(P, monitors=[Run()], opaque=opaque, poison=False, keep_args=True, hook=hook)
    e.run(f)
    rep.engine(e, f)
    for b, n in marks(e, 0).items():
        rep.bad("run", b, b, f.span[0], short(e.path_to(n)))
    seen, ok, kept = set(), 0, 0
    taken = opened = 0
    for n in e.ends:
        if n.kind != "return":
            continue
        m, p = n.st.mon[0], short(e.path_to(n))
        wr = [x for x in m if isinstance(x, tuple) and x[0] == "write"]
        rd = [x for x in m if isinstance(x, tuple) and x[0] == "read"]
        for x in wr:
            o = x[1]
            tk = [y for y in m if isinstance(y, tuple) and y[0] == "take"]
            if o.k == "ret" and any(o is y[2] for y in tk):
                taken += 1
                y = [y for y in tk if y[2] is o][0]
                rep.check("its-address", y[1] is mk("arg", 1) or y[1] is mk("deref", mk("arg", 1)), "run", "the connection is taken from the pool under another address than the one asked for", f.span[0], p)
                rep.check("its-pool", of_client(m, y[3]), "run", "the connection is taken from a pool that is not the client's", f.span[0], p)
            else:
                opened += 1
                y = [y for y in m if isinstance(y, tuple) and y[0] == "open" and y[2] is o]
                rep.check("opened", len(y) == 1 and contains(y[0][1], mk("arg", 1)), "run", "the request is written to a connection that neither comes out of the pool nor was opened to the address asked for", f.span[0], p)
        if n.val.k == "agg" and n.val.a[1] == 0:
            key = (n.val, tuple(x for x in m), frozenset((k, v) for k, v in n.st.facts.items()))
            if key in seen:
                continue
            seen.add(key)
            ok += 1
            kept += reply(P, rep, e, n, ds[0], ok)
    rep.floor("ways a response is returned", ok, 2)
    rep.floor("requests on a pooled connection", taken, 1)
    rep.floor("requests on a new connection", opened, 1)
    rep.floor("ways a connection is kept", kept, 1)
