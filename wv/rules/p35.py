"""P35: a secured server uses the certificate and the key that the files it was given hold."""
from .common import *
from .conv import field_names
from . import server, conv

TLS = r"^wruster::streams::tls::"
OPAQUE = re.compile(r"^<?rustls")
OPEN = re.compile(r"^std::fs::(File|OpenOptions)::open$")
PARSE = re.compile(r"^rustls_pemfile::")
PUSH = re.compile(r"^std::(vec::Vec|collections::VecDeque)::push(_back)?$")
MOVED = re.compile(r"^it:(rev|skip|take_while|step_by|skip_while|map_while|chain|filter|filter_map|flat_map|flatten)")
REMOVE = re.compile(r"^std::(vec::Vec::(remove|swap_remove)|collections::VecDeque::(remove|pop_front))$")
KEYS = {1, 2, 3}


SETTINGS = {"ignore_client_order", "max_fragment_size", "session_storage", "ticketer", "alpn_protocols", "key_log", "send_half_rtt_data", "send_tls13_tickets", "max_early_data_size"}


def bare(n):
    return server.bare(n).replace("::::", "::")


def opaque(x, g):
    return OPAQUE.search(g.name) is not None


def data(v):
    """the bytes wrapped in the certificate or key v"""
    while v.k == "agg" and v.a[0].rsplit("::", 1)[-1] in ("Certificate", "PrivateKey") and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def same(v):
    """without references and copies"""
    while v.k == "deref" or v.k == "ref" and v.a[0][0] == "D" and not v.a[1]:
        v = v.a[0] if v.k == "deref" else v.a[0][1]
    return v


class Reads(Monitor):
    """(what was opened, what was parsed, elements taken from the list, first one put into another list, removed, ...)"""
    def init(self):
        return (None, None, 0, None, ())

    def event(self, m, e, st, eng):
        if e.kind != "call":
            return m
        opened, parsed, taken, put, gone = m[:5]
        n = bare(e.name)
        if OPEN.search(n):
            m = (("open", same(conv.value(eng, st, e.args[-1])), e.ret),) + m[1:]
            return m if opened is None else mark(m, "more than one file is opened")
        if PARSE.search(n):
            src = conv.value(eng, st, e.args[0]) if e.args else None
            m = (opened, (n.split("::")[-1], src, e.ret), taken, put, gone) + m[5:]
            return m
        if n.endswith("::next") and e.ret is not None and e.ret.k == "agg" and e.ret.a[1] == 1 and e.args:
            a = e.args[0]
            it = eng.load(st, a.a[0], ()) if a.k == "ref" else a
            whole = conv.value(eng, st, a)
            m = (opened, parsed, min(taken + 1, 2), put, gone) + m[5:]
            if any(y.k in ("app", "agg") and MOVED.search(str(y.a[0])) for t in (it, whole) for y in walk(t)):
                m = mark(m, "the elements are not taken in order, or not all of them")
            return m
        if n.endswith("::next_back"):
            return mark(m, "the elements are taken from the end")
        if PUSH.search(n) and put is None:
            got = failure_free(parsed[2]) if parsed is not None and parsed[2] is not None else None
            well = got is not None and taken == 1 and el_of(same(data(e.args[-1])), got)
            return (opened, parsed, taken, "ok" if well else "another element than the first one of the file is put first", gone) + m[5:]
        if REMOVE.search(n) and len(gone) < 3:
            a = e.args[0]
            return (opened, parsed, taken, put, gone + ((e.ret, conv.value(eng, st, a), e.args[1] if len(e.args) > 1 else I(0)),)) + m[5:]
        return m


def files(P, rep):
    for what in ("Certificate", "PrivateKey"):
        f = fn1(P, rep, TLS + what + r"::read_from$")
        if f is None:
            continue
        e = Engine(P, poison=False, keep_args=True, opaque=opaque, monitors=[Reads()])
        e.run(f)
        rep.engine(e, f)
        in_range(P, rep, f, what)
        good, failed, kinds = 0, set(), set()
        for n in e.ends:
            p = short(e.path_to(n))
            st = n.st
            m = st.mon[0]
            opened, parsed, taken, put, gone = m[:5]
            if not rep.check("panic", n.kind == "return", what, "reading a %s may panic" % what, f.span[0], p):
                continue
            if opened is not None:
                failed.add(("open", known_variant(st, opened[2])))
            if parsed is not None:
                failed.add(("parse", known_variant(st, parsed[2])))
            k = known_variant(st, n.val)
            if k == 1:
                continue
            if not rep.check("value", k == 0 and n.val.k == "agg", what + "|end", "an end of reading a %s is not understood: %s" % (what, show(n.val, 5)), f.span[0], p):
                continue
            for w in m[5:]:
                rep.bad("value", "%s|%s" % (what, w), "reading a %s: %s" % (what, w), f.span[0], p)
            good += 1
            okk = rep.check("open", opened is not None and opened[1] is mk("arg", 0), what + "|which", "the %s is not read from the file asked for" % what, f.span[0], p)
            okk &= rep.check("open", opened is not None and known_variant(st, opened[2]) == 0, what + "|unopened", "a %s is given although its file could not be opened" % what, f.span[0], p)
            okk &= rep.check("parse", parsed is not None and known_variant(st, parsed[2]) == 0, what + "|unread", "a %s is given although its file could not be read" % what, f.span[0], p)
            if not okk:
                continue
            src = parsed[1]
            rep.check("parse", src is not None and any(y is failure_free(opened[2]) for y in walk(src)), what + "|source",
                      "the %s is read from something else than the opened file: %s" % (what, show(src, 5)), f.span[0], p)
            got = failure_free(parsed[2])
            v = data(n.val.a[2][0])
            if what == "Certificate":
                why = cert(e, st, v, got, parsed[0], m)
                rep.check("value", why is None, what + "|first", "what is given is not shown to be the first certificate of the file: %s" % why, f.span[0], p)
            else:
                why, kind = key(e, st, v, got, parsed[0])
                kinds |= kind
                rep.check("value", why is None, what + "|key", "what is given is not shown to be the key of the file: %s" % why, f.span[0], p)
        rep.floor("%s read" % what, good, 1)
        if what == "PrivateKey":
            rep.check("kinds", kinds >= KEYS, "PrivateKey", "not every form of key (RSA, PKCS8, EC) is accepted: %s" % sorted(kinds), f.span[0])
        for w in ("open", "parse"):
            rep.check("tested", (w, 0) in failed and (w, 1) in failed, what + "|" + w, "the outcome of the %s of the file of a %s is not told apart" % (w, what), f.span[0])


def in_range(P, rep, f, what):
    """no access out of range"""
    e = Engine(P, poison=False, numeric=True, opaque=opaque)
    e.run(f)
    rep.engine(e, f)
    for x in e.all_events():
        if x.kind == "oblig":
            rep.check("in-range", x.ret.k == "b" and x.ret.a[0] == 1, "%s|%s|%s" % (what, x.fn(), x.name),
                      "reading a %s may panic: an access out of range is not excluded (%s)" % (what, show(x.args[0], 5)[:120] if x.args else x.name), x.where())


def failure_free(r):
    return r.a[2][0] if r.k == "agg" else mk("fld", mk("as", r, 0), 0)


def cert(eng, st, v, got, how, m):
    if how != "certs":
        return "it is read by %s" % how
    taken, put, gone = m[2:5]
    x = same(v)
    if x.k == "idx":
        if x.a[1] is not I(0):
            return "the element %s of the list is taken" % show(x.a[1], 4)
        y = same(x.a[0])
        if y is got:
            return None
        if put is None:
            return "the first element of another list is taken: %s" % show(y, 4)
        return None if put == "ok" else put
    for r, vec, i in gone:
        if x is r or x is mk("fld", mk("as", r, 1), 0):
            return None if same(vec) is got and i is I(0) and len(gone) == 1 else "the element %s of %s is taken" % (show(i, 4), show(vec, 4))
    if el_of(x, got):
        return None if taken == 1 else "a later element is taken"
    return show(x, 6)


def el_of(x, got):
    if x.k != "elem" and not (x.k == "app" and x.a[0] == "elem"):
        return False
    it = [y for y in walk(x) if y.k == "app" and y.a[0] == "iter"]
    return len(it) == 1 and same(it[0].a[1]) is got


def key(eng, st, v, got, how):
    if how != "read_one":
        return "it is read by %s" % how, set()
    item = mk("fld", mk("as", got, 1), 0)
    x = same(v)
    if x.k == "fld" and x.a[1] == 0 and x.a[0].k == "as" and x.a[0].a[0] is item:
        k = x.a[0].a[1]
        if k in KEYS:
            return None, {k}
        return "it is not a key (variant %s)" % k, set()
    return show(x, 6), set()


COPY = re.compile(r"^<wruster::streams::tls::(PrivateKey|Certificate) as std::clone::Clone>::clone$")


def copies(P, rep):
    k = 0
    for f in fns(P, COPY.pattern):
        e = Engine(P, poison=False, keep_args=True, opaque=opaque)
        e.run(f)
        rep.engine(e, f)
        for n in e.ends:
            k += 1
            a = mk("deref", mk("arg", 0))
            v = n.val if n.kind == "return" else None
            okk = v is not None and (same(v) in (a, mk("arg", 0)) or v.k == "agg" and len(v.a[2]) == 1 and inner(v, a))
            rep.check("copy", okk, f.name, "the copy of a key or certificate is not it: %s" % (show(v, 6) if v is not None else n.kind), f.span[0], short(e.path_to(n)))
    rep.floor("copies", k, 2)


def inner(v, a):
    """v is a, wrapped again"""
    x = v
    path = []
    while x.k == "agg" and len(x.a[2]) == 1:
        x = x.a[2][0]
        path.append(0)
    y = same(x)
    while path and y.k == "fld" and y.a[1] == 0:
        y = y.a[0]
        path.pop()
    return not path and (y is a or same(y) is mk("arg", 0))


class Built(Monitor):
    """the calls of the TLS library on the path: (name, values, result)"""
    def event(self, m, e, st, eng):
        if e.kind != "call" or len(m) > 16:
            return m
        n = bare(e.name)
        if n.startswith("rustls::") or n.startswith("<rustls::") or n.endswith("TcpStream::try_clone"):
            return m + ((n, tuple(e.args), tuple(conv.value(eng, st, a) for a in e.args), e.ret),)
        return m


def unwrapped(eng, st, v):
    """the value inside Arc and references"""
    for _ in range(8):
        w = conv.value(eng, st, v)
        if w.k == "agg" and re.search(r"::Arc(<|$)", w.a[0]) and w.a[2]:
            w = w.a[2][0]
        if w is v:
            return v
        v = w
    return v


def connection(P, rep):
    f = fn1(P, rep, TLS + r"Stream::new$")
    if f is None:
        return
    e = Engine(P, poison=False, keep_args=True, opaque=opaque, monitors=[Built()])
    e.run(f)
    rep.engine(e, f)
    plain = [i for i, t in server.fields(P, "wruster::streams::tls::Stream") if t == "std::net::TcpStream"]
    good = 0
    for n in e.ends:
        p = short(e.path_to(n))
        st = n.st
        calls = st.mon[0]
        if not rep.check("panic", n.kind == "return", "Stream", "setting up a secured connection may panic", f.span[0], p):
            continue
        k = known_variant(st, n.val)
        bad = [c for c in calls if fails(c) and c[3] is not None and known_variant(st, c[3]) != 0]
        if k == 1:
            continue
        if not rep.check("setup", k == 0 and n.val.k == "agg", "end", "an end of setting up a secured connection is not understood", f.span[0], p):
            continue
        good += 1
        rep.check("setup", not bad, "failure", "a secured connection is given although %s did not succeed" % (bad[0][0] if bad else ""), f.span[0], p)
        single = [c for c in calls if c[0].endswith("::with_single_cert")]
        conns = [c for c in calls if c[0].endswith("ServerConnection::new")]
        owned = [c for c in calls if c[0].endswith("StreamOwned::new")]
        noauth = [c for c in calls if re.search(r"::with_(no_)?client_(auth|cert_verifier)$", c[0])]
        if not rep.check("setup", len(single) == 1 and len(conns) == 1 and len(owned) == 1, "calls",
                         "a secured connection is not made with one certificate, one session and one stream (%d, %d, %d)" % (len(single), len(conns), len(owned)), f.span[0], p):
            continue
        rep.check("setup", all(c[0].endswith("with_no_client_auth") for c in noauth), "client auth", "clients are asked for certificates", f.span[0], p)
        chain, pk = single[0][2][-2], single[0][2][-1]
        okk = chain.k == "agg" and len(chain.a[2]) == 1 and is_arg(chain.a[2][0], 2) or \
            chain.k == "app" and chain.a[0] == "push" and chain.a[1].k == "app" and chain.a[1].a[0] == "empty" and is_arg(chain.a[2], 2)
        rep.check("setup", okk, "certificate", "the certificate shown to clients is not the one given: %s" % show(chain, 5), f.span[0], p)
        rep.check("setup", is_arg(pk, 1), "key", "the private key used is not the one given: %s" % show(pk, 5), f.span[0], p)
        cfg = unwrapped(e, st, conns[0][2][0])
        # settings that say nothing about the certificate may be changed
        names = {i: x for x, i in field_names(P, "rustls::ServerConfig").items()}
        while cfg.k == "upd" and all(x[0][0] == "f" and names.get(x[0][1]) in SETTINGS for x in cfg.a[1]):
            cfg = cfg.a[0]
        rep.check("setup", cfg is failure_free(single[0][3]), "configuration", "the session does not use the given certificate and key: %s" % show(cfg, 5), f.span[0], p)
        rep.check("setup", owned[0][2][0] is failure_free(conns[0][3]), "session", "the stream does not use the session", f.span[0], p)
        sock = owned[0][2][1]
        clones = [c for c in calls if c[0].endswith("try_clone") and mk("arg", 0) in (same(c[2][0]), c[2][0])]
        ours = [mk("arg", 0)] + [failure_free(c[3]) for c in clones]
        rep.check("setup", sock in ours, "connection", "the stream is not over the given connection: %s" % show(sock, 5), f.span[0], p)
        v = n.val.a[2][0]
        for i in plain:
            x = v.a[2][i] if v.k == "agg" and i < len(v.a[2]) else None
            rep.check("setup", x in ours, "plain", "the connection controlled besides the stream is another one", f.span[0], p)
        rep.check("setup", v.k == "agg" and any(owned[0][3] is y for y in walk(v)), "stream", "the stream made is not the one given back", f.span[0], p)
    rep.floor("secured connections", good, 1)


def fails(c):
    return c[0].endswith(("::with_single_cert", "ServerConnection::new", "::try_clone"))


def is_arg(v, i):
    """v is (the only part of) argument i"""
    a = mk("arg", i)
    v = data(same(v))
    while v.k == "fld" and v.a[1] == 0:
        v = v.a[0]
    return v is a


def served(P, rep):
    f = fn1(P, rep, r"^wruster::Server::run_tls$")
    if f is None:
        return
    op = server.api_opaque(keep=(COPY.pattern,))
    e = Engine(P, opaque=op, poison=False, keep_args=True)
    e.run(f)
    rep.engine(e, f)
    pat = [i for i in range(f.nargs) if i > 2] if hasattr(f, "nargs") else [3, 4]
    k = 0
    for wf, v, st, ev, byref in spawned_bodies(e):
        if wf is None:
            rep.bad("anchor", "accept thread", "the body of the thread started by run_tls cannot be resolved", ev.where())
            continue
        e2 = Engine(P, opaque=op, poison=False, keep_args=True)
        run_closure(e2, v, st, wf, byref)
        rep.engine(e2, wf)
        for x in e2.all_events():
            if x.kind == "call" and re.search(TLS + "Stream::new$", bare(x.name)):
                k += 1
                a = x.args
                rep.check("serve", is_arg(a[1], 3), "key", "connections are served with another key than the one given: %s" % show(a[1], 5), x.where())
                rep.check("serve", is_arg(a[2], 4), "certificate", "connections are served with another certificate than the one given: %s" % show(a[2], 5), x.where())
                s = a[0]
                rep.check("serve", s.k == "fld" and any(y.k == "ret" and y.a[0].endswith("TcpListener::accept") for y in walk(s)), "connection",
                          "what is secured is not the accepted connection: %s" % show(s, 5), x.where())
    rep.floor("connections secured", k, 1)


def run(P, rep):
    rep.rules += ["every end of reading a certificate or key: an error, or the first certificate (the key) parsed from the file named by the argument, the open and the parse known to have succeeded; no panic",
                  "a copy of a key or certificate is it",
                  "a secured connection is configured with exactly the given certificate and key, over the given connection, every step known to have succeeded; no panic",
                  "the accept loop of the TLS server secures each accepted connection with the key and certificate run_tls was given"]
    files(P, rep)
    copies(P, rep)
    connection(P, rep)
    served(P, rep)
