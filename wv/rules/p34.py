"""P34: the static web server serves what its command line says, in TLS when it says so, and reports failure."""
from .common import *
from . import server, conv, mains

U = "wrustatic.bin"
PARSE = re.compile(r"^clap::Parser::(try_)?(parse|parse_from|parse_mut|update_from)$")
SERVE = re.compile(r"^wruster_handlers::serve_static$")


def chain(x, calls):
    """[(method, constant arguments)] of the builder value x, the constructor last"""
    out = []
    for _ in range(64):
        if x.k != "ret" or x not in calls:
            break
        n, args = calls[x]
        out.append((n, args[1:] if not n.endswith("::new") else args))
        if n.endswith("::new") or not args:
            break
        x = args[0]
    return out


def text(eng, st, x):
    x = mains.whole(eng, st, x)
    return x.a[0] if x is not None and x.k == "s" else None


def command_line(P, rep):
    """{what: field} of the parsed command line, {id: ids it requires}"""
    aug = fns(P, r" as clap::Args>::augment_args$", U)
    get = fns(P, r" as clap::FromArgMatches>::from_arg_matches_mut$", U)
    if len(aug) != 1 or len(get) != 1:
        rep.bad("anchor", "command line", "the description of the command line is not found (%d, %d)" % (len(aug), len(get)))
        return None
    op = re.compile(r"^<?clap(_builder)?::")
    e = Engine(P, poison=False, keep_args=True, opaque=lambda x, g: op.search(g.name) is not None)
    e.run(aug[0])
    rep.engine(e, aug[0])
    ends = [n for n in e.ends if n.kind == "return"]
    if not rep.check("cli", len(ends) == 1, "augment_args", "the command line has more than one description", aug[0].span[0]):
        return None
    st = ends[0].st
    calls = {}
    order = []
    for x in e.all_events():
        if x.kind == "call" and x.ret is not None:
            n = server.bare(x.name)
            calls[x.ret] = (n, x.args)
            if n.endswith("Command::arg") and len(x.args) > 1 and x.args[1] not in order:
                order.append(x.args[1])
    byname, needs, pos = {}, {}, 0
    order.sort(key=lambda a: len(chain_of(a, calls, ends[0].val)), reverse=True)
    for a in order:
        c = chain(a, calls)
        d = {}
        for n, args in c:
            d.setdefault(n.split("::")[-1], []).append(args)
        ident = text(e, st, d["new"][0][0]) if "new" in d and d["new"][0] else None
        if ident is None:
            continue
        long = text(e, st, d["long"][0][0]) if "long" in d else None
        if long is None and "short" not in d:
            byname["position %d" % (const_of(d["index"][0][0]) - 1 if "index" in d else pos)] = ident
            pos += 1
        elif long is not None:
            byname["--" + long] = ident
        needs[ident] = {text(e, st, y[0]) for y in d.get("requires", []) if y}
        for bad in ("conflicts_with", "conflicts_with_all", "exclusive", "requires_if", "requires_ifs"):
            if bad in d and long is not None and long.startswith("tls"):
                rep.bad("cli", long, "the option --%s uses %s" % (long, bad), aug[0].span[0])
        if "default_value" in d and long is not None and long.startswith("tls"):
            rep.bad("cli", long, "the option --%s has a default: plain text is never asked for" % long, aug[0].span[0])
    e2 = Engine(P, poison=False, keep_args=True, opaque=lambda x, g: op.search(g.name) is not None)
    e2.run(get[0])
    rep.engine(e2, get[0])
    fields = {}
    for n in e2.ends:
        if n.kind == "return" and n.val.k == "agg" and n.val.a[1] == 0:
            v = n.val.a[2][0]
            for i, x in enumerate(v.a[2] if v.k == "agg" else ()):
                y = x
                while y.k in ("fld", "as"):
                    y = y.a[0]
                if y.k == "ret" and len(y.a[2]) > 1:
                    t = text(e2, n.st, y.a[2][1])
                    if t is not None:
                        fields[t] = i
    out = {}
    for w in ("position 0", "position 1", "--tls-private", "--tls-cert"):
        if rep.check("cli", byname.get(w) in fields, w, "the command line has no argument %s" % w, aug[0].span[0]):
            out[w] = fields[byname[w]]
    req = {w: needs.get(byname.get(w), set()) for w in out}
    ids = {byname[w]: w for w in out}
    return out, {w: {ids.get(i) for i in r} for w, r in req.items()}


def chain_of(a, calls, last):
    """the calls of the description after the one taking the argument a (the later the shorter)"""
    out, x = [], last
    for _ in range(64):
        if x.k != "ret" or x not in calls:
            break
        n, args = calls[x]
        out.append(n)
        if len(args) > 1 and args[1] is a:
            break
        x = args[0]
    return out


def const_of(x):
    return x.a[0] if x.k == "i" else 1


def run(P, rep):
    rep.rules += ["on every path of the program: the server is started on the address of the command line with one route for everything, whose handler answers what the file handler answers for the directory of the command line; "
                  "in plain text only when no certificate and no key were given, otherwise with the pair read from the two files; "
                  "the status of the process is 0 only when waiting for the server succeeded, and another one otherwise"]
    rep.assumptions += ["the command line parser fills the fields and enforces `requires` as documented by clap"]
    f = fn1(P, rep, r"^wrustatic::main$", U)
    cl = command_line(P, rep)
    if f is None or cl is None or len(cl[0]) < 4:
        return
    where_, needs = cl
    e = Engine(P, poison=False, keep_args=True, opaque=mains.library, hook=mains.hook, monitors=[mains.Calls(re.compile(r"^<?(wruster|wruster_handlers)::|^clap::Parser::"))])
    e.run(f)
    rep.engine(e, f)

    def field(x, w):
        """x is the argument w of the parsed command line"""
        if x is None or x.k != "fld" or x.a[1] != where_[w]:
            return False
        b = x.a[0]
        while b.k in ("fld", "as"):
            b = b.a[0]
        return b.k == "ret" and re.search(r"(try_)?parse", str(b.a[0]).split("::")[-1]) is not None

    def payload(x):
        return x.a[0].a[0] if x.k == "fld" and x.a[1] == 0 and x.a[0].k == "as" else None

    def option(st, w):
        """what the path knows about the option w: 0 absent, 1 given, None"""
        for t, k in st.facts.items():
            if k[0] == "v" and field(t, w):
                return k[1]
        return None

    handlers = {}
    count = {"plain": 0, "tls": 0, "zero": 0, "failed": 0}
    starts = {}
    for n in e.ends:
        st = n.st
        p = short(e.path_to(n))
        log = st.mon[0]
        key, cert = option(st, "--tls-private"), option(st, "--tls-cert")
        if key == 0 and cert == 1 and "--tls-private" in needs["--tls-cert"]:
            continue
        if key == 1 and cert == 0 and "--tls-cert" in needs["--tls-private"]:
            continue
        read, running, waited, failed = {}, None, None, False
        routes = []
        for name, args, ret in log:
            if name.endswith("::read_from") and len(args) == 1:
                read[ret] = (name, args[0])
            failed |= known_variant(st, ret) == 1 and not PARSE.search(name)
            if name.endswith("router::Router::add") and len(args) == 4:
                routes.append(args)
            if name.endswith("Server::from_timeouts") and args and args[0].k == "agg":
                for t in args[0].a[2]:
                    rep.check("time", not zero_time(t), "main", "a time limit of the connections is zero", f.span[0], p)
            if name in ("wruster::Server::run", "wruster::Server::run_tls"):
                tls = name.endswith("run_tls")
                rep.check("once", running is None, "main", "the server is started twice", f.span[0], p)
                running = (ret, args)
                rep.check("address", field(args[1], "position 0"), "main", "the server does not listen on the address of the command line", f.span[0], p)
                if tls:
                    count["tls"] += 1
                    for what, w, x in (("PrivateKey", "--tls-private", args[3]), ("Certificate", "--tls-cert", args[4])):
                        r = read.get(payload(x))
                        rep.check("pair", r is not None and what in r[0] and payload(r[1]) is not None and field(payload(r[1]), w), w,
                                  "TLS is not started with what the file given by %s holds" % w, f.span[0], p)
                else:
                    count["plain"] += 1
                    no_key = key == 0 or (cert == 0 and "--tls-cert" in needs["--tls-private"])
                    no_cert = cert == 0 or (key == 0 and "--tls-private" in needs["--tls-cert"])
                    rep.check("plain", no_key and no_cert, "main", "plain text is served although a key or a certificate may be given", f.span[0], p)
                rep.check("routes", len(routes) == 1, "main", "the server has %d routes" % len(routes), f.span[0], p)
                for r in routes:
                    rep.check("route", r[0] is args[2], "main", "the route is not one of the server started", f.span[0], p)
                    rep.check("route", r[1].k == "s" and r[1].a[0] == "/", "main", "the route is not / but %s" % show(r[1], 3), f.span[0], p)
                    rep.check("route", r[2].k == "agg" and r[2].a[1] == get_index(P), "main", "the route is not for GET", f.span[0], p)
                    handlers[r[3]] = (st, n)
            if name == "wruster::Server::wait":
                rep.check("wait", running is not None and args[0] is running[1][0], "main", "another server is waited for", f.span[0], p)
                waited = ret
        s = mains.status(e, n)
        if not rep.check("status", s is not None, "main", "the status the process ends with is not understood", f.span[0], p):
            continue
        done = waited is not None and known_variant(st, waited) == 0 and known_variant(st, running[0]) == 0
        if s == 0:
            count["zero"] += 1
            rep.check("success", done, "main", "the process reports success although %s" %
                      ("the server failed" if waited is not None else "the server was not waited for"), f.span[0], p)
        else:
            count["failed"] += 1
            rep.check("failure", failed, "main", "the process reports failure although nothing failed", f.span[0], p)
            if running is not None and known_variant(st, running[0]) == 0:
                rep.check("leave", waited is not None, "main", "the process ends while the server is running", f.span[0], p)
    rep.floor("starts in plain text", count["plain"], 1)
    rep.floor("starts with TLS", count["tls"], 1)
    rep.floor("successful ends", count["zero"], 1)
    rep.floor("failed ends", count["failed"], 3)
    for h, (st, n) in handlers.items():
        g, byref = e.closure_body(h, st)
        if not rep.check("handler", g is not None, "main", "the handler of the route is not understood", f.span[0], short(e.path_to(n))):
            continue
        e2 = Engine(P, poison=False, keep_args=True, opaque=mains.library, hook=keep_request, monitors=[mains.Calls(SERVE)], logs=True)
        req = mk("arg", 1)
        run_closure(e2, h, st, g, byref, args=[req])
        rep.engine(e2, g)
        ends = 0
        for x in e2.ends:
            p = short(e2.path_to(x))
            if not rep.check("handler", x.kind == "return", g.name, "the handler does not answer", g.span[0], p):
                continue
            ends += 1
            calls = [c for c in x.st.mon[0] if x.val is c[2]]
            if rep.check("answer", len(calls) == 1, g.name, "the answer is not that of the file handler", g.span[0], p):
                rep.check("directory", field(calls[0][1][0], "position 1"), g.name, "another directory than that of the command line is served", g.span[0], p)
                rep.check("request", calls[0][1][1] is mk("deref", req) or calls[0][1][1] is req, g.name, "the file handler is given another request", g.span[0], p)
        rep.floor("ways to answer", ends, 1)
    rep.floor("handlers", len(handlers), 1)


def keep_request(c, st):
    if SERVE.search(server.bare(c.x.get("name") or c.tdef)):
        r = c.sym(st)
        return [(r, st, Event("call", "wruster_handlers::serve_static", c.args, r, c.ctx, c.block, c.x))]
    return mains.hook(c, st)


def zero_time(t):
    if t.k == "agg":
        return all(zero_time(x) for x in t.a[2])
    if t.k == "i":
        return t.a[0] == 0
    return t.k in ("app", "ret") and str(t.a[0]).split("::")[-1].startswith("from_") and all(zero_time(x) for x in t.a[1:] if hasattr(x, "k"))


def get_index(P):
    return conv.variants(P, "wruster::http::HttpMethod").get("GET", -1)
