"""P33: the dummy server answers for every configured route what its configuration says, and reports failure."""
from .common import *
from . import server, conv, mains
from .p28 import elem_of, walk

U = "wrusdummy.bin"
CFG = "wrusdummy::config::"
NEXT = "std::iter::Iterator::next"
LOSSY = re.compile(r"^it:(skip|take|step_by|skip_while|take_while|map_while|filter|filter_map|dedup|unique)")
MAP = re.compile(r"HashMap|BTreeMap|Vec")
SKIP = "a configured route is left out"
ARGS = re.compile(r"^std::env::args$")
FROMSTR = re.compile(r"^wruster::http::HttpMethod as std::str::FromStr|^<wruster::http::HttpMethod as std::str::FromStr>::from_str$|^std::str::FromStr::from_str$")


class Routes(Monitor):
    """(element in hand, routes added for it, "" | "iterating" | "done", marks and calls)"""
    def __init__(self, check):
        self.check, self.seen, self.routers = check, {}, set()

    def init(self):
        return (None, 0, "")

    def event(self, m, e, st, eng):
        cur, n, ph = m[:3]
        if e.kind != "call":
            return m
        if e.name == NEXT and e.ret is not None and e.ret.k == "agg":
            el = elem_of(e.ret)
            args = any(x.k == "ret" and str(x.a[0]).split("::")[-1] in ("args", "args_os") for x in walk(e.ret)) if el is not None else False
            if args:
                return m
            if cur is not None and n == 0:
                m = mark(m, SKIP)
            if e.ret.a[1] == 0:
                return (None, 0, "done" if ph == "iterating" or ph == "" else ph) + m[3:]
            if el is None:
                return m
            if any(y.k == "app" and LOSSY.search(str(y.a[0])) for y in walk(el)):
                m = mark(m, SKIP)
            return (el, 0, "iterating") + m[3:]
        name = server.bare(e.name)
        if name.endswith("router::Router::add") and len(e.args) == 4:
            if cur is None:
                return mark(m, "a route is added that is not configured")
            if n:
                m = mark(m, "a configured route is added more than once")
            args = [mains.whole(eng, st, a) for a in e.args]
            self.routers.add(args[0])
            for why in self.check(eng, st, cur, args):
                m = mark(m, why)
            self.seen.setdefault((e.ctx, e.block, args[3], cur), (args[3], st.copy(), cur, e))
            return (cur, 1, ph) + m[3:]
        if name == "wruster::Server::run" or name == "wruster::Server::run_tls":
            if cur is not None or ph != "done":
                m = mark(m, "the server is started before every configured route was added")
        return m


def same(x, root):
    """x is root, remembered without its inner parts"""
    return x.k == root.k and x.k in ("elem", "app") and elem_of(x) is x and len(x.a) == len(root.a) and x.a[-1] == root.a[-1] \
        and any(y.k == "cut" or y.k == "app" and y.a[0] == "cut" for y in walk(x))


def below(x, root):
    """the path of fields leading from root to x, None when x is not a part of root"""
    p = []
    for _ in range(32):
        if x is root or same(x, root):
            return tuple(reversed(p))
        if x.k == "fld":
            p.append(x.a[1])
            x = x.a[0]
        elif x.k == "deref":
            x = x.a[0]
        elif x.k == "ref" and x.a[0][0] == "D" and not x.a[1]:
            x = x.a[0][1]
        elif x.k in ("as",) and x.a[1] in (0, 1) and len(x.a) == 2 and False:
            x = x.a[0]
        else:
            return None
    return None


def payload(x):
    """what is inside the Ok x was taken out of"""
    return x.a[0].a[0] if x.k == "fld" and x.a[1] == 0 and x.a[0].k == "as" and x.a[0].a[1] == 0 else None


def run(P, rep):
    rep.rules += ["on every path of the program: with two arguments the configuration is read from the file named by the second, one route is added for every configured one before the server is started on the address named by the first, under its path and method; "
                  "its handler answers the status, content, type and length configured for that route; "
                  "the status of the process is 0 only when waiting for the server succeeded, and another one otherwise"]
    rep.assumptions += ["the YAML reader fills the fields of the configuration as their names say"]
    f = fn1(P, rep, r"^wrusdummy::main$", U)
    if f is None:
        return
    rt, rs = conv.field_names(P, CFG + "Route"), conv.field_names(P, CFG + "Response")
    rq = conv.field_names(P, "wruster::http::Response")
    if not rep.check("anchor", {"path", "method", "response"} <= set(rt) and {"status", "content", "content_type"} <= set(rs) and {"status", "headers", "body"} <= set(rq), "config", "the fields of the configuration are not found"):
        return
    PATH, METHOD, RESP = rt["path"], rt["method"], rt["response"]

    def check(eng, st, el, args):
        route = () if "values" in show(el, 8) else (1,)
        got = below(args[1], el)
        if got is None or got != route + (PATH,):
            yield "a route is not added under the path configured for it"
        x = payload(args[2])
        src = None
        if x is not None and known_variant(st, x) == 0:
            if x.k == "ret" and str(x.a[0]).endswith("from_str") and x.a[2]:
                src = mains.whole(eng, st, x.a[2][0])
            elif x.k == "app" and str(x.a[0]).startswith("parse:") and "HttpMethod" in str(x.a[0]):
                src = mains.whole(eng, st, x.a[1])
        got = below(src, el) if src is not None else None
        if got is None or got != route + (METHOD,):
            yield "a route is not added for the method configured for it"

    mo = Routes(check)
    e = Engine(P, poison=False, keep_args=True, opaque=mains.library, hook=mains.hook,
               monitors=[mo, mains.Calls(re.compile(r"^wruster::Server::|^std::fs::(File::open|read)|^std::fs::OpenOptions::open|^serde_yaml::from_|^wruster::router::Router::new"))])
    e.run(f)
    rep.engine(e, f)
    for b, n in marks(e, 0).items():
        rep.bad("routes", b, b, f.span[0], short(e.path_to(n)))

    def argument(x, k):
        """x is the k-th argument of the program (an argument taken by other means than by its position is not judged)"""
        if x is None or not any(y.k == "ret" and str(y.a[0]).split("::")[-1] in ("args", "args_os") for y in walk(x)):
            return False
        y = x
        while y.k in ("deref", "fld", "as"):
            y = y.a[0]
        if y.k in ("app", "ret", "idx") and (y.k == "idx" or str(y.a[0]).split("::")[-1] in ("idx", "nth")):
            i = [z for z in y.a if hasattr(z, "k") and z.k == "i"] or [z for t in y.a if isinstance(t, tuple) for z in t if hasattr(z, "k") and z.k == "i"]
            return not i or i[0].a[0] == k
        return True

    count = {"zero": 0, "failed": 0, "started": 0}
    for n in e.ends:
        st, p = n.st, short(e.path_to(n))
        running = waited = None
        opened, parsed = False, False
        for name, args, ret in st.mon[1]:
            if name.startswith("std::fs::"):
                rep.check("config", argument(args[-1], 2), "main", "the configuration is not read from the file of the second argument", f.span[0], p)
                opened = True
            if name.startswith("serde_yaml::from_"):
                parsed = known_variant(st, ret) == 0
            if name == "wruster::Server::from_timeouts" and args and args[0].k == "agg":
                from .p34 import zero_time
                for t in args[0].a[2]:
                    rep.check("time", not zero_time(t), "main", "a time limit of the connections is zero", f.span[0], p)
            if name in ("wruster::Server::run", "wruster::Server::run_tls"):
                count["started"] += 1
                rep.check("once", running is None, "main", "the server is started twice", f.span[0], p)
                running = (ret, args)
                rep.check("address", argument(args[1], 1), "main", "the server does not listen on the address of the first argument but on " + show(args[1], 8), f.span[0], p)
                rep.check("config", opened and parsed, "main", "the server is started although its configuration could not be read", f.span[0], p)
                rep.check("router", args[2] in mo.routers, "main", "the server is given another router than the one the routes were added to", f.span[0], p)
            if name == "wruster::Server::wait":
                rep.check("wait", running is not None and args[0] is running[1][0], "main", "another server is waited for", f.span[0], p)
                waited = ret
        s = mains.status(e, n)
        if not rep.check("status", s is not None, "main", "the status the process ends with is not understood", f.span[0], p):
            continue
        done = waited is not None and known_variant(st, waited) == 0 and known_variant(st, running[0]) == 0
        if s == 0:
            count["zero"] += 1
            rep.check("success", done, "main", "the process reports success although %s" % ("the server failed" if waited is not None else "the server was not waited for"), f.span[0], p)
        else:
            count["failed"] += 1
            rep.check("failure", not done, "main", "the process reports failure although nothing failed", f.span[0], p)
            if running is not None and known_variant(st, running[0]) == 0:
                rep.check("leave", waited is not None, "main", "the process ends while the server is running", f.span[0], p)
            rep.check("ends", n.kind == "exit" or n.kind == "return", "main", "the program panics", f.span[0], p)
    rep.floor("starts", count["started"], 1)
    rep.floor("successful ends", count["zero"], 1)
    rep.floor("failed ends", count["failed"], 3)
    for h, st, el, ev in mo.seen.values():
        handler(P, rep, e, h, st, el, rs, rq, RESP)
    rep.floor("routes added", len(mo.seen), 1)


def handler(P, rep, e, h, st, el, rs, rq, RESP):
    g, byref = e.closure_body(h, st)
    if not rep.check("handler", g is not None, "main", "the handler of a route is not understood: " + show(h, 4)):
        return
    op = re.compile(r"wruster::http::status::StatusCode|wruster::http::headers::Headers::add|^<?(serde_yaml|env_logger|mime)::")
    e2 = Engine(P, poison=False, keep_args=True, opaque=lambda x, k: op.search(k.name) is not None, hook=mains.hook, monitors=[Added()], logs=True)
    req = mk("arg", 1)
    run_closure(e2, h, st, g, byref, args=[req])
    rep.engine(e2, g)
    e2.P_body = conv.field_names(P, "wruster::http::Body")
    ends = 0
    for x in e2.ends:
        p = short(e2.path_to(x))
        if not rep.check("handler", x.kind == "return", g.name, "the handler does not answer", g.span[0], p):
            continue
        ends += 1
        answer(rep, e2, x, el, rs, rq, RESP, g, p)
    rep.floor("ways to answer", ends, 1)


def text(x):
    """the value a header's text is made of"""
    while x.k == "app" and x.a[0] in ("tostr", "string", "owned"):
        x = x.a[1]
    return x


def answer(rep, e, n, el, rs, rq, RESP, g, p):
    def is_part(x, name):
        got = below(x, el) if x is not None else None
        return got is not None and got[-2:] == (RESP, rs[name])

    def is_type(x):
        m = payload(x) if x is not None else None
        return m is not None and m.k == "app" and str(m.a[0]).startswith("parse:Mime") and is_part(m.a[1], "content_type") or is_part(x, "content_type")

    def is_len(x):
        return x is not None and x.k == "app" and x.a[0] == "len" and is_part(x.a[1], "content")
    v = mains.whole(e, n.st, n.val)
    if not rep.check("answer", v.k == "agg" and len(v.a[2]) == len(rq), g.name, "the response is not understood", g.span[0], p):
        return
    s = mains.whole(e, n.st, v.a[2][rq["status"]])
    for _ in range(4):
        if s.k == "ret" and str(s.a[0]).split("::")[-1] == "clone":
            s = mains.whole(e, n.st, s.a[2][0])
    ok = s.k == "ret" and str(s.a[0]).split("::")[-1] == "from" and is_part(mains.whole(e, n.st, s.a[2][0]), "status")
    rep.check("status", ok, g.name, "the status answered is not the one configured for the route", g.span[0], p)
    b = mains.whole(e, n.st, v.a[2][rq["body"]])
    if rep.check("body", b.k == "agg" and b.a[1] == 1, g.name, "the response has no body", g.span[0], p):
        b = b.a[2][0]
        bf = e.P_body
        t = b.a[2][bf["content_type"]]
        rep.check("type", t.k == "agg" and t.a[1] == 1 and is_type(t.a[2][0]), g.name, "the content type answered is not the one configured for the route", g.span[0], p)
        rep.check("length", is_len(b.a[2][bf["content_length"]]), g.name, "the length answered is not that of the content configured for the route", g.span[0], p)
        c = content(e, n.st, b.a[2][bf["content"]], is_len)
        rep.check("content", c is not None and is_part(c, "content"), g.name, "the content answered is not the one configured for the route from its start", g.span[0], p)
    heads = {}
    for k, args in n.st.mon[0]:
        h = args[1]
        if h.k == "agg" and len(h.a[2]) == 2 and h.a[2][0].k == "s":
            heads.setdefault(h.a[2][0].a[0].lower(), []).append(text(h.a[2][1]))
    for name, f, what in (("content-length", is_len, "length"), ("content-type", is_type, "type")):
        hs = heads.get(name, [])
        rep.check("header", len(hs) == 1 and f(hs[0]), name, "the response does not announce the %s of the content" % what, g.span[0], p)


def content(e, st, x, limit):
    """what the reader x yields from its start: through boxes, buffers and cursors at position 0"""
    for _ in range(12):
        if x.k == "ref":
            y = mains.whole(e, st, x)
            if y is x:
                return None
            x = y
            continue
        if x.k == "agg":
            n = str(x.a[0])
            rest = [y for y in x.a[2]]
            if "Cursor" in n:
                if len(rest) > 1 and not any(y.k == "i" and y.a[0] == 0 for y in rest):
                    return None
                x = [y for y in rest if y.k != "i"][0]
                continue
            if len(rest) == 1:
                x = rest[0]
                continue
            return None
        if x.k == "app" and x.a[0] == "take" and limit(x.a[2]):
            x = x.a[1]
            continue
        if x.k == "app" and x.a[0] in ("bytes", "as_bytes", "string", "owned", "buffered"):
            x = x.a[1]
            continue
        return x
    return None


class Added(Monitor):
    def event(self, m, e, st, eng):
        if e.kind == "call" and server.bare(e.name).endswith("Headers::add"):
            return m + (("add", tuple(mains.whole(eng, st, a) for a in e.args)),)
        return m
