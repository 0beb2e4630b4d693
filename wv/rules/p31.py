"""P31: a file is served whole and as it is, from the directory only."""
from .common import *
from . import server, conv

U = "wruster_handlers.lib"
FSOP = re.compile(r"^(<?std::fs::|std::os::unix::fs::|std::process::Command)")
META = re.compile(r"^std::fs::(metadata|File::metadata)$|^std::path::Path::metadata$")
OPEN = re.compile(r"^std::fs::(File::open|read|read_to_string)$")
CANON = re.compile(r"canonicalize$|absolute$")
ADDH = re.compile(r"headers::Headers::add$")
EMITS = re.compile(r"std::fs::(File::metadata|Metadata::)")


def ok(r):
    return mk("fld", mk("as", r, 0), 0)


def err(r):
    return mk("fld", mk("as", r, 1), 0)


class Serve(Monitor):
    """(directory resolved, metadata call, open call, is a file, failures seen ((call, kind known)), headers set)"""
    def __init__(self, uri):
        self.uri = uri

    def init(self):
        return (None, None, None, None, (), ())

    def event(self, m, e, st, eng):
        canon, md, op, isf, fails, hs = m[:6]
        rest = m[6:]
        for i, r in enumerate((canon, md, op)):
            if r is None:
                continue
            k = learnt(e, r)
            if k == 1 and r not in [x for x, _ in fails]:
                fails = fails + ((r, None),)
            kk = mk("app", "errkind", err(r))
            k = self.kind(e, kk)
            if k is not None:
                fails = tuple((x, k if x is r else y) for x, y in fails)
        if e.kind == "branch":
            t, b = e.args[0], e.ret.k == "b" and bool(e.ret.a[0])
            while t.k == "not":
                t, b = t.a[0], not b
            if t.k == "app" and t.a[0] in ("is_file", "is_dir") and (md is not None and contains(t, ok(md)) or self.place(eng, st, t.a[1], canon) is None):
                isf = b if t.a[0] == "is_file" else (False if b else isf)
        if e.kind == "call":
            n = server.bare(e.name)
            if CANON.search(n):
                if eng.content(st, e.args[0]) is not mk("arg", 0):
                    rest = mark(m[:6] + rest, "another directory than the one given is served")[6:]
                return (e.ret, md, op, isf, fails, hs) + rest
            if FSOP.search(n) or META.search(n):
                handle = op is not None and e.args and contains(conv.value(eng, st, e.args[0]), ok(op))
                of_md = md is not None and e.args and contains(conv.value(eng, st, e.args[0]), ok(md))
                if of_md:
                    pass
                elif not handle:
                    why = self.place(eng, st, e.args[0], canon) if e.args else "the file system is used in a way that is not understood"
                    if why:
                        rest = mark(m[:6] + rest, why)[6:]
                if META.search(n):
                    md = e.ret
                elif OPEN.search(n):
                    op = e.ret
                elif n == "std::fs::symlink_metadata":
                    pass
                return (canon, md, op, isf, fails, hs) + rest
            if ADDH.search(n) and len(e.args) > 1 and e.args[1].k == "agg" and len(hs) < 6:
                hs = hs + ((e.args[1].a[2][0], e.args[1].a[2][1]),)
        return (canon, md, op, isf, fails, hs) + rest

    def kind(self, e, kk):
        if e.kind == "variant" and e.args and e.args[0] is kk:
            return e.ret.a[0] if e.ret is not None and e.ret.k == "i" else "other"
        if e.kind == "branch" and e.args:
            t, b = e.args[0], e.ret.k == "b" and bool(e.ret.a[0])
            while t.k == "not":
                t, b = t.a[0], not b
            if t.k == "app" and t.a[0] == "eq" and kk in t.a[1:]:
                o = [x for x in t.a[1:] if x is not kk]
                if o and o[0].k == "agg":
                    return o[0].a[1] if b else "other"
        t = truth(e)
        if t is not None and t[0] == "Eq":
            for d, k in ((t[1], t[2]), (t[2], t[1])):
                if (d is kk or d.k == "discr" and d.a[0] is kk) and k.k in ("i", "agg"):
                    v = k.a[0] if k.k == "i" else k.a[1]
                    return v if t[3] else "other"
        return None

    def place(self, eng, st, x, canon):
        """why the path x is not that of the target inside of the directory"""
        v = eng.content(st, x) if x.k == "ref" else x
        v = conv.base(v)
        if not (v.k == "app" and v.a[0] == "join"):
            return "another path than the one in the directory is used"
        b, r = strip(v.a[1]), strip(v.a[2])
        if not (b is mk("arg", 0) or (canon is not None and b is ok(canon))):
            return "a path is used that does not start at the directory given"
        if r is self.uri or (r.k == "app" and r.a[0] == "slice" and r.a[1] is self.uri and r.a[2] is I(1) and (len(r.a) < 4 or r.a[3] is None or r.a[3] is eng.length(self.uri))):
            return None
        x = strip(r.a[0].a[0]) if r.k == "fld" and r.a[0].k == "as" else r
        if x.k == "app" and x.a[0] in ("strip_prefix", "trim_start_matches") and strip(x.a[1]) is self.uri and x.a[2] in (S("/"), I(47)):
            return None
        return "another file than the one asked for is used"


def strip(v):
    for _ in range(6):
        if v.k == "deref":
            v = v.a[0]
        elif v.k == "app" and v.a[0] in ("pathbuf", "as_ref"):
            v = v.a[1]
        else:
            break
    return v


def status_of(v):
    if v.k != "agg" or not v.a[2]:
        return None
    s = v.a[2][0]
    return s.a[1] if s.k == "agg" else None


def run(P, rep):
    rep.rules += ["every use of the file system is on the path of the target in the directory given; 200 only after the path was found to be a file and was opened, with the file's length, content and type; "
                  "404 exactly if there is no such file; another failure is a 500; no panic"]
    f = fn1(P, rep, r"^wruster_handlers::serve_static$", U)
    if f is None:
        return
    codes = conv.variants(P, "wruster::http::status::StatusCode")
    N = conv.field_names(P, "wruster::http::Request")
    B = conv.field_names(P, "wruster::http::Body")
    uri = mk("fld", mk("deref", mk("arg", 1)), N["uri"])
    e = Engine(P, monitors=[Serve(uri)], poison=False, logs=True, keep_args=True, opaque=lambda x, g: bool(ADDH.search(server.bare(g.name))))
    e.run(f)
    rep.engine(e, f)
    en = Engine(P, poison=False, logs=True, numeric=True, opaque=lambda x, g: bool(ADDH.search(server.bare(g.name))))
    en.run(f)
    in_range(rep, en, "range", "serve", "serving a file")
    for b, n in marks(e, 0).items():
        rep.bad("place", b, b, f.span[0], short(e.path_to(n)))
    served = missing = failed = 0
    for n in e.ends:
        p = short(e.path_to(n))
        w = lambda key, c, msg: rep.check(key, bool(c), "serve_static", msg, f.span[0], p)
        if n.kind == "panic":
            w("no-panic", False, "serving a file can panic in %s" % n.ctx.fn.name)
            continue
        if n.kind != "return":
            continue
        canon, md, op, isf, fails, hs = n.st.mon[0][:6]
        v, st = n.val, n.st
        s = status_of(v)
        if s == codes["OK"]:
            served += 1
            byread = op is not None and known_variant(st, op) != 1 and re.search(r"read", str(op.a[0]))
            w("opened", op is not None and not fails, "200 is answered although the file was not opened")
            w("file", isf or byread, "200 is answered for something that is no file")
            if op is None:
                continue
            body = v.a[2][2] if len(v.a[2]) > 2 else None
            body = body.a[2][0] if body is not None and body.k == "agg" and body.a[1] == 1 else None
            if not rep.check("body", body is not None and body.k == "agg", "serve_static", "200 is answered without the file", f.span[0], p):
                continue
            ln = body.a[2][B["content_length"]]
            lens = [x for x in ([app("len", ok(md))] if md is not None else []) + [e.length(ok(op))]]
            w("length", any(ln is x for x in lens) or md is not None and ln.k == "app" and ln.a[0] == "len" and contains(ln, ok(md)), "the length of the body is not that of the file")
            c = body.a[2][B["content"]]
            c = conv.value(e, st, c)
            w("content", whole(e, st, c, ok(op), ln), "the body is not the file that was asked for")
            mime = body.a[2][B["content_type"]] if "content_type" in B else None
            names = [(x.a[0].lower() if x.k == "s" else None, y) for x, y in hs]
            cl = [y for x, y in names if x == "content-length"]
            ct = [y for x, y in names if x == "content-type"]
            w("cl", all(y is ln or y is app("tostr", ln) for y in cl) and len(cl) <= 1, "the Content-Length given is not the length of the body")
            w("ct", len(ct) == 1 and any(y.k == "app" and y.a[0] == "from_path" or y.k == "ret" and "from_path" in str(y.a[0]) for y in walk(ct[0])), "the type given is not the one guessed from the name")
        elif s == codes["NotFound"]:
            missing += 1
            nf = [x for x, k in fails if k == 0]
            root = not fails and md is None and op is None
            w("missing", nf or root or isf is False, "404 is answered although the file is there or its state is not known")
            if root:
                w("root", small(e, st, uri), "404 is answered without looking for the file")
        elif s is not None and s >= codes["InternalServerError"] if s is not None else False:
            failed += 1
            w("failed", fails, "a failure is answered although there was none")
            w("failed-missing", not any(k == 0 and x is not canon for x, k in fails), "a missing file is not answered 404")
        elif s is not None:
            w("status", bool(fails), "a file is answered with another status than 200")
    for nm, k in (("answers with a file", served), ("answers 404", missing), ("answers of failures", failed)):
        rep.floor(nm, k, 1)


def small(e, st, uri):
    """the target is known to be empty or just the root"""
    return any(contains(t, uri) and (t.k == "op" or t.k == "app") for t in st.facts)


def whole(e, st, c, x, ln, d=0):
    """c reads x from its start to its end, of which it has ln"""
    if c is x:
        return True
    if d > 5:
        return False
    if c.k == "ref":
        z = e.load(st, c.a[0], c.a[1])
        return z is not c and whole(e, st, z, x, ln, d + 1)
    if c.k == "app" and c.a[0] == "take" and c.a[2] is ln:
        return whole(e, st, c.a[1], x, ln, d + 1)
    if c.k == "agg" and ("BufReader" in c.a[0] or "Cursor" in c.a[0] or "Box" in c.a[0]):
        return any(whole(e, st, y, x, ln, d + 1) for y in c.a[2] if isinstance(y, V))
    return False
