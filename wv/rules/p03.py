"""P03: the body of a message is exactly what its headers announce, taken from where its headers ended."""
from .common import *
from .p28 import LOSSY
from . import conv

GET = re.compile(r"^wruster::http::headers::Headers::get$")
HEADERS = re.compile(r"^wruster::http::headers::Headers::read_from(::<.*)?$")
BODY = re.compile(r"^wruster::http::Body::read_from(::<.*)?$")
COPY = re.compile(r"^std::io::copy$|::read_to_end$|::read_to_string$|^std::io::(util::)?Read::read$|^std::io::Read::read$")


def header_hook(c, st):
    """looking a header up is a function of the collection and the name, whatever the case of its letters"""
    if not GET.search(c.x.get("name") or "") and not GET.search(c.tdef):
        return None
    e = c.eng
    name = e.content(st, c.args[1])
    name = S(name.a[0].lower()) if name.k == "s" else name
    return [(app("header", c.args[0], name), st)]


class Keep(Monitor):
    """keeps what is known of the headers of interest"""
    def __init__(self, names, src):
        self.ts = tuple(app("header", src, S(n)) for n in names)

    def init(self):
        return self.ts


class AllOf(Monitor):
    """whether a walk over the values of a header compared each of them with a text: (element in hand, outcome)"""
    def __init__(self, h, text):
        self.h, self.t = h, text

    def init(self):
        return (None, "")

    def event(self, m, e, st, eng):
        cur, ph = m
        if e.kind == "call" and e.name.endswith("Iterator::next") and e.ret is not None and e.ret.k == "agg":
            if e.ret.a[1] == 0:
                it = eng.content(st, e.args[0])
                if any(x.k == "app" and LOSSY.search(str(x.a[0])) for x in walk(it)) or not any(x is self.h for x in walk(it)):
                    return m
                return (None, "all" if cur is None and ph in ("", "good", "all") else ph)
            els = [x for x in walk(e.ret) if x.k == "elem" or x.k == "app" and x.a[0] == "elem"]
            if len(els) == 1 and any(x is self.h for x in walk(els[0])) and not any(x.k == "app" and LOSSY.search(str(x.a[0])) for x in walk(els[0])):
                return (els[0], ph if ph != "all" and cur is None else "lost")
            return m
        if cur is not None and e.kind == "branch" and e.args and e.ret is not None and e.ret.k == "b":
            t, b = e.args[0], bool(e.ret.a[0])
            while t.k == "not":
                t, b = t.a[0], not b
            if not (t.k == "app" and t.a[0] == "eq" and len(t.a) == 3):
                return m
            x, y = t.a[1:]
            if x.k == "s":
                x, y = y, x
            while x.k == "deref":
                x = x.a[0]
            if x is cur and y.k == "s" and y.a[0] == self.t:
                return (None, ("good" if ph in ("", "good") else ph) if b else "bad")
        return m


def one(e, st, h):
    """(number of values known to be one, first value) of a present header"""
    v = e.deref(st, e.proj(e.proj(h, ("d", 1)), ("f", 0)))
    n = e.decide(st, e.binop(st, "Eq", e.length(v), I(1)))
    return n, e.proj(v, ("i", I(0))), v


def parsed(x, v):
    """x is the outcome of reading v as a number"""
    if x.k == "app" and x.a[0] in ("parse:usize", "parse:u64"):
        y = x.a[1]
        while y.k == "app" and y.a[0] in ("trim", "trim_start", "trim_end", "trim_matches"):
            y = y.a[1]
        return y is v
    return False


def payload(x):
    return mk("fld", mk("as", x, 0), 0)


def uncast(x):
    while x.k == "app" and x.a[0] in ("cast", "cast:u64", "cast:usize", "into", "from") and len(x.a) >= 2 and isinstance(x.a[1], V):
        x = x.a[1]
    return x


def parses(st, v):
    """every outcome of reading v as a number the path has looked at"""
    return [t for t in st.facts if parsed(t, v)]


def present(st, h):
    return known_variant(st, h)


def framing(P, rep):
    f = sorted([f for f in fns(P, r"^wruster::http::Body::read_from::<") if not f.poly and "{closure" not in f.name], key=lambda f: f.name)
    if not f:
        return rep.bad("anchor", "Body::read_from", "the function that finds the body of a message was not found")
    f = f[0]
    src = mk("arg", 1)
    mon = Keep(("transfer-encoding", "content-length", "content-type"), src)
    e = Engine(P, monitors=[mon, AllOf(mon.ts[0], "identity")], poison=False, keep_args=True, hook=header_hook)
    e.run(f)
    rep.engine(e, f)
    te, cl, ct = mon.ts
    some = none = errs = 0
    B_ = conv.field_names(P, "wruster::http::Body")
    for n in e.ends:
        if n.kind != "return":
            continue
        st, r = n.st, n.val
        path = short(e.path_to(n))

        def need(ok, key, msg):
            rep.check("framing", bool(ok), key, msg, f.span[0], path)
        # what is known of the transfer encoding
        k = present(st, te)
        te_ok = k == 0
        te_bad = False
        if k == 1:
            n1, v0, v = one(e, st, te)
            ident = e.decide(st, e.models.eqterm(e, st, v0, S("identity")))
            walked = st.mon[1][1]
            te_ok = n1 is True and (ident is True or walked == "all")
            te_bad = n1 is False or ident is False or walked == "bad"
        kc = present(st, cl)
        cl_bad = cl_zero = False
        v0 = None
        ps = []
        if kc == 1:
            n1, v0, v = one(e, st, cl)
            ps = parses(st, v0)
            cl_bad = n1 is False or any(known_variant(st, p) == 1 for p in ps)
            cl_zero = n1 is True and any(known_variant(st, p) == 0 and e.decide(st, e.binop(st, "Eq", payload(p), I(0))) is True for p in ps)
        kt = present(st, ct)
        ct_bad = False
        if kt == 1:
            v = e.deref(st, e.proj(e.proj(ct, ("d", 1)), ("f", 0)))
            first = e.proj(v, ("i", I(0)))
            ct_bad = e.decide(st, e.binop(st, "Eq", e.length(v), I(0))) is True or any(t.k == "app" and t.a[0].startswith("parse:") and t.a[1] is first and known_variant(st, t) == 1 for t in st.facts)
        if r.k != "agg" or r.a[1] is None:
            need(False, "result", "a path ends with a result whose outcome is not determined")
            continue
        if r.a[1] == 1:
            errs += 1
            need(te_bad or cl_bad or (ct_bad and not cl_zero), "refused", "a message is refused although neither its transfer encoding, its length nor its content type is known to be wrong")
            continue
        need(te_ok, "encoding", "a message is accepted although its transfer encoding may be another than a single 'identity'")
        b = r.a[2][0]
        if b.k != "agg" or b.a[1] is None:
            need(False, "result", "a path ends without it being determined whether there is a body")
            continue
        if b.a[1] == 0:
            none += 1
            need(kc == 0 or cl_zero, "no body", "a message is read as having no body although it may announce a length other than zero")
            continue
        some += 1
        body = b.a[2][0]
        ln = uncast(e.proj(body, ("f", B_["content_length"])))
        need(kc == 1 and n1 is True and ps, "one length", "a body is read although the message may not have exactly one content length")
        if not (kc == 1 and ps):
            continue
        good = [p for p in ps if known_variant(st, p) == 0 and payload(p) is ln]
        need(good, "length", "the length of the body is not the number in the header (%s)" % show(ln)[:80])
        need(not cl_zero and good and e.decide(st, e.binop(st, "Eq", payload(good[0]), I(0))) is False, "empty", "a length of zero yields a body")
        need(e.decide(st, e.binop(st, "Eq", e.proj(body, ("f", B_["bytes_read"])), I(0))) is True, "fresh", "a body that was not touched yet counts as partly read")
        c = e.proj(body, ("f", B_["content"]))
        while c.k == "ref":
            c = e.load(st, c.a[0], c.a[1])
        while c.k == "agg" and c.a[0].startswith(("std::io::BufReader", "std::boxed::Box")) and len(c.a[2]) == 1:
            c = c.a[2][0]
        need(c.k == "app" and c.a[0] == "take" and reader(c.a[1]) is mk("arg", 0) and uncast(c.a[2]) is ln, "content", "the content of the body is not limited to the announced length of the same connection (%s)" % show(c)[:100])
        t = e.proj(body, ("f", B_["content_type"]))
        if t.k == "agg" and t.a[1] == 0:
            need(kt == 0 or ct_bad, "no type", "a content type that was given is dropped")
        else:
            x = t.a[2][0] if t.k == "agg" and t.a[1] == 1 else t
            need(kt == 1 and x.k == "fld" and x.a[0].k == "as" and x.a[0].a[0].k == "app" and x.a[0].a[0].a[0].startswith("parse:") and x.a[0].a[0].a[1] is e.proj(e.deref(st, e.proj(e.proj(ct, ("d", 1)), ("f", 0))), ("i", I(0))),
                 "type", "the content type is not the one of the header (%s)" % show(x)[:80])
    rep.floor("paths with a body", some, 1)
    rep.floor("paths without a body", none, 1)
    rep.floor("paths refusing a message", errs, 2)


def reader(x):
    while x.k == "agg" and x.a[0].startswith(("std::io::BufReader", "std::boxed::Box")) and len(x.a[2]) == 1:
        x = x.a[2][0]
    return x


class Whole(Monitor):
    """(headers call: its reference, its result), (body call: reader, headers, result)"""
    def init(self):
        return (None, None, None, None, None)

    def event(self, m, e, st, eng):
        if e.kind != "call":
            return m
        if HEADERS.search(e.name):
            rest = m[5:]
            if m[1] is not None:
                rest = mark(rest, "the headers are read more than once")
            return (e.args[0], e.ret, None, None, None) + rest
        if BODY.search(e.name):
            rest = m[5:]
            if m[1] is None or known_variant(st, m[1]) != 0:
                rest = mark(rest, "the body is looked for without the headers having been read")
            else:
                h = eng.deref(st, e.args[1])
                if h is not payload(m[1]):
                    rest = mark(rest, "the body is looked for with other headers than those read")
                r = e.args[0]
                while r.k == "agg" and len(r.a[2]) == 1:
                    r = r.a[2][0]
                want = m[2]
                if r.k == "ref":
                    r = eng.load(st, r.a[0], r.a[1])
                if want is None or r is not want:
                    rest = mark(rest, "the body is not taken from the reader the headers were read from")
            return (m[0], m[1], m[2], e.args[1], e.ret) + rest
        return m

    def after(self, m, st, eng):
        return m


class Reader(Whole):
    def event(self, m, e, st, eng):
        if m[1] is not None and m[2] is None and m[0] is not None and m[0].k == "ref":
            # the reader as the reading of the headers left it
            v = eng.load(st, m[0].a[0], m[0].a[1])
            if v is not MOVED and v is not UNINIT:
                m = m[:2] + (v,) + m[2:][1:]
        return Whole.event(self, m, e, st, eng)


def whole(P, rep):
    for label, pat, ty in (("request", r"^wruster::http::Request::read_from::<", "wruster::http::Request"), ("response", r"^wruster::http::Response::read_from::<", "wruster::http::Response")):
        fs = sorted((f for f in fns(P, pat) if not f.poly and "{closure" not in f.name), key=lambda f: f.name)
        if not fs:
            rep.bad("anchor", label, "reading a %s was not found" % label)
            continue
        f = fs[0]
        N = conv.field_names(P, ty)
        e = Engine(P, monitors=[Reader()], poison=False, keep_args=True, opaque=lambda x, g: HEADERS.search(g.name) or BODY.search(g.name))
        e.run(f)
        rep.engine(e, f)
        k = 0
        for n in e.ends:
            if n.kind != "return":
                continue
            m, st = n.st.mon[0], n.st
            v = known_variant(st, n.val)
            if v == 1:
                continue
            k += 1
            path = short(e.path_to(n))
            okk = v == 0 and m[4] is not None and known_variant(st, m[4]) == 0
            rep.check("message", okk, label + "|complete", "a %s is returned without its headers and body having been read well" % label, f.span[0], path)
            if not okk:
                continue
            q = n.val.a[2][0]
            h, b = e.proj(q, ("f", N["headers"])), e.proj(q, ("f", N["body"]))
            rep.check("message", h is payload(m[1]), label + "|headers", "the headers of a %s are not those read (%s)" % (label, show(h)[:80]), f.span[0], path)
            rep.check("message", same_option(st, b, payload(m[4])), label + "|body", "the body of a %s is not the one read (%s)" % (label, show(b)[:80]), f.span[0], path)
        rep.floor("successes of reading a " + label, k, 1)
        for what, n in marks(e, 0).items():
            rep.bad("message", label + "|" + what, "reading a %s: %s" % (label, what), f.span[0], short(e.path_to(n)))
        if not marks(e, 0):
            rep.ok("message", label + "|order")


def same_option(st, a, b):
    if a is b:
        return True
    if a.k == "agg" and a.a[1] == 0:
        return known_variant(st, b) == 0
    return a.k == "agg" and a.a[1] == 1 and a.a[2] and a.a[2][0] is mk("fld", mk("as", b, 1), 0)


class Skip(Monitor):
    """the last transfer out of the body: (reader, result)"""
    def init(self):
        return (None, None)

    def event(self, m, e, st, eng):
        if e.kind == "call" and COPY.search(e.name) and e.args:
            x = e.args[0]
            for _ in range(4):
                if x.k != "ref":
                    break
                y = eng.load(st, x.a[0], x.a[1])
                if y.k not in ("app", "ref"):
                    break
                x = y
            return (x, e.ret) + m[2:]
        return m


def skipping(P, rep):
    """what is left of a body is skipped completely"""
    B_ = conv.field_names(P, "wruster::http::Body")
    f = fn1(P, rep, r"^wruster::http::Body::ensure_read$")
    if f:
        me = mk("arg", 0)
        e = Engine(P, monitors=[Skip()], poison=False, numeric=True, keep_args=True)
        e.run(f)
        rep.engine(e, f)
        k = 0
        init = lambda n: mk("fld", mk("deref", me), B_[n])
        for n in e.ends:
            if n.kind != "return":
                continue
            k += 1
            m, st = n.st.mon[0], n.st
            path = short(e.path_to(n))
            v = known_variant(st, n.val)
            body = e.deref(st, me)
            br, cl = e.proj(body, ("f", B_["bytes_read"])), e.proj(body, ("f", B_["content_length"]))
            if m[1] is None:
                rep.check("skip", v == 1 or e.decide(st, e.binop(st, "Lt", br, cl)) is False, "nothing left", "skipping a body reads nothing although some of it may be left", f.span[0], path)
                continue
            x, lim = m[0], None
            if x.k == "app" and x.a[0] == "take":
                x, lim = x.a[1], x.a[2]
            while x.k == "agg" and len(x.a[2]) == 1:
                x = x.a[2][0]
            src = e.proj(body, ("f", B_["content"]))
            rep.check("skip", x is src or x.k == "ref" and (e.load(st, *x.a) is src or x is me or x.a[1][-1:] == (("f", B_["content"]),)), "source", "what is skipped is not the content of the body (%s)" % show(x)[:80], f.span[0], path)
            if lim is not None:
                whole = uncast(lim) is app("saturating_sub", cl, br) or lim is cl or lim is e.binop(st, "Sub", cl, br) or e.prove_le(st, cl, lim, 0) or uncast(lim) in (cl, e.binop(st, "Sub", cl, br))
                rep.check("skip", whole, "all of it", "skipping a body may leave bytes unread (%s)" % show(lim)[:80], f.span[0], path)
            vr = known_variant(st, m[1])
            rep.check("skip", vr is not None and (v == vr or (vr == 0 and v == 1)), "failure", "a failure to skip the body is not reported, or success is", f.span[0], path)
        rep.floor("ends of skipping a body", k, 2)


class Reads(Monitor):
    def init(self):
        return (None, None, None)

    def event(self, m, e, st, eng):
        if e.kind == "call" and re.search(r"(io::Read>?|Read>)::read$|io::Read::read$", e.name):
            return (e.args[0], e.args[1], e.ret) + (m[3:] if m[2] is None else mark(m[3:], "the content is read more than once"))
        return m


def reading(P, rep):
    B_ = conv.field_names(P, "wruster::http::Body")
    f = fn1(P, rep, r"^<wruster::http::Body as std::io::Read>::read$")
    if not f:
        return
    me, buf = mk("arg", 0), mk("arg", 1)
    e = Engine(P, monitors=[Reads()], poison=False, keep_args=True)
    e.run(f)
    rep.engine(e, f)
    k = 0
    for n in e.ends:
        if n.kind != "return":
            continue
        m, st = n.st.mon[0], n.st
        path = short(e.path_to(n))
        old, new = mk("fld", mk("deref", me), B_["bytes_read"]), e.proj(e.deref(st, me), ("f", B_["bytes_read"]))
        for x in m[3:]:
            rep.bad("read", x, "reading a body: %s" % x[5:], f.span[0], path)
        if m[2] is None:
            rep.check("read", known_variant(st, n.val) == 1, "read", "reading a body succeeds without reading its content", f.span[0], path)
            continue
        v, vr = known_variant(st, n.val), known_variant(st, m[2])
        rep.check("read", m[1] is buf, "buffer", "a body is read into another buffer than the one given (%s)" % show(m[1])[:60], f.span[0], path)
        rep.check("read", n.val is m[2] or (v is not None and v == vr), "outcome", "the outcome of reading a body is not that of reading its content", f.span[0], path)
        if vr == 0:
            k += 1
            got = payload(m[2])
            rep.check("read", n.val is m[2] or uncast(e.proj(e.proj(n.val, ("d", 0)), ("f", 0))) is got, "count", "reading a body reports another number of bytes than were read", f.span[0], path)
            a = new
            rep.check("read", added(a, got), "progress", "the bytes read from a body are not counted exactly once (%s)" % show(new)[:80], f.span[0], path)
    rep.floor("reads of a body", k, 1)


def added(v, got):
    """v is something of the body plus got"""
    return v.k == "app" and v.a[0] in ("add", "saturating_add") and any(uncast(x) is got for x in v.a[1:]) and sum(1 for x in walk(v) if x is got) == 1


def run(P, rep):
    rep.rules += ["decision table of the framing: which of encoding, length and type is known on every path that accepts, refuses or limits a body",
                  "the body is taken from the very reader, and with the very headers, that reading the headers left",
                  "skipping the rest of a body reads all of it or fails; reading a body passes the read on and counts its bytes"]
    framing(P, rep)
    whole(P, rep)
    skipping(P, rep)
    reading(P, rep)
