"""P05: what a start line says is what the reader reports."""
from .common import *
from . import conv
from .p03 import HEADERS, BODY, payload, uncast

METHOD = re.compile(r"HttpMethod as std::str::FromStr>::from_str$")
STATUS = re.compile(r"StatusCode as std::convert::From<usize>>::from$")
UNTIL = re.compile(r"::(read_until|read_line|skip_until|read|read_exact|split|lines|read_to_end|read_to_string|fill_buf|consume)$")


def hook(c, st):
    n = c.x.get("name") or c.tdef
    if METHOD.search(n) or (c.tdef in ("core::str::<impl str>::parse", "std::str::FromStr::from_str") and "HttpMethod" in c.eng.P.types[c.destty]["s"]):
        return [(app("method", c.eng.content(st, c.args[0])), st)]
    if STATUS.search(n) or (c.tdef in ("std::convert::Into::into", "std::convert::From::from") and c.eng.P.types[c.destty]["s"].endswith("::StatusCode")):
        return [(app("status", c.args[0]), st)]
    return None


class Words(Monitor):
    """the pieces read: (delimiter, what the buffer then holds)"""
    def event(self, m, e, st, eng):
        if e.kind == "call" and UNTIL.search(e.name) and e.args and ("BufRead" in e.name or "io::Read" in e.name or "BufReader" in e.name):
            if len([x for x in m if isinstance(x, tuple)]) >= 6:
                return mark(m, "more than six pieces are read for one line")
            if e.name.endswith("read_until"):
                return m[:0] + tuple(x for x in m if isinstance(x, tuple)) + ((e.args[1], eng.content(st, e.args[2])),) + tuple(x for x in m if isinstance(x, str))
            return m + ((S(e.name.split("::")[-1]), e.args[-1]),)
        return m


def cut(e, st, x, whole, k):
    """x is the text of `whole` without its last k bytes"""
    for _ in range(4):
        if x.k == "app" and x.a[0] in ("utf8", "tostr", "clone"):
            x = x.a[1]
        elif x.k == "fld" and x.a[0].k == "as" and x.a[0].a[0].k == "app" and x.a[0].a[0].a[0] in ("from_utf8",):
            x = x.a[0].a[0].a[1]
        elif x.k == "ref":
            x = e.load(st, *x.a)
        else:
            break
    n = e.length(whole)
    lo = hi = None
    if x.k == "app" and x.a[0] == "slice" and x.a[1] is whole:
        lo, hi = x.a[2], x.a[3]
        return lo.k == "i" and lo.a[0] == 0 and hi is e.binop(st, "Sub", n, I(k))
    for _ in range(k):
        if x.k == "app" and x.a[0] in ("popped", "pop"):
            x = x.a[1]
            k -= 1
        elif x.k == "fld" and x.a[0].k == "as" and x.a[0].a[0].k == "app" and x.a[0].a[0].a[0] == "strip_suffix":
            y = x.a[0].a[0]
            k -= len(y.a[2].a[0]) if y.a[2].k in ("s", "bs") else 1
            x = y.a[1]
            if x.k == "app" and x.a[0] == "utf8":
                x = x.a[1]
    return x is whole and k == 0


def ends_in(e, st, whole, c, back):
    """the byte `back` places before the end of whole is known to be c"""
    at = e.proj(whole, ("i", e.binop(st, "Sub", e.length(whole), I(back))))
    s = e.intset(st, at)
    if s is not None and s == frozenset([c]):
        return True
    for t, f in st.facts.items():
        if f == ("in", frozenset([1])) and t.k == "app" and t.a[0] == "ends_with" and len(t.a) > 2 and t.a[2].k in ("s", "bs"):
            p = t.a[2].a[0]
            p = p.encode() if isinstance(p, str) else p
            if len(p) >= back and p[-back] == c and stem(t.a[1]) is whole:
                return True
        if f == ("v", 1) and t.k == "app" and t.a[0] == "strip_suffix" and t.a[2].k in ("s", "bs") and stem(t.a[1]) is whole:
            p = t.a[2].a[0]
            p = p.encode() if isinstance(p, str) else p
            if len(p) >= back and p[-back] == c:
                return True
    return False


def stem(x):
    while x.k == "app" and x.a[0] in ("utf8", "tostr", "clone"):
        x = x.a[1]
    return x


def request(P, rep):
    fs = sorted((f for f in fns(P, r"^wruster::http::Request::read_from::<") if not f.poly and "{closure" not in f.name), key=lambda f: f.name)
    if not fs:
        return rep.bad("anchor", "request", "reading a request was not found")
    f = fs[0]
    N = conv.field_names(P, "wruster::http::Request")
    V_ = conv.variants(P, "wruster::http::errors::HttpError")
    e = Engine(P, monitors=[Words()], poison=False, keep_args=True, hook=hook, opaque=lambda x, g: HEADERS.search(g.name) or BODY.search(g.name))
    e.run(f)
    rep.engine(e, f)
    k = wrong = 0
    for n in e.ends:
        if n.kind != "return":
            continue
        st, m = n.st, n.st.mon[0]
        words = [x for x in m if isinstance(x, tuple)]
        path = short(e.path_to(n))

        def need(okk, key, msg):
            rep.check("request line", bool(okk), key, msg, f.span[0], path)
        v = known_variant(st, n.val)
        for t, fct in st.facts.items():
            if t.k == "app" and t.a[0] == "method" and fct == ("v", 1):
                wrong += 1
                err = n.val.a[2][0] if n.val.k == "agg" and n.val.a[1] == 1 else None
                need(v == 1, "unknown method", "a request with an unknown method is accepted")
                need(err is not None and known_variant(st, err) == V_.get("InvalidRequest"), "kind", "an unknown method is not reported as an invalid request")
        if v == 1:
            continue
        k += 1
        need(len(words) == 3 and all(d.k == "i" for d, _ in words), "three words", "a request is accepted after reading %d pieces instead of the three words of its first line" % len(words))
        if len(words) != 3:
            continue
        (d1, w1), (d2, w2), (d3, w3) = words
        need([d.a[0] for d in (d1, d2, d3)] == [32, 32, 10], "separators", "the words of the request line are not separated by a space, a space and a line feed")
        if n.val.k != "agg":
            need(False, "request", "the request is not built from its parts")
            continue
        q = n.val.a[2][0]
        me, uri, ver = (e.proj(q, ("f", N[x])) for x in ("method", "uri", "version"))
        mt = me.a[0].a[0] if me.k == "fld" and me.a[0].k == "as" else None
        need(mt is not None and mt.k == "app" and mt.a[0] == "method" and cut(e, st, mt.a[1], w1, 1), "method", "the method is not the first word of the line (%s)" % show(me, 7)[:140])
        need(mt is None or known_variant(st, mt) == 0, "method known", "a method is used that may not be known")
        need(cut(e, st, uri, w2, 1), "target", "the target is not the second word of the line (%s)" % show(uri, 7)[:140])
        need(cut(e, st, ver, w3, 2), "version", "the version is not the last word of the line (%s)" % show(ver, 7)[:140])
        need(ends_in(e, st, w3, 13, 2), "line end", "a request line is accepted that may not end in CR LF")
    rep.floor("accepted requests", k, 1)
    rep.floor("unknown methods", wrong, 1)
    for what, n in marks(e, 0).items():
        rep.bad("request line", what, "reading a request: %s" % what, f.span[0], short(e.path_to(n)))


def response(P, rep):
    fs = sorted((f for f in fns(P, r"^wruster::http::Response::read_from::<") if not f.poly and "{closure" not in f.name), key=lambda f: f.name)
    if not fs:
        return rep.bad("anchor", "response", "reading a response was not found")
    f = fs[0]
    N = conv.field_names(P, "wruster::http::Response")
    e = Engine(P, monitors=[Words()], poison=False, numeric=True, keep_args=True, hook=hook, opaque=lambda x, g: HEADERS.search(g.name) or BODY.search(g.name))
    e.run(f)
    rep.engine(e, f)
    k = 0
    for n in e.ends:
        if n.kind != "return" or known_variant(n.st, n.val) == 1:
            continue
        st, m = n.st, n.st.mon[0]
        words = [x for x in m if isinstance(x, tuple)]
        path = short(e.path_to(n))

        def need(okk, key, msg):
            rep.check("status line", bool(okk), key, msg, f.span[0], path)
        k += 1
        need(len(words) == 3, "three parts", "a response is accepted after reading %d pieces instead of the three parts of its first line" % len(words))
        if len(words) != 3 or n.val.k != "agg":
            continue
        (d1, w1), (d2, w2), (d3, w3) = words
        need([d.a[0] if d.k == "i" else None for d in (d1, d2, d3)] == [32, 32, 10], "separators", "the parts of the status line are not separated by a space, a space and a line feed")
        s = e.proj(n.val.a[2][0], ("f", N["status"]))
        num = uncast(s.a[1]) if s.k == "app" and s.a[0] == "status" else None
        t = num.a[0].a[0] if num is not None and num.k == "fld" and num.a[0].k == "as" else None
        okk = t is not None and t.k == "app" and t.a[0].startswith("parse:u") and num.a[1] == 0
        if okk:
            x = t.a[1]
            okk = cut(e, st, x, w2, 1)
            while x.k == "app" and x.a[0] in ("trim", "trim_end", "trim_end_matches", "tostr"):
                x = x.a[1]
            okk = okk or stem(x) is w2
        need(okk, "status", "the status is not the number in the second part of the line (%s)" % show(s, 7)[:140])
        need(t is None or known_variant(st, t) == 0, "number", "a status is accepted that may be no number")
        lens = [e.length(w2), e.length(app("utf8", w2))]
        need(any(e.decide(st, e.binop(st, "Eq", z, I(4))) is True for z in lens), "three digits", "a status is accepted that may not be three characters long")
    rep.floor("accepted responses", k, 1)


def run(P, rep):
    rep.rules += ["on every path accepting a message, each field of its start line is, as a term, the text of the corresponding piece of input without its delimiter, and nothing else was read",
                  "what is not known to be a method, to end in CR LF, or to be a three character number is not accepted"]
    request(P, rep)
    response(P, rep)
