"""P26: a message made from parts carries exactly those parts."""
from .common import *
from . import server, conv, mains
from .p28 import walk
from .p33 import Added, text, content

ADD = re.compile(r"wruster::http::headers::Headers::add$")
A = lambda i: mk("arg", i)


def opaque(x, f):
    return ADD.search(server.bare(f.name)) is not None or value_opaque(x, f) or re.search(r"^wruster::http::Request::read_from", f.name) is not None


def constants(v):
    out = []
    for x in walk(v):
        if x.k == "s":
            out.append(x.a[0])
    return out


class Parts:
    def __init__(self, P, rep, e, f, n):
        self.P, self.rep, self.e, self.f, self.n = P, rep, e, f, n
        self.p = short(e.path_to(n))
        self.name = server.bare(f.name)

    def need(self, ok, what):
        return self.rep.check("parts", ok, self.name + "|" + what, "%s: %s" % (self.name, what), self.f.span[0], self.p)

    def fields(self, v, path):
        names = conv.field_names(self.P, path)
        if not self.need(v.k == "agg" and len(v.a[2]) == len(names) and bool(names), "what is made is not understood"):
            return None
        return {k: v.a[2][i] for k, i in names.items()}

    def some(self, v):
        return v.a[2][0] if v.k == "agg" and v.a[1] == 1 and v.a[2] else None

    def same(self, v, x):
        if v is x:
            return True
        v = mains.whole(self.e, self.n.st, v)
        return v is x or v.k == "app" and v.a[0] in ("string", "owned", "tostr", "bytes", "as_bytes") and self.same(v.a[1], x) or v.k == "ref" and v.a[0] == ("D", x)

    def length_of(self, v, x):
        return v.k == "app" and v.a[0] == "len" and self.same(v.a[1], x)

    def mime(self, v, want):
        return (v is want) if not isinstance(want, str) else constants(v) == [want]

    def body(self, v, typ, length, cont, limit=None):
        """the body v has this type, length and content; typ None: the whole body is given"""
        b = self.fields(v, "wruster::http::Body")
        if b is None:
            return
        if typ is not None:
            t = self.some(b["content_type"])
            self.need(t is not None and self.mime(t, typ), "the body does not have the type given")
        self.need(length(b["content_length"]), "the length of the body is not that of its content")
        c = content(self.e, self.n.st, b["content"], limit or (lambda l: False))
        self.need(c is not None and self.same(c, cont), "the content of the body is not what was given, from its start")
        if "bytes_read" in b:
            self.need(b["bytes_read"].k == "i" and b["bytes_read"].a[0] == 0, "a part of the new body counts as read")

    def headers(self, want, maybe=()):
        """exactly these headers were added: {lower case name: check}"""
        got = {}
        for _, args in self.n.st.mon[0]:
            h = args[1]
            if not self.need(h.k == "agg" and len(h.a[2]) == 2 and h.a[2][0].k == "s", "a header that is not understood is added"):
                return
            got.setdefault(h.a[2][0].a[0].lower(), []).append(text(h.a[2][1]))
        for k in sorted(set(got) | set(want)):
            if not self.need(k in want or k in maybe, "the header %s is made up" % k):
                continue
            f = want.get(k) or maybe[k]
            if k in want or k in got:
                self.need(len(got.get(k, ())) == 1 and f(got[k][0]), "the header %s is not announced as it is" % k)

    def plain_headers(self, h):
        names = constants(h)
        self.need(not names and (bool(self.n.st.mon[0]) or "empty()" in show(h, 6) or "new" in show(h, 6)), "there are headers nobody gave")


def status(P, v, want):
    vs = conv.variants(P, "wruster::http::status::StatusCode")
    return v.k == "agg" and v.a[1] == vs.get(want, -1)


def from_status(c, v):
    r = c.fields(v, "wruster::http::Response")
    if r:
        c.need(r["status"] is A(0), "the status is not the one given")
        c.need(r["body"].k == "agg" and r["body"].a[1] == 0, "there is a body nobody gave")
        c.headers({}, {"content-length": lambda x: x.k == "s" and x.a[0] == "0"})


def from_content(c, v):
    r = c.fields(v, "wruster::http::Response")
    if r:
        c.need(status(c.P, r["status"], "OK"), "the status is not 200")
        b = c.some(r["body"])
        if c.need(b is not None, "there is no body"):
            c.body(b, A(2), lambda x: x is A(1), A(0), lambda x: x is A(1))
        c.headers({"content-length": lambda x: x is A(1), "content-type": lambda x: x is A(2)})


def from_text(c, v):
    v = v.a[2][0] if v.k == "agg" and "Result" in str(v.a[0]) and v.a[1] == 0 else v
    r = c.fields(v, "wruster::http::Response")
    if r:
        c.need(status(c.P, r["status"], "OK"), "the status is not 200")
        b = c.some(r["body"])
        if c.need(b is not None, "there is no body"):
            c.body(b, "text/plain", lambda x: c.length_of(x, A(0)), A(0))
        c.headers({}, {"content-length": lambda x: c.length_of(x, A(0)), "content-type": lambda x: constants(x) == ["text/plain"]})


def version(c, v):
    vs = conv.variants(c.P, "wruster::http::version::Version")
    t = text(v)
    t = mains.whole(c.e, c.n.st, t)
    if t.k == "s":
        return t.a[0] == "HTTP/1.1"
    if t.k == "agg":
        return t.a[1] == vs.get("HTTP1_1", -1)
    # the constant of a generic function is not evaluated
    return "version::Version" in show(v, 8)


def from_body(c, v):
    r = c.fields(v, "wruster::http::Request")
    bf = conv.field_names(c.P, "wruster::http::Body")
    if not r:
        return
    c.need(r["method"] is A(1), "the method is not the one given")
    c.need(c.same(text(r["uri"]), A(2)), "the target is not the one given")
    c.need(version(c, r["version"]), "the version is not HTTP/1.1")
    c.need(c.some(r["body"]) is A(0), "the body is not the one given")
    ln, ty = mk("fld", A(0), bf["content_length"]), mk("fld", A(0), bf["content_type"])
    st = c.n.st
    has = known_variant(st, ty)
    want, maybe = {}, {}
    if has != 0:
        (want if has == 1 else maybe)["content-type"] = lambda x: x.k == "fld" and x.a[0].k == "as" and x.a[0].a[0] is ty or x is ty
    (maybe if is_zero(c.e, st, ln) else want)["content-length"] = lambda x: x is ln
    c.headers(want, maybe)


def from_value(c, v):
    r = c.fields(v, "wruster::http::Request")
    if not r:
        return
    c.need(r["method"] is A(2), "the method is not the one given")
    c.need(c.same(text(r["uri"]), A(3)), "the target is not the one given")
    c.need(version(c, r["version"]), "the version is not HTTP/1.1")
    b = c.some(r["body"])
    if c.need(b is not None, "there is no body"):
        if b.k == "ret":
            c.need(str(b.a[0]).split("::")[-1] in ("into", "from") and list(b.a[2]) == [A(0), A(1)], "the body is not made of the value and type given")
        else:
            c.body(b, A(1), lambda x: c.length_of(x, A(0)), A(0))


def into_body(c, v):
    c.body(v, A(1), lambda x: c.length_of(x, A(0)), A(0))


def body_of_text(c, v):
    c.body(v, "text/plain", lambda x: c.length_of(x, A(0)), A(0))


def body_new(c, v):
    b = c.fields(v, "wruster::http::Body")
    if b:
        c.need(b["content_type"] is A(0), "the body does not have the type given")
        c.need(b["content_length"] is A(1), "the body does not have the length given")
        c.need(c.same(b["content"], A(2)), "the body does not have the content given")
        c.need("bytes_read" not in b or b["bytes_read"].k == "i" and b["bytes_read"].a[0] == 0, "a part of the new body counts as read")


def handed(*order):
    def check(c, v):
        c.need(v.k == "ret" and list(v.a[2]) == [A(i) for i in order], "the parts are not handed on as they are given")
    return check


MAKERS = [
    ("a response from a status", r"^wruster::http::Response::from_status$", from_status),
    ("a response from content", r"^wruster::http::Response::from_content$", from_content),
    ("a response from text", r"^<wruster::http::Response as std::str::FromStr>::from_str$", from_text),
    ("a request from a body", r"^wruster::http::Request::from_body$", from_body),
    ("a request from a value", r"^<T as wruster::http::IntoRequest>::into$", from_value),
    ("a request from parts", r"^wruster::http::Request::from$", handed(0, 1, 2, 3)),
    ("a body from text and a type", r"^<.* as wruster::http::IntoBody>::into$", into_body),
    ("a body from text", r"^<wruster::http::Body as std::convert::From<&str>>::from$", body_of_text),
    ("a body from a value", r"^wruster::http::Body::from$", handed(0, 1)),
    ("a body from parts", r"^wruster::http::Body::new$", body_new),
]


def run(P, rep):
    rep.rules += ["on every path of the functions that make a message or a body: each part of what is made is the argument it stands for, the length of a text is its number of bytes, "
                  "the content is read from its start, and the headers added are exactly the length and the type of the body"]
    for label, pat, check in MAKERS:
        r = re.compile(pat)
        got, seen = [], set()
        for f in sorted((f for f in P.fns.values() if r.search(f.name) and f.unit == "wruster.lib"), key=lambda f: (f.poly, f.name)):
            if f.name not in seen and "{closure" not in f.name:
                seen.add(f.name)
                got.append(f)
        if not rep.check("anchor", bool(got), label, "no function that makes %s is found" % label):
            continue
        for f in got:
            e = Engine(P, monitors=[Added()], poison=False, keep_args=True, opaque=opaque)
            e.run(f)
            rep.engine(e, f)
            ends = 0
            for n in e.ends:
                if not rep.check("makes", n.kind == "return", f.name, "%s can panic" % f.name, f.span[0], short(e.path_to(n))):
                    continue
                ends += 1
                check(Parts(P, rep, e, f, n), n.val)
            rep.floor("ways to make " + label, ends, 1)
