"""P07: the bytes written for a message are a well formed HTTP/1.1 message carrying exactly its fields."""
from .common import *
from . import server, conv, p08, wire

ADD = re.compile(r"^wruster::http::headers::Headers::add$")


def parts_of(eng, st, v):
    if v.k == "ref":
        v = eng.content(st, v)
    # bytes of a text
    while v.k == "app" and v.a[0] in ("bytes", "as_bytes", "utf8") and len(v.a) == 2:
        v = v.a[1]
    return p08.text([v])


class Grammar(Monitor):
    """(phase, parts of the current line, open outer header, open inner value, generated length, copy result, version/status terms)
    phase: start, headers, body, copied, done"""
    def __init__(self, P, kind, rep):
        self.P, self.kind = P, kind
        self.N = conv.field_names(P, "wruster::http::" + ("Response" if kind == "response" else "Request"))
        self.B = conv.field_names(P, "wruster::http::Body")
        self.H = conv.field_names(P, "wruster::http::headers::Header")
        self.version = conv.variants(P, "wruster::http::version::Version").get("HTTP1_1")
        self.lines = {}

    def init(self):
        return ("start", (), None, None, 0, None, frozenset(), None, None)

    # ---- recognising the message's own fields
    def field(self, st, eng, v, name):
        """v is the named field of the message"""
        v = conv.base(v)
        if v.k != "fld" or v.a[1] != self.N.get(name):
            return False
        b = conv.base(v.a[0])
        return b is mk("arg", 0) or b is mk("deref", mk("arg", 0))

    def event(self, m, e, st, eng):
        s = list(m[:9])
        rest = self.step(s, m[9:], e, st, eng)
        return tuple(s) + rest

    def step(self, s, rest, e, st, eng):
        ph, line, outer, inner, gen, cp, clones, has, body = s
        if e.kind == "call" and e.name.endswith("clone::Clone::clone") and e.ret is not None and e.args:
            a = e.args[0]
            if a.k == "ref":
                a = eng.load(st, a.a[0], a.a[1])
            if self.field(st, eng, a, "status"):
                s[6] = clones | {e.ret}
        if conv.is_call(e, conv.HGET):
            k = eng.content(st, e.args[1]) if e.args[1].k == "ref" else e.args[1]
            if k is S("Content-Length"):
                s[7] = e.ret
            return rest
        if has is not None and not isinstance(has, bool):
            k = learnt(e, has)
            if k is not None:
                s[7] = k == 1
        if self.body_of(st, eng, e, s):
            pass
        if isinstance(outer, V) and (inner is None or isinstance(inner, tuple)) and truth(e) is not None \
                and self.no_more(st, eng, outer, inner[1] if inner else I(0)):
            s[3] = "end"
        if conv.is_call(e, ADD):
            return self.added(s, rest, e, st, eng)
        if e.kind == "call" and e.name.endswith("Iterator::next") and ph in ("headers",):
            return self.next(s, rest, e, st, eng)
        op = wire.operation(eng, st, e)
        if op is None:
            if cp is not None:
                t = truth(e)
                if t is not None:
                    n = mk("fld", mk("as", cp[0], 0), 0)
                    want = cp[1]
                    if (t[0] == "Lt" and t[1] is n and t[2] is want and not t[3]) or (t[0] == "Eq" and {t[1], t[2]} == {n, want} and t[3]) \
                            or (t[0] == "Lt" and t[2] is n and t[1] is want and t[3]):
                        s[0], s[5] = "done", None
            return rest
        kind, dest, data = op
        if kind == "flush":
            return rest
        if kind == "copy":
            return self.copy(s, rest, e, st, eng, data)
        if data is None:
            return rest
        if ph in ("body", "copied", "done"):
            return mark(rest, "text is written after the head of the message")
        ps = parts_of(eng, st, data)
        for p in ps:
            if not isinstance(p, str):
                s[1] = s[1] + (p,)
                continue
            while "\r\n" in p:
                a, p = p.split("\r\n", 1)
                if a:
                    s[1] = s[1] + (a,)
                rest = self.endline(s, rest, st, eng)
                s[1] = ()
            if p:
                s[1] = s[1] + (p,)
        return rest

    def body_of(self, st, eng, e, s):
        """learn whether the message has a body"""
        x = subject(e)
        if x is not None and self.field(st, eng, x, "body"):
            k = learnt(e, x)
            if k is not None:
                s[8] = k
        return False

    def endline(self, s, rest, st, eng):
        ph, line, outer, inner, gen, cp, clones, has, body = s
        line = tuple(merge(line))
        shown = " ".join(repr(x) if isinstance(x, str) else show(x, 5) for x in line)
        if ph == "start":
            s[0] = "headers"
            ok = self.start_line(line, clones, st, eng)
            self.lines["start"] = shown
            return rest if ok else mark(rest, "the start line is written as %s" % shown)
        if ph != "headers":
            return mark(rest, "a line is written after the head of the message")
        if not line:
            s[0] = "body"
            if outer is not None and outer != "end":
                rest = mark(rest, "the head ends before all headers were written")
            if outer is None:
                rest = mark(rest, "the head ends without writing the headers of the message")
            if gen == 0 and self.needs_length(s):
                rest = mark(rest, "the head of a message without Content-Length ends without announcing the length")
            return rest
        if len(line) == 3 and line[1] in (": ", ":") and (inner is None or isinstance(inner, tuple)) and isinstance(outer, V) and name_of(line[0], outer):
            # the values are taken by their index: each one, in order
            v = line[2]
            while v.k == "deref":
                v = v.a[0]
            if v.k == "idx" and v.a[0] in values_of(outer):
                want = inner[1] if inner else I(0)
                if v.a[1] is not want:
                    rest = mark(rest, "a header value is skipped or written out of order")
                s[3] = ("ix", lin(v.a[1], 1))
                self.lines["header"] = "name: value by index"
                return rest
        if inner is not None and inner != "end" and len(line) == 3 and line[1] in (": ", ":"):
            o, i = outer, inner
            if name_of(line[0], o) and line[2] in (i, mk("deref", i)):
                s[3] = "written"
                self.lines["header"] = shown
                return rest
        if len(line) == 2 and isinstance(line[0], str) and line[0].lower().rstrip() == "content-length:" and self.length_value(st, eng, line[1], s):
            s[4] = gen + 1
            if gen:
                rest = mark(rest, "two lengths are announced")
            return rest
        if len(line) == 1 and isinstance(line[0], str) and line[0].lower() in ("content-length: 0", "content-length:0"):
            s[4] = gen + 1
            return rest if s[8] == 0 and not gen else mark(rest, "the length announced is not that of the body")
        return mark(rest, "a header line is written as %s" % shown)

    def needs_length(self, s):
        # the length of a request's body is announced by the client, see Announce
        return s[7] is not True and (self.kind == "response" or s[8] == 0)

    def start_line(self, line, clones, st, eng):
        def field(x, n):
            return self.field(st, eng, strip_str(x) if n == "method" else x, n)
        ver = lambda x: x.k == "app" and x.a[0] == "tostr" and x.a[1].k == "agg" and x.a[1].a[1] == self.version and "Version" in str(x.a[1].a[0]) if isinstance(x, V) else False
        if self.kind == "response":
            st_ = lambda x: isinstance(x, V) and x.k == "app" and x.a[0] == "tostr" and (x.a[1] in clones or self.field(st, eng, x.a[1], "status"))
            return (len(line) == 3 and ver(line[0]) and line[1] == " " and st_(line[2])) or (len(line) == 2 and line[0] == "HTTP/1.1 " and st_(line[1]))
        return len(line) == 5 and line[1] == " " and line[3] == " " and isinstance(line[0], V) and isinstance(line[2], V) and isinstance(line[4], V) \
            and field(line[0], "method") and field(line[2], "uri") and field(line[4], "version")

    def length_value(self, st, eng, v, s):
        """v is the text of the length of the body (0 without one)"""
        if v is S("0"):
            return s[8] == 0
        if not (v.k == "app" and v.a[0] == "tostr"):
            return False
        x = v.a[1]
        if x is I(0):
            return s[8] == 0
        return s[8] == 1 and self.is_length(st, eng, x)

    def is_length(self, st, eng, x):
        x = conv.base(x)
        if x.k == "deref":
            x = conv.base(x.a[0])
        return x.k == "fld" and x.a[1] == self.B.get("content_length") and self.of_body(st, eng, x.a[0])

    def of_body(self, st, eng, b):
        b = conv.base(b)
        while b.k in ("deref",):
            b = conv.base(b.a[0])
        return b.k == "fld" and b.a[1] == 0 and b.a[0].k == "as" and b.a[0].a[1] == 1 and self.field(st, eng, b.a[0].a[0], "body")

    def added(self, s, rest, e, st, eng):
        ph, line, outer, inner, gen, cp, clones, has, body = s
        h = e.args[0]
        h = eng.load(st, h.a[0], h.a[1]) if h.k == "ref" else h
        if not (self.field(st, eng, h, "headers") or (h.k == "mut" and gen > 0)):
            return rest
        if ph == "body":
            return mark(rest, "a header is added after the headers were written")
        h = e.args[1]
        if h.k == "ref":
            h = eng.content(st, h)
        if h.k == "agg" and len(h.a[2]) == 2:
            n, v = h.a[2][self.H["name"]], h.a[2][self.H["value"]]
            if n.k == "s" and n.a[0].lower() == "content-length":
                if has is not False:
                    rest = mark(rest, "a length is added although the message may already have one")
                if n.a[0] != "Content-Length":
                    rest = mark(rest, "the length is added under the name %r" % n.a[0])
                if gen:
                    rest = mark(rest, "two lengths are announced")
                if not self.length_value(st, eng, v, s):
                    rest = mark(rest, "the length announced is %s, which is not the length of the body" % show(v, 6))
                s[4] = gen + 1
                self.lines["length"] = self.lines.get("length", 0) + 1
                return rest
        return mark(rest, "the header %s is added to the message" % show(h, 5))

    def next(self, s, rest, e, st, eng):
        ph, line, outer, inner, gen, cp, clones, has, body = s
        it = e.args[0]
        it = eng.content(st, it) if it.k == "ref" else it
        some = e.ret is not None and e.ret.k == "agg" and e.ret.a[1] == 1
        el = e.ret.a[2][0] if some else None
        vals = isinstance(outer, V) and any(contains(it, x) for x in values_of(outer))
        if vals or self.of_headers(st, eng, strip_adapt(it)[1], gen):
            if strip_adapt(it)[0]:
                rest = mark(rest, "the headers are iterated through %s, which may leave some out" % strip_adapt(it)[0])
        root = e.args[0]
        turned = reversed_by(eng.load(st, root.a[0], ()) if root.k == "ref" and root.a[1] else it)
        it = strip_adapt(it)[1]
        if vals:
            if turned:
                rest = mark(rest, "the values of a header are written in the reverse of their order")
            if isinstance(inner, V):
                rest = mark(rest, "a header value is not written")
            s[3] = el if some else "end"
            return rest
        if not self.of_headers(st, eng, it, gen):
            return rest
        if isinstance(inner, V) or inner == "written":
            rest = mark(rest, "the values of a header are not all written")
        if isinstance(inner, tuple):
            rest = mark(rest, "the values of a header may not all be written")
        if isinstance(outer, V) and inner is None:
            rest = mark(rest, "a header is skipped")
        if outer == "end":
            rest = mark(rest, "the headers are written twice")
        s[2], s[3] = (el, None) if some else ("end", None)
        return rest

    def no_more(self, st, eng, outer, i):
        ls = [eng.length(x) for x in values_of(outer)]
        return any(eng.prove_le(st, l, i, 0) or eng.decide(st, eng.binop(st, "Lt", i, l)) is False for l in ls)

    def of_headers(self, st, eng, it, gen):
        """the iterator runs over the headers of the message"""
        if not (it.k == "app" and it.a[0] == "iter"):
            return False
        b = it.a[1]
        while b.k in ("fld", "upd", "deref"):
            if self.field(st, eng, b, "headers"):
                return True
            b = b.a[0]
        return b.k == "mut" and gen > 0

    def copy(self, s, rest, e, st, eng, src):
        ph, line, outer, inner, gen, cp, clones, has, body = s
        if src.k == "ref":
            src = eng.content(st, src)
        if ph != "body":
            return mark(rest, "the body is written before the end of the head, or twice")
        if src.k == "app" and src.a[0] == "take" and len(src.a) > 2:
            if not self.is_length(st, eng, src.a[2]):
                rest = mark(rest, "the body is limited to %s instead of its length" % show(src.a[2], 5))
            s[0], s[5] = "copied", (e.ret, src.a[2])
        else:
            s[0], s[5] = "copied", (e.ret, None)
            rest = mark(rest, "the body is copied without limiting it to the announced length")
        return rest


def strip_str(x):
    # the texts of methods ignore format options (P08)
    while x.k == "app" and (x.a[0] == "tostr" or x.a[0].startswith("spec")):
        x = x.a[1]
    return x


LOSSLESS = ("it:rev", "it:cloned", "it:copied", "it:peekable", "it:fuse", "it:inspect")


def strip_adapt(it):
    """(adaptor that may drop elements or None, iterator below the adaptors)"""
    lossy = None
    while (it.k == "app" and it.a[0] != "iter" and len(it.a) > 1 and isinstance(it.a[1], V)) or (it.k == "agg" and it.a[0].startswith("it:")):
        if it.a[0] not in LOSSLESS:
            lossy = it.a[0]
        it = it.a[1] if it.k == "app" else it.a[2][0]
    return lossy, it


def reversed_by(it):
    n = 0
    while it.k in ("app", "agg"):
        name = it.a[0]
        n += name == "it:rev"
        if it.k == "app" and name != "iter" and len(it.a) > 1 and isinstance(it.a[1], V):
            it = it.a[1]
        elif it.k == "agg" and name.startswith("it:"):
            it = it.a[2][0]
        else:
            break
    return n % 2 == 1


def merge(line):
    out = []
    for x in line:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def values_of(o):
    return [mk("fld", o, 1), mk("deref", mk("fld", o, 1))] + ([o.a[2][1], mk("deref", o.a[2][1])] if o.k == "agg" and len(o.a[2]) > 1 else [])


def name_of(x, o):
    if not isinstance(x, V) or not isinstance(o, V):
        return False
    n = [mk("fld", o, 0)] + ([o.a[2][0]] if o.k == "agg" and o.a[2] else [])
    return x in n or x in [mk("deref", y) for y in n]


class Announce(Grammar):
    """(has a body, look up of its length, has a length, added) of the request the client sends"""
    def init(self):
        return ("headers", (), None, None, 0, None, frozenset(), None, None)

    def field(self, st, eng, v, name):
        v = conv.base(v)
        return v.k == "fld" and v.a[1] == self.N.get(name) and conv.base(v.a[0]).k == "arg"

    def step(self, s, rest, e, st, eng):
        if wire.operation(eng, st, e) is not None or (e.name or "").endswith("Iterator::next"):
            return rest
        if e.kind == "call" and server.bare(e.name) == "wruster::http::Request::write":
            self.lines["request"] = e.where()
            if s[4] == 0 and s[7] is not True and s[8] != 0:
                rest = mark(rest, "a request with a body may be sent without announcing the length of the body")
            return rest
        return Grammar.step(self, s, rest, e, st, eng)


def client(P, rep):
    f = fn1(P, rep, r"^wruster::http::client::Client::run$")
    if f is None:
        return
    mon = Announce(P, "request", rep)
    e = Engine(P, monitors=[mon], opaque=server.api_opaque(keep=["http::client::Client::"]), poison=False)
    e.run(f)
    rep.engine(e, f)
    for why, n in marks(e, 0).items():
        rep.bad("client-length", f.name, why, f.span[0], short(e.path_to(n)))
    rep.floor("requests sent by the client", len(mon.lines), 1)
    rep.ok("client-length", mon.lines)


def run(P, rep):
    rep.rules.append("token language of the writers, on every path: the start line is version SP status (method SP uri SP version) CRLF, from the message's own fields; every value of "
                     "every header is written once as name ': ' value CRLF, with the name it is stored under; exactly one Content-Length is generated when there is none, equal to the "
                     "length of the body; a blank line ends the head once; then exactly the announced number of bytes of the body follows, or an error is returned")
    client(P, rep)
    for kind, f in wire.roots(P, rep):
        mon = Grammar(P, kind, rep)
        e = Engine(P, monitors=[mon], opaque=wire.opaque, poison=False)
        e.run(f)
        rep.engine(e, f)
        key = "%s:%s" % (kind, f.name)
        oks = 0
        for n in e.ends:
            if n.kind != "return" or known_variant(n.st, n.val) == 1:
                continue
            oks += 1
            ph, line, outer, inner, gen, cp, clones, has, body = n.st.mon[0][:9]
            tr = short(e.path_to(n))
            rep.check("head-complete", ph in ("body", "copied", "done") and not line, key, "success is reported in the middle of the head (%s)" % ph, f.span[0], tr)
            if ph == "body":
                rep.check("body-written", body == 0, key, "success is reported without writing the body", f.span[0], tr)
            rep.check("body-length", ph != "copied", key, "success is reported although fewer bytes than announced may have been copied", f.span[0], tr)
        rep.floor("successful ends of " + f.name, oks, 2)
        for why, n in marks(e, 0).items():
            rep.bad("grammar", key, why, f.span[0], short(e.path_to(n)))
        rep.floor("kinds of lines of " + f.name, len(mon.lines), 2)
        for k, v in mon.lines.items():
            rep.ok("grammar", "%s of a %s: %s" % (k, kind, v))
