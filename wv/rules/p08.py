"""P08: the protocol vocabulary (status codes, methods, versions) is a faithful two way table."""
from .common import *

CODES = {"Continue": 100, "SwitchingProtocols": 101, "OK": 200, "Created": 201, "Accepted": 202, "NonAuthoritativeInformation": 203,
         "NoContent": 204, "ResetContent": 205, "PartialContent": 206, "MultipleChoices": 300, "MovedPermanently": 301, "Found": 302,
         "SeeOther": 303, "NotModified": 304, "UseProxy": 305, "TemporaryRedirect": 307, "BadRequest": 400, "Unauthorized": 401,
         "PaymentRequired": 402, "Forbidden": 403, "NotFound": 404, "MethodNotAllowed": 405, "NotAcceptable": 406,
         "ProxyAuthenticationRequired": 407, "RequestTimeOut": 408, "Conflict": 409, "Gone": 410, "LengthRequired": 411,
         "PreconditionFailed": 412, "RequestEntityTooLarge": 413, "RequestURITooLarge": 414, "UnsupportedMediaType": 415,
         "RequestedRangeNotSatisfiable": 416, "ExpectationFailed": 417, "InternalServerError": 500, "NotImplemented": 501,
         "BadGateway": 502, "ServiceUnavailable": 503, "GatewayTimeOut": 504, "HTTPVersionNotSupported": 505}
METHODS = ["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"]
VERSIONS = {"HTTP1_0": "HTTP/1.0", "HTTP1_1": "HTTP/1.1", "HTTP2": "HTTP/2"}


def enum(P, path):
    for t in P.types:
        if t["k"] == "adt" and t["s"] == path and t.get("akind") == "Enum":
            return t
    return None


def ends_of(x):
    """(before, after) when the argument is before + x + after"""
    pre = post = ""
    for _ in range(6):
        while x.k == "deref":
            x = x.a[0]
        if x is mk("arg", 0):
            return pre, post
        if not (x.k == "fld" and x.a[1] in (0, "0") and x.a[0].k == "as" and x.a[0].a[1] == 1 and x.a[0].a[0].k == "app"):
            return None
        y = x.a[0].a[0]
        if y.a[0] not in ("strip_prefix", "strip_suffix") or y.a[2].k not in ("s", "i"):
            return None
        t = y.a[2].a[0] if y.a[2].k == "s" else chr(y.a[2].a[0])
        if y.a[0] == "strip_prefix":
            pre = t + pre
        else:
            post = post + t
        x = y.a[1]
    return None


class Tests(Monitor):
    """the constants the argument was found equal to"""
    def event(self, m, e, st, eng):
        if e.kind == "branch" and e.ret is B(1) and e.args:
            t = e.args[0]
            if (t.k == "app" and t.a[0] == "eq") or (t.k == "op" and t.a[0] == "Eq"):
                x, y = t.a[1], t.a[2]
                for p, q in ((x, y), (y, x)):
                    if p is mk("arg", 0) and q.k in ("s", "i") and q not in m:
                        return m + (q,)
                    w = ends_of(p) if q.k == "s" else None
                    if w is not None and S(w[0] + q.a[0] + w[1]) not in m:
                        return m + (S(w[0] + q.a[0] + w[1]),)
        return m


def evalfn(P, rep, f, args=None, pin=None, eng=None):
    e = Engine(P, monitors=[Tests()], **(eng or {}))
    facts = {mk("deref", mk("arg", 0)): ("v", pin)} if pin is not None else None
    if pin is not None and P.types[f.locals[1]]["k"] == "adt":
        facts = {mk("arg", 0): ("v", pin)}
    e.run(f, args, facts=facts)
    rep.engine(e, f)
    return e


def returned(e):
    out = []
    for n in e.ends:
        if n.kind == "return":
            v = n.val
            if v.k == "ref":
                v = e.content(n.st, v)
            out.append((v, n))
    return out


def written(e):
    """texts written to the formatter (argument 1) on each path"""
    out = []
    for n in e.ends:
        if n.kind != "return":
            continue
        parts = []
        failed = False
        for x in e.path_to(n):
            if x.kind == "call" and len(x.args) > 1 and x.args[0] is mk("arg", 1):
                a = x.args[1]
                failed = failed or x.ret is not None and known_variant(n.st, x.ret) == 1
                if a.k == "i":
                    a = S(chr(a.a[0]))
                parts.append(e.content(n.st, a) if a.k == "ref" else a)
        if not (failed and n.val.k == "agg" and n.val.a[1] == 1):
            out.append((parts, n))
    return out


def text(parts):
    """flattened literal/term list"""
    out = []
    for p in parts:
        if p.k == "app" and p.a[0] in ("fmt", "cat"):
            for x in text([x for x in p.a[1:] if isinstance(x, V)]):
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
        elif p.k == "s" and out and isinstance(out[-1], str):
            out[-1] += p.a[0]
        elif p.k == "s":
            out.append(p.a[0])
        else:
            out.append(p)
    return out


def run(P, rep):
    rep.rules += ["each named status converts to its number, is the only one to do so, and that number converts back to it; any other number n gives "
                  "the extension status n, which converts back to n; the text of a status is its number, a space and its reason; clone keeps the status",
                  "each method and version is written as its token, that token parses to it, and parsing accepts a text only after comparing it, "
                  "byte for byte, with the token of the value it returns"]
    status(P, rep)
    for path, table in (("wruster::http::HttpMethod", {m: m for m in METHODS}), ("wruster::http::version::Version", VERSIONS)):
        words(P, rep, path, table)


def status(P, rep):
    t = enum(P, "wruster::http::status::StatusCode")
    if t is None:
        rep.bad("anchor", "StatusCode", "the status type is gone")
        return
    to = fn1(P, rep, r"for usize>::from$|usize as std::convert::From<&wruster::http::status::StatusCode>>::from$")
    frm = fn1(P, rep, r"StatusCode as std::convert::From<usize>>::from$")
    disp = fn1(P, rep, r"StatusCode as std::fmt::Display>::fmt$")
    reason = fn1(P, rep, r"StatusCode::reason$")
    clone = fn1(P, rep, r"StatusCode as std::clone::Clone>::clone$")
    if None in (to, frm, disp, reason, clone):
        return
    names = [v[0] for v in t["variants"]]
    ext = [i for i, v in enumerate(t["variants"]) if v[1]]
    self_ = mk("deref", mk("arg", 0))
    seen = {}
    for i, nm in enumerate(names):
        e = evalfn(P, rep, to, pin=i)
        vals = {v for v, _ in returned(e)}
        if i in ext:
            rep.check("to-number", vals == {mk("fld", mk("as", self_, i), 0)}, nm, "the extension status does not convert to its own number: %s" % [show(v) for v in vals], to.span[0])
        else:
            num = list(vals)[0].a[0] if len(vals) == 1 and list(vals)[0].k == "i" else None
            rep.check("to-number", num is not None and (nm not in CODES or CODES[nm] == num), nm,
                      "status %s converts to %s, expected %s" % (nm, [show(v) for v in vals], CODES.get(nm)), to.span[0])
            rep.check("distinct", num not in seen, nm, "statuses %s and %s have the same number" % (nm, seen.get(num)), to.span[0])
            seen[num] = nm
            if num is not None:
                e = evalfn(P, rep, frm, args=[I(num)])
                vals = {v for v, _ in returned(e)}
                rep.check("from-number", len(vals) == 1 and list(vals)[0].k == "agg" and list(vals)[0].a[1] == i, nm,
                          "number %d converts to %s, expected status %s" % (num, [show(v) for v in vals], nm), frm.span[0])
        # reason and text
        e = evalfn(P, rep, reason, pin=i)
        rs = {v for v, _ in returned(e)}
        r = list(rs)[0].a[0] if len(rs) == 1 and list(rs)[0].k == "s" else None
        rep.check("reason", r is not None and "\r" not in r and "\n" not in r, nm, "the reason of %s is not one fixed line" % nm, reason.span[0])
        e = evalfn(P, rep, disp, pin=i)
        for parts, n in written(e):
            tx = text(parts)
            want = [app("tostr", app("from", S("usize"), mk("arg", 0))), " " + (r or "")]
            if i in ext and tx[:1] == [app("tostr", mk("fld", mk("as", self_, i), 0))]:
                tx = want[:1] + tx[1:]
            alt = ["%s %s" % (list(seen)[-1] if i not in ext else "", r)]
            rep.check("text", tx == want or (i not in ext and tx == alt), nm, "status %s is written as %s, expected its number, a space and its reason" % (nm, [x if isinstance(x, str) else show(x) for x in tx]),
                      disp.span[0])
        rep.floor("ways to write " + nm, len(written(e)), 1)
        e = evalfn(P, rep, clone, pin=i)
        for v, n in returned(e):
            good = v is self_ or (v.k == "agg" and v.a[1] == i and all(x is mk("fld", mk("as", self_, i), j) for j, x in enumerate(v.a[2])))
            rep.check("clone", good, nm, "the clone of %s is %s" % (nm, show(v)), clone.span[0])
    # every other number
    e = evalfn(P, rep, frm)
    other = 0
    for v, n in returned(e):
        if v.k != "agg":
            rep.bad("from-number", "symbolic", "conversion from a number returns %s" % show(v), frm.span[0])
            continue
        i = v.a[1]
        if i in ext:
            other += 1
            rep.check("from-number", v.a[2] == (mk("arg", 0),), "extension", "an unknown number is stored as %s" % show(v), frm.span[0])
        elif "/in" not in str(i):
            # reached only for exactly its number
            f = n.st.facts.get(mk("arg", 0))
            good = any(y.k == "i" and CODES.get(names[i], y.a[0]) == y.a[0] for y in n.st.mon[0]) \
                or (f is not None and f[0] == "in" and f[1] == frozenset([CODES.get(names[i])]))
            rep.check("from-number", good, "only:" + names[i], "status %s is also produced by other numbers" % names[i], frm.span[0], short(e.path_to(n)))
    rep.floor("unknown numbers", other, 1)


def words(P, rep, path, table):
    t = enum(P, path)
    short_ = path.split("::")[-1]
    if t is None:
        rep.bad("anchor", path, "the type is gone")
        return
    disp = fn1(P, rep, r"^<?%s as std::fmt::Display>::fmt$" % path)
    parse = fn1(P, rep, r"^<?%s as std::str::FromStr>::from_str$" % path)
    if disp is None or parse is None:
        return
    names = [v[0] for v in t["variants"]]
    tok = {}
    for i, nm in enumerate(names):
        e = evalfn(P, rep, disp, pin=i)
        ws = [text(p) for p, _ in written(e)]
        one = ws[0][0] if ws and all(w == ws[0] for w in ws) and len(ws[0]) == 1 and isinstance(ws[0][0], str) else None
        rep.check("token", one is not None and (nm not in table or table[nm] == one), "%s:%s" % (short_, nm), "%s is written as %s, expected %s" % (nm, ws, table.get(nm)), disp.span[0])
        rep.check("distinct", one not in tok.values(), "%s:%s" % (short_, nm), "%s is written like another value: %s" % (nm, one), disp.span[0])
        tok[i] = one
        if one is not None:
            e = evalfn(P, rep, parse, args=[ref_s(one)])
            rs = {v for v, _ in returned(e)}
            good = len(rs) == 1 and all(v.k == "agg" and v.a[1] == 0 and v.a[2][0].k == "agg" and v.a[2][0].a[1] == i for v in rs)
            rep.check("parse", good, "%s:%s" % (short_, nm), "the token %r parses to %s" % (one, [show(v) for v in rs]), parse.span[0])
    e = evalfn(P, rep, parse)
    arg = mk("arg", 0)
    oks = 0
    for v, n in returned(e):
        if v.k != "agg":
            rep.bad("parse-only", short_, "parsing returns %s" % show(v), parse.span[0])
        elif v.a[1] == 0:
            oks += 1
            w = v.a[2][0]
            want = tok.get(w.a[1]) if w.k == "agg" else None
            good = S(want or "") in n.st.mon[0]
            rep.check("parse-only", good, "%s:%s" % (short_, want), "a text other than %r is accepted as %s" % (want, show(w)), parse.span[0], short(e.path_to(n)))
    rep.floor("accepted texts of " + short_, oks, len(names))


def ref_s(s):
    return const_ref(S(s))
