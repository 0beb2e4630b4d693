"""P36: what made reading or writing a message fail is reported as what it is."""
from .common import *
from . import p01, p02, server, conv, wire

TIMED_OUT, NOT_CONNECTED = 22, 7
PASSED = re.compile(r"^wruster::http::headers::Headers::read_from(::<.*)?$|^wruster::http::Body::read_from(::<.*)?$")


class Failing(Monitor):
    """(last operation on the connection, "io" | "part" | "write", something of the message arrived)"""
    def __init__(self, op):
        self.op = op

    def init(self):
        return (None, None)

    def event(self, m, e, st, eng):
        if e.kind != "call" or e.ret is None:
            return m
        how = self.op(e)
        return (e.ret, how) if how else m


def reading(e):
    if PASSED.search(e.name):
        return "part"
    if p02.IO.search(e.name) or p02.COPY.search(e.name):
        return "io"


def writing(e):
    if wire.operation(None, None, e) is not None:
        return "io"


def produced(eng, st, r, nums):
    """the read r is known to have produced something: True, nothing: False, else None"""
    n = eng.proj(eng.proj(r, ("d", 0)), ("f", 0))
    z = eng.decide(st, eng.binop(st, "Lt", I(0), n))
    if z is None:
        y = eng.decide(st, eng.binop(st, "Eq", n, I(0)))
        z = None if y is None else not y
    return z


def check(rep, e, f, label, V):
    ends = 0
    for n in e.ends:
        if n.kind != "return":
            continue
        v, st = n.val, n.st
        r, how = st.mon[0][:2]
        k = known_variant(st, v)
        if k != 1:
            continue
        p = short(e.path_to(n))
        if v is r:
            # the operation's own result is handed on
            rep.check("kind", how == "part", label, "%s: the failure of the connection is not reported as an error of messages" % label, f.span[0], p)
            continue
        x = v.a[2][0] if v.k == "agg" else mk("fld", mk("as", v, 1), 0)
        err = failure(r) if r is not None else None
        failed = r is not None and known_variant(st, r) == 1
        ends += 1
        if how == "part" and failed:
            rep.check("kind", x is err, label, "%s: the failure of a part is reported as something else" % label, f.span[0], p)
            continue
        name = V.get(known_variant(st, x))
        if name is None:
            rep.check("kind", False, label, "%s: which error is reported is not understood: %s" % (label, show(x, 5)), f.span[0], p)
            continue
        if failed:
            is_, not_ = err_kind(e, st, err)
            if name == "Timeout":
                rep.check("kind", is_ == TIMED_OUT, label + "|timeout", "%s: a failure that is not known to be a timeout is reported as one" % label, f.span[0], p)
            elif name == "ConnectionClosed":
                rep.check("kind", is_ == NOT_CONNECTED, label + "|closed", "%s: a failure that is not known to be a closed connection is reported as one" % label, f.span[0], p)
            elif name == "Unknown":
                rep.check("kind", (is_ is not None and is_ != TIMED_OUT) or TIMED_OUT in not_, label + "|timeout lost", "%s: running out of time may be reported as an unknown error" % label, f.span[0], p)
                rep.check("kind", (is_ is not None and is_ != NOT_CONNECTED) or NOT_CONNECTED in not_, label + "|closed lost", "%s: a closed connection may be reported as an unknown error" % label, f.span[0], p)
            else:
                rep.bad("kind", label + "|blamed", "%s: a failing connection is blamed on the message (%s)" % (label, name), f.span[0], p)
        else:
            rep.check("kind", name != "Timeout", label + "|made up", "%s: a timeout is reported although nothing timed out" % label, f.span[0], p)
    return ends


def run(P, rep):
    rep.rules += ["on every path of the readers and writers of messages that ends with an error after an operation on the connection failed, the error is the translation of that failure: "
                  "timed out as a timeout, not connected as a closed connection, everything else as unknown, never as an invalid message; without such a failure no timeout is reported"]
    vs = conv.variants(P, "wruster::http::errors::HttpError") or conv.variants(P, "wruster::errors::HttpError")
    V = {i: n for n, i in vs.items()}
    if not rep.check("anchor", {"Timeout", "ConnectionClosed", "Unknown", "InvalidRequest"} <= set(vs), "errors", "the kinds of errors are not found"):
        return
    k = 0
    for label, f, kw in p01.entries(P, rep):
        if label in ("deciding persistence", "reading a body", "finding the body"):
            continue
        kw = dict(kw)
        e = Engine(P, monitors=[Failing(reading)], poison=False, numeric=True, keep_args=True, **kw)
        e.run(f)
        rep.engine(e, f)
        k += check(rep, e, f, label, V)
    for kind, f in wire.roots(P, rep):
        e = Engine(P, monitors=[Failing(writing)], opaque=wire.opaque, poison=False)
        e.run(f)
        rep.engine(e, f)
        k += check(rep, e, f, "writing a %s: %s" % (kind, f.name), V)
    rep.floor("failures reported", k, 12)
