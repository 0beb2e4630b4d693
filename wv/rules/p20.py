"""P20: every layer around a connection transfers the bytes of the connection unchanged: what is reported is what was moved."""
from .common import *

READ, WRITE, FLUSH = "std::io::Read::read", "std::io::Write::write", "std::io::Write::flush"
PLAIN = re.compile(r"^&?(mut )?std::net::TcpStream$")
OTHER_IO = ("std::io::Read::read_vectored", "std::io::Read::read_to_end", "std::io::Read::read_to_string", "std::io::Read::read_exact", "std::io::Write::write_all",
            "std::io::Write::write_vectored", "std::io::copy", "std::net::TcpStream::peek")


def layers(P, trait):
    """implementations of an i/o method of the types of the stream layers, instantiated"""
    return [f for f in fns(P, r"^<&?wruster::streams::.* as std::io::%s$" % trait) if "test_utils" not in f.name]


class Transfer(Monitor):
    """state: (moved so far, operation whose result is not known yet, last outcome: - / ok / fail, number of operations 0..2, marks)"""
    def __init__(self, op, buf, secure):
        self.op, self.buf, self.secure = op, buf, secure

    def init(self):
        return (I(0), None, "-", 0)

    def settle(self, m, st, eng):
        f, p, last, k = m[:4]
        if p is None:
            return m
        v = known_variant(st, p)
        if v is None:
            return m
        if v == 1:
            return (f, None, "fail", k) + m[4:]
        n = mk("fld", mk("as", p, 0), 0) if p.k != "agg" else p.a[2][0]
        return (eng.binop(st, "Add", f, n), None, "ok", k) + m[4:]

    def event(self, m, e, st, eng):
        m = self.settle(m, st, eng)
        if e.kind != "call":
            return m
        if e.name in OTHER_IO or (e.name in (READ, WRITE) and e.name != self.op):
            return mark(m, "another transfer than the one asked for is performed (%s)" % e.name.split("::")[-1])
        if e.name != self.op:
            return m
        if self.secure and PLAIN.search((e.info or {}).get("assoc", {}).get("self") or ""):
            m = mark(m, "bytes of an encrypted connection pass the encryption by")
        f, p, last, k = m[:4]
        b = e.args[1]
        off = None
        if b is self.buf:
            off = I(0)
        elif b.k == "ref" and b.a[0] == ("D", self.buf) and len(b.a[1]) == 1 and b.a[1][0][0] == "sl":
            off = b.a[1][0][1]
        r = (f, e.ret, "-", min(k + 1, 2)) + m[4:]
        if p is not None:
            r = mark(r, "a transfer is repeated without looking at the result of the one before")
        if off is None:
            return mark(r, "the bytes are moved through another buffer than the caller's")
        if off is not f and eng.decide(st, mk("op", "Eq", off, f)) is not True and not (zero(off) and eng.decide(st, mk("op", "Eq", f, I(0))) is True) \
                and eng.decide(st, mk("op", "Lt", I(0), f)) is not False:
            return mark(r, "a transfer does not start where the one before ended")
        if zero(off):
            r = (I(0),) + r[1:]
        return r


def zero(v):
    return v.k == "i" and v.a[0] == 0


class Flush(Monitor):
    def __init__(self, secure):
        self.secure = secure

    def init(self):
        return (0, None)

    def event(self, m, e, st, eng):
        if e.kind == "call" and e.name == FLUSH and not (self.secure and PLAIN.search((e.info or {}).get("assoc", {}).get("self") or "")):
            return (min(m[0] + 1, 2), e.ret)
        return m


INTERRUPTED = 35


def none_moved(e, st, filled):
    return is_zero(e, st, filled) or zero(filled) or e.decide(st, mk("op", "Eq", filled, I(0))) is True


def run(P, rep):
    rep.rules += ["the operations on the connection under every layer are applied to the caller's buffer (those of an encrypted connection to its session), the first at its start and each next one where the one before ended; "
                  "Ok(n) is returned only if n is the sum of what those operations reported, and a failure is not turned into success",
                  "an operation that moved bytes is not reported as an error of its own",
                  "flushing any layer flushes the connection once and returns its outcome"]
    k = 0
    for trait, op in (("Read>::read", READ), ("Write>::write", WRITE)):
        fs = layers(P, trait)
        rep.floor("implementations of " + trait, len(fs), 4)
        for f in fs:
            buf = mk("arg", 1)
            e = Engine(P, monitors=[Transfer(op, buf, "tls::Stream" in f.name)], poison=False)
            e.run(f)
            rep.engine(e, f)
            who = f.name[1:].split(" as ")[0].replace("wruster::streams::", "") + " " + trait.split("::")[-1]
            for b, n in marks(e, 0).items():
                rep.bad("transfer", who + ":" + b, "%s: %s" % (who, b), f.span[0], short(e.path_to(n)))
            T = e.monitors[0]
            okn = 0
            for n in e.ends:
                if n.kind != "return":
                    continue
                k += 1
                ends(rep, e, T, n, f, who, trait)
                okn += 1
            rep.floor("ends of " + who, okn, 2 if "tls::Stream" not in who else 1)
    fs = layers(P, "Write>::flush")
    rep.floor("implementations of flush", len(fs), 4)
    for f in fs:
        e = Engine(P, monitors=[Flush("tls::Stream" in f.name)], poison=False)
        e.run(f)
        rep.engine(e, f)
        who = f.name[1:].split(" as ")[0].replace("wruster::streams::", "") + " flush"
        for n in e.ends:
            if n.kind != "return":
                continue
            k += 1
            c, r = n.st.mon[0]
            if result_var(n.val) == 1:
                continue
            good = n.val is r or (c >= 1 and known_variant(n.st, r) == 0)
            rep.check("flush", good, who, "%s reports success without a successful flush of the connection" % who, f.span[0], short(e.path_to(n)))
    rep.note("%d ends of operations examined" % k) if hasattr(rep, "note") else None


def ends(rep, e, T, n, f, who, trait):
    m = T.settle(n.st.mon[0], n.st, e)
    filled, p, last, ops = m[:4]
    v = n.val
    path = lambda: short(e.path_to(n))
    if v is p and v is not None:
        rep.check("result", zero(filled) or e.decide(n.st, mk("op", "Eq", filled, I(0))) is True, who, "%s: what an earlier transfer moved is not counted" % who, f.span[0], path())
        return
    if p is not None:
        rep.bad("result", who, "%s returns without regard to the result of its transfer" % who, f.span[0], path())
        return
    rv = result_var(v)
    if rv is None:
        rv = known_variant(n.st, v)
    if rv == 1:
        if ops == 1 and last == "ok" and trait.startswith("Read"):
            none = is_zero(e, n.st, filled)
            rep.check("lost", none, who, "%s: bytes taken from the connection are dropped and an error is returned" % who, f.span[0], path())
        if trait.startswith("Write"):
            x = v.a[2][0] if v.k == "agg" else mk("fld", mk("as", v, 1), 0)
            is_, not_ = err_kind(e, n.st, x)
            # rearming an event does not wait: nothing interrupts it
            again = not (x.k == "fld" and any(y.k == "ret" and isinstance(y.a[0], str) and y.a[0].endswith("Poller::modify") for y in walk(x))) and (is_ == INTERRUPTED or is_ is None and INTERRUPTED not in not_)
            if again:
                rep.check("again", none_moved(e, n.st, filled), who, "%s: bytes are written and the operation may be reported as interrupted, to be repeated from its start" % who, f.span[0], path())
        return
    if rv is None:
        rep.bad("result", who, "%s returns something that is not the result of a transfer: %s" % (who, show(v)[:80]), f.span[0], path())
        return
    x = v.a[2][0] if v.k == "agg" else mk("fld", mk("as", v, 0), 0)
    e.numeric = True
    same = x is filled or (v.k == "agg" and e.decide(n.st, mk("op", "Le", x, filled)) is True and e.decide(n.st, mk("op", "Le", filled, x)) is True) or e.decide(n.st, mk("op", "Eq", x, filled)) is True
    rep.check("count", same, who, "%s reports %s bytes where %s were moved" % (who, show(x)[:60], show(filled)[:60]), f.span[0], path())
    if zero(x) and last != "ok":
        if trait.startswith("Read"):
            rep.bad("end", who, "%s reports the end of the connection that no operation reported" % who, f.span[0], path())
        elif last == "fail":
            rep.bad("end", who, "%s turns a failed transfer into success" % who, f.span[0], path())
