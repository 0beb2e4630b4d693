"""P06: messages are written completely or an error is returned."""
from .common import *
from . import server, wire


class Complete(Monitor):
    """(operation whose result is still open, buffered destinations not flushed, failed?)"""
    def init(self):
        return (None, frozenset(), False)

    def event(self, m, e, st, eng):
        pend, dirty, failed = m[:3]
        rest = m[3:]
        op = wire.operation(eng, st, e)
        if op is not None:
            kind, dest, data = op
            s = wire.sink(eng, st, dest)
            if s is None:
                cell = dest if dest.k == "ref" else None
                s = cell if cell in dirty or any(cell is x[0] for x in dirty) else None
            if s is not None:
                if pend is not None and known_variant(st, pend[0]) != 0:
                    rest = mark(rest, "more is written although the result of %s was not looked at" % pend[1])
                if failed and kind != "flush":
                    rest = mark(rest, "more is written after a write failed")
                if kind == "part":
                    rest = mark(rest, "%s may write only a part of the data" % e.name)
                if s != "raw" and kind in ("all", "copy", "part"):
                    dirty = dirty | {s}
                return (((e.ret, e.name, s if kind == "flush" else None) if e.ret is not None else None), dirty, failed) + rest
        if pend is not None:
            k = learnt(e, pend[0])
            if k == 0:
                if pend[2] is not None:
                    dirty = dirty - {pend[2]}
                return (None, dirty, failed) + rest
            if k == 1:
                return (None, dirty, True) + rest
        return m


def run(P, rep):
    rep.rules.append("on every path through the writers of requests and responses, no operation on the destination follows one whose result was not found to be Ok; "
                     "Ok is returned only if every operation, including the final flush of a buffer, returned Ok; single write calls, which may be partial, are not used")
    n = 0
    for kind, f in wire.roots(P, rep):
        mon = Complete()
        e = Engine(P, monitors=[mon], opaque=wire.opaque, poison=False)
        e.run(f)
        rep.engine(e, f)
        ops = set()
        for x in e.all_events():
            if x.kind == "call" and wire.operation(e, None, x) is not None:
                ops.add((x.ctx, x.block))
        oks = 0
        for n in e.ends:
            if n.kind != "return":
                continue
            pend, dirty, failed = n.st.mon[0][:3]
            v = n.val
            k = known_variant(n.st, v)
            tail = pend is not None and v is pend[0]
            if k == 0:
                oks += 1
                rep.check("ok-after-failure", not failed, "%s:%s" % (kind, f.name), "the writer reports success after a write failed", f.span[0], short(e.path_to(n)))
                rep.check("unchecked", pend is None or known_variant(n.st, pend[0]) == 0, "%s:%s" % (kind, f.name), "the writer reports success without looking at the result of %s" % (pend and pend[1]), f.span[0], short(e.path_to(n)))
                rep.check("flush", not dirty, "%s:%s" % (kind, f.name), "the writer reports success although a buffer was not flushed", f.span[0], short(e.path_to(n)))
            elif k is None and not tail:
                rep.check("unknown-result", not failed and pend is None and not dirty, "%s:%s" % (kind, f.name), "the writer returns %s, which does not tell whether the writes succeeded" % show(v, 5), f.span[0], short(e.path_to(n)))
        rep.floor("successful ends of " + f.name, oks, 1)
        for why, n in marks(e, 0).items():
            rep.bad("complete", "%s:%s" % (kind, f.name), why, f.span[0], short(e.path_to(n)))
        rep.ok("complete", f.name, len(ops))
        rep.floor("operations of " + f.name, len(ops), 4)
