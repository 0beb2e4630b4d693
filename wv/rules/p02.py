"""P02: a message cut short (end of input or a failing read) ends the reading at once, with an error."""
from .common import *
from . import p01

IO = re.compile(r"^(std::io::(BufRead|Read|BufReader::<R>)::|<.* as std::io::(BufRead|Read)>::|<.* as std::io::(BufRead|Read)>::)(read_until|read|read_exact|read_line|read_to_end|read_to_string|read_vectored|read_buf|fill_buf|skip_until|lines|split|bytes)$")
COPY = re.compile(r"^std::io::(copy|read_to_string)$")
WHOLE = ("read_exact",)
INTERRUPTED = 35


class Input(Monitor):
    """the last read, if any, whose outcome is still to be looked at"""
    def __init__(self, parts):
        self.parts = parts

    def init(self):
        return (None, None)

    def event(self, m, e, st, eng):
        if e.kind != "call" or e.ret is None:
            return m
        part = self.parts(e)
        if not (part or IO.search(e.name) or COPY.search(e.name)):
            return m
        rest = m[2:]
        if m[0] is not None and not self.good(m, st, eng) and not self.interrupted(m, st, eng):
            rest = mark(rest, "something is read although the read before reported the end or failed")
        return (e.ret, S("part" if part or e.name.split("::")[-1] in WHOLE else e.name.split("::")[-1])) + rest

    def good(self, m, st, eng):
        r, how = m[0], m[1].a[0]
        if known_variant(st, r) != 0:
            return False
        if how == "part":
            return True
        n = eng.proj(eng.proj(r, ("d", 0)), ("f", 0))
        if how == "fill_buf":
            n = eng.length(eng.deref(st, n))
        return eng.decide(st, eng.binop(st, "Lt", I(0), n)) is True or eng.decide(st, eng.binop(st, "Eq", n, I(0))) is False

    def interrupted(self, m, st, eng):
        k = err_kind(eng, st, failure(m[0]))[0]
        return k == INTERRUPTED


def run(P, rep):
    rep.rules += ["on every path, a read is followed by another one, or by success, only if it is known to have produced something",
                  "with a reader that reports the end of the input or an error at its first read, every path ends with an error after that one read"]
    es = [x for x in p01.entries(P, rep) if x[0] in ("reading a request", "reading a response", "reading headers")]
    heads = re.compile(r"^wruster::http::headers::Headers::read_from(::<.*)?$")
    reads = 0
    for label, f, kw in es:
        mon = Input(lambda e: label != "reading headers" and heads.search(e.name))
        e = Engine(P, monitors=[mon], poison=False, numeric=True, keep_args=True, **kw)
        e.run(f)
        rep.engine(e, f)
        sites = {(x.ctx, x.block) for x in e.all_events() if x.kind == "call" and (IO.search(x.name) or COPY.search(x.name) or heads.search(x.name))}
        reads += len(sites)
        rep.floor("reads of " + label, len(sites), 1)
        k = 0
        for n in e.ends:
            if n.kind != "return":
                continue
            m = n.st.mon[0]
            v = known_variant(n.st, n.val)
            if v != 1 and m[0] is not None:
                k += 1
                rep.check("ended", mon.good(m, n.st, e), "%s|success" % label, "%s succeeds although the last read is not known to have produced anything" % label, f.span[0], short(e.path_to(n)))
            if v != 1 and m[0] is None:
                rep.check("ended", label == "none", "%s|unread" % label, "%s succeeds without reading anything" % label, f.span[0], short(e.path_to(n)))
        rep.floor("successes of " + label, k, 1)
        for what, n in marks(e, 0).items():
            rep.bad("ended", "%s|%s" % (label, what), "%s: %s" % (label, what), f.span[0], short(e.path_to(n)))
        if not marks(e, 0):
            rep.ok("ended", label)
        # nothing at all arrives
        e = Engine(P, monitors=[mon], poison=False, numeric=True, keep_args=True, eof=True)
        e.run(f)
        rep.engine(e, f)
        k = 0
        for n in e.ends:
            if n.kind == "return":
                k += 1
                rep.check("nothing", known_variant(n.st, n.val) == 1 and not any(isinstance(x, str) for x in n.st.mon[0]), label, "%s does not fail although nothing arrives" % label, f.span[0], short(e.path_to(n)))
        rep.floor("ends of %s without input" % label, k, 1)
    rep.floor("reads", reads, 5)
