"""What a program of the workspace does from the start of its process to the end: ends, exit statuses, calls of the library."""
from .common import *
from . import server

LIB = re.compile(r"^<?wruster(_handlers)?::")
FAKE = re.compile(r"^<?(wruster|wruster_handlers|clap|clap_builder|env_logger|serde_yaml|mime)::")
SERVER = re.compile(r"^wruster::Server::(run|run_tls|wait)$")
LOGMW = re.compile(r"^wruster_handlers::log_middleware$")


def library(x, g):
    return FAKE.search(g.name) is not None


def hook(c, st):
    """the logging middleware answers as the handler it is given does (P32)"""
    if LOGMW.search(server.bare(c.name)) and c.args:
        r = c.args[0]
        return [(r, st, Event("call", c.name, c.args, r, c.ctx, c.block, c.x))]
    if SERVER.search(server.bare(c.name)):
        # the server is the same one afterwards
        r = c.sym(st)
        return [(r, st, Event("call", c.name, c.args, r, c.ctx, c.block, c.x))]
    return None


def whole(eng, st, x, depth=6):
    """the value behind the references x"""
    for _ in range(depth):
        if x is not None and x.k == "arg" and ("D", x) in st.mem:
            y = eng.load(st, ("D", x), ())
            return x if y is mk("deref", x) else y
        if x is None or x.k != "ref":
            return x
        y = eng.load(st, x.a[0], x.a[1])
        if y is x:
            return x
        x = y
    return x


class Calls(Monitor):
    """the calls matching `which` on the path: (bare name, argument values, result), in order"""
    def __init__(self, which, most=24):
        self.which, self.most = which, most

    def event(self, m, e, st, eng):
        if e.kind != "call" or len(m) >= self.most:
            return m
        n = server.bare(e.name)
        if not self.which.search(n):
            return m
        return m + ((n, tuple(whole(eng, st, a) for a in e.args), e.ret),)


EXIT = re.compile(r"^std::process::exit$|^std::process::abort$")


def const(x):
    return x.a[0] if x is not None and x.k == "i" else None


def status(eng, n):
    """the status the process ends with at this end: 0, "fail", or None when it is not understood"""
    if n.kind == "panic":
        return "fail"
    if n.kind == "exit":
        ev = n.val
        if server.bare(ev.name) == "std::process::abort":
            return "fail"
        c = const(ev.args[0]) if ev.args else None
        return None if c is None else (0 if c == 0 else "fail")
    if n.kind == "return":
        v = whole(eng, n.st, n.val)
        if v.k == "agg" and "Result" in str(v.a[0]):
            return 0 if v.a[1] == 0 and (not v.a[2] or status_value(v.a[2][0]) == 0) else ("fail" if v.a[1] == 1 else None)
        return status_value(v)
    return None


def status_value(v):
    if v.k == "ret" and str(v.a[0]) == "from" and v.a[2]:
        c = const(v.a[2][0])
        return None if c is None else (0 if c == 0 else "fail")
    if v.k == "agg":
        if "ExitCode" in str(v.a[0]):
            x = v
            while x.k == "agg" and len(x.a[2]) == 1:
                x = x.a[2][0]
            c = const(x)
            return None if c is None else (0 if c == 0 else "fail")
        if not v.a[2]:
            return 0
    if v.k in ("unit", "undef"):
        return 0
    return None
