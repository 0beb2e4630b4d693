"""P25: an action sees a path that is absolute and has no relative parts, the one the request was routed by."""
from .common import *
from . import server, conv

NORMF = r"^<std::path::PathBuf as wruster::router::Normalize>::normalize$"
NEXT = "std::iter::Iterator::next"
PREFIXC, ROOT, CUR, PARENT, NORMAL = range(5)
KINDS = {CUR: "'.'", PARENT: "'..'", NORMAL: "named", ROOT: "root"}


def plain(v):
    """v without the steps that give out the text of a path as it is"""
    for _ in range(12):
        if v.k == "fld" and v.a[0].k == "as":
            v = v.a[0].a[0]
        elif v.k == "deref":
            v = v.a[0]
        elif v.k == "app" and v.a[0] in ("to_str", "to_string_lossy", "into_string", "as_os_str"):
            v = v.a[1]
        else:
            break
    return v


class Given(Monitor):
    """(read result, normalised, path routed by)"""
    def __init__(self, P):
        self.N = conv.field_names(P, "wruster::http::Request")

    def init(self):
        return (None, None, None)

    def event(self, m, e, st, eng):
        r, norm, routed = m[:3]
        rest = m[3:]
        if conv.is_call(e, conv.READ):
            return (e.ret, None, None) + rest
        if r is None:
            return m
        uri = mk("fld", mk("fld", mk("as", r, 0), 0), self.N.get("uri"))
        if conv.is_call(e, conv.NORM):
            if plain(conv.value(eng, st, e.args[0])) is not uri:
                return mark(m, "something else than the target of the request is normalised")
            return (r, e.ret, routed) + rest
        if conv.is_call(e, conv.PREFIX) and len(e.args) > 1:
            v = conv.base(conv.value(eng, st, e.args[1]))
            if norm is None or plain(v) is not norm:
                return mark(m, "a request is routed by something else than its normalised target")
            return (r, norm, v) + rest
        if e.kind == "invoke" and len(e.args) > 1:
            a = e.args[1]
            if a.k == "agg" and a.a[2]:
                a = a.a[2][0]
            u = eng.proj(conv.value(eng, st, a), ("f", self.N.get("uri")))
            if routed is None or u is not routed and not (norm is not None and plain(u) is norm):
                return mark(m, "an action sees another target than the normalised one the request was routed by")
        return m


class Build(Monitor):
    """(rooted, component or None, its kind, values the path may have had before it, values it may have by now, ended, component accounted for)"""
    def init(self):
        return (False, None, None, (EMPTY,), (EMPTY,), False, True)

    def event(self, m, e, st, eng):
        rooted, comp, kind, old, new, end, used = m[:7]
        rest = m[7:]
        if e.kind == "branch":
            t, b = e.args[0], e.ret.k == "b" and bool(e.ret.a[0])
            while t.k == "not":
                t, b = t.a[0], not b
            if t.k == "app" and t.a[0] in ("has_root", "is_absolute") and t.a[1] is mk("arg", 0):
                return (b,) + m[1:]
        if e.kind == "call" and e.name == NEXT and e.ret is not None and e.ret.k == "agg" and e.args:
            it = eng.content(st, e.args[0])
            if comp is None and not end and not of_components(it):
                return m
            if any(y.k == "app" and re.match(r"it:(skip|take|step_by|rev|filter|skip_while|take_while)", str(y.a[0])) for y in walk(it)):
                rest = mark(m, "components of the path are left out")[7:]
            if not used and kind is not None:
                rest = mark(m[:7] + rest, "a %s component of the path is left out" % KINDS.get(kind, ""))[7:]
            if e.ret.a[1] == 1:
                return (rooted, e.ret.a[2][0], None, new, new, False, False) + rest
            return (rooted, None, None, new, new, True, True) + rest
        if comp is not None:
            k = learnt(e, comp)
            if k is not None:
                return (rooted, comp, k, old, old, end, k in (CUR, PREFIXC, ROOT)) + rest
        if kind == PARENT and not used:
            # the path above the one so far
            for o in old:
                q = app("parent", o)
                if known_variant(st, q) == 1 or learnt(e, q) == 1:
                    m = (rooted, comp, kind, old, (payload1(q), mk("deref", payload1(q)), app("join", EMPTY, payload1(q))), end, True) + rest
                    rooted, comp, kind, old, new, end, used = m[:7]
                    break
        if e.kind == "call" and e.name.endswith("PathBuf::push") and len(e.args) > 1:
            x = conv.value(eng, st, e.args[1])
            c, p = eng.ptr(e.args[0])
            v = eng.load(st, c, p)
            if kind == PARENT:
                return m[:4] + ((v,), end, used) + rest if v in new else mark(m, "something is added to the path for '..'")
            if kind == CUR:
                return mark(m, "something is added to the path for '.'")
            if v.k == "app" and v.a[0] == "join" and v.a[1] in old:
                if kind == NORMAL and (plain(x) is mk("fld", mk("as", comp, NORMAL), 0) or x is mk("fld", mk("as", comp, NORMAL), 0) or plain(x) is comp):
                    if used:
                        return mark(m, "a component is added to the path twice")
                    return (rooted, comp, kind, old, (v,), end, True) + rest
                if kind in (ROOT, PREFIXC) and (plain(x) is comp or x.k == "agg" and x.a[1] == ROOT or x is S("/") or isroot(x)):
                    return (rooted, comp, kind, old, (v,), end, True) + rest
                if comp is None and not end and (x is S("/") or isroot(x)):
                    return (rooted, comp, kind, (v,), (v,), end, used) + rest
            return mark(m, "something else than the component is added to the path")
        return m


def of_components(it):
    return any((y.k == "app" and y.a[0] == "components") or (y.k == "ret" and "components" in str(y.a[0])) for y in walk(it))


def isroot(x):
    return x.k == "fnv" or x.k == "app" and x.a[0] == "as_os_str" and x.a[1].k == "agg" and x.a[1].a[1] == ROOT


def payload1(x):
    return mk("fld", mk("as", x, 1), 0)


def normal(P, rep):
    f = fn1(P, rep, NORMF)
    if f is None:
        return
    e = Engine(P, monitors=[Build()], poison=False, logs=True, keep_args=True)
    e.run(f)
    rep.engine(e, f)
    en = Engine(P, poison=False, logs=True, numeric=True)
    en.run(f)
    in_range(rep, en, "range", "normalize", "normalising a path")
    known = [x for x in e.all_events() if x.kind == "call" and x.name.endswith("PathBuf::push") and contains_normal(x.args[1], e)]
    if not known:
        rep.notes.append("the normalisation does not add components to a path one by one: not judged")
        return
    for b, n in marks(e, 0).items():
        rep.bad("components", b, b, f.span[0], short(e.path_to(n)))
    k = 0
    for n in e.ends:
        p = short(e.path_to(n))
        if n.kind == "panic":
            rep.bad("no-panic", "normalize", "normalising a path can panic in %s" % n.ctx.fn.name, f.span[0], p)
            continue
        if n.kind != "return":
            continue
        rooted, comp, kind, old, new, end, used = n.st.mon[0][:7]
        st, v = n.st, n.val
        k += 1
        r = known_variant(st, v)
        if r == 0:
            x = v.a[2][0] if v.k == "agg" else mk("fld", mk("as", v, 0), 0)
            rep.check("rooted", rooted, "normalize", "a path that does not start at the root is accepted", f.span[0], p)
            rep.check("whole", end, "normalize", "the path is accepted before all of its components were looked at", f.span[0], p)
            rep.check("result", not end or x in new, "normalize", "what is returned is not the path made of the components", f.span[0], p)
        elif r == 1:
            rep.check("refused", (comp is None and not rooted) or (kind == PARENT and not used), "normalize", "a path is refused that stays below the root", f.span[0], p)
    rep.floor("ends of the normalisation", k, 3)


def contains_normal(x, e):
    return any(y.k == "as" and y.a[1] == NORMAL for y in walk(x))


def run(P, rep):
    rep.rules += ["on every connection job: what is normalised is the request's target; what it is routed by and what the action sees is the result of that, as it is",
                  "the normalisation refuses a path not starting at the root, adds every named component in order, takes one component away for '..' and refuses when there is none, ignores '.', and looks at all components"]
    js = conv.jobs(P, rep)
    for j in js:
        e = conv.run_job(P, rep, j, opaque=server.api_opaque(), poison=False, logs=True, monitors=[Given(P)])
        evs = list(e.all_events())
        rep.floor("actions called (%s)" % j[0], len({(x.ctx, x.block) for x in evs if x.kind == "invoke"}), 1)
        rep.floor("normalisations (%s)" % j[0], len({(x.ctx, x.block) for x in evs if conv.is_call(x, conv.NORM)}), 1)
        ms = marks(e, 0)
        for b, n in ms.items():
            rep.bad("target", j[0] + ":" + b, b, j[1].span[0], short(e.path_to(n)))
        if not ms:
            rep.ok("target", j[0])
    normal(P, rep)
