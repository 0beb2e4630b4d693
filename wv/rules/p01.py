"""P01: no message can make reading it panic: every index, slice, arithmetic operation and unwrap on the way is discharged."""
from .common import *
from . import conv

HEAD_VALUES = re.compile(r"^wruster::http::headers::Headers::get$")
PARSED = re.compile(r"(from_str|\bparse)")


def entries(P, rep):
    out = []
    parts = (("reading headers", r"^wruster::http::headers::Headers::read_from::<"), ("finding the body", r"^wruster::http::Body::read_from::<"))
    have = [r for label, r in parts if [f for f in fns(P, r) if not f.poly]]
    apart = lambda x, f: any(re.search(r, f.name) for r in have)
    for label, r in (("reading a request", r"^wruster::http::Request::read_from::<"), ("reading a response", r"^wruster::http::Response::read_from::<")) + parts:
        fs = sorted((f for f in fns(P, r) if not f.poly and "{closure" not in f.name), key=lambda f: ("Cursor" not in f.name, f.name))
        if not fs:
            if (label, r) not in parts:
                rep.bad("anchor", label, "%s: no instance found" % label)
        else:
            out.append((label, fs[0], {"opaque": apart} if (label, r) not in parts else {}))
    f = fn1(P, rep, r"^<wruster::http::Body as std::io::Read>::read$")
    if f:
        out.append(("reading a body", f, {}))
    f = fn1(P, rep, r"^wruster::http::Body::ensure_read$")
    if f:
        out.append(("skipping a body", f, {}))
    f = fn1(P, rep, r"^wruster::http::Request::is_connection_persistent$")
    if f:
        out.append(("deciding persistence", f, {}))
    return out


def has_parsed(v):
    return any(x.k in ("ret", "app") and isinstance(x.a[0], str) and PARSED.search(x.a[0]) for x in walk(v))


def counter(x):
    """the addition of two 64 bit counters, neither of which is a number taken from the message: 2^64 bytes would have to be transferred"""
    c = x.args[0]
    if c.k == "not":
        c = c.a[0]
    return c.k == "op" and c.a[0] == "OvfAdd" and not has_parsed(c)


def gives_out(P, f):
    """the function returns something that can be changed through it"""
    t = P.types[f.locals[0][0] if isinstance(f.locals[0], (list, tuple)) else f.locals[0]]
    return "&mut" in t.get("s", "") or "&'a mut" in t.get("s", "") or "IterMut" in t.get("s", "") or "ValuesMut" in t.get("s", "") or re.search(r"&('\w+ )?mut ", t.get("s", "")) is not None


def header_values(P, rep):
    """values of a header are never an empty list: every list put into the map gets its value at once, and nothing takes one out"""
    muts = re.compile(r"^std::collections::(HashMap::<K, V, S, A>|hash_map::(Vacant|Occupied)?Entry::<.*>)::(or_default|or_insert|or_insert_with|or_insert_with_key|insert|insert_entry|entry|remove|remove_entry|clear|drain|retain|get_mut|values_mut|iter_mut|get_or_insert_with|try_insert|and_modify|or_default)$")
    vecmut = re.compile(r"^std::vec::Vec::<T, A>::(pop|remove|clear|truncate|drain|swap_remove|retain|retain_mut|dedup|split_off|set_len)$")
    push = re.compile(r"^std::vec::Vec::<T, A>::(push|insert|extend_from_slice)$")

    class Fill(Monitor):
        """None / a list that may be empty is in the map"""
        def init(self):
            return ((), ())

        def event(self, m, e, st, eng):
            if e.kind != "call":
                return m
            n = e.name
            if muts.search(n) and n.split("::")[-1] in ("or_default", "or_insert", "or_insert_with", "or_insert_with_key", "insert", "insert_entry", "try_insert"):
                if any(filled(eng, st, a) for a in e.args[1:]):
                    return m
                return (m[0] + (e.ret,) if len(m[0]) < 3 else m[0],) + m[1:]
            if push.search(n) and e.args and e.args[0].k == "ref":
                c = e.args[0].a[0]
                keep = tuple(r for r in m[0] if not (r is e.args[0] or (len(c) > 1 and isinstance(c[1], V) and (c[1] is r or contains(c[1], r)))))
                return (keep,) + m[1:]
            if push.search(n) and e.args:
                return (tuple(r for r in m[0] if not contains(e.args[0], r)),) + m[1:]
            return m

    def filled(eng, st, a):
        for _ in range(4):
            if a.k != "ref":
                break
            a = eng.load(st, a.a[0], a.a[1])
        for x in ([a] + (list(a.a[2]) if a.k == "agg" else [])):
            if (x.k == "agg" and x.a[0] in ("array", "vec") and x.a[2]) or (x.k == "app" and x.a[0] in ("push",)):
                return True
            n = eng.length(x) if x.k in ("app", "agg") else None
            if n is not None and n.k == "i" and n.a[0] > 0:
                return True
        return False

    k = 0
    for f in fns(P, r"^<?wruster::http::headers::"):
        if f.poly or "::tests::" in f.name or "read_from" in f.name or "parse" in f.name:
            continue
        txt = [b[1] for b in f.blocks]
        e = Engine(P, monitors=[Fill()], poison=False, keep_args=True, max_nodes=8000)
        try:
            e.run(f)
        except Overflow:
            continue
        touch = [x for x in e.all_events() if x.kind == "call" and (muts.search(x.name) or vecmut.search(x.name))]
        if not touch:
            continue
        rep.engine(e, f)
        for x in touch:
            last = x.name.split("::")[-1]
            if vecmut.search(x.name):
                if x.args and contains_map(x.args[0]):
                    rep.bad("values", f.name, "%s takes values of a header out: a header may be left without values" % f.name, x.where())
            elif last == "retain" or last in ("get_mut", "values_mut", "iter_mut") and (gives_out(P, f) or any(vecmut.search(y.name) for y in touch)):
                rep.bad("values", f.name, "%s gives out the lists of values to change" % f.name, x.where())
        for n in e.ends:
            if n.kind == "return":
                k += 1
                rep.check("values", not n.st.mon[0][0], f.name, "%s leaves a header without any value" % f.name, f.span[0], short(e.path_to(n)))
    rep.floor("functions that change the collection of headers", k, 1)


def contains_map(v):
    return any(y.k == "ret" and isinstance(y.a[0], str) and "hash_map" in y.a[0] for y in walk(v))


def from_headers(x, st, eng):
    """the obligation 0 < number of values of a header that is there"""
    c = x.args[0]
    if not (c.k == "op" and c.a[0] == "Lt" and c.a[1].k == "i" and c.a[1].a[0] == 0):
        return False
    t = c.a[2]
    return t.k == "app" and t.a[0] == "len" and any(y.k == "ret" and isinstance(y.a[0], str) and re.search(r"HashMap::<K, V, S, A>::get$|Headers::get$", y.a[0]) for y in walk(t)) \
        and not any(y.k == "ret" and isinstance(y.a[0], str) and re.search(r"(String|str|Vec|slice)", y.a[0]) and "HashMap" not in y.a[0] for y in walk(t))


def examine(rep, e, f, label):
    seen = {}
    for x in e.all_events():
        if x.kind == "oblig":
            k = (x.ctx, x.block, x.name)
            good = (x.ret.k == "b" and x.ret.a[0] == 1) or from_headers(x, None, e) or (x.name == "overflow" and counter(x))
            seen[k] = (seen[k][0] and good, x) if k in seen and not seen[k][0] else (good and seen.get(k, (True,))[0], x)
    for (c, b, nm), (good, x) in sorted(seen.items(), key=lambda z: (z[1][1].span[0], z[1][1].span[1], z[0][2])):
        rep.check("discharged", good, "%s|%s|%s" % (label, x.fn(), nm), "%s can panic: %s not excluded (%s)" % (label, {"overflow": "an arithmetic overflow is", "capacity": "more room than there can be is", "char-boundary": "a cut inside a character is"}.get(nm, "an access out of range is"), show(x.args[0])[:120]), x.where())
    pan = [n for n in e.ends if n.kind == "panic"]
    for n in pan:
        p = e.path_to(n)
        rep.bad("panics", "%s|%s" % (label, n.ctx.fn.name), "%s can panic in %s" % (label, n.ctx.fn.name), "%s:%s" % (n.ctx.fn.blocks[n.block][2][0], n.ctx.fn.blocks[n.block][2][1]), short(p))
    if not pan:
        rep.ok("panics", label)
    return len(seen)


def callees(P, f):
    out = set()
    for b in f.blocks:
        t = b[1]
        if t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1].get("v"), dict) and "fn" in t[1][1]["v"]:
            g = P.fns.get(t[1][1]["v"]["fn"].get("key"))
            if g is not None and P.local(g):
                out.add(g)
    for g in P.fns.values():
        if g.name.startswith(f.name + "::{closure"):
            out.add(g)
    return out


def depth(P, rep, roots):
    """no reader of a message calls itself: how deep the calls go does not depend on what is received"""
    graph = {}
    todo = list(roots)
    while todo:
        f = todo.pop()
        if f in graph:
            continue
        graph[f] = callees(P, f)
        todo += graph[f]
    state = {}

    def visit(f, path):
        state[f] = 1
        for g in sorted(graph[f], key=lambda g: g.name):
            if state.get(g) == 1:
                ring = [x.name for x in path[path.index(g):]]
                rep.bad("depth", g.name, "%s calls itself (%s): how deep depends on what is received, and the stack may overflow" % (g.name, " -> ".join(ring)), "%s:%s" % (g.span[0], g.span[1]))
            elif g not in state:
                visit(g, path + [g])
        state[f] = 2
    for f in sorted(roots, key=lambda g: g.name):
        if f not in state:
            visit(f, [f])
    rep.check("depth", True, "functions", "", "")
    rep.floor("functions of the readers", len(graph), 8)


def run(P, rep):
    rep.rules += ["every index, slice bound and arithmetic operation on the paths of reading a message is proved in range (difference bounds over lengths and counters), and no path reaches a panic",
                  "the calls between the readers of a message form no cycle",
                  "the list of values of a header is never empty: whoever adds one to the collection fills it before returning, nobody takes values out"]
    header_values(P, rep)
    n = 0
    for label, f, kw in entries(P, rep):
        e = Engine(P, poison=False, numeric=True, logs=True, **kw)
        e.run(f)
        rep.engine(e, f)
        n += examine(rep, e, f, label)
        rep.floor("ends of " + label, len([x for x in e.ends if x.kind == "return"]), 2)
    depth(P, rep, [f for label, f, kw in entries(P, rep)])
    rep.floor("obligations", n, 15)
