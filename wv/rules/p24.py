"""P24: a path leads to what was registered for the longest registered beginning of it; registering a route changes that route only."""
from .common import *
from . import server, conv

GETP = r"^wruster::router::Router::get_prefix$"
ADD = r"^wruster::router::Router::add$"
NEXT = "std::iter::Iterator::next"
VECMUT = re.compile(r"^std::vec::Vec::<T, A>::(pop|truncate|clear|remove|swap_remove|drain|split_off|retain|set_len|resize|dedup|insert)$")


def payload1(x):
    return mk("fld", mk("as", x, 1), 0)


class Shape:
    """the layout of the tree's nodes, from their types"""
    def __init__(self, P):
        self.node = self.ci = self.vi = self.tree = self.ti = None
        for t in P.types:
            if t["k"] == "adt" and t.get("akind") == "Struct" and t["s"].startswith("wruster::router::") and "<T>" not in t["s"] and t.get("variants"):
                fs = [(n, P.types[x]["s"]) for n, x in t["variants"][0][1]]
                c = [i for i, (n, s) in enumerate(fs) if t["s"] in s and ("Vec<" in s or "[" in s)]
                v = [i for i, (n, s) in enumerate(fs) if s.startswith("std::option::Option<") and t["s"] not in s]
                if len(c) == 1 and len(v) == 1:
                    self.node, self.ci, self.vi, self.valty = t["s"], c[0], v[0], fs[v[0]][1]

        for t in P.types:
            if self.node and t["k"] == "adt" and t.get("akind") == "Struct" and t["s"].startswith("wruster::router::") and t["s"] != self.node and "<T>" not in t["s"] and t.get("variants"):
                fs = [(n, P.types[x]["s"]) for n, x in t["variants"][0][1]]
                c = [i for i, (n, s) in enumerate(fs) if self.node in s and ("Vec<" in s or "[" in s)]
                if len(c) == 1:
                    self.tree, self.ti = t["s"], c[0]

    def is_node(self, s):
        s = s.replace("&mut ", "&")
        return s.startswith("&") and s.endswith(self.node)


def at(p, *els):
    """the place reached from the place p points to"""
    return mk("ref", p.a[0], p.a[1] + els) if p.k == "ref" else mk("ref", ("D", p), els)


def get(eng, st, p):
    c, q = eng.ptr(p)
    return eng.load(st, c, q)


class Walk(Monitor):
    """(key, bytes consumed, place of the node reached or None, place of its children, best so far, ended, pending byte, recursive call, iterating)
    best: ("none",) ("arg", option) ("some", place of the option, place of the value) ("at", the same two, best if there is no value)"""
    def __init__(self, P, sh, key, node, kids, best, names):
        self.P, self.sh, self.names, self.cands = P, sh, names, kids
        self.start = (key, I(0), node, at(node, ("f", sh.ci)) if node is not None else None, fold(best, node, sh), False, None, None, False)

    def init(self):
        return self.start

    def event(self, m, e, st, eng):
        # the value of the node reached is kept in terms of that node, which a loop may advance
        return relative(self.step(absolute(m, self.sh), e, st, eng), self.sh)

    def step(self, m, e, st, eng):
        m = m[:4] + (settle(m[4], eng, st, e),) + m[5:]
        key, off, node, kids, best, done, pend, rec, itr = m[:9]
        rest = m[9:]
        if e.kind in ("branch", "variant"):
            x = subject(e)
            if x is None and e.kind == "branch" and e.args:
                t = e.args[0]
                while t.k == "not":
                    t = t.a[0]
                x = t.a[0] if t.k == "isv" else None
            if x is None or done or rec is not None:
                return m
            k = learnt(e, x)
            if k is None or not is_slot(x):
                return m
            b = pend if pend is not None else eng.proj(key, ("i", off))
            hit = None
            for c in ([kids] if kids is not None else self.cands) + ([at(node, ("f", self.sh.ci))] if node is not None else []):
                if get(eng, st, at(c, ("i", b))) is x:
                    hit = c
                    break
            if hit is None:
                if best_has(best, x, eng, st):
                    return m
                return mark(m, "a path is followed by something else than its bytes in their order")
            if k == 0:
                return (key, off, node, kids, best, True, None, rec, itr) + rest
            nn = at(hit, ("i", b), ("d", 1), ("f", 0))
            return (key, lin(off, 1), nn, at(nn, ("f", self.sh.ci)), settle(fold(best, nn, self.sh), eng, st, None), False, None, rec, itr) + rest
        if e.kind != "call":
            return m
        if e.name == NEXT and e.ret is not None and e.ret.k == "agg" and e.args:
            it = eng.content(st, e.args[0])
            ys = list(walk(it))
            if any(y is key for y in ys) or itr:
                lo = [y.a[2] for y in ys if y.k == "app" and y.a[0] == "slice" and y.a[1] is key]
                if any(y.k == "app" and re.match(r"it:(skip|take|step_by|rev|filter|skip_while|take_while)", str(y.a[0])) for y in ys) or (not itr and (lo or [I(0)])[0] is not off):
                    m = mark(m, "a path is followed by something else than its bytes in their order")
                if e.ret.a[1] == 1:
                    p = e.ret.a[2][0]
                    p = eng.load(st, p.a[0], p.a[1]) if p.k == "ref" else p
                    return m[:6] + (p, rec, True) + m[9:]
                return (key, off, node, kids, best, True, None, rec, True) + m[9:]
            return m
        n = server.bare(e.name).rstrip(":")
        if n in self.names and e.args and not done and rec is None:
            a = e.args
            if node is None or not (a[0] is node or eng.content(st, a[0]) is get(eng, st, node)):
                return mark(m, "the search goes on below another node than the one the path leads to")
            ks = [x for x in a[1:] if eng.content(st, x) is eng.proj(key, ("sl", off, None)) or same_rest(eng, st, x, key, off)]
            if len(ks) != 1:
                return mark(m, "the search goes on with something else than the rest of the path")
            other = [x for x in a[1:] if x not in ks]
            best = best_before(best, node, self.sh)
            later = not other or other[0].k == "agg" and other[0].a[1] == 0      # the best route is taken care of afterwards
            if not later:
                want = resolve(best, st)
                if want is None or not opt_is(eng, st, other[0], want):
                    return mark(m, "the search goes on without the best route found so far")
            return (key, off, node, kids, best if later else ("none",), False, None, e.ret, itr) + rest
        return m


def absolute(m, sh):
    b = m[4]
    if b[0] != "here":
        return m
    v = at(m[2], ("f", sh.vi))
    return m[:4] + (("at", v, at(v, ("d", 1), ("f", 0)), b[1]),) + m[5:]


def relative(m, sh):
    b = m[4]
    if b[0] != "at" or m[2] is None or b[1] is not at(m[2], ("f", sh.vi)):
        return m
    return m[:4] + (("here", b[3]),) + m[5:]


def same_rest(eng, st, x, key, off):
    v = eng.content(st, x)
    return v.k == "app" and v.a[0] == "slice" and v.a[1] is key and len(v.a) > 2 and v.a[2] is off


def is_slot(x):
    """an element of a node's table of children"""
    i = index_of(x) if x.k == "idx" or (x.k == "app" and x.a[0] == "idx") else None
    return i is not None and i.k != "discr"


def index_of(x):
    return x.a[-1] if isinstance(x.a[-1], V) else None


def best_has(b, x, eng, st):
    while b[0] == "at":
        if get(eng, st, b[1]) is x:
            return True
        b = b[3]
    return b[0] == "arg" and b[1] is x or b[0] == "some" and get(eng, st, b[1]) is x


def settle(b, eng, st, e):
    """best, with what is known of the values by now"""
    if b[0] != "at":
        return b
    v = get(eng, st, b[1])
    k = known_variant(st, v)
    if k is None and e is not None:
        k = learnt(e, v)
    if k == 1:
        return ("some", b[1], b[2])
    r = settle(b[3], eng, st, e)
    return r if k == 0 else b[:3] + (r,)


def fold(best, node, sh):
    if node is None:
        return best
    v = at(node, ("f", sh.vi))
    return best if best[0] in ("at", "some") and best[1] is v else ("at", v, at(v, ("d", 1), ("f", 0)), best)


def best_before(best, node, sh):
    """best without the value of the node itself (which the search below it takes care of)"""
    v = at(node, ("f", sh.vi))
    return best[3] if best[0] == "at" and best[1] is v else best


def resolve(best, st):
    return None if best[0] == "at" else best


def value_of(eng, st, v):
    for _ in range(4):
        if v.k != "ref":
            break
        v = eng.load(st, v.a[0], v.a[1])
    return v


def opt_is(eng, st, v, want):
    """the option v is the one wanted"""
    if want[0] == "none":
        return (v.k == "agg" and v.a[1] == 0) or (v.k != "agg" and known_variant(st, v) == 0)
    if want[0] == "some":
        if v.k == "agg":
            return v.a[1] == 1 and (v.a[2][0] is want[2] or value_of(eng, st, v.a[2][0]) is value_of(eng, st, want[2]))
        return v is get(eng, st, want[1])
    x = want[1]
    if v is x:
        return True
    if v.k == "agg":
        k = known_variant(st, x)
        return (v.a[1] == 0 and k == 0) or (v.a[1] == 1 and k == 1 and value_of(eng, st, v.a[2][0]) is value_of(eng, st, payload1(x)))
    return False


def judge(eng, n, m, what):
    """why the option returned by a walk is wrong, or None; what(opt_wanted) checks the value returned"""
    key, off, node, kids, best, done, pend, rec, itr = m[:9]
    st = n.st
    best = settle(best, eng, st, None)
    if rec is not None:
        k = known_variant(st, rec)
        if best == ("none",) or k == 1:
            return None if what(("arg", rec)) else "not what the rest of the search found is returned"
        if k == 0:
            w = resolve(best, st)
            return None if w is not None and what(w) else "the longest route found is not the one returned"
        return "not what the rest of the search found is returned"
    if not done:
        ln = eng.length(key)
        end = eng.decide(st, eng.binop(st, "Eq", lin(ln, -off.a[0]) if off.k == "i" else app("sub", ln, off), I(0)))
        if end is not True and not (off is I(0) and is_zero(eng, st, ln)):
            return "the search stops before the path ends"
    w = resolve(best, st)
    return None if w is not None and what(w) else "the route returned is not the longest one found"


_SH = [None]


def trees(P, sh):
    """the places the children of the tree may be at, seen from the router"""
    out = []
    for t in P.types:
        if t["k"] == "adt" and t["s"] == "wruster::router::Router" and t.get("variants"):
            for i, (n, x) in enumerate(t["variants"][0][1]):
                if sh.tree and sh.tree in P.types[x]["s"]:
                    p = mk("ref", ("D", mk("arg", 0)), (("f", i),))
                    out += [at(p, ("mx",), ("f", sh.ti)), at(p, ("f", sh.ti))]
    return out


def lookups(P, rep, sh):
    top = fn1(P, rep, GETP)
    if top is None:
        return
    kids = trees(P, sh)
    todo, seen, answers = [(top, mk("arg", 1), None, ("none",))], set(), 0
    methods = {}
    # functions of the tree that take a node: recursion is judged by its arguments
    names = {server.bare(f.name).rstrip(":"): f for f in fns(P, r"^wruster::router::") if f.argc >= 2 and sh.is_node(P.types[f.locals[1]]["s"])}
    names.update({server.bare(f.defp).rstrip(":"): f for f in names.values()})
    while todo:
        f, key, cur, best = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        rec = [f2 for f2 in names.values()]
        w = Walk(P, sh, key, cur, kids, best, set(names))
        e = Engine(P, monitors=[w], poison=False, keep_args=True)
        e.run(f)
        rep.engine(e, f)
        nm = f.name.split("router::")[-1]
        for b, n in marks(e, 0).items():
            rep.bad("walk", nm + ":" + b, "%s: %s" % (nm, b), f.span[0], short(e.path_to(n)))
        for n in e.ends:
            if n.kind != "return":
                if f is top:
                    pass
                continue
            m = absolute(n.st.mon[0], sh)
            p = short(e.path_to(n))
            if f is top:
                why = judge(e, n, m, lambda want: action_is(e, n.st, n.val, want, sh))
            else:
                why = judge(e, n, m, lambda want: opt_is(e, n.st, n.val, want))
            rep.check("answer", why is None, nm, "%s: %s" % (nm, why), f.span[0], p)
            answers += 1
        for ev in e.all_events():
            if ev.kind == "call" and server.bare(ev.name).rstrip(":") in names:
                g = names[server.bare(ev.name).rstrip(":")]
                ks = [i for i in range(2, g.argc + 1) if P.types[g.locals[i]]["s"] in ("&[u8]", "&str")]
                bs = [i for i in range(2, g.argc + 1) if i not in ks]
                if rep.check("shape", len(ks) == 1 and len(bs) <= 1, nm, "the search goes on in a function whose arguments are not understood", f.span[0]):
                    todo.append((g, mk("deref", mk("arg", ks[0] - 1)), mk("arg", 0), ("arg", mk("arg", bs[0] - 1)) if bs else ("none",)))
    rep.floor("answers of the search", answers, 4)


def action_is(eng, st, v, want, sh):
    """v is the action registered at the routes wanted, for the method asked for"""
    if want[0] == "none":
        return v.k == "agg" and v.a[1] == 0
    if want[0] == "some":
        h = get(eng, st, want[2])
        ps = [want[2]]
    else:
        k = known_variant(st, want[1])
        if k == 0:
            return v.k == "agg" and v.a[1] == 0
        if k != 1:
            return False
        h, ps = payload1(want[1]), []
    d = [h, eng.content(st, h), mk("deref", h)] + ps
    if v.k == "agg" and v.a[1] == 1:
        a = v.a[2][0]
        slot = a.a[0].a[0] if a.k == "fld" and a.a[0].k == "as" else None
        return slot is not None and is_action(slot, d) and known_variant(st, slot) == 1
    if v.k == "agg":
        return any(is_action(t, d) and known_variant(st, t) == 0 for t in st.facts)
    return is_action(v, d)


def is_action(slot, d):
    i = index_of(slot)
    return i is not None and i.k == "discr" and i.a[0] is mk("arg", 2) and any(contains(slot.a[-2], x) for x in d if isinstance(slot.a[-2], V))


def added(c, st, names):
    """a change that goes on further down, seen as a function of where it starts, the rest of the path and the value"""
    n = server.bare(c.x.get("name") or "").rstrip(":")
    if n not in names:
        return None
    e = c.eng
    v = value_of(e, st, c.args[0])
    r = app("below:" + n.split("::")[-1], v, *[e.content(st, x) for x in c.args[1:]])
    st = st.copy()
    a = c.args[0]
    if a.k == "ref":
        e.store(st, a.a[0], a.a[1], app("node", r))
    return [(r, st, Event("call", n, c.args, r, c.ctx, c.block, c.x))]


def final(v, idx):
    """the value last stored at index idx of v (None: as before), whether any other index was stored to"""
    got, other = None, False
    while v.k in ("store",) or (v.k == "app" and v.a[0] == "store"):
        a = v.a if v.k == "store" else v.a[1:]
        if a[1] is idx:
            got = got if got is not None else a[2]
        else:
            other = True
        v = a[0]
    return got, other, v


def parts(v):
    """{field: new value} of a partly updated structure, and the structure before"""
    out = {}
    while v.k == "upd":
        for e, x in v.a[1]:
            out.setdefault(e, x)
        v = v.a[0]
    return out, v


def fresh_node(x, sh):
    return x.k == "agg" and x.a[0] == sh.node and x.a[2][sh.vi].k == "agg" and x.a[2][sh.vi].a[1] == 0 and x.a[2][sh.vi].a[0].startswith("std::option::Option")


def start_of(sh, ty):
    """what a function that changes the tree starts from: a node, the tree, or a table of children"""
    if not ty.startswith("&mut "):
        return None
    t = ty[5:]
    if t == sh.node:
        return "node"
    if t.startswith("wruster::router::trie::Trie<") or t == sh.tree:
        return "tree"
    if sh.node in t and (t.startswith("std::vec::Vec<std::option::Option<") or t.startswith("[std::option::Option<")):
        return "kids"
    return None


def bytes_of(P, f):
    return [i for i in range(2, f.argc + 1) if P.types[f.locals[i]]["s"] in ("&[u8]", "&str")]


def changer(P, sh, f):
    """a function that stores a value at a path, or takes it out (not one that only finds the place)"""
    r = P.types[f.locals[0]]["s"]
    return r == "()" if f.argc == 3 else f.argc == 2 and r.startswith("std::option::Option<") and not r.startswith("std::option::Option<&")


def changes(P, rep, sh):
    """the functions that change the tree change the node the path leads to, and only that one"""
    names, roots = {}, {}
    for f in fns(P, r"^wruster::router::"):
        if f.argc >= 2 and start_of(sh, P.types[f.locals[1]]["s"]) and len(bytes_of(P, f)) == 1 and "{closure" not in f.name and changer(P, sh, f):
            names[server.bare(f.name).rstrip(":")] = f
            names[server.bare(f.defp).rstrip(":")] = f
            roots[f.key] = f
    k = 0
    for f in roots.values():
        e = Engine(P, poison=False, keep_args=True, hook=lambda c, st: added(c, st, names))
        e.run(f)
        rep.engine(e, f)
        nm = f.name.split("router::")[-1]
        ks = bytes_of(P, f)
        vs = [i for i in range(2, f.argc + 1) if i not in ks]
        if len(vs) > 1:
            continue
        # a loop along the path changes a node that has no fixed place: not judged
        loops = any(tb and (l[0].fn is f or bytes_of(P, l[0].fn)) for l, tb in e.heads.items())
        key, val = mk("deref", mk("arg", ks[0] - 1)), mk("arg", vs[0] - 1) if vs else None
        base = mk("deref", mk("arg", 0))
        for n in e.ends:
            if n.kind != "return":
                continue
            k += 1
            now = e.load(n.st, ("D", mk("arg", 0)), ())
            if loops:
                continue
            why = change(e, n.st, sh, now, base, start_of(sh, P.types[f.locals[1]]["s"]), key, val, n.val)
            rep.check("change", why is None, nm, "%s: %s" % (nm, why), f.span[0], short(e.path_to(n)))
    rep.floor("ends of changing functions", k, 6)


def is_below(x):
    return x.k == "app" and x.a[0] == "node"


def went_on(e, st, r, key, off, val, ret):
    """why the change that went on further down is not the one wanted"""
    a = r.a[2:]
    rest = e.proj(key, ("sl", off, None)) if off is not I(0) else key
    if rest not in a and not (off is I(0) and key.a[0] in a) and not any(x.k == "app" and x.a[0] == "slice" and x.a[1] is key and x.a[2] is off for x in a):
        return "the change goes on with something else than the rest of the path"
    if val is not None and val not in a:
        return "another value is stored"
    if val is None and ret is not r and not (ret is not None and ret.k == "agg" and known_variant(st, r) == ret.a[1]):
        return "what is taken out is not returned"
    return None


def change(e, st, sh, now, base, kind, key, val, ret):
    """why `now` is not `base` with the value at the path set to val (val None: taken out and returned); None if it is"""
    ln = e.length(key)
    empty = True if is_zero(e, st, ln) else e.decide(st, e.binop(st, "Eq", ln, I(0)))
    if kind == "kids":
        up, ci, kids = {None: now} if now is not base else {}, None, base
    else:
        up, b = parts(now)
        if now.k == "agg":
            return "a node is replaced as a whole"
        if b is not base:
            return None if b.k == "phi" else "the node is replaced by another"
        ci, vi = ("f", sh.ti if kind == "tree" else sh.ci), ("f", sh.vi)
        kids = mk("fld", base, ci[1])
    if empty is True:
        if kind != "node":
            return None if not up else "an empty path changes the tree"
        if set(up) - {vi}:
            return "more than the value of the node is changed"
        w = up.get(vi)
        old = mk("fld", base, sh.vi)
        kv = known_variant(st, old)
        if val is None:
            if w is None:
                return None if kv == 0 else "the value is not taken out of the node"
            if not (w.k == "agg" and w.a[1] == 0):
                return "the value is not taken out of the node"
            same = ret is old or (ret.k == "agg" and kv == ret.a[1] and (kv == 0 or ret.a[2][0] is payload1(old)))
            return None if same else "what is taken out of the node is not returned"
        return None if w is not None and w.k == "agg" and w.a[1] == 1 and w.a[2][0] is val else "the value is not stored in the node the path leads to"
    if set(up) - {ci}:
        return "the value of a node above the path's end is changed"
    w = up.get(ci)
    if w is not None and is_below(w):
        # all of it is done elsewhere
        return went_on(e, st, w.a[1], key, I(0), val, ret) if w.a[1].a[1] is kids else "the change goes on below another node"
    byte = e.proj(key, ("i", I(0)))
    slot = e.proj(kids, ("i", byte))
    kv = known_variant(st, slot)
    got, other, root = final(w, byte) if w is not None else (None, False, kids)
    if other:
        return "another child than the one of the path's byte is changed"
    if root is not kids:
        return None
    if got is None:
        if val is None:
            return None if kv == 0 and ret.k == "agg" and ret.a[1] == 0 else "something is returned for a path that is not there" if kv == 0 else "the path is not followed to its end"
        return "the path is not followed to its end"
    child = None
    if got.k == "agg" and got.a[1] == 1:
        child = got.a[2][0]
    elif got.k == "upd" and got.a[0] is slot and len(got.a[1]) == 1 and got.a[1][0][0] == ("d", 1):
        y = got.a[1][0][1]
        if y.k == "upd" and y.a[0] is mk("as", slot, 1) and len(y.a[1]) == 1 and y.a[1][0][0] == ("f", 0):
            child = y.a[1][0][1]
        elif y.k == "agg":
            child = y.a[2][0] if y.a[2] else None
    elif got.k == "agg":
        return "the child of the path's byte is removed"
    if child is None:
        return None
    if not is_below(child):
        return "the path is not followed to its end" if fresh_node(child, sh) or child is payload1(slot) else None
    r = child.a[1]
    src = r.a[1]
    if src is payload1(slot) and kv != 0:
        pass
    elif fresh_node(src, sh) and val is not None:
        if kv != 0:
            return "an existing node is replaced by a new one"
    else:
        return "the change goes on below another node"
    return went_on(e, st, r, key, I(1), val, ret)


def sizes(P, rep, sh):
    """there is a place for every byte and for every method"""
    most = 0
    for t in P.types:
        if t["k"] == "adt" and t["s"] == "wruster::http::HttpMethod":
            most = max(int(v[2] if v[2] is not None else i) for i, v in enumerate(t["variants"])) + 1
    rep.check("methods", most > 0, "HttpMethod", "the methods are not known", "http/mod.rs")
    made = 0
    for f in fns(P, r"^wruster::router::"):
        rt = P.types[f.locals[0]]["s"]
        if f.argc != 0 or not (rt.endswith("MethodHandlers") or rt == sh.node or rt.startswith("wruster::router::trie::Trie<") or rt.startswith("std::vec::Vec<")):
            continue
        e = Engine(P, poison=False, keep_args=True, numeric=True)
        e.run(f)
        rep.engine(e, f)
        ends = []
        for n in e.ends:
            if n.kind != "return":
                continue
            v = n.val
            want = most if rt.endswith("MethodHandlers") or "dyn" in rt else 256
            vec = None
            if rt.startswith("std::vec::Vec<"):
                vec = v
            else:
                todo = [v]
                while todo and vec is None:
                    x = todo.pop()
                    if x.k == "agg" and (x.a[0].startswith("std::vec::Vec") or x.a[0] in ("vec", "array")):
                        vec = x
                    elif x.k == "agg" and not x.a[0].startswith("std::option"):
                        todo += [y for y in x.a[2] if isinstance(y, V)]
                    elif x.k in ("phi", "ret", "app"):
                        vec = x
                    elif x.k == "ref":
                        todo.append(e.load(n.st, x.a[0], x.a[1]))
            ends.append((n, vec is not None and fewer(e, n.st, e.length(vec), want), want))
        if ends:
            made += 1
            rep.check("size", not all(x[1] for x in ends), f.name.split("router::")[-1], "%s makes fewer than %d places" % (f.name.split("router::")[-1], ends[0][2]), f.span[0], short(e.path_to(ends[0][0])))
    rep.floor("constructors of tables", made, 3)
    for f in fns(P, r"^<?wruster::router::"):
        for b in f.blocks:
            if b[1][0] == "call":
                o = b[1][1]
                if o[0] == "k" and "fn" in o[1]["v"] and VECMUT.search(o[1]["v"]["fn"].get("tdef") or o[1]["v"]["fn"]["def"]):
                    rep.bad("shrink", f.name, "%s changes the number of places of a table" % f.name, "%s:%s" % (b[2][0], b[2][1]))


def fewer(e, st, x, n):
    """x is certainly less than n"""
    if x.k == "i":
        return x.a[0] < n
    d = e.bound(st, x, I(n - 1))
    return d is not None and d <= 0


def registering(P, rep, sh):
    """Router::add: the table of the route (the one there was, or a new one) gets the action at the place of the method"""
    f = fn1(P, rep, ADD)
    if f is None:
        return
    tfn = {server.bare(g.name).rstrip(":"): g for g in fns(P, r"^wruster::router::trie::Trie::<.*>::\w+$") if g.argc >= 2}
    tfn.update({server.bare(g.defp).rstrip(":"): g for g in tfn.values()})

    def hook(c, st):
        n = server.bare(c.x.get("name") or "").rstrip(":")
        if n in tfn:
            e = c.eng
            if P.types[tfn[n].locals[0]]["s"].startswith("std::option::Option"):
                r = app("at:" + n.split("::")[-1], e.content(st, c.args[1]))
            else:
                r = UNIT
            return [(r, st, Event("call", n, c.args, r, c.ctx, c.block, c.x))]
        return None

    class Calls(Monitor):
        def event(self, m, ev, st, eng):
            if ev.kind == "call" and ev.name in tfn and len(m) < 6:
                return m + ((ev.name.split("::")[-1], eng.content(st, ev.args[1]), value_of(eng, st, ev.args[2]) if len(ev.args) > 2 else None, ev.ret),)
            return m

    e = Engine(P, monitors=[Calls()], poison=False, keep_args=True, hook=hook)
    e.run(f)
    rep.engine(e, f)
    key = mk("deref", mk("arg", 1))
    k = 0
    for n in e.ends:
        if n.kind != "return":
            continue
        k += 1
        m, st, p = n.st.mon[0], n.st, short(e.path_to(n))
        rep.check("add-route", all(x[1] is key or x[1] is key.a[0] for x in m), "add", "another route than the one given is looked up or changed", f.span[0], p)
        put = [x for x in m if x[2] is not None]
        got = [x for x in m if x[2] is None and x[3] is not UNIT]
        if not put:
            rep.check("add-stored", bool(got) and known_variant(st, got[0][3]) == 1 and not got[0][0].startswith(("move", "take", "remove")), "add", "the route is not stored", f.span[0], p)
            continue
        rep.check("add-once", len(put) == 1 and m[-1] is put[0] or len(put) == 1, "add", "the route is stored %d times" % len(put), f.span[0], p)
        v = put[0][2]
        old = [x for x in got if known_variant(st, x[3]) == 1]
        new = [x for x in got if known_variant(st, x[3]) == 0]
        rep.check("add-looks", bool(old) or bool(new), "add", "what is registered for the route already is not looked up", f.span[0], p)
        if old:
            rep.check("add-keeps", any(contains(v, payload1(x[3])) for x in old), "add", "registering an action drops the other actions of the route", f.span[0], p)
        # the table: one store at the method's place
        tabs = [x for x in walk_deep(e, st, v)]
        stores = [x for x in tabs if x.k == "store" or (x.k == "app" and x.a[0] == "store")]
        good = [x for x in stores if put_at(e, st, x)]
        rest = [x for x in stores if not (x.a[1:] if x.k == "app" else x.a)[1].k == "discr"]
        ok = bool(good) and not rest
        rep.check("add-action", ok, "add", "the action is not stored at the place of its method", f.span[0], p)
    rep.floor("ends of add", k, 2)


def put_at(e, st, x):
    """x is a table in which the action given is stored at the place of the method given"""
    i, w = (x.a[1:] if x.k == "app" else x.a)[1:3]
    return i.k == "discr" and i.a[0] is mk("arg", 2) and w.k == "agg" and w.a[1] == 1 and any(y is mk("arg", 3) for y in walk_deep(e, st, w))


def walk_deep(e, st, v):
    out, todo, seen = [], [v], set()
    while todo:
        x = todo.pop()
        for y in walk(x):
            if y in seen:
                continue
            seen.add(y)
            out.append(y)
            if y.k == "ref":
                z = e.load(st, y.a[0], y.a[1])
                if z is not y:
                    todo.append(z)
    return out


def failing(P, rep, sh):
    """nothing on the way panics: every index is in the table (see sizes), every cut of the path within the path, no missing value is unwrapped"""
    k = 0
    for pat, key in ((GETP, mk("arg", 1)), (ADD, mk("deref", mk("arg", 1)))):
        f = fn1(P, rep, pat)
        if f is None:
            continue
        e = Engine(P, poison=False, numeric=True)
        e.run(f)
        rep.engine(e, f)
        nm = f.name.split("router::")[-1]
        for x in e.all_events():
            if x.kind != "oblig":
                continue
            k += 1
            good = (x.ret.k == "b" and x.ret.a[0] == 1) or in_table(e, x)
            rep.check("in-range", good, "%s|%s|%s" % (nm, x.fn(), x.name), "%s can panic: %s not excluded" % (nm, show(x.args[0], 5)[:120] if x.args else x.name), x.where())
        for n in e.ends:
            if n.kind == "panic":
                empty = any(is_zero(e, n.st, e.length(y)) for y in (key, key.a[0] if isinstance(key.a[0], V) else key))
                rep.check("panics", empty or n.ctx.fn.name.startswith("atomic_refcell"), nm + "|" + n.ctx.fn.name, "%s can panic in %s" % (nm, n.ctx.fn.name), "%s:%s" % (n.ctx.fn.blocks[n.block][2][0], n.ctx.fn.blocks[n.block][2][1]), short(e.path_to(n)))
    rep.floor("indices and cuts on the way", k, 3)


def in_table(e, x):
    """an access to a table with a place for every byte at a byte, or to one with a place for every method at a method"""
    c = x.args[0]
    if not (c.k == "op" and c.a[0] == "Lt" and c.a[2].k == "app" and c.a[2].a[0] == "len"):
        return False
    i = c.a[1]
    return i.k == "discr" or e.vty.get(i) == "u8" or (i.k == "idx" or i.k == "app" and i.a[0] in ("idx", "elem"))


def run(P, rep):
    rep.rules += ["looking up follows the bytes of the path in order, stops only at its end or where the tree ends, and yields the value of the deepest node passed that has one (also through recursion), then the action at the method's place",
                  "functions that change the tree change the value of the node the path leads to, create nodes only where there are none, and touch nothing else",
                  "every node has a place for each of the 256 bytes and every table one for each method; no table shrinks",
                  "registering keeps the other actions of the route and stores the action at the place of its method"]
    sh = Shape(P)
    _SH[0] = sh
    if not rep.check("nodes", sh.node is not None, "router", "the nodes of the routing tree are not recognised", "router/trie.rs"):
        return
    lookups(P, rep, sh)
    changes(P, rep, sh)
    sizes(P, rep, sh)
    registering(P, rep, sh)
    failing(P, rep, sh)
