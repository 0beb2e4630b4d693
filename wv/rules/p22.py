"""P22: the connections closed at shutdown are exactly those in use: tracked before a worker gets them, forgotten when the last handle goes."""
from .common import *
from .p23 import forgotten
from . import server, conv

INSERT, REMOVE, DRAIN = "std::collections::HashMap::<K, V, S, A>::insert", "std::collections::HashMap::<K, V, S, A>::remove", "std::collections::HashMap::<K, V, S, A>::drain"
TAKE = ("std::mem::take", "std::mem::replace", "std::mem::swap")
FETCH = re.compile(r"^std::sync::atomic::Atomic(Usize)?(::<usize>)?::fetch_add$")
PUSH = re.compile(r"(Vec::<T, A>::push|VecDeque::<T, A>::push_(back|front))$")
UP = "std::sync::Weak::<T, A>::upgrade"
NEXT = "std::iter::Iterator::next"
MUTATE = re.compile(r"^std::collections::HashMap::<K, V, S, A>::(insert|remove|clear|drain|retain|remove_entry|entry|extract_if|get_mut|values_mut|iter_mut)$")


class Map(Monitor):
    def event(self, m, e, st, eng):
        if e.kind != "call" or len(m) > 7:
            return m
        if MUTATE.search(e.name):
            a = tuple(conv.value(eng, st, x) if i and x.k == "ref" and (x.a[0][0] == "L" or i == 1) else x for i, x in enumerate(e.args))
            return m + ((e.name.split("::")[-1], a, e.ret),)
        if FETCH.search(e.name):
            return m + (("fetch", e.args, e.ret),)
        if e.name == UP:
            return m + (("up", e.args, e.ret),)
        return m


def tracks(P, rep):
    fs = fns(P, r"^wruster::streams::observable::ObservedStreamList::<.*>::track$")
    rep.floor("instances of track", len(fs), 2)
    for f in fs:
        e = Engine(P, monitors=[Map()], poison=False, keep_args=True)
        e.run(f)
        rep.engine(e, f)
        nm = f.name.split("ObservedStreamList::")[1]
        k = 0
        for n in e.ends:
            if n.kind != "return":
                continue
            k += 1
            p = short(e.path_to(n))
            m = n.st.mon[0]
            ins = [x for x in m if x[0] == "insert"]
            if not rep.check("one-entry", len(ins) == 1 and len([x for x in m if x[0] not in ("insert", "fetch", "up")]) == 0, nm, "%s does not add exactly one entry to the list" % nm, f.span[0], p):
                continue
            key, weak = ins[0][1][1], ins[0][1][2]
            src = [x for x in m if x[0] == "fetch"]
            rep.check("key", len(src) == 1 and key is src[0][2] and src[0][1][1].k == "i" and src[0][1][1].a[0] >= 1, nm, "%s: the key of the entry is not a fresh number" % nm, f.span[0], p)
            # the returned handle owns the object the entry points to
            ptrs = [x for x in walk(n.val) if x.k == "ref" and x.a[0][0] == "H"]
            hit = [x for x in ptrs if weak.k == "app" and weak.a[0] == "weak" and weak.a[1] is x]
            if not rep.check("same-object", bool(hit), nm, "%s: the entry does not point to the connection returned" % nm, f.span[0], p):
                continue
            obj = e.load(n.st, hit[0].a[0], hit[0].a[1])
            par = [x for x in walk(obj) if x.k == "agg" and x.a[0] == "tuple" and x.a[2] and x.a[2][0] is key]
            okk = len(par) == 1 and any(y.k == "app" and y.a[0] == "weak" and contains(y, mk("arg", 0)) for y in par[0].a[2])
            rep.check("knows-key", okk, nm, "%s: the connection returned does not know its own entry in the list" % nm, f.span[0], p)
            rep.check("holds-stream", contains(obj, mk("arg", 1)), nm, "%s: the object tracked does not hold the connection" % nm, f.span[0], p)
        rep.floor("ends of " + nm, k, 1)


def drops(P, rep):
    fs = fns(P, r"^<wruster::streams::observable::ObservableStream<.*> as std::ops::Drop>::drop$")
    rep.floor("destructors of tracked connections", len(fs), 2)
    for f in fs:
        e = Engine(P, monitors=[Map()], poison=False, keep_args=True)
        e.run(f)
        rep.engine(e, f)
        nm = "drop of " + f.name[1:].split(" as ")[0].split("::", 3)[-1]
        removed = 0
        for n in e.ends:
            if n.kind != "return":
                continue
            m = n.st.mon[0]
            p = short(e.path_to(n))
            up = [x for x in m if x[0] == "up"]
            rem = [x for x in m if x[0] == "remove"]
            rep.check("only-removes", all(x[0] in ("up", "remove") for x in m) and len(rem) <= 1, nm, "%s changes the list in another way than removing one entry" % nm, f.span[0], p)
            alive = [x for x in up if x[2] is not None and x[2].k == "agg" and x[2].a[1] == 1]
            rep.check("removes", bool(rem) == bool(alive), nm, "%s leaves its entry in the list" % nm, f.span[0], p)
            if rem:
                removed += 1
                k = rem[0][1][1]
                # key and list come from the same place of the object
                par = [x for x in walk(k) if x.k in ("as", "fld")]
                lst = [x for a in up for x in walk(conv.value(e, n.st, a[1][0]))]
                okk = k.k == "fld" and k.a[1] == 0 and k.a[0] in lst and contains(k, mk("arg", 0)) and rem[0][1][0].k == "ref" and any(contains_ref(rem[0][1][0], a[2]) for a in alive)
                rep.check("own-entry", okk, nm, "%s removes an entry that is not its own" % nm, f.span[0], p)
        rep.floor("removing ends of " + nm, removed, 1)


def contains_ref(r, opt):
    """the place r lies in the object Some(x) points to"""
    x = opt.a[2][0]
    c = r.a[0]
    return any(y is x for y in ([c[1]] if len(c) > 1 and isinstance(c[1], V) else [])) or contains(r, x)


class All(Monitor):
    """every entry that comes out of the list goes into the result: (entry not yet kept, source, target); marks"""
    def init(self):
        return (None, None, 0)

    def event(self, m, e, st, eng):
        cur, src, k = m[:3]
        if e.kind != "call":
            return m
        if e.name == DRAIN or (e.name in TAKE):
            return (cur, e.name, k) + m[3:]
        if e.name == NEXT and e.ret is not None and e.ret.k == "agg":
            r = (e.ret.a[2][0] if e.ret.a[1] == 1 else None, src, k) + m[3:]
            return mark(r, "an entry taken out of the list is not returned") if cur is not None else r
        if PUSH.search(e.name) and cur is not None:
            x = e.args[1]
            if x is cur or (cur.k == "agg" and x in cur.a[2]) or contains(x, cur):
                return (None, src, 1) + m[3:]
        return m


def drains(P, rep):
    fs = fns(P, r"^wruster::streams::observable::ObservedStreamList::<.*>::drain$")
    rep.floor("instances of drain", len(fs), 2)
    for f in fs:
        e = Engine(P, monitors=[All()], poison=False, keep_args=True)
        e.run(f)
        rep.engine(e, f)
        nm = f.name.split("ObservedStreamList::")[1]
        for b, n in marks(e, 0).items():
            rep.bad("all", nm + ":" + b, "%s: %s" % (nm, b), f.span[0], short(e.path_to(n)))
        kept = 0
        lossy = [x for n in e.nodes for v in n.st.mem.values() for x in walk(v) if x.k == "app" and isinstance(x.a[0], str) and re.match(r"it:(skip|take|step_by|take_while|skip_while|filter_map|filter)$", x.a[0])]
        rep.check("no-selection", not lossy, nm, "%s returns only a selection of the entries (%s)" % (nm, lossy[0].a[0] if lossy else ""), f.span[0])
        for n in e.ends:
            if n.kind != "return":
                continue
            cur, src, k = n.st.mon[0][:3]
            p = short(e.path_to(n))
            rep.check("emptied", src is not None, nm, "%s does not take the entries out of the list" % nm, f.span[0], p)
            rep.check("all-kept", cur is None, nm, "%s drops an entry" % nm, f.span[0], p)
            kept += k or (src in TAKE)
        rep.floor("ends of %s that return entries" % nm, kept, 1)


def use(P, rep):
    """the job handed to the pool owns the tracked handle of the connection"""
    js = conv.jobs(P, rep)
    for k, f, a, st, x, by in js:
        obs = [y for y in walk(a) if y.k in ("ret", "agg") and "track" in (y.a[0] if isinstance(y.a[0], str) else "")]
        got = [y for y in walk(a) if y.k == "ret" and re.search(r"ObservedStreamList.*track$", show_name(y))]
        rep.check("tracked-first", bool(got), "job of " + k, "the connection handed to a worker is not the tracked one", x.where())


def show_name(y):
    return server.bare(str(y.a[0]))


def run(P, rep):
    forgotten(P, rep, r"wruster::streams::")
    rep.rules += ["track adds one entry with a fresh key that points to the very object returned, and that object knows the list and the key",
                  "the destructor of a tracked connection removes the entry with its own key from its own list, whenever the list still exists, and changes nothing else",
                  "drain takes every entry out of the list and returns every one of them",
                  "the job the accept thread gives to the pool owns the handle returned by track"]
    tracks(P, rep)
    drops(P, rep)
    drains(P, rep)
    use(P, rep)
