"""P37: what waits for another thread, a peer or the clock gives the processor away while it waits."""
import re
from .common import *
from . import server

WAIT = re.compile(r"polling::Poller::wait|mpsc::\w+(::<.*>)?::(recv|recv_timeout|recv_deadline|iter|send)$|thread::(sleep|sleep_ms|sleep_until|park|park_timeout|yield_now)$|hint::spin_loop$"
                  r"|JoinHandle(::<.*>)?::join$|Condvar::wait\w*$|Barrier::wait$|TcpListener::accept$|TcpStream::connect(_timeout)?$|thread::spawn$|thread::Builder::spawn$|thread::scope$")
PAUSE = re.compile(r"thread::(sleep|sleep_ms|sleep_until|park|park_timeout|yield_now)$|Condvar::wait\w*$|::recv_timeout$")
TIMED = re.compile(r"polling::Poller::wait$|::(recv_timeout|sleep|park_timeout|wait_timeout)$")
IO = re.compile(r"^(std::io::(BufRead|Read|Write|BufReader::<\w+>|BufWriter::<\w+>)::|<.* as std::io::(BufRead|Read|Write)>::)\w+$|^std::io::(copy|read_to_string)$")
NEXT = re.compile(r"::(next|next_back|nth|nth_back|pop|pop_front|pop_back|pop_first|pop_last|remove|swap_remove|take|split_first|split_last|split_at|split_off|truncate|drain|advance|consume|try_recv|next_if|next_if_eq|retain)$")
COUNT = re.compile(r"::(checked_|wrapping_|saturating_|overflowing_)(add|sub|mul|div)\w*$|::(add_assign|sub_assign|shr_assign|shl_assign)$|::fetch_(add|sub)$")
OUTSIDE = re.compile(r"atomic::\w+(::<.*>)?::(load|swap|compare_exchange\w*|compare_and_swap|fetch_\w+|try_update)$|::try_(lock|read|write|recv|send|wait|borrow\w*)$|sync::\w*(::\w+)*(Mutex|RwLock)(::<.*>)?::(lock|read|write)$"
                     r"|AtomicRefCell(::<.*>)?::borrow(_mut)?$|Arc(::<.*>)?::(strong_count|weak_count|try_unwrap|into_inner|get_mut)$|Weak(::<.*>)?::(upgrade|strong_count)$|is_finished$|Instant::(now|elapsed)$|SystemTime::(now|elapsed)$")


def sccs(nodes, succ):
    """strongly connected components with a cycle"""
    index, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter([x for x in succ(root) if x in nodes]))]
        index[root] = low[root] = n[0]; n[0] += 1
        st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = n[0]; n[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter([x for x in succ(w) if x in nodes])))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = set()
                    while True:
                        w = st.pop(); on.discard(w); c.add(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in succ(v):
                        out.append(c)
    return out


class Spin:
    def __init__(self, P):
        self.P, self.memo = P, {}

    def callee(self, t):
        v = t[1][1].get("v") if t[1][0] == "k" else None
        return v.get("fn") if isinstance(v, dict) else None

    def succ(self, f):
        def go(b):
            t = f.blocks[b][1]
            k = t[0]
            if k == "goto":
                r = [t[1]]
            elif k == "switch":
                r = [x[1] for x in t[3]] + [t[4]]
            elif k == "call":
                r = [t[4]]
            elif k in ("drop", "assert"):
                r = [t[3] if k == "drop" else t[4]]
            else:
                r = []
            return [x for x in r if isinstance(x, int)]
        return go

    def does(self, f, pat):
        """may a call of this function do one of these? (functions of the user: yes when waiting is asked for)"""
        key = (f.key, pat.pattern)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        r = False
        for _, t, _ in f.blocks:
            if t[0] == "call" and self.call(t, pat):
                r = True
                break
        self.memo[key] = r
        return r

    def call(self, t, pat):
        fn = self.callee(t)
        if fn is None:
            return pat is not OUTSIDE
        if pat.search(fn["def"]) or pat.search(fn["name"]):
            return True
        g = self.P.fns.get(fn.get("key") or "")
        if g is not None and g.span[0].startswith("wrus"):
            return self.does(g, pat)
        if g is None and str(fn.get("crate")).startswith("wrus"):
            return pat is not OUTSIDE
        if re.search(r"ops::(Fn|FnMut|FnOnce)::call(_mut|_once)?$", fn["def"]):
            return pat is not OUTSIDE
        return False

    def root(self, f, t):
        """the local the first argument of a call refers to"""
        if not t[2] or t[2][0][0] not in ("m", "c"):
            return None
        loc = t[2][0][1][0]
        for _ in range(6):
            for stmts, _, _ in f.blocks:
                d = [s for s in stmts if s[0] == "=" and s[1] == [loc, []] and (s[2][0] == "ref" or s[2][0] == "use" and s[2][1][0] in ("m", "c"))]
                if d:
                    pl = d[-1][2][2] if d[-1][2][0] == "ref" else d[-1][2][1][1]
                    if pl[0] == loc:
                        return loc
                    if pl[1] and pl[1] != ["*"]:
                        return pl[0]
                    loc = pl[0]
                    break
            else:
                return loc
        return loc

    def zero(self, f, op, depth=6):
        """is this duration, or the one inside of this Some, known to be zero?"""
        if depth == 0:
            return False
        if op[0] == "k":
            v = op[1].get("v")
            return re.search(r"Duration::ZERO", str(op[1])) is not None or isinstance(v, dict) and v.get("int") == "0"
        if op[1][1]:
            return False
        loc, defs = op[1][0], []
        for stmts, t, _ in f.blocks:
            defs += [s[2] for s in stmts if s[0] == "=" and s[1] == [loc, []]]
            if t[0] == "call" and t[3] == [loc, []]:
                defs.append(t)
        if len(defs) != 1:
            return False
        d = defs[0]
        if d[0] == "call":
            fn = self.callee(d)
            return fn is not None and re.search(r"Duration::from_\w+$", fn["def"]) is not None and self.zero(f, d[2][0], depth - 1)
        if d[0] == "use":
            return self.zero(f, d[1], depth - 1)
        if d[0] == "agg" and "Option" in self.P.types[d[1][1]]["s"] if d[0] == "agg" and d[1][0] == "adt" else False:
            return len(d[2]) == 1 and self.zero(f, d[2][0], depth - 1)
        return False

    def made(self, f, nodes, loc):
        for b in nodes:
            stmts, t, _ = f.blocks[b]
            if any(s[0] == "=" and s[1] == [loc, []] for s in stmts) or t[0] == "call" and t[3] == [loc, []]:
                return True
        return False

    def step(self, f, b, nodes):
        stmts, t, _ = f.blocks[b]
        if t[0] == "call":
            fn = self.callee(t)
            if fn is None:
                return True
            if TIMED.search(fn["def"]) and t[2] and self.zero(f, t[2][-1]):
                return False
            for pat in (WAIT, IO):
                if self.call(t, pat):
                    return True
            if COUNT.search(fn["name"]) or COUNT.search(fn["def"]):
                return not OUTSIDE.search(fn["name"]) or "fetch_" in fn["name"]
            if NEXT.search(fn["name"].split("::<")[0] if fn["name"].endswith(">") else fn["name"]) or NEXT.search(fn["def"]):
                if OUTSIDE.search(fn["def"]):
                    return False
                loc = self.root(f, t)
                return loc is None or not self.made(f, nodes, loc)
        if t[0] == "assert" and re.search(r"verflow", str(t[3])):
            return True
        return False

    def spins(self, f, nodes=None):
        """the loops of f with a round that neither waits nor gets anywhere"""
        go = self.succ(f)
        out = []
        todo = sccs(set(range(len(f.blocks))) if nodes is None else nodes, go)
        loops = 0
        while todo:
            c = todo.pop()
            loops += 1
            keep = {b for b in c if not self.step(f, b, c)}
            # a loop inside that waits for a time or a state that it looks at itself
            heads = {x for b in range(len(f.blocks)) if b not in c for x in go(b) if x in c}
            for i in sccs(c - heads, go):
                if any(f.blocks[b][1][0] == "call" and PAUSE.search((self.callee(f.blocks[b][1]) or {"def": ""})["def"]) for b in i):
                    keep -= i
            if keep == c:
                out.append(c)
            else:
                todo += sccs(keep, go)
        return loops, out


def run(P, rep):
    rep.rules += ["turns: each round of a loop that looks at what another thread, a peer or the clock changes gives the processor away or waits, reads, writes, or takes one more of a finite number of things"]
    rep.assumptions += ["a call of a function of the user may wait; operations of other crates wait when they are known to"]
    S_ = Spin(P)
    loops = looking = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if not f.span[0].startswith("wrus") or f.name.startswith("wruster::test_utils::"):
            continue
        n, bad = S_.spins(f)
        if n:
            rep.fns.add(f.name)
        loops += n
        for c in bad:
            seen = [t for b in c for t in [f.blocks[b][1]] if t[0] == "call" and S_.call(t, OUTSIDE)]
            if not seen:
                continue
            looking += 1
            what = S_.callee(seen[0])
            rep.bad("turns", server.bare(f.name), "%s: a loop looks at %s again and again without waiting" % (server.bare(f.name), what["def"] if what else "something"), f.span[0])
    rep.ok("turns", "%d loops" % loops, n=max(loops, 1))
    rep.floor("loops", loops, 10)
