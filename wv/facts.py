"""Facts loader: the MIR facts written by the driver, merged into one program.

Types are unified across crates by their printed name; functions by their mangled key."""
import json, os, re


class Fn:
    __slots__ = ("key", "name", "crate", "kind", "poly", "args", "assoc", "vis", "argc", "locals", "names",
                 "blocks", "span", "spread", "defp", "unit", "_live", "_preds", "_heads", "_rpo", "_borrowed", "_nsucc")

    def __repr__(self):
        return "<fn %s>" % self.name


class Program:
    def __init__(self, outdir):
        self.types = []          # unified types (dicts, with indices remapped)
        self.tindex = {}         # type string -> unified index
        self.fns = {}            # key -> Fn
        self.items = []
        self.unchecked = {}
        self.units = {}
        for unit in ("wruster.lib", "wruster_handlers.lib", "wrustatic.bin", "wrusdummy.bin"):
            p = os.path.join(outdir, unit + ".json")
            with open(p) as fh:
                d = json.load(fh)
            self._merge(unit, d)
        self.by_name = {}
        for f in self.fns.values():
            self.by_name.setdefault(f.name, []).append(f)

    # -- merging -------------------------------------------------------
    def _merge(self, unit, d):
        T = d["types"]
        remap = {}
        new = []
        for i, t in enumerate(T):
            s = t["s"]
            # closures print relative paths: unique per crate, ok
            j = self.tindex.get(s)
            if j is None:
                j = len(self.types)
                self.tindex[s] = j
                self.types.append(None)
                new.append((i, j))
            elif t["k"] == "closure" and self.types[j] is not None and self.types[j]["k"] == "closure" and not self.types[j].get("up") and t.get("up"):
                new.append((i, j))
            remap[i] = j

        def rt(x):
            return remap[x] if isinstance(x, int) else x

        def rv(v):
            """constant value"""
            if not isinstance(v, dict):
                return v
            out = {}
            for k, x in v.items():
                if k == "fn":
                    y = dict(x)
                    y["args"] = [rt(a) for a in x.get("args", [])]
                    out[k] = y
                elif k in ("ref",):
                    out[k] = rv(x)
                elif k in ("array", "tuple", "fields"):
                    out[k] = [rv(e) for e in x] if isinstance(x, list) else x
                elif k == "variant":
                    out[k] = x
                else:
                    out[k] = x
            return out

        for i, j in new:
            t = dict(T[i])
            for k in ("e",):
                if k in t:
                    t[k] = rt(t[k])
            for k in ("f", "up"):
                if k in t and isinstance(t[k], list):
                    t[k] = [rt(x) for x in t[k]]
            if t["k"] == "fndef":
                t["f"] = rv(t["f"])
            if t["k"] == "adt":
                t["args"] = [rt(a) for a in t["args"]]
                t["variants"] = [[v[0], [[fn_, rt(ft)] for fn_, ft in v[1]], v[2]] for v in t["variants"]]
            self.types[j] = t

        def place(p):
            pr = []
            for e in p[1]:
                if isinstance(e, list):
                    if e[0] == "f":
                        e = ["f", e[1], rt(e[2])]
                    elif e[0] == "oc":
                        e = ["oc", rt(e[1])]
                pr.append(e)
            return [p[0], pr]

        def operand(o):
            if o[0] in ("c", "m"):
                return [o[0], place(o[1])]
            if o[0] == "k":
                return ["k", {"ty": rt(o[1]["ty"]), "v": rv(o[1]["v"])}]
            return o

        def rvalue(r):
            k = r[0]
            if k in ("ref", "reborrow"):
                return [k, r[1], place(r[2])]
            if k == "agg":
                a = list(r[1])
                if a[0] in ("adt", "closure", "array") and len(a) > 1:
                    a[1] = rt(a[1])
                return [k, a, [operand(o) for o in r[2]]]
            if k in ("bin", "chk"):
                return [k, r[1], operand(r[2]), operand(r[3])]
            if k == "cast":
                return [k, r[1], operand(r[2]), rt(r[3])]
            if k == "use":
                return [k, operand(r[1])]
            if k in ("discr", "len"):
                return [k, place(r[1])]
            if k == "repeat":
                return [k, operand(r[1]), r[2]]
            if k == "un":
                return [k, r[1], operand(r[2])]
            return r

        def stmt(s_):
            if s_[0] == "=":
                return ["=", place(s_[1]), rvalue(s_[2]), s_[3]]
            if s_[0] == "sd":
                return ["sd", place(s_[1]), s_[2], s_[3]]
            return s_

        def term(t):
            k = t[0]
            if k == "switch":
                return [k, operand(t[1]), rt(t[2]), [[int(v), b] for v, b in t[3]], t[4]]
            if k == "drop":
                return [k, place(t[1]), rt(t[2]), t[3], t[4]]
            if k == "call":
                return [k, operand(t[1]), [operand(o) for o in t[2]], place(t[3]), t[4], t[5], [rt(x) for x in t[6]], rt(t[7])]
            if k == "assert":
                msg = [operand(m) if isinstance(m, list) else m for m in t[3]] if isinstance(t[3], list) else t[3]
                return [k, operand(t[1]), t[2], msg, t[4], t[5]]
            return t

        for key, f in d["fns"].items():
            if key in self.fns:
                continue
            o = Fn()
            o.key = key
            o.name = f["name"]
            o.crate = f["crate"]
            o.kind = f["kind"]
            o.poly = f["poly"]
            o.args = [rt(a) for a in f.get("args") or []]
            o.assoc = f.get("assoc")
            o.vis = f.get("vis")
            o.argc = f["argc"]
            o.locals = [rt(x) for x in f["locals"]]
            o.names = [[n, place(p)] for n, p in f["names"]]
            o.blocks = [[[stmt(s_) for s_ in b[0]], term(b[1]), b[2]] for b in f["blocks"]]
            if o.crate.startswith("wrus"):
                self.lazy(o)
            o.span = f["span"]
            o.spread = f.get("spread")
            o.defp = f["def"]
            o.unit = unit
            o._live = o._preds = o._heads = o._rpo = o._borrowed = None
            self.fns[key] = o
        self.items += [(unit,) + tuple(x) for x in d["items"]]
        self.unchecked[unit] = d["unchecked"]
        self.units[unit] = {"fns": len(d["fns"]), "types": len(T)}

    def lazy(self, o):
        """a & b and a | b of booleans decided like && and ||"""
        i = 0
        while i < len(o.blocks):
            ss, t, sp = o.blocks[i]
            for j, s in enumerate(ss):
                if s[0] == "=" and not s[1][1] and s[2][0] == "bin" and s[2][1] in ("BitAnd", "BitOr") and self.types[o.locals[s[1][0]]]["k"] == "bool" and s[2][2][0] in ("c", "m"):
                    n = len(o.blocks)
                    bt = o.locals[s[1][0]]
                    k = int(s[2][1] == "BitOr")
                    o.blocks.append([[["=", s[1], ["use", s[2][3]], s[3]]], ["goto", n + 2], sp])
                    o.blocks.append([[["=", s[1], ["use", ["k", {"ty": bt, "v": {"int": str(k)}}]], s[3]]], ["goto", n + 2], sp])
                    o.blocks.append([ss[j + 1:], t, sp])
                    o.blocks[i] = [ss[:j], ["switch", s[2][2], bt, [[0, n if k else n + 1]], n + 1 if k else n], sp]
                    break
            i += 1

    # -- helpers -------------------------------------------------------
    def ty(self, i):
        return self.types[i]

    def tystr(self, i):
        return self.types[i]["s"]

    def find(self, pat, mono=True, crate=None):
        """functions whose printed name matches the regex"""
        r = re.compile(pat)
        return [f for f in self.fns.values() if (not mono or not f.poly) and r.search(f.name) and (crate is None or f.crate == crate)]

    def local(self, f):
        return f.crate.startswith("wrus")


def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        return [b for _, b in term[3]] + ([term[4]] if term[4] is not None else [])
    if k == "drop":
        return [x for x in (term[3], term[4]) if x is not None]
    if k == "call":
        return [x for x in (term[4], term[5]) if x is not None]
    if k == "assert":
        return [x for x in (term[4], term[5]) if x is not None]
    return []


def normal_succs(term):
    k = term[0]
    if k == "drop":
        return [term[3]]
    if k == "call":
        return [term[4]] if term[4] is not None else []
    if k == "assert":
        return [term[4]]
    return succs(term)


def _place_uses(p, uses):
    uses.add(p[0])
    for e in p[1]:
        if isinstance(e, list) and e[0] == "i":
            uses.add(e[1])


def _op_uses(o, uses):
    if o[0] in ("c", "m"):
        _place_uses(o[1], uses)


def analyse(f):
    """per function: predecessors, loop heads (targets of back edges), liveness, borrowed locals"""
    if f._preds is not None:
        return
    n = len(f.blocks)
    preds = [0] * n
    for b in f.blocks:
        for s in set(succs(b[1])):
            preds[s] += 1
    heads = set()
    color = [0] * n
    order = []
    stack = [(0, iter(succs(f.blocks[0][1])))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color[s] == 0:
                color[s] = 1
                stack.append((s, iter(succs(f.blocks[s][1]))))
                break
            elif color[s] == 1:
                heads.add(s)
        else:
            color[b] = 2
            order.append(b)
            stack.pop()
    f._rpo = {b: i for i, b in enumerate(reversed(order))}
    f._preds = preds
    f._heads = heads
    borrowed = set()
    gen = [None] * n
    for bi, (sts, t, sp) in enumerate(f.blocks):
        for s in sts:
            if s[0] == "=" and s[2][0] in ("ref", "reborrow"):
                p = s[2][2]
                if "*" not in p[1]:
                    borrowed.add(p[0])
    f._borrowed = borrowed
    # liveness (backward); borrowed locals live from borrow till StorageDead (treated: always live unless dead)
    f._live = [_liveness(f, order, normal_succs), _liveness(f, order, succs)]


def _liveness(f, order, succs):
    n = len(f.blocks)
    live_in = [set() for _ in range(n)]
    changed = True
    rorder = order
    while changed:
        changed = False
        for b in rorder:
            sts, t, sp = f.blocks[b]
            live = set()
            for s in succs(t):
                live |= live_in[s]
            k = t[0]
            if k == "call":
                if not t[3][1]:
                    live.discard(t[3][0])
                else:
                    _place_uses(t[3], live)
                _op_uses(t[1], live)
                for o in t[2]:
                    _op_uses(o, live)
            elif k == "switch":
                _op_uses(t[1], live)
            elif k == "drop":
                _place_uses(t[1], live)
            elif k == "assert":
                _op_uses(t[1], live)
                if isinstance(t[3], list):
                    for m in t[3]:
                        if isinstance(m, list):
                            _op_uses(m, live)
            elif k == "return":
                live.add(0)
            for s in reversed(sts):
                if s[0] == "=":
                    if not s[1][1]:
                        live.discard(s[1][0])
                    else:
                        _place_uses(s[1], live)
                    r = s[2]
                    kk = r[0]
                    if kk in ("ref", "reborrow"):
                        _place_uses(r[2], live)
                    elif kk == "agg":
                        for o in r[2]:
                            _op_uses(o, live)
                    elif kk in ("bin", "chk"):
                        _op_uses(r[2], live)
                        _op_uses(r[3], live)
                    elif kk in ("cast", "un"):
                        _op_uses(r[2], live)
                    elif kk in ("use", "repeat"):
                        _op_uses(r[1], live)
                    elif kk in ("discr", "len"):
                        _place_uses(r[1], live)
                elif s[0] == "sd":
                    _place_uses(s[1], live)
            if live != live_in[b]:
                live_in[b] = live
                changed = True
    return live_in
