"""P04: every header line is handed over as it was received, and found whatever the case of its name."""
from .common import *
from . import conv, server
from .. import models

UNTIL = re.compile(r"::(read_until|read_line|skip_until|read_to_end)$")
PUSH = re.compile(r"(String|Vec::<T, A>)::push$")
TRIM = re.compile(r"::(trim\w*)$")
CUT = re.compile(r"::(pop|truncate|ends_with|last|split_last|rposition|rfind|rev|next_back|strip_suffix|drain|rsplit_once|rsplit|remove|retain)$")
FIND = re.compile(r"::(position|rposition|find|rfind|split_once|rsplit_once|splitn|split|split_at|split_first|memchr|strip_prefix|take_while|skip_while|map_while|all|any)$")


def bare(n):
    return server.bare(n).rstrip(":")


U = frozenset(range(0, 0x100))
TOKEN = frozenset(b"!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")
FIELD = frozenset([9] + list(range(32, 127)) + list(range(128, 256)))
OWS = frozenset([9, 32])


def base(x):
    """the byte a converted byte or character comes from"""
    while x.k == "app" and x.a[0] in ("chr_upper", "chr_lower", "cast", "deref") or x.k in ("cast", "deref"):
        x = x.a[1] if x.k == "app" else [y for y in x.a if isinstance(y, V)][0]
    return x


def holds(t, x, b):
    """the condition t on x, for x = b: True, False or None"""
    if t is x:
        return b
    if t.k == "i":
        return t.a[0]
    if t.k == "b":
        return bool(t.a[0])
    if t.k == "not":
        r = holds(t.a[0], x, b)
        return None if r is None else not r
    if t.k == "op" and t.a[0] in ("Eq", "Lt", "Le", "Ne"):
        p, q = holds(t.a[1], x, b), holds(t.a[2], x, b)
        if p is None or q is None:
            return None
        return {"Eq": p == q, "Lt": p < q, "Le": p <= q, "Ne": p != q}[t.a[0]]
    if t.k == "app" and t.a[0].startswith("cls:"):
        p = holds(t.a[1], x, b)
        return None if p is None else p in models.CLASSES[t.a[0][4:]]
    if t.k == "app" and t.a[0] == "inset":
        p = holds(t.a[1], x, b)
        return None if p is None else p in {y.a[0] for y in t.a[2:]}
    if t.k == "app" and t.a[0] in ("chr_upper", "chr_lower"):
        p = holds(t.a[1], x, b)
        if p is None:
            return None
        return p - 32 if t.a[0] == "chr_upper" and 97 <= p <= 122 else p + 32 if t.a[0] == "chr_lower" and 65 <= p <= 90 else p
    return None


def bset(eng, st, x):
    """the byte values x can have, by what the path knows about it"""
    s = eng.intset(st, x)
    f = st.facts.get(x)
    s = U if s is None else s & U
    if f is not None and f[0] == "ne":
        s = s - f[1]
    for t, f in st.facts.items():
        if t is not x and f[0] == "in" and len(f[1]) == 1 and contains(t, x) and t.k in ("op", "app", "not"):
            want = next(iter(f[1]))
            s = frozenset(b for b in s if (lambda r: r is None or int(r) == want)(holds(t, x, b)))
    return s


def byte(eng, st, x):
    """the index of the byte of the line that x is, or None; an element of an iteration has the index False"""
    x = base(x)
    if x.k == "app" and x.a[0] == "idx":
        c, i = x.a[1], x.a[2]
        while c.k == "app" and c.a[0] == "slice":
            i = eng.binop(st, "Add", i, c.a[2])
            c = c.a[1]
        return i
    if x.k == "idx":
        return x.a[1]
    if x.k == "elem":
        return False
    return None


def bytes_in(eng, st, t):
    return [x for x in walk(t) if (x.k in ("idx", "elem") or x.k == "app" and x.a[0] in ("idx", "elem")) and not any(y.k == "agg" and y.a[0] in ("array", "vec") or y.k == "bs" for y in walk(x))]


def key(x, i):
    """what stands for the byte x in the state of the monitor"""
    return x if i is False else i


def mixed(a, b):
    """an element of an iteration and an index can not be compared"""
    el = lambda k: not found(k) and any(y.k == "elem" or y.k == "app" and y.a[0] == "elem" for y in walk(k))
    return el(a) != el(b)


def found(i):
    """the index an element was found at"""
    return isinstance(i, V) and i.k == "fresh" and i.a[0] == "index"


def before(x):
    """the element x is one of those in front of an element found"""
    it = next((y for y in walk(x) if y.k == "app" and y.a[0] == "slice" and len(y.a) > 3), None)
    return it is not None and found(it.a[3]) and it.a[2] is I(0)


def kind(s):
    return "ows" if s <= OWS else "other" if not s & FIELD else "part" if s & OWS else "text"


FOUND = S("found")


class Line(Monitor):
    """where the parser is in the header line:
    (phase, what ended the name or the index of the colon, byte examined and not yet kept, name has a byte, value began, trimmed)"""
    def init(self):
        return ("pre", None, None, False, False, False)

    def event(self, m, e, st, eng):
        ph, at, open_, named, began, trimmed = m[:6]
        rest = m[6:]
        if e.kind == "call" and UNTIL.search(e.name) and ph != "pre":
            return self.init() + tuple(x for x in rest if x != "scanned")
        if e.kind == "call" and e.name == "std::iter::Iterator::next" and e.ret is not None and e.ret.k == "agg" and e.ret.a[1] == 0 and ph == "pre" and "scanned" not in rest \
                and "Chars" not in str(e.info):
            rest = rest + ("scanned",)
        if e.kind == "call" and FIND.search(bare(e.name)) and "searched" not in rest:
            rest = rest + ("searched",)
        if e.kind == "branch" and e.args:
            for x in bytes_in(eng, st, e.args[0]):
                i = byte(eng, st, x)
                if i is None:
                    continue
                if ph == "pre":
                    if i is False or i.k == "i" and i.a[0] == 0:
                        ph = "name"
                    else:
                        continue
                s = bset(eng, st, x)
                if ph == "name":
                    if i is False and not named and "scanned" not in rest:
                        rest = rest + ("scanned",)
                    if not s & TOKEN:
                        ph, at = "end", FOUND if "scanned" in rest and i is False else key(x, i)
                if ph == "end":
                    if s == {58}:
                        if at is not FOUND and at is not key(x, i) and not mixed(at, key(x, i)):
                            rest = mark(m[:6] + rest, "something else than the colon may follow the name")[6:]
                        ph, at, open_ = "colon", (i if i is not False else None), None
                    continue
                if ph in ("colon", "value") and (open_ is None or key(x, i) is not open_[0]):
                    if ph == "colon":
                        if at is None or i is False or i is eng.binop(st, "Add", at, I(1)):
                            ph, open_ = "value", (key(x, i), kind(s))
                        else:
                            trimmed = True
                        continue
                    elif not began and open_ is not None and open_[1] == "ows" and not mixed(open_[0], key(x, i)) and i is not False and i is not eng.binop(st, "Add", open_[0], I(1)):
                        trimmed = True
                        continue
                    if began and open_ is not None and open_[1] != "other":
                        rest = mark(m[:6] + rest, "a byte of the value is left out")[6:]
                    elif not began and open_ is not None and open_[1] != "ows" and not mixed(open_[0], key(x, i)):
                        trimmed = True
                        continue
                    elif not began and open_ is not None and open_[1] == "ows" and not mixed(open_[0], key(x, i)) and i is not False and i is not eng.binop(st, "Add", open_[0], I(1)):
                        trimmed = True
                        continue
                    open_ = (key(x, i), kind(s))
                elif ph == "value":
                    open_ = (open_[0], kind(s))
            return (ph, at, open_, named, began, trimmed) + rest
        if e.kind == "call" and PUSH.search(bare(e.name)) and len(e.args) > 1:
            x = base(e.args[1])
            i = byte(eng, st, x)
            if i is None or x.k == "app" and "chars" in show(x, 6):
                return m[:6] + rest
            if ph == "pre" and (i is False or i.k == "i" and i.a[0] == 0):
                ph = "name"
            s = bset(eng, st, x)
            if i is False and not began and ph in ("name", "end") and "scanned" in rest and (ph == "name" or before(x)):
                # the bytes in front of the one that ended the search are the name
                return (ph, at, open_, True, began, trimmed) + rest
            if ph == "name":
                if s - TOKEN:
                    rest = mark(m[:6] + rest, "a name may contain a character that is not allowed in one (%s)" % some(s - TOKEN))[6:]
                return (ph, at, None, True, began, trimmed) + rest
            if ph in ("colon", "value"):
                if ph == "colon" and not (at is None or i is False or i is eng.binop(st, "Add", at, I(1))):
                    rest = mark(m[:6] + rest, "the value does not start behind the colon")[6:]
                if ph == "value" and not began and open_ is not None and open_[1] != "ows" and open_[0] is not key(x, i) and not mixed(open_[0], key(x, i)):
                    rest = mark(m[:6] + rest, "a byte that is no white space is left out at the start of the value")[6:]
                if s - FIELD:
                    rest = mark(m[:6] + rest, "a value may contain a character that is not allowed in one (%s)" % some(s - FIELD))[6:]
                if e.args[1] is not x and e.args[1].k == "app" and e.args[1].a[0].startswith("chr_"):
                    rest = mark(m[:6] + rest, "the value is changed")[6:]
                return ("value", at, None, named, True, trimmed) + rest
            return m[:6] + rest
        if e.kind == "call" and CUT.search(bare(e.name)) and (ph in ("colon", "value")):
            return (ph, at, open_, named, began, True) + rest
        if e.kind == "call" and ph == "pre" and TRIM.search(bare(e.name)) and not bare(e.name).endswith("start"):
            return (ph, at, open_, named, began, True) + rest
        if e.kind == "call" and ph in ("colon", "value") and TRIM.search(bare(e.name)):
            n = bare(e.name).split("::")[-1]
            cs = self.chars(eng, st, e)
            if cs is not None and cs - OWS:
                rest = mark(m[:6] + rest, "more than white space is cut off the value (%s)" % some(cs - OWS))[6:]
            return (ph, at, open_, named, began, True) + rest
        return m[:6] + rest

    def chars(self, eng, st, e):
        n = bare(e.name).split("::")[-1]
        if n in ("trim", "trim_end", "trim_start", "trim_left", "trim_right"):
            return models.CLASSES["is_whitespace"]
        if n.startswith("trim_ascii"):
            return models.CLASSES["is_ascii_whitespace"]
        p = e.args[1] if len(e.args) > 1 else None
        if p is None:
            return None
        v = eng.content(st, p) if p.k == "ref" else p
        if v.k == "i":
            return frozenset([v.a[0]])
        if v.k == "s":
            return frozenset(map(ord, v.a[0])) if len(v.a[0]) == 1 else U
        if v.k == "agg" and v.a[0] in ("array", "vec") and all(y.k == "i" for y in v.a[2]):
            return frozenset(y.a[0] for y in v.a[2])
        return None


def some(s):
    return ", ".join(repr(chr(b)) for b in sorted(s)[:4]) + (", ..." if len(s) > 4 else "")


def hook(c, st):
    n = bare(c.x.get("name") or c.tdef)
    if (TRIM.search(n) or FIND.search(n) or CUT.search(n)) and re.match(r"(core|std|alloc)::(str|slice|string)", n):
        args = [c.eng.content(st, a) for a in c.args]
        r = app(n.split("::")[-1], *args)
        return [(r, st, Event("call", n, c.args, r, c.ctx, c.block, c.x))]
    return None


def normalisers(P):
    """functions that make one text of one text and look at the case of its characters"""
    out = []
    for f in fns(P, r"^wruster::"):
        t = lambda i: P.types[f.locals[i]]["s"]
        if f.argc != 1 or t(0) != "std::string::String" or t(1) not in ("std::string::String", "&str", "&std::string::String"):
            continue
        if any(re.search(r"(to_ascii|to|make_ascii)_(upper|lower)case$", n) for n in names_called(f)):
            out.append(f)
    return out


def names_called(f):
    for b in f.blocks:
        t = b[1]
        if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]["v"]:
            yield t[1][1]["v"]["fn"]["name"]
            yield t[1][1]["v"]["fn"]["def"]


class Fold(Monitor):
    """(the character at hand, characters kept of it)"""
    def init(self):
        return (None, 0)

    def event(self, m, e, st, eng):
        cur, k = m[:2]
        rest = m[2:]
        if e.kind == "call" and e.name.endswith("Iterator::next"):
            if cur is not None and k != 1:
                rest = mark(m[:2] + rest, "a character of the name is %s" % ("lost" if k == 0 else "kept more than once"))[2:]
            v = e.ret
            x = v.a[2][0] if v.k == "agg" and v.a[1] == 1 else None
            return ((base(x) if x is not None and base(x).k in ("elem", "app") else None), 0) + rest
        if e.kind == "branch" and e.args:
            for x in bytes_in(eng, st, e.args[0]):
                h = {b: holds(e.args[0], x, b) for b in range(128)}
                if None in h.values():
                    continue
                for b in range(65, 91):
                    if bool(h[b]) != bool(h[b + 32]):
                        return mark(m, "the form of a name depends on the case it is written in")
        if e.kind == "call" and PUSH.search(bare(e.name)) and len(e.args) > 1:
            x = base(e.args[1])
            if x is not cur:
                return m
            for b in bset(eng, st, x):
                r = holds(e.args[1], x, b)
                if r is None:
                    continue
                if r != b and not (chr(b).isalpha() and b < 128 and r in (b ^ 32,)):
                    return mark(m, "more than the case of a name is changed")
                if chr(b).isalpha() and b < 128 and holds(e.args[1], x, b ^ 32) != r:
                    return mark(m, "the form of a name depends on the case it is written in")
            return (cur, min(k + 1, 2)) + rest
        return m


class Count(Monitor):
    def init(self):
        return (0,)

    def event(self, m, e, st, eng):
        return (m[0] + 1,) if e.kind == "call" and e.name.endswith("Iterator::next") else m


def apply(P, f, word):
    """what the normaliser makes of a given word, or None"""
    def nexth(c, st):
        if c.tdef == "std::iter::Iterator::next":
            k = st.mon[0][0]
            d = c.eng.P.types[c.destty]
            it = c.eng.P.types[d["args"][0]] if d.get("args") else {"k": "?"}
            if it["k"] not in ("char", "uint") or k > len(word):
                raise Overflow("not an iteration of characters")
            r = models.some(c, I(ord(word[k]))) if k < len(word) else models.none(c)
            return [(r, st, Event("call", "std::iter::Iterator::next", c.args, r, c.ctx, c.block, c.x))]
        return None
    e = Engine(P, monitors=[Count()], poison=False, hook=nexth)
    a = S(word) if P.types[f.locals[1]]["s"] == "std::string::String" else models.const_ref(S(word))
    try:
        e.run(f, [a])
    except Overflow:
        return None
    v = {n.val if n.val.k != "ref" else e.load(n.st, *n.val.a) for n in e.ends if n.kind == "return"}
    v = list(v)
    return v[0].a[0] if len(v) == 1 and v[0].k == "s" else None


def looked_up(P, rep):
    """{name looked up: function}"""
    out, seen = {}, set()
    for f in fns(P, r"^(wruster::|<wruster::)"):
        b = bare(f.name)
        if b in seen or not any(re.search(r"headers::Headers::get$", n) for n in names_called(f)):
            continue
        seen.add(b)
        e = Engine(P, poison=False, keep_args=True, opaque=lambda x, g: True)
        e.run(f)
        rep.engine(e, f)
        for x in e.all_events():
            if x.kind == "call" and re.search(r"headers::Headers::get$", x.name) and len(x.args) > 1:
                v = x.args[1]
                if v.k == "ref":
                    v = v.a[0][1] if v.a[0][0] == "K" and isinstance(v.a[0][1], V) else v
                if v.k == "s":
                    out.setdefault(v.a[0], f)
    return out


def folding(P, rep, N):
    for f in N:
        e = Engine(P, monitors=[Fold()], poison=False, keep_args=True)
        e.run(f)
        rep.engine(e, f)
        for b, n in marks(e, 0).items():
            rep.bad("fold", b, b, f.span[0], short(e.path_to(n)))
        for n in e.ends:
            if n.kind == "panic":
                rep.bad("fold", "panic", "a name can make the reader panic", f.span[0], short(e.path_to(n)))
    if len(N) != 1:
        return
    f = N[0]
    words = looked_up(P, rep)
    rep.floor("header names looked up", len(words), 1)
    for w, g in sorted(words.items()):
        for v in sorted({w, w.lower(), w.upper(), w.title()}):
            r = apply(P, f, v)
            if r is None:
                continue
            rep.check("found", r == w, w, "%s looks for %r, but a header received as %r is kept as %r" % (bare(g.name).split("::")[-1], w, v, r), g.span[0])


LIST = re.compile(r"::(push|push_back|insert|remove|clear|retain|truncate|pop|drain|sort|sort_unstable|dedup|swap|reverse|append|extend|extend_from_slice|swap_remove|remove_entry|entry|get_mut|or_default|or_insert|or_insert_with|and_modify|into_mut|take|replace|split_off|resize|set_len)$")


class Add(Monitor):
    """(terms that lead to the values of the name, lookups known to find nothing, times stored)"""
    def __init__(self, name, value):
        self.name, self.value = name, value

    def init(self):
        return ((), (), 0)

    def event(self, m, e, st, eng):
        ls, none, k = m[:3]
        rest = m[3:]
        for r in ls:
            if learnt(e, r) == 0 and r not in none:
                none = none + (r,)
        if e.kind == "branch" and e.args:
            t, b = e.args[0], e.ret.k == "b" and bool(e.ret.a[0])
            while t.k == "not":
                t, b = t.a[0], not b
            if not b and any(t is r for r in ls) and t not in none:
                none = none + (t,)
        if e.kind == "call":
            n = bare(e.name)
            w = LIST.search(n)
            on = e.args[0] if e.args else None
            mine = on is not None and any(contains(on, r) or contains(eng.content(st, on), r) for r in ls)
            keyed = len(e.args) > 1 and contains(eng.content(st, e.args[1]) if e.args[1].k == "ref" else e.args[1], self.name)
            if re.search(r"::(entry|get_mut|get|contains_key|raw_entry_mut)$", n) and "Map" in n:
                if not keyed:
                    rest = mark(m[:3] + rest, "the values of another name are touched")[3:]
                return (ls + (e.ret,), none, k) + rest
            if w and ("Map" in n or "map" in n) and not mine and w.group(1) == "insert":
                v = e.args[2] if len(e.args) > 2 else UNIT
                if not keyed or not self.has(eng, st, v):
                    rest = mark(m[:3] + rest, "something else than the header is stored")[3:]
                elif not none:
                    rest = mark(m[:3] + rest, "the values the name had before are lost")[3:]
                return (ls, none, min(k + 1, 2)) + rest
            if w and mine:
                what = w.group(1)
                if what in ("push", "push_back", "insert") and len(e.args) > 1 and (what != "insert" or len(e.args) == 2):
                    v = e.args[1]
                    if not self.has(eng, st, v):
                        rest = mark(m[:3] + rest, "something else than the header is stored")[3:]
                    elif what == "insert" and "Vacant" not in n:
                        rest = mark(m[:3] + rest, "the values the name had before are lost")[3:]
                    return (ls + (e.ret,), none, min(k + 1, 2)) + rest
                if what == "and_modify":
                    return (ls + (e.ret,), none, k) + ("unjudged",) + rest
                if what in ("or_insert", "or_insert_with") and len(e.args) > 1 and self.has(eng, st, e.args[1]):
                    return (ls + (e.ret,), none, k) + ("unjudged",) + rest
                if what in ("entry", "get_mut", "or_default", "or_insert", "or_insert_with", "into_mut"):
                    return (ls + (e.ret,), none, k) + rest
                rest = mark(m[:3] + rest, "the values of a name are not kept in the order they came (%s)" % what)[3:]
        return (ls, none, k) + rest

    def has(self, eng, st, v, d=0):
        if contains(v, self.value):
            return True
        if v.k == "ref" and d < 4:
            return self.has(eng, st, eng.load(st, *v.a), d + 1)
        if v.k == "agg":
            return any(self.has(eng, st, y, d + 1) for y in v.a[2] if isinstance(y, V)) if d < 4 else False
        return False


class Missed(Monitor):
    """lookups known to find nothing"""
    def event(self, m, e, st, eng):
        if e.kind == "call" and re.search(r"Map.*::get$", bare(e.name)) and not any(x is e.ret for x, _ in m):
            return m + ((e.ret, None),)
        return tuple((x, 0 if learnt(e, x) == 0 else k) for x, k in m)


class Collect(Monitor):
    """(result of reading a line, the header was added, state of Add when it is added here and not by Headers::add)"""
    def __init__(self, H):
        self.H = H

    def init(self):
        return (None, False, ((), (), 0))

    def event(self, m, e, st, eng):
        r, added, ended = m[:3]
        rest = m[3:]
        if r is not None and not (e.kind == "call" and (LINE.search(e.name) or ADD.search(e.name))):
            h = payload(ok(r))
            s = Add(mk("fld", h, self.H["name"]), mk("fld", h, self.H["value"])).event(ended, e, st, eng)
            for x in s[3:]:
                rest = mark(m[:3] + rest, x if x != "unjudged" else "how the header is stored is not followed")[3:]
            m = (r, added or s[2] > 0, s[:3]) + rest
        if e.kind == "call":
            if LINE.search(e.name):
                if r is not None and known_variant(st, ok(r)) != 0 and not added:
                    rest = mark(m[:3] + rest, "a header that was read is left out")[3:]
                if r is not None and known_variant(st, ok(r)) == 0:
                    rest = mark(m[:3] + rest, "another line is read after the end of the headers")[3:]
                return (e.ret, False, ((), (), 0)) + rest
            if ADD.search(e.name) and len(e.args) > 1:
                h = e.args[1]
                if r is None or added or not self.whole(eng, st, h, payload(ok(r))):
                    rest = mark(m[:3] + rest, "what is added is not the header that was just read")[3:]
                return (r, True, ended) + rest
        return m

    def whole(self, eng, st, h, x):
        if h is x:
            return True
        if h.k == "agg":
            return all(y is mk("fld", x, i) or y is mk("deref", mk("fld", x, i)) for i, y in enumerate(h.a[2]))
        return False


LINE = re.compile(r"headers::Header::read_from(::<.*)?$")
ADD = re.compile(r"headers::Headers::add$")
GET = re.compile(r"headers::Headers::get$")


def ok(r):
    return mk("fld", mk("as", r, 0), 0)


def payload(o):
    return mk("fld", mk("as", o, 1), 0)


def collection(P, rep):
    f = fn1(P, rep, r"^wruster::http::headers::Headers::add$")
    H = conv.field_names(P, "wruster::http::headers::Header")
    if f is not None:
        e = Engine(P, monitors=[Add(mk("fld", mk("arg", 1), H["name"]), mk("fld", mk("arg", 1), H["value"]))], poison=False, keep_args=True)
        e.run(f)
        rep.engine(e, f)
        for b, n in marks(e, 0).items():
            rep.bad("add", b, b, f.span[0], short(e.path_to(n)))
        for n in e.ends:
            if n.kind == "panic":
                rep.bad("add", "panic", "adding a header can panic", f.span[0], short(e.path_to(n)))
            if n.kind == "return" and "unjudged" not in n.st.mon[0]:
                k = n.st.mon[0][2]
                rep.check("stored", k == 1, f.name, "a header added is %s" % ("not stored" if k == 0 else "stored more than once"), f.span[0], short(e.path_to(n)))
        rep.floor("ways to add a header", len([n for n in e.ends if n.kind == "return"]), 1)
    f = fn1(P, rep, GET.pattern)
    if f is not None:
        e = Engine(P, monitors=[Missed()], poison=False, keep_args=True)
        e.run(f)
        rep.engine(e, f)
        found = [x for x in e.all_events() if x.kind == "call" and re.search(r"Map.*::get$", bare(x.name))]
        for n in e.ends:
            if n.kind == "panic":
                rep.bad("get", "panic", "looking for a header can panic", f.span[0], short(e.path_to(n)))
            if n.kind == "return" and found:
                mine = [x for x in found if contains(n.val, x.ret)]
                good = [x for x in mine if contains(e.content(n.st, x.args[1]) if x.args[1].k == "ref" else x.args[1], mk("arg", 1))]
                none = n.val.k == "agg" and n.val.a[1] == 0 and any(k == 0 for x, k in n.st.mon[0])
                rep.check("get", good or none, f.name, "something else than the values of the name asked for is returned", f.span[0], short(e.path_to(n)))
    f = fns(P, r"^wruster::http::headers::Headers::read_from(::<|$)")
    rep.floor("readers of headers", len(f), 1)
    for f in f[:1]:
        e = Engine(P, monitors=[Collect(H)], poison=False, keep_args=True, opaque=lambda x, g: bool(LINE.search(g.name) or ADD.search(g.name)))
        e.run(f)
        rep.engine(e, f)
        for b, n in marks(e, 0).items():
            rep.bad("collect", b, b, f.span[0], short(e.path_to(n)))
        if not any(x.kind == "call" and LINE.search(x.name) for x in e.all_events()):
            continue
        good = 0
        for n in e.ends:
            if n.kind != "return" or result_var(n.val) != 0:
                continue
            good += 1
            r = n.st.mon[0][0]
            rep.check("end", r is not None and known_variant(n.st, ok(r)) == 0, f.name, "the headers end before the blank line", f.span[0], short(e.path_to(n)))
        rep.floor("ways to read the headers", good, 1)


def lines(P, rep, N):
    """header lines"""
    for f in fns(P, r"^wruster::http::headers::Header::read_from(::<|$)")[:1]:
        e = Engine(P, monitors=[Line()], poison=False, numeric=True, keep_args=True, hook=hook, opaque=lambda x, g: g in N)
        e.run(f)
        rep.engine(e, f)
        for b, n in marks(e, 0).items():
            rep.bad("line", b, b, f.span[0], short(e.path_to(n)))
        got = 0
        H = conv.field_names(P, "wruster::http::headers::Header")
        for n in e.ends:
            v = n.val
            if n.kind != "return" or result_var(v) != 0:
                continue
            v = payload_of(v)
            if v is None or v.k == "agg" and v.a[1] == 0:
                continue
            ph, at, op, named, began, trimmed = n.st.mon[0][:6]
            if ph == "pre" and "searched" in n.st.mon[0]:
                rep.ok("unjudged", f.name)
                continue
            got += 1
            p = short(e.path_to(n))
            rep.check("colon", ph in ("colon", "value"), f.name, "a line without a colon behind the name is accepted", f.span[0], p)
            rep.check("named", named, f.name, "a line without a name is accepted", f.span[0], p)
            rep.check("trimmed", trimmed or not began, f.name, "white space at the end of the value is kept", f.span[0], p)
            if N:
                h = v.a[2][0] if v.k == "agg" and v.a[1] == 1 else v
                h = h.a[2][H["name"]] if h.k == "agg" and len(h.a[2]) > H["name"] else h
                rep.check("normalised", any(y.k == "ret" and contains_fn(y, N) for y in walk(h)), f.name, "the name of a header is kept as it was written", f.span[0], p)
        rep.floor("ways to accept a header line", got, 1)


def contains_fn(y, N):
    return any(str(y.a[0]) in g.name or g.name.endswith(str(y.a[0])) for g in N)


def payload_of(v):
    return v.a[2][0] if v.k == "agg" and len(v.a[2]) == 1 else None


def run(P, rep):
    rep.rules += ["typestate of the header line: token characters up to a colon, the value from there on, nothing of it left out but the white space around it"]
    N = normalisers(P)
    lines(P, rep, N)
    folding(P, rep, N)
    collection(P, rep)
