"""What a function does along each of its paths: the calls, stores and decisions in order, with values as known on that path
(stores forwarded to later loads, phis resolved by the edge taken).  Loops are cut at their header, so one trace of a loop body
stands for every iteration.  No solver: a decision is only dropped when its outcome is already fixed on the path."""
from ir import *
from loops import *
from rangelib import bare, noid, root, ranges, Range

NEGP = {"ne": "eq", "uge": "ult", "sge": "slt"}


class Step:
    __slots__ = ("kind", "i", "q", "val", "args", "addr", "mem", "truth", "pos")

    def __init__(self, kind, i, mem, **k):
        self.kind, self.i, self.mem = kind, i, mem
        self.q = self.val = self.args = self.addr = self.truth = None
        for a, v in k.items():
            setattr(self, a, v)

    def full(self, e, d=6):
        """e with temporaries replaced by what they were given, identities and casts dropped"""
        return full(self.mem, e, d)

    def arg(self, k):
        return self.full(self.args[k])


def full(mem, e, d=6):
    if not isinstance(e, tuple) or not e:
        return e
    e = bare(e)
    if d <= 0:
        return e
    if e[0] == "ld" and e[1] in mem and root(e[1])[0] == "alloca":
        return full(mem, mem[e[1]], d - 1)
    if e[0] == "ld" and e[1][0] == "alloca" and ("src", e[1]) in mem:
        return full(mem, ("ld", mem[("src", e[1])]), d - 1)
    if e[0] in ("alloca", "fld", "sub") and e in mem and root(e)[0] == "alloca":
        return full(mem, mem[e], d - 1)
    if e[0] == "phi":
        return e
    return (e[0],) + tuple(full(mem, x, d) if isinstance(x, tuple) else x for x in e[1:])


def atom(e, t=True):
    """(normal form, truth) of a condition"""
    while e[0] == "not":
        e, t = e[1], not t
    e = bare(e)
    while e[0] == "not":
        e, t = e[1], not t
    if e[0] == "cmp":
        p, a, b = e[1], bare(e[2]), bare(e[3])
        if p in ("ugt", "sgt"):
            p, a, b = {"ugt": "ult", "sgt": "slt"}[p], b, a
        elif p in ("ule", "sle"):
            p, a, b, t = {"ule": "ult", "sle": "slt"}[p], b, a, not t
        elif p in NEGP:
            p, t = NEGP[p], not t
        if p == "ult" and b == ("c", 1):
            p, b = "eq", ("c", 0)
        if p == "ult" and a == ("c", 0):
            p, a, b, t = "eq", b, a, not t
        if p == "eq" and repr(a[0] == "c") > repr(b[0] == "c"):
            a, b = b, a
        if p == "eq" and b == ("c", 0) and a[0] in ("cmp", "not"):
            return atom(a, not t)
        e = ("cmp", p, a, b)
    return e, t


def known(e):
    """truth of a condition on constants, or None"""
    if e[0] == "c":
        return bool(e[1])
    if e[0] == "cmp":
        a, b = bare(e[2]), bare(e[3])
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            if e[1] in ("ult", "ule", "ugt", "uge"):
                x, y = x & (2 ** 64 - 1), y & (2 ** 64 - 1)
            return {"eq": x == y, "ne": x != y, "slt": x < y, "ult": x < y, "sgt": x > y, "ugt": x > y, "sle": x <= y, "ule": x <= y, "sge": x >= y,
                    "uge": x >= y}.get(e[1])
        if e[1] in ("eq", "ne") and a == b and a[0] not in ("f",):
            return e[1] == "eq"
        if e[1] in ("eq", "ne") and {a[0], b[0]} == {"alloca", "null"}:
            return e[1] == "ne"
    return None


class Trace:
    def __init__(self, f):
        self.f, self.steps, self.mem, self.end, self.ret, self.at = f, [], {}, None, None, None

    def calls(self, rx):
        r = re.compile(rx)
        return [s for s in self.steps if s.kind == "call" and r.search(s.q or "")]

    def stores(self, name=None):
        return [s for s in self.steps if s.kind == "store" and (name is None or s.addr[0] == "fld" and s.addr[2] == name)]

    def conds(self):
        return [(s.val, s.truth) for s in self.steps if s.kind == "cond"]

    def truth(self, pred):
        """truths of the decisions whose normal form satisfies pred (in order)"""
        return [s.truth for s in self.steps if s.kind == "cond" and pred(s.val)]

    def field(self, name):
        """last value stored in this->name on the path, or None when not written"""
        for s in reversed(self.steps):
            if s.kind == "store" and s.addr[0] == "fld" and s.addr[2] == name and (s.addr[1][:2] == ("arg", 0) or s.addr[1][:1] == ("arg",) and s.addr[1][2:] == ("this",)):
                return s.full(s.val)
        return None

    def last(self, addr):
        """last value stored at addr on the path, or None"""
        for s in reversed(self.steps):
            if s.kind == "store" and s.addr == addr:
                return s.full(s.val)
        return None

    def index(self, s):
        return self.steps.index(s)


class TooMany(Exception):
    pass


def settled(f, phi):
    """the constant that a flag holds at the head of its loop, whichever way the loop is entered or repeated"""
    if phi.get("t") not in ("i1", "i8"):
        return None
    got = set()
    for v, b in phi["o"]:
        if b not in f.live():
            continue
        e = f.expr(v)
        while e[0] in ("zext", "trunc"):
            e = e[-1]
        neg = False
        while e[0] == "not":
            e, neg = e[1], not neg
        if e[0] == "c" and e[1] in (0, 1, -1):
            got.add(bool(e[1]) != neg)
            continue
        ts = {tr for x, tr in f.edge_facts(b, phi.blk) if x == e}
        if len(ts) != 1:
            return None
        got.add(ts.pop() != neg)
    return ("c", int(got.pop())) if len(got) == 1 else None


def traces(f, start=0, stop=(), unroll=0, limit=4000, mem=None):
    """traces from block `start` to a return, a throw or a block of `stop`; a block is entered at most 1+unroll times"""
    S = f._succs(False)
    out = []
    stop = set(stop)
    saved = f._expr
    count = [0]

    def run(T, blk, pred, cache, visits, decided, first):
        while True:
            if blk in stop and not first:
                T.end, T.at = "stop", blk
                T.final_pred = pred
                T.cache = cache
                out.append(T)
                return
            first = False
            n = visits.get(blk, 0)
            if n > unroll:
                T.end, T.at = "cut", blk
                return
            visits[blk] = n + 1
            L = f.B[blk]
            f._expr = cache
            if n:
                for i in L:
                    cache.pop(i.id, None)
            # phis read their operands as they were at the end of the predecessor
            news = {}
            for i in L:
                if i.op != "phi":
                    break
                if pred is None:
                    news[i.id] = settled(f, i) or ("phi", i.id)
                else:
                    vs = [v for v, b in i["o"] if b == pred]
                    news[i.id] = f.expr(vs[0]) if vs else ("phi", i.id)
            cache.update(news)
            end = f.cut[blk] + 1 if blk in f.cut else len(L)
            for i in L[:end]:
                if i.op == "phi":
                    continue
                step(T, f, i, cache, n)
            if blk in f.cut:
                T.end, T.at = "throw", L[f.cut[blk]]
                out.append(T)
                return
            t = L[-1]
            if t.op == "ret":
                T.end, T.at = "ret", t
                T.ret = f.expr(t["o"][0]) if t.get("o") else None
                out.append(T)
                return
            if t.op in ("unreachable", "resume"):
                T.end, T.at = "throw", t
                out.append(T)
                return
            nexts = []
            if t.op == "br" and t.get("o") and t["s"][0] != t["s"][1]:
                for tr, atoms in decide(f.expr(t["o"][0])):
                    nexts.append((t["s"][0] if tr else t["s"][1], atoms))
            elif t.op == "switch":
                e = f.expr(t["o"][0])
                vals = [v for v, _ in t["cases"]]
                for v, s in t["cases"]:
                    nexts.append((s, [(("cmp", "eq", e, ("c", v)), True)]))
                nexts.append((t["def"], [(("cmp", "eq", e, ("c", v)), False) for v in vals]))
            else:
                ss = S[blk]
                if not ss:
                    return
                nexts = [(ss[0], [])]
            ok = []
            for s, atoms in nexts:
                d2, conds, bad = decided, [], False
                for e, tr in atoms:
                    k = known(e)
                    if k is not None:
                        if k != tr:
                            bad = True
                            break
                        continue
                    a, ta = atom_id(e, tr)
                    if a in d2:
                        if d2[a] != ta:
                            bad = True
                            break
                        continue
                    d2 = dict(d2)
                    d2[a] = ta
                    conds.append((e, tr))
                if not bad and s in f.live():
                    ok.append((s, conds, d2))
            if not ok:
                return
            for s, conds, d2 in ok[1:]:
                T2 = Trace(f)
                T2.steps, T2.mem = list(T.steps), dict(T.mem)
                note(T2, t, conds)
                count[0] += 1
                if count[0] > limit:
                    raise TooMany(f.dem)
                run(T2, s, blk, dict(cache), dict(visits), d2, False)
            s, conds, decided = ok[0]
            note(T, t, conds)
            f._expr = cache
            pred, blk = blk, s

    def note(T, t, conds):
        for e, tr in conds:
            a, ta = atom(full_cond(T.mem, e), tr)
            T.steps.append(Step("cond", t, T.mem, val=a, truth=ta))

    try:
        import sys
        if sys.getrecursionlimit() < 20000:
            sys.setrecursionlimit(20000)
        T = Trace(f)
        if mem:
            T.mem.update(mem)
        run(T, start, None, {}, {}, {}, True)
    finally:
        f._expr = saved
    return out


def full_cond(mem, e):
    if e[0] == "not":
        return ("not", full_cond(mem, e[1]))
    return e


def atom_id(e, t):
    """like atom, keeping call identities"""
    while e[0] == "not":
        e, t = e[1], not t
    if e[0] == "cmp" and e[1] in NEGP:
        return ("cmp", NEGP[e[1]]) + e[2:], not t
    return e, t


def decide(e):
    """[(truth, [(atomic condition, truth)])]"""
    if e[0] == "not":
        return [(not t, a) for t, a in decide(e[1])]
    if e[0] == "zext" and e[1] == "i1" or e[0] == "trunc" and e[2] == "i1" and e[3][0] in ("select", "and", "or", "not", "zext"):
        return decide(e[3])
    if e[0] == "select":
        out = []
        for t, a in decide(e[1]):
            for t2, a2 in decide(e[2] if t else e[3]):
                out.append((t2, a + a2))
        return out
    if e[0] in ("and", "or") and all(x[0] in ("cmp", "call", "vcall", "not", "and", "or", "select", "trunc", "zext") for x in e[1:]):
        out = []
        for t, a in decide(e[1]):
            if t == (e[0] == "or"):
                out.append((t, a))
            else:
                out += [(t2, a + a2) for t2, a2 in decide(e[2])]
        return out
    if e[0] == "c":
        return [(bool(e[1]), [])]
    return [(True, [(e, True)]), (False, [(e, False)])]


def under(a, base):
    """address a is base or a part of it"""
    while True:
        if a == base:
            return True
        if a[0] in ("fld", "sub", "idx") and isinstance(a[1], tuple):
            a = a[1]
        else:
            return False


QUIET = re.compile(r"^(llvm\.(lifetime|dbg|assume|type\.test|public\.type\.test|invariant|experimental|umul|uadd|threadlocal)|__clang_call)")


def step(T, f, i, cache, n):
    op = i.op
    if op == "load":
        p = f.expr(i["o"][0])
        k = bare(p)
        if k in T.mem:
            cache[i.id] = T.mem[k]
        elif k[0] == "alloca" and ("src", k) in T.mem:
            cache[i.id] = ("ld", T.mem[("src", k)])
        else:
            cache.pop(i.id, None)
            e = f.expr(i.id)
            if e[0] == "ld" and k[0] == "alloca":
                e = ("ld", k)
            cache[i.id] = e
        return
    if op == "store":
        a, v = f.expr(i["o"][1]), f.expr(i["o"][0])
        k = bare(a)
        T.steps.append(Step("store", i, T.mem, addr=k, val=v))
        m = {x: y for x, y in T.mem.items() if not (x != k and (under(x, k) or under(k, x) and k[0] != "fld" and x[0] != "src"))}
        m[k] = v
        T.mem = m
        return
    if op in ("call", "invoke"):
        c = i.get("c") or ""
        if QUIET.match(c):
            return
        e = f.expr(i.id)
        if n and e[0] in ("call", "vcall", "icall") and e[-1][:1] == ("#",):
            e = e[:-1] + (("#", i.id, n),)
            cache[i.id] = e
        v = f.vcall(i)
        q = v[0] if v else (f.cq(i) or c)
        args = [f.expr(o) for o in i["o"]]
        T.steps.append(Step("call", i, T.mem, q=q, val=e, args=args))
        if c.startswith(("llvm.memcpy", "llvm.memmove", "memcpy")):
            d, s = bare(args[0]), bare(args[1])
            m = {x: y for x, y in T.mem.items() if not under(x[1] if x[0] == "src" else x, d)}
            if d[0] in ("alloca", "fld", "sub") and root(d)[0] == "alloca":
                m[("src", d)] = s
                if s in T.mem:
                    m[d] = T.mem[s]
            T.mem = m
            return
        drop = []
        for k, o in enumerate(i["o"]):
            a = bare(args[k])
            if a[0] in ("alloca", "fld", "sub", "arg", "idx"):
                if f.ty(o) != "ptr":
                    continue
                if const_arg(f, i, k):
                    continue
                if a[0] == "arg" and not (k == 0):
                    continue
                drop.append((k, a))
        if drop:
            m = T.mem
            for k, a in drop:
                m = {x: y for x, y in m.items() if not under(x[1] if x[0] == "src" else x, a)}
                if (k == 0 or const_arg(f, i, k) is None) and a[0] in ("alloca", "fld", "sub") and root(a)[0] == "alloca" and not re.search(r"::~", q):
                    m = dict(m)
                    m[a] = noid(e[:2] + tuple(("self",) if isinstance(x, tuple) and bare(x) == a else x for x in e[2:]))
                    if re.search(r"(\w+)::\1$", q) and len(args) == 2 and bare(args[1])[0] in ("alloca", "fld", "sub"):
                        m[a] = T.mem.get(bare(args[1]), noid(e))
            T.mem = m


READS = re.compile(r"^(memcmp|strlen|strcmp|strncmp|memchr|strchr|bcmp)$")


def const_arg(f, i, k):
    """argument k of a call cannot be written through"""
    s = f.csym(i)
    v = f.vcall(i)
    if s and READS.match(s):
        return True
    if not s and v and v[2]:
        s = v[2]
    if not s:
        return False
    key = ("constarg", s, len(i["o"]))
    c = f.P.__dict__.setdefault("_constarg", {})
    if key not in c:
        d = f.P.dem(s)
        ps = split_params(d)
        r = []
        if ps is None:
            r = [False] * len(i["o"])
        else:
            off = len(i["o"]) - len(ps)
            ro = bool(re.search(r"\)\s*const", d))
            for j in range(len(i["o"])):
                if j < off:
                    # implicit object (last implicit argument); a result slot before it is written
                    r.append(ro and j == off - 1)
                else:
                    p = ps[j - off]
                    r.append("const&" in p or "const*" in p)
        c[key] = r
    return c[key][k] if k < len(c[key]) else False


def body(f, L, **k):
    """traces of one iteration of loop L: end 'stop' when it continues with the next, otherwise it leaves the loop"""
    out = []
    for T in traces(f, start=L.header, stop={L.header}, **k):
        out.append(T)
    return out


def next_phi(T, L, phi):
    """value a header phi has in the next iteration, on a body trace that continues"""
    f = T.f
    for i in f.B[L.header]:
        if i.op == "phi" and i.id == phi:
            for v, b in i["o"]:
                if b == T.final_pred:
                    saved, f._expr = f._expr, T.cache
                    try:
                        return f.expr(v)
                    finally:
                        f._expr = saved
    return None


def counted(f, L):
    """(index expression, container or bound, first index, complete) of a loop that counts in a local or in a member; None otherwise"""
    for r in ranges(f):
        if r.L is L and r.kind == "ix":
            return r.it, r.cont, r.start, r.full and not r.breaks
    try:
        its = body(f, L)
        pre = [T for T in traces(f, stop={L.header}) if T.end == "stop"]
    except TooMany:
        return None
    for T in its:
        for s in T.steps:
            if s.kind == "cond" and s.val[:2] in (("cmp", "ult"), ("cmp", "slt")) and s.truth:
                v, n = s.val[2], s.val[3]
                short = v[0] == "add" and v[1][0] == "c" and v[2][0] == "ld"    # stops one short of the bound
                if short:
                    v = v[2]
                if v[0] != "ld":
                    continue
                cell = v[1]
                if not all(bare(full(U.mem, U.mem.get(cell, ("?",)))) in (("add", ("c", 1), v), ("add", v, ("c", 1))) for U in its if U.end == "stop"):
                    continue
                if not pre or not all(cell in U.mem for U in pre):
                    continue
                starts = {bare(U.mem[cell]) for U in pre}
                if len(starts) != 1 or next(iter(starts))[0] != "c":
                    continue
                leaves = [U for U in its if U.end == "ret"]
                out = [U for U in its if U.end in ("ret", "stop")]
                ok = all(any(c.kind == "cond" and c.val == s.val and not c.truth for c in U.steps) for U in leaves)
                sz = None
                if n[0] == "call" and re.search(r"::size$", n[1]):
                    sz = n[2]
                return v, sz if sz is not None else ("count", n), next(iter(starts))[1], ok and not short
    return None


def callseq(T, rx):
    return [(s.q, [s.arg(k) for k in range(len(s.args))]) for s in T.calls(rx)]
