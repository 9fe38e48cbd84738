"""Shared recognisers for functions that write or read whole frames."""
from ir import *
from loops import *
from report import AnalysisBroken


def tmp_def(f, aid, at):
    """the single call that filled local object aid before `at` (return slot or constructor)"""
    c = [u for u in f.uses(aid) if u.op in ("call", "invoke") and u["o"] and u["o"][0] == aid and f.dominates(u, at) and u is not at
         and not u.get("c", "").startswith("llvm.")]
    for u in c:
        q = f.cq(u)
        if q.endswith("::position") or q.endswith("::estimate") or re.search(r"eckit::(Offset|Length)::(Offset|Length)$", q) or q.endswith("seek"):
            return u
    return None


def nval(f, e, at=None):
    """normal form of sizes: casts dropped, Offset/Length temporaries replaced by what filled them, buffer accessors unified"""
    if not isinstance(e, tuple) or not e:
        return e
    e = uncast(e)
    if e[0] == "call":
        q = e[1]
        if re.search(r"eckit::(Offset|Length)::operator (long long|unsigned long long|long|size_t)$", q):
            a = e[2]
            if a[0] == "alloca":
                i = f.I.get(e[-1][1])
                d = tmp_def(f, a[1], i) if i is not None else None
                if d is not None:
                    dq = f.cq(d)
                    if dq.endswith("::position"):
                        return ("pos", nobj(f, f.expr(d["o"][1])))
                    if len(d["o"]) > 1:
                        return nval(f, f.expr(d["o"][1]))
            return ("ld", a)
        if re.search(r"eckit::Buffer::(data|operator void|operator void\*|operator char\*|operator void const\*|operator char const\*|operator const void\*|operator const char\*)$", q) or \
                re.search(r"eckit::Buffer::operator", q):
            return ("bufdata", nobj(f, e[2]))
        if q == "eckit::Buffer::size":
            return ("bufsize", nobj(f, e[2]))
        if q.endswith("::position") and len(e) == 4:
            return ("pos", nobj(f, e[2]))
        return ("call", q) + tuple(nval(f, x) for x in e[2:] if x[:1] != ("#",))
    if e[0] in ("vcall",):
        return ("vcall", e[1]) + tuple(nval(f, x) for x in e[2:] if x[:1] != ("#",))
    if e[0] in ("add", "mul"):
        return (e[0],) + tuple(sorted((nval(f, x) for x in e[1:]), key=repr))
    if e[0] == "shl" and e[2][0] == "c":
        return ("mul",) + tuple(sorted((nval(f, e[1]), ("c", 1 << e[2][1])), key=repr))
    if e[0] in ("sub", "ld", "idx", "fld"):
        return (e[0],) + tuple(nval(f, x) if isinstance(x, tuple) else x for x in e[1:])
    return e


def nobj(f, e):
    """object an address denotes (first member and offset 0 of a pair are the pair itself)"""
    if e[0] == "fld" and e[2] == "first":
        return nobj(f, e[1])
    return e


def linear(e):
    """(dict atom->coefficient, constant) of a normalised integer expression"""
    at, k = {}, 0

    def go(x, m):
        nonlocal k
        if x[0] == "c":
            k += m * x[1]
        elif x[0] == "add":
            for y in x[1:]:
                go(y, m)
        elif x[0] == "sub" and len(x) == 3:
            go(x[1], m)
            go(x[2], -m)
        elif x[0] == "mul" and len(x) == 3 and x[1][0] == "c":
            go(x[2], m * x[1][1])
        elif x[0] == "mul" and len(x) == 3 and x[2][0] == "c":
            go(x[1], m * x[2][1])
        else:
            at[x] = at.get(x, 0) + m
    go(e, 1)
    return at, k


def reaches_ret(f, i):
    return f.path_avoiding(i, lambda x: x.op == "ret", lambda x: False) is not None


def handle_writes(f):
    """live virtual eckit::DataHandle::write calls after which the function can return"""
    out = []
    for i in f.insts():
        if i.op in ("call", "invoke"):
            v = f.vcall(i)
            if v and v[0] == "eckit::DataHandle::write" and reaches_ret(f, i):
                out.append(i)
    return out


def handle_reads(f):
    out = []
    for i in f.insts():
        if i.op in ("call", "invoke"):
            v = f.vcall(i)
            if v and v[0] == "eckit::DataHandle::read" and reaches_ret(f, i):
                out.append(i)
    return out


def complete_edges(f, i, n):
    """edges on which the transfer i is known to have moved all n (normalised) bytes"""
    out = []
    me = f.expr(i.id)
    for (b, s, c, tr) in f.edge_conds():
        for ce, t in f.implied(c, tr):
            if ce[0] != "cmp":
                continue
            p, a, d = ce[1], uncast(ce[2]), uncast(ce[3])
            if a == me:
                o = d
                good = (p == "eq" and t) or (p == "ne" and not t) or (p in ("slt", "ult") and not t) or (p in ("sge", "uge") and t)
            elif d == me:
                o = a
                good = (p == "eq" and t) or (p == "ne" and not t) or (p in ("sgt", "ugt") and not t) or (p in ("sle", "ule") and t)
            else:
                continue
            if good and (nval(f, o) == n or (isinstance(n, tuple) and n[0] == "c" and o == n)):
                out.append((b, s))
    return out


# ------------------------------------------------------------------------------------------------ eckit::Offset / eckit::Length values
OPS = {"operator<": "slt", "operator>": "sgt", "operator<=": "sle", "operator>=": "sge", "operator==": "eq", "operator!=": "ne"}
INVERSE = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne"}


def odefs(f, addr, at):
    """calls/stores that gave the Offset/Length (or plain integer) object at `addr` its value, as may reach `at`"""
    out = []
    for i in f.insts():
        if i is at or not f.may_follow(i, at):
            continue
        if i.op in ("call", "invoke") and i["o"] and not i.get("c", "").startswith("llvm."):
            if f.expr(i["o"][0]) != addr:
                continue
            q = f.cq(i)
            if re.search(r"::(position|estimate|seek|openFor\w+|skip)$", q) or re.search(r"eckit::(Offset|Length)::(Offset|Length|operator=|operator\+|operator-)$", q):
                out.append(i)
            elif re.search(r"eckit::(Offset|Length)::operator[+-]=$", q):
                out.append(None)
        elif i.op == "store" and f.expr(i["o"][1]) == addr:
            out.append(i)
    # a definition that every path from it to `at` overwrites does not reach
    live = []
    for d in out:
        if d is None:
            live.append(d)
            continue
        if f.path_avoiding(d, lambda x: x is at, lambda x: any(x is e for e in out if e is not d)) is not None:
            live.append(d)
    return live


def oval(f, addr, at, depth=8):
    """value of the Offset/Length object at `addr` when `at` executes: a linear-izable expression, pos/est atoms carry the call"""
    if depth <= 0:
        return ("ld", addr)
    ds = odefs(f, addr, at)
    if len(ds) == 1 and ds[0] is not None and f.dominates(ds[0], at):
        return odef_val(f, ds[0], depth)
    if not ds:
        return ("ld", addr)
    return ("any", addr)


def odef_val(f, d, depth=8):
    if d.op == "store":
        return ival(f, f.expr(d["o"][0]), d, depth - 1)
    q = f.cq(d)
    if re.search(r"::(position|estimate)$", q):
        return (q.split("::")[-1], nobj(f, f.expr(d["o"][1])), ("#", d.id))
    if q.endswith("::seek"):
        return ("seek", nobj(f, f.expr(d["o"][1])), ("#", d.id))
    a = [f.expr(o) for o in d["o"][1:]]
    m = re.search(r"(Offset|Length)::(Offset|Length|operator=|operator\+|operator-)$", q)
    if not m:
        return ("ld", f.expr(d["o"][0]))
    vs = []
    for o, e in zip(d["o"][1:], a):
        vs.append(oval(f, e, d, depth - 1) if f.ty(o) == "ptr" else ival(f, e, d, depth - 1))
    if m.group(2) == "operator+":
        return ("add",) + tuple(vs)
    if m.group(2) == "operator-":
        return ("sub",) + tuple(vs)
    return vs[0] if vs else ("c", 0)


def ival(f, e, at, depth=8):
    """integer expression with Offset/Length conversions replaced by the objects' values"""
    e = uncast(e)
    if e[0] == "call" and re.search(r"eckit::(Offset|Length)::operator (long long|unsigned long long|long|size_t|unsigned long)$", e[1]):
        i = f.I.get(e[-1][1]) if e[-1][:1] == ("#",) else None
        return oval(f, e[2], i or at, depth)
    if e[0] in ("add", "mul", "sub"):
        return (e[0],) + tuple(ival(f, x, at, depth) for x in e[1:])
    if e[0] == "ld":
        if e[1][0] in ("fld",) and depth > 0:
            ds = odefs(f, e[1], at)
            if len(ds) == 1 and ds[0] is not None and ds[0].op != "store" and f.dominates(ds[0], at):
                return odef_val(f, ds[0], depth)
        return e
    if e[0] == "vcall" or (e[0] == "call" and e[1].endswith("::read")):
        return e
    return nval(f, e)


def ocond(f, e, tr, at):
    """(predicate, left value, right value) of a comparison between integers or Offset/Length objects, or None"""
    if e[0] == "cmp":
        p = e[1]
        l, r = ival(f, e[2], at), ival(f, e[3], at)
    elif e[0] == "call" and e[1].split("::")[-1] in OPS and len(e) >= 4 and re.search(r"eckit::|operator", e[1]):
        p = OPS[e[1].split("::")[-1]]
        i = f.I.get(e[-1][1])
        if i is None:
            return None
        l, r = [oval(f, x, i) if f.ty(o) == "ptr" else ival(f, x, i) for x, o in zip(e[2:4], i["o"][:2])]
    else:
        return None
    if not tr:
        p = INVERSE.get(p)
    return (p, l, r) if p else None


def edges_where(f, pred):
    """edges on which some implied condition (expr, truth) satisfies pred"""
    return [(b, s) for (b, s, c, tr) in f.edge_conds() if not isinstance(tr, tuple) and any(pred(e, t) for e, t in f.implied(c, tr))]


def edges_cmp(f, pred):
    """edges on which a comparison (predicate, left value, right value), in either orientation, satisfies pred"""
    out = []
    for (b, s, c, tr) in f.edge_conds():
        if isinstance(tr, tuple):
            continue
        for e, t in f.implied(c, tr):
            o = ocond(f, e, t, f.B[b][-1])
            if o and (pred(*o) or (o[0] in SWAP and pred(SWAP[o[0]], o[2], o[1]))):
                out.append((b, s))
                break
    return out


def value_edges(f, op, blk=None, seen=frozenset()):
    """[(edge or None, expr)] of the ultimate (non-phi) values of an operand and the control-flow edge that selects each"""
    if isinstance(op, int) and op in f.I and f.I[op].op == "phi" and op not in seen:
        out = []
        for v, b in f.I[op]["o"]:
            if b not in f.live():
                continue
            sub = value_edges(f, v, b, seen | {op})
            out += [(e if e is not None else (b, f.I[op].blk), x) for e, x in sub]
        return out
    if isinstance(op, int) and op in f.I and f.I[op].op in ("zext", "trunc", "sext"):
        return value_edges(f, f.I[op]["o"][0], blk, seen)
    return [(None, f.expr(op))]


def edge_open(f, edge, avoid_edges):
    """the edge (None: any return) can be taken without crossing avoid_edges"""
    r = f.reach(0, avoid_edges=avoid_edges)
    if edge is None:
        return any(i.blk in r for i in f.rets())
    return edge[0] in r and edge not in set(avoid_edges)


def isret(x):
    return x.op == "ret"
