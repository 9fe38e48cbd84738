"""Natural loops, induction variables, per-iteration execution counts."""
from ir import *


class Loop:
    def __init__(self, f, header):
        self.f, self.header, self.body, self.latches = f, header, {header}, []


def loops(f):
    if "loops" in f._cache:
        return f._cache["loops"]
    S, live = f._succs(False), f.live()
    preds = f.preds(False)
    heads = {}
    for b in live:
        for s in S[b]:
            if s in live and (s == b or b not in f.reach(0, avoid_blocks=[s])):
                L = heads.setdefault(s, Loop(f, s))
                L.latches.append(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x in L.body:
                        continue
                    L.body.add(x)
                    st += [p for p in preds[x] if p in live]
    f._cache["loops"] = sorted(heads.values(), key=lambda L: len(L.body))
    return f._cache["loops"]


def enclosing(f, i):
    """loops containing instruction i, innermost first"""
    return [L for L in loops(f) if i.blk in L.body]


def innermost(f, i):
    e = enclosing(f, i)
    return e[0] if e else None


def exits(L):
    """edges leaving the loop from which the function can still return"""
    f = L.f
    S = f._succs(False)
    if "canret" not in f._cache:
        P, can, st = f.preds(False), set(), [i.blk for i in f.rets()]
        while st:
            b = st.pop()
            if b not in can:
                can.add(b)
                st += P[b]
        f._cache["canret"] = can
    return [(b, s) for b in L.body for s in S[b] if s not in L.body and s in f._cache["canret"]]


def header_phis(L):
    return [i for i in L.f.B[L.header] if i.op == "phi"]


def values_from(f, op, facts0=()):
    """flattened alternatives of an operand: list of (facts, expr)"""
    return f.alternatives(op)


def same_under(facts, e, phi):
    """e equals phi, or is a constant that the facts say phi equals"""
    if e == phi:
        return True
    if e[0] == "c":
        for c, t in facts:
            if c[0] == "cmp" and ((c[1] == "eq" and t) or (c[1] == "ne" and not t)) and phi in (c[2], c[3]) and e in (c[2], c[3]):
                return True
    return False


def phi_parts(L, ph):
    """(initial alternatives, next alternatives) of a header phi as [(facts, expr)]"""
    f = L.f
    init, nxt = [], []
    for v, b in ph["o"]:
        if b not in f.live():
            continue
        if b in L.body:
            nxt += [(f.edge_facts(b, L.header) + fa, e) for fa, e in f.alternatives(v)]
        else:
            init.append((f.edge_facts(b, L.header), f.expr(v)))
    return init, nxt


def deref_phi(f, e, seen=()):
    """alternatives of an expression that is (base + phi) with an inner, non-header phi: list of (facts, expr)"""
    if e[0] == "phi" and e[1] in f.I and e[1] not in seen:
        return [(fa, x) for fa, x in f.alternatives(e[1], seen=set(seen))]
    return [([], e)]


def split_add(e):
    """(base, constant)"""
    if e[0] == "add":
        cs = [x for x in e[1:] if x[0] == "c"]
        vs = [x for x in e[1:] if x[0] != "c"]
        if len(cs) == 1 and len(vs) == 1:
            return vs[0], cs[0][1]
    if e[0] == "sub" and e[2][0] == "c":
        return e[1], -e[2][1]
    if e[0] == "c":
        return None, e[1]
    return e, 0


def counter(L, ph):
    """(initial expr, constant step) when the header phi is a simple counter, else None"""
    f = L.f
    init, nxt = phi_parts(L, ph)
    me = ("phi", ph.id)
    inits = {e for _, e in init}
    steps = set()
    for fa, e in nxt:
        b, k = split_add(e)
        if b is None:
            steps.add("const")
            continue
        if b == me:
            steps.add(k)
            continue
        for fb, y in deref_phi(f, b):
            steps.add(k if same_under(fb + fa, y, me) else "other")
    if len(inits) == 1 and len(steps) == 1 and isinstance(next(iter(steps)), int):
        return next(iter(inits)), next(iter(steps))
    return None


def pointer_walk(L, ph):
    """(initial expr, step expr, element type) when the header phi is a pointer advanced by a fixed expression"""
    init, nxt = phi_parts(L, ph)
    me = ("phi", ph.id)
    inits, st = {e for _, e in init}, {e for _, e in nxt}
    if len(inits) == 1 and len(st) == 1:
        e = next(iter(st))
        if e[0] == "idx" and e[1] == me:
            return next(iter(inits)), e[2], e[3]
    return None


def once_per_iteration(L, m):
    """every iteration of L executes instruction m exactly once"""
    f = L.f
    if m.blk not in L.body or innermost(f, m) is not L:
        return False
    S = f._succs(False)
    if m.blk == L.header:
        return True
    seen, st = {L.header}, [L.header]
    while st:
        b = st.pop()
        for s in S[b]:
            if s == L.header:
                return False
            if s in L.body and s != m.blk and s not in seen:
                seen.add(s)
                st.append(s)
    return True


def exit_facts(L):
    """facts known on each normal exit edge"""
    out = []
    for b, s in exits(L):
        out.append(((b, s), L.f.edge_facts(b, s)))
    return out


def pure_test(f, b, c):
    """block b does nothing but compute the condition c"""
    ids = {x[-1][1] for x in walk(c) if isinstance(x, tuple) and x and x[0] in ("call", "vcall") and isinstance(x[-1], tuple) and x[-1][:1] == ("#",)}
    return all(i.op not in ("store",) and (i.op not in ("call", "invoke") or i.id in ids or (f.cq(i) or "").startswith("llvm.")) for i in f.B[b])


def way_to(L, b):
    """blocks of the loop an iteration may pass until it has gone through b"""
    succ = L.f._succs(False)
    fwd, st = {L.header}, [L.header]
    while st:
        x = st.pop()
        for n in succ[x] if x != b else ():
            if n in L.body and n != L.header and n not in fwd:
                fwd.add(n)
                st.append(n)
    if b not in fwd:
        return fwd
    back, st = {b}, [b]
    pre = {n: [x for x in fwd if n in succ[x]] for n in fwd}
    while st:
        x = st.pop()
        for n in pre[x] if x != L.header else ():
            if n not in back:
                back.add(n)
                st.append(n)
    return back


def bound(L, phi, m=None, loose=False):
    """loose: a test of the next value before the body ran counts too
    [(exit edge, N)]: on each exit edge phi (or its next value) has reached N; N None when the edge tests something else.
    m: the per-iteration instruction; a test of phi must leave before m ran in that iteration, a test of the next value after"""
    out = []
    ph = L.f.I.get(phi[1])
    nxts = {e for _, e in phi_parts(L, ph)[1]} if ph is not None else set()
    nxts.discard(phi)
    for (b, s), fs in exit_facts(L):
        hit = None
        for c, t in fs:
            if c[0] != "cmp":
                continue
            p, a, d = c[1], c[2], c[3]
            a0, d0 = uncast(a), uncast(d)
            before, after = True, loose or not (b not in L.latches and all(x not in L.latches and pure_test(L.f, x, c) for x in way_to(L, b)))
            if m is not None:
                after = b == m.blk or b not in L.f.reach(L.header, avoid_blocks=[m.blk]) if b != L.header or m.blk == L.header else False
                before = not after
            for me in ([phi] if before else []) + (list(nxts) if after else []):
                if a0 == me and ((p in ("ult", "slt") and not t) or (p in ("uge", "sge") and t) or (p == "eq" and t) or (p == "ne" and not t)):
                    hit = d
                elif d0 == me and ((p in ("ugt", "sgt") and not t) or (p in ("ule", "sle") and t) or (p == "eq" and t) or (p == "ne" and not t)):
                    hit = a
        out.append(((b, s), hit))
    return out
