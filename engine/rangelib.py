"""Which elements of which container a loop visits: iterator loops, range-for loops and index loops in one form."""
from ir import *
from loops import *

BEGIN = re.compile(r"(^|::)c?begin$")
END = re.compile(r"(^|::)c?end$")
ITER = r"(_iterator|_iterator_base|_Node_iterator|_Node_const_iterator|_Iterator|iterator)"
INC = re.compile(r"::operator\+\+$")
DEREF = re.compile(r"(::operator\*|::operator->|^std::pair::pair)$")
CMP = re.compile(r"operator(==|!=)$")


def noid(e):
    """expression without call identities"""
    if not isinstance(e, tuple):
        return e
    return tuple(noid(x) for x in e if not (isinstance(x, tuple) and x[:1] == ("#",)))


def bare(e):
    """casts dropped, call identities dropped"""
    return noid(uncast(e)) if isinstance(e, tuple) else e


def root(e):
    """the object an address is (part of): the first member chain of a local"""
    while e[0] in ("fld", "sub") and e[1][0] in ("alloca", "fld", "sub") and (e[0] == "sub" or re.search(r"coerce|_M_|^agg", str(e[2]))):
        e = e[1]
    return e


def writes(f, A):
    """[(inst, value expr or None)] that give the iterator object A a value"""
    out = []
    for i in f.insts():
        if i.op == "store":
            a = f.expr(i["o"][1])
            if root(a) == A:
                out.append((i, f.expr(i["o"][0])))
        elif i.op in ("call", "invoke") and i["o"]:
            c = i.get("c") or ""
            q = f.cq(i) or ""
            if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove"):
                if root(f.expr(i["o"][0])) == A:
                    out.append((i, ("copy", f.expr(i["o"][1]))))
            elif not c.startswith("llvm.") and f.expr(i["o"][0]) == A:
                if re.search(r"::operator=$", q) or re.search(ITER + "::" + ITER + "$", q) and len(i["o"]) > 1:
                    out.append((i, ("copy", f.expr(i["o"][1]))))
                elif BEGIN.search(q) or END.search(q):
                    out.append((i, ("call", q, f.expr(i["o"][1]))))
    return out


def itval(f, e, at, depth=6):
    """('begin'|'end'|'at', container, offset) of an iterator value or object, or None"""
    if depth <= 0 or not isinstance(e, tuple):
        return None
    e = uncast(e)
    if e[0] == "call":
        q = e[1]
        if BEGIN.search(q) and len(e) > 2:
            return ("begin", bare(e[2]), 0)
        if END.search(q) and len(e) > 2:
            return ("end", bare(e[2]), 0)
        if re.search(r"operator[+-]$|std::(next|prev)$", q) and len(e) > 3 and e[3][0] == "c":
            v = itval(f, e[2], at, depth - 1)
            sg = -1 if re.search(r"-$|prev$", q) else 1
            return v and (v[0], v[1], v[2] + sg * e[3][1])
        if re.search(r"std::next$", q):
            v = itval(f, e[2], at, depth - 1)
            return v and (v[0], v[1], v[2] + 1)
        if DEREF.search(q) or IDENT.search(q):
            return itval(f, e[2], at, depth - 1)
        return None
    if e[0] == "copy":
        return itval(f, e[1], at, depth - 1)
    if e[0] == "ld":
        return itval(f, e[1], at, depth - 1)
    A = root(e)
    if A[0] == "alloca":
        w = [(i, v) for i, v in writes(f, A) if at is None or f.may_follow(i, at)]
        vs = {itval(f, v, i, depth - 1) for i, v in w}
        if len(vs) == 1:
            return next(iter(vs))
    return None


class Range:
    """a loop over container `cont`, visiting it from element `start`; `full`: it ends only after the last element"""

    def __init__(self, L, kind, it, cont, start, full, breaks):
        self.L, self.f, self.kind, self.it, self.cont, self.start, self.full, self.breaks = L, L.f, kind, it, cont, start, full, breaks

    def elem(self, e):
        """e denotes (the address of, or for containers of pointers the value of) the element the loop is at"""
        e = uncast(e)
        if e[0] == "call" and len(e) > 2 and IDENT.search(e[1]):
            return self.elem(e[2])
        if e[0] == "call" and len(e) > 2:
            if self.kind == "it":
                if DEREF.search(e[1]) and root(bare(e[2])) == self.it:
                    return True
            else:
                if re.search(r"::(operator\[\]|at)$", e[1]) and bare(e[2]) == self.cont and len(e) > 3 and bare(e[3]) == self.it:
                    return True
        if self.kind == "ix" and e[0] == "idx":
            b = bare(e[1])
            if bare(e[2]) == self.it and (b == self.cont or b[0] == "call" and re.search(r"::(data|operator\[\])$", b[1]) and b[2] == self.cont):
                return True
        return False

    def ofelem(self, e):
        """the element e is derived from (member, dereference) or None"""
        x = e
        for _ in range(12):
            if not isinstance(x, tuple) or not x:
                return False
            if self.elem(x):
                return True
            if x[0] in ("fld", "sub", "ld", "idx"):
                x = x[1]
            elif x[0] == "call" and len(x) > 2 and isinstance(x[2], tuple) and IDENT.search(x[1]):
                x = x[2]
            else:
                return False
        return False


def ranges(f):
    if "ranges" in f._cache:
        return f._cache["ranges"]
    out = []
    for L in loops(f):
        r = iter_range(f, L)
        if r is None or not r.full and len(r.breaks) == len(exit_facts(L)):    # an iterator the loop does not end with (one that is written to)
            r = index_range(f, L) or r
        if r:
            out.append(r)
    f._cache["ranges"] = out
    return out


def range_at(f, i):
    """ranges around instruction i, innermost first"""
    rs = {id(r.L): r for r in ranges(f)}
    return [rs[id(L)] for L in enclosing(f, i) if id(L) in rs]


def iter_range(f, L):
    incs = [i for i in f.insts() if i.blk in L.body and i.op in ("call", "invoke") and INC.search(f.cq(i) or "") and innermost(f, i) is L]
    for a in incs:
        A = root(f.expr(a["o"][0]))
        mine = [i for i in incs if root(f.expr(i["o"][0])) == A]
        if A[0] != "alloca":
            continue
        inits = [(i, v) for i, v in writes(f, A)]
        if any(i.blk in L.body for i, _ in inits):
            continue
        vals = {itval(f, v, i) for i, v in inits}
        if len(vals) != 1 or next(iter(vals)) is None or next(iter(vals))[0] != "begin":
            continue
        _, cont, k = next(iter(vals))
        full, breaks, seen = True, [], False
        for (b, s), fs in exit_facts(L):
            end = False
            own = fs[len(f.facts(b)):] if len(fs) > len(f.facts(b)) else fs
            for c, t in fs:
                m = c[0] == "call" and CMP.search(c[1])
                if m and (t == (m.group(1) == "==")):
                    xs = [x for x in c[2:4]]
                    if any(root(bare(x)) == A for x in xs):
                        o = [x for x in xs if root(bare(x)) != A]
                        v = itval(f, o[0], f.B[b][-1]) if o else None
                        if v == ("end", cont, 0):
                            end = True
            if end:
                seen = True
            else:
                breaks.append(((b, s), own))
        once = each_once(f, L, mine)
        return Range(L, "it", A, cont, k, bool(seen and once), breaks)
    return None


def each_once(f, L, S):
    """every iteration that continues executes exactly one of S"""
    succ = f._succs(False)
    blocks = {s.blk for s in S}
    if L.header not in blocks:
        seen, st = {L.header}, [L.header]
        while st:
            b = st.pop()
            for s in succ[b]:
                if s == L.header:
                    return False
                if s in L.body and s not in blocks and s not in seen:
                    seen.add(s)
                    st.append(s)
    ids = {s.id for s in S}
    for a in S:
        if f.path_avoiding(a, lambda x: x.id in ids, lambda x: x.blk == L.header and x is not a and x.pos == 0) is not None:
            return False
    return True


def sizes_of(e):
    """container whose element count an expression is"""
    e = uncast(e)
    if e[0] == "call" and re.search(r"::size$", e[1]) and len(e) > 2:
        return bare(e[2])
    return None


def index_range(f, L):
    for h in header_phis(L):
        c = counter(L, h)
        if c is None or c[1] != 1 or c[0][0] != "c":
            continue
        p = ("phi", h.id)
        bs = bound(L, p)
        cont = None
        breaks, seen = [], False
        for (b, s), n in bs:
            k = sizes_of(n) if n is not None else None
            if k is not None:
                cont, seen = k, True
            elif n is not None:
                cont, seen = cont or ("count", bare(n)), True
            else:
                fs = f.edge_facts(b, s)
                own = fs[len(f.facts(b)):]
                breaks.append(((b, s), own))
        if cont is None:
            # the loop stops short: the next index is tested before the body ran
            near = [n for _, n in bound(L, p, None, True) if n is not None]
            if near:
                return Range(L, "ix", p, sizes_of(near[0]) or ("count", bare(near[0])), c[0][1], False, [])
            continue
        return Range(L, "ix", p, cont, c[0][1], seen, breaks)
    return None


def first_elem(e, cont):
    """e is the first element of cont"""
    e = bare(e)
    if e[0] == "call" and len(e) > 2 and re.search(r"::front$", e[1]) and e[2] == cont:
        return True
    if e[0] == "call" and len(e) > 3 and re.search(r"::(operator\[\]|at)$", e[1]) and e[2] == cont and e[3] == ("c", 0):
        return True
    return False


def is_first(f, e, cont, at):
    if first_elem(e, cont):
        return True
    x = uncast(e)
    if x[0] == "call" and DEREF.search(x[1]) and len(x) > 2:
        return itval(f, x[2], at) == ("begin", cont, 0)
    return False


def is_last(f, e, cont, at):
    x = bare(e)
    if x[0] == "call" and len(x) > 2 and re.search(r"::back$", x[1]) and x[2] == cont:
        return True
    if x[0] == "call" and len(x) > 3 and re.search(r"::(operator\[\]|at)$", x[1]) and x[2] == cont:
        ix = uncast(x[3])
        b, k = split_add(ix)
        if k == -1 and b is not None and sizes_of(b) == cont:
            return True
    x = uncast(e)
    if x[0] == "call" and DEREF.search(x[1]) and len(x) > 2:
        return itval(f, x[2], at) == ("end", cont, -1)
    return False


def covers(f, S, argof, cont):
    """(verdict, reason): the values `argof(call)` over all executions of the calls S are every element of cont once, in order.
    verdict None: not recognised"""
    if not S:
        return False, "no element is used"
    firsts, loopcalls = [], []
    for i in S:
        a = argof(i)
        rs = [r for r in range_at(f, i) if (r.elem(a) or r.ofelem(a))]
        if rs:
            r = rs[0]
            if r.cont != cont:
                # index loops bounded by a count: accept when the indexed container is ours
                if not (r.kind == "ix" and r.cont[:1] == ("count",)):
                    return None, "loop over something else"
                return None, "bound not recognised"
            loopcalls.append((i, r))
        elif is_first(f, a, cont, i):
            if enclosing(f, i):
                return None, "first element inside a loop"
            firsts.append(i)
        else:
            # an index loop whose bound is a count we cannot relate
            return None, "element not recognised"
    if not loopcalls:
        return False, "only the first element is used"
    Ls = {id(r.L): r for _, r in loopcalls}
    if len(Ls) != 1:
        return None, "several loops"
    r = next(iter(Ls.values()))
    if r.start != (1 if firsts else 0):
        return False, "the loop starts at element %d" % r.start
    if not each_once(f, r.L, [i for i, _ in loopcalls]):
        return False, "not every element is used exactly once"
    if not r.full:
        return False, "the loop ends before the last element"
    if r.breaks:
        return False, "the loop may end before the last element"
    return True, ""
