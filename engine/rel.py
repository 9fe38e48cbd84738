"""Ordering facts in a normal form: every condition becomes strict inequalities, (dis)equalities and divisibility claims."""
from ir import uncast, neg

SW = {"sgt": "slt", "sge": "sle", "ugt": "ult", "uge": "ule"}
INV = {"slt": "sge", "sle": "sgt", "ult": "uge", "ule": "ugt", "eq": "ne", "ne": "eq", "sgt": "sle", "sge": "slt", "ugt": "ule", "uge": "ult"}


def split_const(e):
    """(base, offset): x + c"""
    e = uncast(e)
    if e[0] == "add":
        for a, b in ((e[1], e[2]), (e[2], e[1])):
            if a[0] == "c":
                x, c = split_const(b)
                return x, c + a[1]
    if e[0] == "sub" and len(e) == 3 and isinstance(e[2], tuple) and e[2][0] == "c" and e[1][0] not in ("arg", "alloca", "ld", "fld"):
        x, c = split_const(e[1])
        return x, c - e[2][1]
    return e, 0


class Facts:
    def __init__(self, facts):
        self.raw = facts
        self.ltset, self.eqset, self.neset, self.truth = set(), set(), set(), set()
        for c, tr in facts:
            self.add(c, tr)

    def add(self, c, tr):
        while isinstance(c, tuple) and c and c[0] == "not":
            c, tr = c[1], not tr
        if not isinstance(c, tuple) or not c:
            return
        self.truth.add((c, tr))
        if c[0] == "switch":
            v, (k, vals) = c[1], c[2:4]
            if k == "case" and len(vals) == 1:
                self.eqset.add((uncast(v), ("c", vals[0])))
            elif k == "notcase":
                for x in vals:
                    self.neset.add((uncast(v), ("c", x)))
            return
        if c[0] != "cmp":
            return
        p, a, b = c[1], c[2], c[3]
        if not tr:
            if p not in INV:
                return
            p = INV[p]
        if p in SW:
            p, a, b = SW[p], b, a
        if p in ("slt", "sle", "ult", "ule"):
            # a < b (+1 when <=); stored as (unsigned?, base a, base b, k): a < b + k
            (x, cx), (y, cy) = split_const(a), split_const(b)
            k = cy - cx + (1 if p[1:] == "le" else 0)
            if x[0] == "c":
                k, x = k - x[1], ("c", 0)
            if y[0] == "c":
                k, y = k + y[1], ("c", 0)
            self.ltset.add((p[0] == "u", x, y, k))
            # an unsigned bound on a sign-extended value also excludes negative values
        elif p == "eq":
            a, b = uncast(a), uncast(b)
            self.eqset |= {(a, b), (b, a)}
        elif p == "ne":
            a, b = uncast(a), uncast(b)
            self.neset |= {(a, b), (b, a)}

    def lt(self, a, b, k=0):
        """a < b + k established"""
        (x, cx), (y, cy) = split_const(a), split_const(b)
        k = k + cy - cx
        if x[0] == "c":
            k, x = k - x[1], ("c", 0)
        if y[0] == "c":
            k, y = k + y[1], ("c", 0)
        if x == y:
            return k > 0
        for (u, p, q, kk) in self.ltset:
            if p == x and q == y and kk <= k:
                return True
            if u and q == ("c", 0) and p == ("c", 0):
                continue
        if (x, y) in self.eqset:
            return k > 0
        return False

    def le(self, a, b):
        return self.lt(a, b, 1)

    def nonneg(self, a):
        a0 = uncast(a)
        if self.lt(("c", -1), a0):
            return True
        # unsigned comparison of the (sign-extended) value against anything bounds it from below too
        return any(u and p == a0 and k <= 0 for (u, p, q, k) in self.ltset)

    def nonnull(self, a):
        return (a, ("null",)) in self.neset or any(x == a and tr for x, tr in self.truth)

    def isnull(self, a):
        return (a, ("null",)) in self.eqset

    def eq(self, a, b):
        return (uncast(a), uncast(b)) in self.eqset

    def ne(self, a, b):
        return (uncast(a), uncast(b)) in self.neset

    def multiple_of(self, a, n):
        """a % n == 0 established (srem/urem, or masking for powers of two)"""
        a = uncast(a)
        for x, y in self.eqset:
            if y != ("c", 0):
                continue
            if x[0] in ("srem", "urem") and uncast(x[1]) == a and x[2][0] == "c" and x[2][1] % n == 0:
                return True
            if x[0] == "and":
                for p, q in ((x[1], x[2]), (x[2], x[1])):
                    if q == ("c", n - 1) and uncast(p) == a:
                        return True
        return False
