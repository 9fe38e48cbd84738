"""Comparison: odc compare and Comparator find every difference, and only differences."""
from ir import *
from loops import *
from frlib import linear
from rangelib import *
from trace import *
from A03 import tri, find_all
from S01 import tr_, has, strip_ids, loop_with, THIS, F, LD
from I01 import opt_flow, possible
from D01 import optset

CONFIG = {"roots": [
    {"tag": "cmp", "re": r"odc::Comparator::|odc::tool::(CompareTool|CompactTool|FixedSizeRowTool)::(run|C)",
     "keep": [r"core::Column::", r"core::MetaData::", r"\bRow_<", r"IteratorProxy<[^()]*>::(operator|IteratorProxy|next|~)", r"odc::Writer<.*>::", r"LibOdc::instance", r"tool::Tool::", r"CommandLineParser::", r"odc::Reader::",
              r"Comparator::(compare|raiseNotEqual|same|Comparator)\b", r"WriterBufferingIterator::", r"StringTool::"], "depth": 4}]}

ALLQ = r"\boperator->$|\boperator\*$"


def run(P, R):
    R.rule("E1", "Both files' rows are read together, each pair is compared once with its own data and columns, layouts are compared before the first row and before a row with a new layout, and success needs both files to end")
    R.rule("E2", "Layouts are the same when they have the same number of columns, names, types, bitfield definitions and missing flags; excluded columns are left out of that and of the rows, columns with excluded types keep the rest")
    R.rule("E3", "Two rows are the same exactly when every column that is not excluded is missing in both or has the same value, text compared within its own width, and any difference makes the comparison fail")
    R.rule("E4", "The compared files, exclusions and options reach the comparison as they were given; compact and fixrowsize compare what they wrote with what they read")
    R.rule("E5", "Numbers are the same when equal or when they differ by less than the tolerance, relative to them unless one of them is small")
    for fn in (rows, layout, values, wrappers, tools, numbers):
        fn(P, R)
    for r in ("E1", "E2", "E3", "E4", "E5"):
        R.need(r, 1)


# ------------------------------------------------------------------------------------------------ decision tables
class Need(Exception):
    def __init__(self, fact, dom):
        self.fact, self.dom = fact, dom


class Unknown(Exception):
    pass


BOOL = (False, True)


def worlds(conds, ev, want, limit=3000):
    """[(facts, wanted outcome)] that agree with the decisions of a path; None when a decision is not understood"""
    out, n = [], [0]
    odd = [False]

    def go(a):
        n[0] += 1
        if n[0] > limit:
            raise Unknown()
        def get(f, dom=BOOL):
            if f not in a:
                raise Need(f, dom)
            return a[f]
        try:
            for e, t in conds:
                try:
                    v = ev(e, get)
                except Unknown:
                    odd[0] = True
                    continue
                if v is not None and bool(v) != t:
                    return
            out.append((a, want(get)))
        except Need as x:
            for v in x.dom:
                go(dict(a, **{"": 0}) | {x.fact: v})
    go({})
    return out, odd[0]


def logic(e, leaf):
    """value of a condition over leaf values"""
    e = uncast(e)
    if e[0] == "not":
        return not logic(e[1], leaf)
    if e[0] == "c":
        return e[1]
    if e[0] == "cmp" and e[1] in ("eq", "ne"):
        try:
            a, b = logic(e[2], leaf), logic(e[3], leaf)
            if a is None or b is None:
                return None
            return (a == b) == (e[1] == "eq")
        except Unknown:
            pass
    if e[0] == "cmp" and e[1] in ("slt", "ult", "sle", "ule", "sgt", "ugt", "sge", "uge"):
        try:
            a, b = logic(e[2], leaf), logic(e[3], leaf)
            if isinstance(a, int) and isinstance(b, int):
                return {"l": a < b, "g": a > b}[e[1][1]] or e[1][2] == "e" and a == b
            if a is None or b is None:
                return None
        except Unknown:
            pass
    if e[0] in ("and", "or", "xor") and len(e) == 3:
        a, b = logic(e[1], leaf), logic(e[2], leaf)
        return {"and": bool(a and b), "or": bool(a or b), "xor": bool(a) != bool(b)}[e[0]]
    if e[0] == "select":
        return logic(e[2] if logic(e[1], leaf) else e[3], leaf)
    return leaf(e)


def colof(e, mds, ix):
    """k when e is column ix of metadata k"""
    e = bare(e)
    if e[0] == "ld":
        e = bare(e[1])
    if e[0] == "call" and len(e) > 3 and re.search(r"(vector|MetaData)::(operator\[\]|at)$", e[1]) and uncast(e[3]) == ix:
        for k, m in enumerate(mds):
            if contains(("x", e[2]), lambda x: x == m):
                return k + 1
    if e[0] == "call" and len(e) > 2 and re.search(r"operator\*$", e[1]):
        x = bare(e[2])
        if x[0] == "call" and re.search(r"operator\+$", x[1]) and uncast(x[3]) == ix:
            for k, m in enumerate(mds):
                if contains(("x", x[2]), lambda y: y == m):
                    return k + 1
    return None


def thisfld(e, name):
    e = uncast(e)
    return e == LD(name)


def argn(f, n):
    """the n-th explicit argument"""
    off = 1 if f.args and f.args[0]["n"] == "this" else 0
    return ("arg", n + off, f.args[n + off]["n"])


def find_fn(P, rx, n):
    return [f for f in P.find(rx, "cmp") if len(f.args) == n and "'lambda" not in f.dem]


# ------------------------------------------------------------------------------------------------ E1
def template(P, excl):
    return [f for f in P.find(r"bool odc::Comparator::compare<|Comparator::compare<", "cmp") if len(f.args) == (9 if excl else 7)]


def resolve_iter(e):
    """k for an expression about the k-th argument's current row: its operand"""
    e = bare(e)
    while e[0] == "call" and len(e) == 3 and re.search(ALLQ, e[1]) or e[0] == "ld":
        e = bare(e[2] if e[0] == "call" else e[1])
    return e


def rows(P, R):
    fs = template(P, True)
    R.anchor(bool(fs), "E1: Comparator::compare over two row ranges")
    for f in fs:
        key, w = "compare:rows", f.where()
        it, en = (argn(f, 0), argn(f, 2)), (argn(f, 1), argn(f, 3))
        exT, ex = argn(f, 6), argn(f, 7)
        # the sets made from the exclusions
        sets = {}
        for i in f.calls(r"set::set$|unordered_set::unordered_set$"):
            a = [bare(f.expr(o)) for o in i["o"]]
            src = {x for y in a[1:] for x in walk(("x", y)) if isinstance(x, tuple) and x[:1] == ("arg",)}
            sets[a[0]] = src
        for i in f.calls(r"(set|unordered_set)::insert$"):
            a = [bare(f.expr(o)) for o in i["o"]]
            sets.setdefault(a[0], set()).update(x for y in a[1:] for x in walk(("x", y)) if isinstance(x, tuple) and x[:1] == ("arg",))

        def which_set(e):
            e = bare(e)
            for x in [e] + [y for y in walk(("x", e)) if isinstance(y, tuple)]:
                s = sets.get(x)
                if s:
                    return "types" if s == {exT} else "cols" if s == {ex} else "?"
            args = {x for x in walk(("x", e)) if isinstance(x, tuple) and x[:1] == ("arg",)}
            return "types" if args == {exT} else "cols" if args == {ex} else None

        def who(e, q):
            e = bare(e)
            for x in [e] + find_all(("x", e), lambda y: y[:1] == ("call",)):
                if x[0] == "call" and re.search(q, x[1]):
                    b = resolve_iter(x[2])
                    return 1 if b == it[0] else 2 if b == it[1] else None
            return None

        def check_meta(s, where):
            a = s.args
            tri(R, "E1", key + ":layout-of", where, None if None in (who(a[1], r"::columns$"), who(a[2], r"::columns$")) else {who(a[1], r"::columns$"), who(a[2], r"::columns$")} == {1, 2}, "the layouts compared are not those of the two files")
            if len(a) > 5:
                x, y = which_set(a[3]), which_set(a[4])
                tri(R, "E1", key + ":exclusions", where, None if None in (x, y) else (x, y) == ("types", "cols"), "the excluded columns and excluded types are not those asked for")
        def kind(s):
            return "meta" if len(s.args) == 6 else "row" if len(s.args) in (6, 7) else None

        def metas(T):
            return [s for s in T.calls(r"Comparator::compare$") if len(s.args) == 6 and has(("x",) + tuple(s.args[1:3]), r"::columns$") and not has(("x",) + tuple(s.args), r"::data$")]

        def datas(T):
            return [s for s in T.calls(r"Comparator::compare$") if has(("x",) + tuple(s.args), r"::data$") or len(s.args) == 7]

        def ended(T):
            """{k: truth of 'row k exists' as last decided}"""
            out = {}
            for s in T.steps:
                if s.kind == "cond":
                    c = uncast(strip_ids(s.val))
                    t = s.truth
                    if c[0] == "call" and re.search(r"operator(!=|==)$", c[1]) and len(c) > 3:
                        a, b = resolve_iter(c[2]), resolve_iter(c[3])
                        if c[1].endswith("=="):
                            t = not t
                        for k in (0, 1):
                            if {a, b} == {it[k], en[k]}:
                                out[k + 1] = t
            return out
        skips = {bare(s2) for i in f.calls(r"Comparator::compare$") for s2 in [f.expr(i["o"][-1])] if len(i["o"]) in (6, 7)}
        tri(R, "E1", key + ":skipped", w, len(skips) == 1, "the columns left out are not those found when the layouts were compared")
        L, c, its = loop_with(f, r"Comparator::compare$")
        if not L or its is None:
            tri(R, "E1", key, w, False if not loops(f) else None, "the rows are not compared")
            continue
        # before the loop
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            first = next((n for n, s in enumerate(T.steps) if s.kind == "cond" and has(("x", s.val), r"IteratorProxy::operator(!=|==)$")), len(T.steps))
            tri(R, "E1", key + ":first-layout", w, any(T.index(s) < first for s in metas(T)), "the layouts at the start of the files are not compared")
            for s in metas(T):
                check_meta(s, f.loc(s.i))
            e = ended(T)
            tri(R, "E1", key + ":both-end", w, e.get(1) is False and e.get(2) is False, "files with different numbers of rows are the same")
            if T.ret is not None and known(uncast(T.ret)) is not None:
                tri(R, "E1", key + ":true", w, known(uncast(T.ret)) is True, "equal files are reported as different")
        for T in its:
            e = ended(T)
            if T.end == "throw":
                ms = [s for s in T.calls(r"eckit::Assert$|__cxa_throw$")]
                tri(R, "E1", key + ":refused", w, True if True in [e.get(1), e.get(2)] and e.get(1) != e.get(2) else False if e.get(1) == e.get(2) and None not in (e.get(1), e.get(2)) else None, "equal files are reported as different")
                continue
            if T.end == "ret":
                tri(R, "E1", key + ":both-end", w, e.get(1) is False and e.get(2) is False, "files with different numbers of rows are the same")
                tri(R, "E1", key + ":unseen", w, not datas(T) or None, "")
                continue
            if T.end != "stop":
                continue
            ds, ms = datas(T), metas(T)
            tri(R, "E1", key + ":every-row", w, len(ds) == 1, "a row is compared %d times" % len(ds))
            adv = [s for s in T.calls(r"operator\+\+$|::next$")]
            for k in (0, 1):
                mine = [s for s in adv if resolve_iter(s.args[0]) == it[k] or resolve_iter(s.arg(0)) == it[k]]
                tri(R, "E1", key + ":advance%d" % (k + 1), w, len(mine) == 1 if mine or adv else None if any(x.kind == "call" and any(bare(y) == it[k] for y in x.args) and not re.search(r"operator(->|\*|!=|==)$", x.q) for x in T.steps) else False, "file %d's rows are not read one after the other" % (k + 1))
                for s in mine:
                    tri(R, "E1", key + ":order", f.loc(s.i), all(T.index(d) < T.index(s) for d in ds), "rows with different numbers are compared")
            for d in ds:
                a = d.args[1:]
                tri(R, "E1", key + ":count", f.loc(d.i), True if who(a[0], r"::columns$") and has(("x", a[0]), r"::size$") else False if a[0][0] == "c" else None, "not all columns are compared")
                x = [who(a[1], r"::data$"), who(a[2], r"::data$"), who(a[3], r"::columns$"), who(a[4], r"::columns$")]
                tri(R, "E1", key + ":data", f.loc(d.i), None if None in x else x in ([1, 2, 1, 2], [2, 1, 2, 1]), "the values compared are not those of the two rows with their own columns")
                tri(R, "E1", key + ":passed", f.loc(d.i), len(a) == 6, "the excluded columns are compared")
            nd = {}
            for s in T.steps:
                if s.kind == "cond":
                    k = who(s.val, r"::isNewDataset$")
                    if k:
                        c2 = uncast(s.val)
                        t = s.truth
                        nd[k] = nd.get(k) or t
            for d in ds:
                before = [m for m in ms if T.index(m) < T.index(d)]
                new = [k for k in (1, 2) if nd.get(k) is not False]
                tri(R, "E1", key + ":new-layout", f.loc(d.i), not new or bool(before), "a change of layout in the %s file is not noticed" % ("first", "second")[new[0] - 1] if new else "")
            for m in ms:
                check_meta(m, f.loc(m.i))
    for f in template(P, False):
        for T in tr_(f) or []:
            if T.end == "ret":
                cs = T.calls(r"Comparator::compare$")
                tri(R, "E4", "compare:no-exclusions", f.where(), len(cs) == 1 and [bare(a) for a in cs[0].args[1:7]] == [argn(f, k) for k in range(6)] if len(cs) == 1 and len(cs[0].args) == 9 else None if cs else False, "another comparison is made")


# ------------------------------------------------------------------------------------------------ E2
def layout(P, R):
    fs = [f for f in find_fn(P, r"Comparator::compare\(odc::core::MetaData", 6)]
    R.anchor(bool(fs), "E2: Comparator::compare of two layouts")
    for f in fs:
        key, w = "compare:layout", f.where()
        md = (argn(f, 0), argn(f, 1))
        exT, ex, skip = argn(f, 2), argn(f, 3), argn(f, 4)
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            cs = [(uncast(strip_ids(c)), t) for c, t in T.conds()]
            same = [t for c, t in cs if c[0] == "cmp" and c[1] == "eq" and all(has(("x", x), r"::(size|columnCount)$") for x in c[2:4]) and {k for k, m in enumerate(md) for x in c[2:4] if contains(("x", x), lambda y: y == m)} == {0, 1}]
            tri(R, "E2", key + ":count", w, bool(same and same[0]) if same or not T.calls(r"std::equal$") else None, "layouts with different numbers of columns are the same")
            ct = [s for s in T.calls(r"vector::(clear|resize|assign|operator=)$") if bare(s.args[0]) == skip]
            pu = [s for s in T.calls(r"vector::(push_back|emplace_back)$") if bare(s.args[0]) == skip]
            tri(R, "E2", key + ":cleared", w, bool(ct) and (not pu or T.index(ct[0]) < T.index(pu[0])), "columns left out under an earlier layout stay left out")
        L, c, its = loop_with(f, r"core::Column::(name|type|hasMissing)$")
        if not L or its is None or not c:
            tri(R, "E2", key, w, False if not loops(f) else None, "the columns are not compared")
            continue
        tri(R, "E2", key + ":all", w, c[2] == 0 and c[3] and contains(("x", c[1]), lambda x: x in md), "not every column is compared")
        ix = c[0]

        def leaf(s):
            mem = s.mem

            def res(e):
                """an iterator or object with the call that produced it"""
                e = bare(e)
                if e[0] == "alloca":
                    for a, v in mem.items():
                        if isinstance(a, tuple) and a[0] in ("fld", "sub", "idx") and under(a, e) and isinstance(v, tuple):
                            return strip_ids(v)
                    return bare(mem.get(e, e))
                return e

            def name_of(e):
                e = strip_ids(s.full(e))
                if e[0] == "call" and e[1].endswith("Column::name"):
                    return colof(e[2], md, ix)
                return None

            def set_of(e):
                e = bare(e)
                return "exT" if e == exT else "ex" if e == ex else None

            def lf(e, get):
                e = strip_ids(s.full(e))
                if e[0] == "c":
                    return e[1]
                if thisfld(e, "skipTestingHaveMissing_"):
                    return get("skipTest")
                if e[0] == "call":
                    q = e[1]
                    if re.search(r"Column::hasMissing$", q):
                        k = colof(e[2], md, ix)
                        if k:
                            return get(("hm", k))
                    if re.search(r"Column::type$", q):
                        k = colof(e[2], md, ix)
                        if k:
                            return get(("type", k), (1, 2, 3, 4, 5))
                    if re.search(r"operator(==|!=)$", q) and len(e) > 3:
                        neg = q.endswith("!=")
                        x, y = name_of(e[2]), name_of(e[3])
                        if x and y:
                            return get("names") != neg if {x, y} == {1, 2} else not neg
                        x, y = res(e[2]), res(e[3])
                        bx = [colof(z[2], md, ix) if z[0] == "call" and z[1].endswith("bitfieldDef") else None for z in (x, y)]
                        if all(bx):
                            return get("bits") != neg if set(bx) == {1, 2} else not neg
                        fx = next((z for z in (x, y) if z[0] == "call" and re.search(r"(set|map)::find$", z[1])), None)
                        ey = next((z for z in (x, y) if z[0] == "call" and re.search(r"::c?end$", z[1])), None)
                        if fx and ey and set_of(fx[2]) and set_of(fx[2]) == set_of(ey[2]) and name_of(fx[3]):
                            return get((set_of(fx[2]), 0)) == neg
                    if re.search(r"set::(count|contains)$", q) and set_of(e[2]) and name_of(e[3]):
                        return int(get((set_of(e[2]), 0)))
                    if re.search(r"::compare$", q) and len(e) > 3 and name_of(e[2]) and name_of(e[3]):
                        return 0 if get("names") else 1
                if e[0] == "cmp" and contains(("x", e), lambda x: x == ix) and not has(("x", e), r"Column::"):
                    return None
                raise Unknown()
            return lf

        def want(get):
            if not get("names"):
                return "throw"
            if get(("ex", 0)):
                return "skip"
            if not get(("exT", 0)):
                a, b = get(("type", 1), (1, 2, 3, 4, 5)), get(("type", 2), (1, 2, 3, 4, 5))
                if a != b or a == 4 and not get("bits"):
                    return "throw"
            if not get("skipTest") and get(("hm", 1)) != get(("hm", 2)):
                return "throw"
            return "same"
        verdicts(R, f, key, L, its, leaf, want, lambda T: {"throw"} if T.end == "throw" else {"skip"} if pushes(T, skip, ix) else {"same"},
                 {("same", "throw"): "layouts with different column names, types, bitfields or missing flags are the same",
                  ("skip", "throw"): "layouts with different column names, types, bitfields or missing flags are the same",
                  ("throw", "same"): "layouts that agree are reported as different", ("throw", "skip"): "an excluded column is compared",
                  ("same", "skip"): "an excluded column's values are compared", ("skip", "same"): "the values of a column that is not excluded are not compared"}, rule="E2", ix=ix)
        for T in its:
            n = [s for s in T.calls(r"vector::(push_back|emplace_back)$") if bare(s.args[0]) == skip]
            for s in n:
                v = uncast(strip_ids(s.arg(1)))
                if v[0] == "ld":
                    v = uncast(v[1])
                tri(R, "E2", key + ":place", f.loc(s.i), True if v == ix else False if v[0] == "c" or contains(("x", v), lambda x: x == ix) else None, "another column is left out than the one excluded")
            tri(R, "E2", key + ":once", w, len(n) < 2, "a column is left out twice")


def pushes(T, skip, ix):
    return any(bare(s.args[0]) == skip for s in T.calls(r"vector::(push_back|emplace_back|insert)$"))


def verdicts(R, f, key, L, its, leaf, want, outcome, texts, rule, ix, ignore=lambda s: False):
    seen = set()
    for T in its:
        if T.end == "ret":
            continue
        steps = [s for s in T.steps if s.kind == "cond" and not ignore(s)]
        lf = {}
        for s in steps:
            lf[id(s)] = leaf(s)
        conds = [((s, s.val), s.truth) for s in steps]
        def ev(e, get):
            s, v = e
            return logic(v, lambda x: lf[id(s)](x, get))
        try:
            ws, odd = worlds(conds, ev, want)
        except Unknown:
            tri(R, rule, key + ":table", f.where(), None, "")
            continue
        got = outcome(T)
        for a, wn in ws:
            if wn is None or wn in got:
                continue
            g = sorted(got)[0]
            t = (g, wn)
            if t in seen and not odd:
                continue
            if odd:
                tri(R, rule, key + ":table", f.where(), None, "")
                break
            seen.add(t)
            facts = ", ".join("%s=%s" % (k if isinstance(k, str) else "".join(map(str, k)), v) for k, v in sorted(a.items(), key=str) if k != "")
            R.check(False, rule, "%s:%s-%s" % (key, g, wn), f.where(), "%s (with %s)" % (texts.get(t, "wrong outcome"), facts))
        else:
            if ws:
                R.check(True, rule, key + ":table", f.where(), "", "decided as it should be")


# ------------------------------------------------------------------------------------------------ E3
def values(P, R):
    for f in find_fn(P, r"Comparator::raiseNotEqual\(", 4):
        for T in traces(f):
            tri(R, "E3", "raiseNotEqual", f.where(), T.end == "throw", "a difference found is not reported")
    for f in find_fn(P, r"Comparator::compare\(int", 6):
        for T in tr_(f) or []:
            if T.end == "ret":
                cs = T.calls(r"Comparator::compare$")
                tri(R, "E4", "compare:no-skip", f.where(), len(cs) == 1 and [bare(a) for a in cs[0].args[1:6]] == [argn(f, k) for k in range(5)] if len(cs) == 1 and len(cs[0].args) == 7 else None if cs else False, "another comparison is made")
    fs = find_fn(P, r"Comparator::compare\(int", 7)
    R.anchor(bool(fs), "E3: Comparator::compare of two rows")
    for f in fs:
        key, w = "compare:values", f.where()
        n, data, md, skip = argn(f, 0), (argn(f, 1), argn(f, 2)), (argn(f, 3), argn(f, 4)), argn(f, 5)
        L, c, its = loop_with(f, r"core::Column::(type|hasMissing|missingValue)$")
        if not L:
            tri(R, "E3", key, w, False if not loops(f) else None, "the values are not compared")
            continue
        if its is None:
            tri(R, "E3", key, w, None, "")
            continue
        ix = None
        ph = {}
        for i in f.B[L.header]:
            if i.op == "phi":
                ini = [f.expr(v) for v, b in i["o"] if b not in L.body]
                for e in ini:
                    e = bare(e)
                    if e == ("c", 0) and i["t"] in ("i32", "i64"):
                        ph.setdefault("zero", []).append(("phi", i.id))
                    for k in (0, 1):
                        if e == data[k]:
                            ph[k + 1] = ("phi", i.id)
        used = {uncast(x[3]) for T in its for s in T.calls(r"(vector|MetaData)::(operator\[\]|at)$") for x in [s.val] if contains(("x", s.args[0]), lambda y: y in md)}
        ixs = [x for x in ph.get("zero", []) if x in used]
        if len(ixs) != 1 or 1 not in ph or 2 not in ph:
            tri(R, "E3", key + ":places", w, None, "")
            continue
        ix = ixs[0]
        PT = (ph[1], ph[2])
        # every column
        lim = []
        for T in its:
            for cc, t in T.conds():
                cc = uncast(cc)
                if cc[0] == "cmp" and contains(("x", cc), lambda x: x == ix) and contains(("x", cc), lambda x: x == n):
                    lim.append(cc)
        step_ok = all(linear_step(f, T, L, ix) for T in its if T.end == "stop")
        tri(R, "E3", key + ":every-column", w, step_ok, "columns are passed over")
        for cc in lim:
            a, b = linear_in(cc[2], ix), linear_in(cc[3], n)
            tri(R, "E3", key + ":limit", w, cc[1] in ("slt", "ult", "eq") and a in (0, 1) and b == 0 if a is not None and b is not None else None, "the last columns are not compared")
        # leaving the loop early
        for T in its:
            if T.end == "ret":
                outs = [(uncast(cc), t) for cc, t in T.conds()]
                ended = any(cc[0] == "cmp" and contains(("x", cc), lambda x: x == n) and contains(("x", cc), lambda x: x == ix) and (t is False or cc[1] == "eq") for cc, t in outs)
                tri(R, "E3", key + ":to-the-end", w, ended, "columns after the first ones are not compared")
        # pointers
        for k in (1, 2):
            pi = next(i for i in f.B[L.header] if i.op == "phi" and ("phi", i.id) == ph[k])
            for v, b in pi["o"]:
                if b not in L.body:
                    continue
                for e in leaves(f, L, v):
                    e = strip_ids(e)
                    tri(R, "E3", key + ":place%d" % k, w, advance_ok(e, ph[k], md, ix, k), "after some column the values of file %d are taken from the wrong place" % k)
        cnt = counter_phi(f, L, its)
        tri(R, "E3", key + ":counter", w, True if cnt else None, "")

        def leaf(s):
            T = owner[id(s)]
            raw = {}
            for st in T.steps:
                if st is s:
                    break
                if st.kind == "call" and re.search(r"Comparator::same$", st.q):
                    raw[bare(st.val)] = st

            def val(e):
                """('v', k) for file k's value"""
                e = strip_ids(e)
                if e[0] == "ld":
                    for k in (1, 2):
                        if bare(e[1]) == PT[k - 1]:
                            return k
                return None

            def mv(e):
                e = strip_ids(e)
                if e[0] == "call" and e[1].endswith("Column::missingValue"):
                    return colof(e[2], md, ix)
                return None

            def length(e):
                e = strip_ids(e)
                if e[0] == "call" and e[1].endswith("strnlen") and bare(e[2]) in PT:
                    k = PT.index(bare(e[2])) + 1
                    l = linear(e[3])
                    wd = [x for x in walk(("x", e[3])) if isinstance(x, tuple) and x[:1] == ("call",) and x[1].endswith("dataSizeDoubles")]
                    if len(wd) == 1 and times8(e[3], wd[0]):
                        return ("len", k, colof(wd[0][2], md, ix))
                    return ("len", k, "?")
                if e[0] == "call" and e[1].endswith("strlen") and bare(e[2]) in PT:
                    return ("len", PT.index(bare(e[2])) + 1, "unbounded")
                return None

            def flt(st):
                return any(contains(("x", x), lambda y: y[:1] == ("fptrunc",)) for x in st.args)

            def lf(e, get):
                e0 = e
                e = uncast(e)
                if e[0] == "c":
                    return e[1]
                if e[0] == "cmp" and e[1] in ("slt", "ult", "sle", "ule", "sgt", "ugt", "sge", "uge"):
                    x, y = length(e[2]), length(e[3])
                    if x and y and {x[1:], y[1:]} == {(1, 1), (2, 2)}:
                        d = get("len", (-1, 0, 1)) * (1 if x[1] == 1 else -1)
                        return {"l": d < 0, "g": d > 0}[e[1][1]] or e[1][2] == "e" and d == 0
                if e[0] == "cmp" and e[1] in ("uno", "ord", "une", "oeq"):
                    ks = {val(x) for x in e[2:4]} - {None}
                    if len(ks) == 1 and (val(e[2]) == val(e[3]) or e[1] in ("uno", "ord")):
                        return get(("nan", ks.pop())) == (e[1] in ("uno", "une"))
                    raise Unknown()
                if e[0] == "cmp" and e[1] in ("eq", "ne"):
                    a, b = s.full(e[2]), s.full(e[3])
                    eq = e[1] == "eq"
                    for x, y in ((a, b), (b, a)):
                        k, m = val(x), mv(y)
                        if k and m:
                            return get(("miss" if k == m else "missX", k)) == eq
                    x, y = length(a), length(b)
                    if x and y:
                        return (get("len", (-1, 0, 1)) == 0) == eq if {x[1:], y[1:]} == {(1, 1), (2, 2)} else get("lenX") == eq
                s_ = strip_ids(s.full(e))
                if thisfld(s_, "skipTestingHaveMissing_"):
                    return get("skipTest")
                if thisfld(s_, "NaN_isOK_"):
                    return get("nanok")
                if e[0] == "call":
                    q = e[1]
                    if q.endswith("Column::hasMissing"):
                        k = colof(s_[2], md, ix)
                        if k:
                            return get(("hm", k))
                    if q.endswith("Column::type"):
                        k = colof(s_[2], md, ix)
                        if k == 1:
                            return get("type", (1, 2, 3, 4, 5))
                    if re.search(r"Comparator::same$", q):
                        st = raw.get(bare(e))
                        a = [x for x in (st.args if st else s_[2:]) if val(x)]
                        ks = [val(x) for x in a]
                        if sorted(ks) == [1, 2] and st:
                            return get("samef" if flt(st) else "same")
                        if len(ks) == 2 and ks[0] == ks[1]:
                            return True
                    if re.search(r"\bisnan$", q) and val(s_[2]):
                        return get(("nan", val(s_[2])))
                    if re.search(r"operator(==|!=)$", q) and len(s_) > 3:
                        tx = [bare(x) for x in s_[2:4]]
                        if all(x[0] == "call" and re.search(r"basic_string(_view)?$", x[1]) for x in tx):
                            pl = [([bare(y) for y in x[2:] if bare(y) in PT] or [None])[0] for x in tx]
                            ln = [next((length(y) for y in x[2:] if isinstance(y, tuple) and length(y)), None) for x in tx]
                            if sorted(map(str, pl)) == sorted(map(str, PT)) and all(l and l[1] == PT.index(x) + 1 for l, x in zip(ln, pl)):
                                eq = get("len", (-1, 0, 1)) == 0 and get("text", (-1, 0, 1)) == 0 if all(l[1] == l[2] for l in ln) else get("textX")
                                return eq == q.endswith("==")
                    if re.search(r"(strncmp|memcmp|bcmp)$", q) and len(s_) > 4:
                        for x, y in (s_[2:4], s_[3:1:-1]):
                            if bare(x) in PT and mv(y) and uncast(s_[4]) == ("c", 8):
                                return int(not get(("miss" if mv(y) == PT.index(bare(x)) + 1 else "missX", PT.index(bare(x)) + 1)))
                        if [bare(x) for x in s_[2:4]] in ([PT[0], PT[1]], [PT[1], PT[0]]):
                            ln = length(s_[4])
                            v = get("text" if ln and ln[1] == ln[2] else "textX", (-1, 0, 1))
                            return v if bare(s_[2]) == PT[0] else -v
                if e[0] == "cmp" and contains(("x", e), lambda x: x == ix) and contains(("x", e), lambda x: x == n):
                    return None
                # the exclusion cursor
                sk = skipfact(s, e, ix, skip)
                if sk is not None:
                    f_, neg = sk
                    return get(f_) != neg
                if cnt and contains(("x", e), lambda x: x == cnt):
                    return None
                raise Unknown()
            return lf

        def want(get):
            if get("more") and get("here"):
                return "silent"
            m = []
            for k in (1, 2):
                m.append((get("skipTest") or get(("hm", k))) and get(("miss", k)))
            if m[0] != m[1]:
                return "report"
            if m[0]:
                return "silent"
            t = get("type", (1, 2, 3, 4, 5))
            if t == 3:
                return "silent" if get("len", (-1, 0, 1)) == 0 and get("text", (-1, 0, 1)) == 0 else "report"
            if get("samef" if t == 2 else "same"):
                return "silent"
            return "silent" if get("nanok") and get(("nan", 1)) and get(("nan", 2)) else "report"
        owner = {id(s): T for T in its for s in T.steps}
        inside = [T for T in its if T.end != "throw" or not past_end(T, ix, n)]

        def outcome(T):
            if T.end == "throw" and not past_end(T, ix, n):
                return {"report"}
            if T.calls(r"Comparator::raiseNotEqual$"):
                return {"report"}
            if cnt and T.end == "stop":
                nx = next_phi(T, L, cnt[1])
                if nx is not None and uncast(nx) != cnt:
                    return {"report"}
            if cnt and T.end in ("ret", "throw"):
                # the last column: the decision on the counter
                d = [(uncast(cc), t) for cc, t in T.conds() if contains(("x", cc), lambda x: x == cnt)]
                if any(strip_ids(cc)[2:4] != (cnt, ("c", 0)) and cc[0] == "cmp" and contains(cc, lambda x: x[:1] == ("add",)) for cc, t in d):
                    return {"report"}
            return {"silent"}
        # paths that end the loop are the same as paths that go on, so those that go on (or fail inside) are enough
        verdicts(R, f, key, L, [T for T in inside if T.end in ("stop", "throw")], leaf, want, outcome,
                 {("silent", "report"): "a difference is not reported", ("report", "silent"): "equal values are reported as different"}, rule="E3", ix=ix)
        caught(R, f, key, L, cnt, any(T.end == "throw" and past_end(T, ix, n) for T in its))
        # the cursor over the excluded columns
        for T in its:
            if T.end != "stop":
                continue
            cur = [s for s in T.steps if s.kind == "cond" and skipfact(s, uncast(s.val), ix, skip) == ("here", False)]
            adv = [s for s in T.calls(r"__normal_iterator::operator\+\+$|operator\+=$") if "normal_iterator" in s.q]
            if cur and contains(("x", cur[0].val), lambda x: x[:1] == ("call",) and x[1].endswith("operator*")):
                tri(R, "E3", key + ":cursor", w, (len(adv) == 1) == cur[-1].truth if len(adv) < 2 else False, "after the first excluded column other columns are excluded")
        # any difference makes it fail
        for T in its:
            if T.end in ("ret", "throw") and cnt and past_end(T, ix, n):
                d = [(uncast(s.val), s.truth) for s in T.steps if s.kind == "cond" and contains(("x", s.val), lambda x: x == cnt)]
                if any(c[0] != "cmp" for c, t in d):
                    tri(R, "E3", key + ":fails", w, all((T.end == "throw") == t for c, t in d), "differences found do not make the comparison fail")
                    continue
                fit = lambda n: all((v == c2) == t if p == "eq" else (v < c2) == t if not sw else (c2 < v) == t for (p, v, c2, sw), t in [((c[1],) + ((n + linear_in(c[2], cnt), uncast(c[3])[1], False) if linear_in(c[2], cnt) is not None else (n + linear_in(c[3], cnt), uncast(c[2])[1], True)), t) for c, t in d])
                try:
                    off = max([linear_in(x, cnt) for c, t in d for x in c[2:4] if linear_in(x, cnt) is not None] or [0])
                    if T.end == "ret":
                        tri(R, "E3", key + ":fails", w, not any(fit(n) for n in (0, 1, 2) if n + off > 0), "differences found do not make the comparison fail")
                    else:
                        tri(R, "E3", key + ":fails", w, not any(fit(n) for n in (0, 1, 2) if n + off == 0), "rows without a difference are reported as different")
                except (TypeError, IndexError):
                    tri(R, "E3", key + ":fails", w, None, "")


def past_end(T, ix, n):
    """the path left the loop because the columns ended"""
    for s in T.steps:
        if s.kind == "cond":
            c = uncast(s.val)
            if c[0] == "cmp" and contains(("x", c), lambda x: x == ix) and contains(("x", c), lambda x: x == n) and not s.truth:
                return True
    return False


def linear_in(e, ix):
    """d for ix + d"""
    at, k = linear(uncast_all(e))
    return k if at == {ix: 1} else None


def uncast_all(e):
    e = uncast(e)
    return (e[0],) + tuple(uncast_all(x) if isinstance(x, tuple) else x for x in e[1:]) if e[0] in ("add", "sub", "mul") else e


def linear_step(f, T, L, ix):
    nx = next_phi(T, L, ix[1])
    return nx is not None and linear_in(nx, ix) == 1


def times8(e, x):
    e = uncast(e)
    if e[0] == "mul":
        return {uncast(e[1]), uncast(e[2])} == {("c", 8), x}
    return e[0] == "shl" and uncast(e[1]) == x and uncast(e[2]) == ("c", 3)


def leaves(f, L, v, seen=None):
    """values a loop variable may have been given, through merges inside the loop"""
    seen = set() if seen is None else seen
    i = f.I.get(v) if isinstance(v, int) else None
    if i is not None and i.op == "phi" and i.blk != L.header:
        if i.id in seen:
            return []
        seen.add(i.id)
        return [x for w, b in i["o"] for x in leaves(f, L, w, seen)]
    return [f.expr(v)]


def advance_ok(e, p, md, ix, k):
    e = bare(e)
    if e == p:
        return False
    if e[0] == "idx" and bare(e[1]) == p:
        x = uncast(e[2])
        d = [y for y in walk(("x", x)) if isinstance(y, tuple) and y[:1] == ("call",) and y[1].endswith("Column::dataSizeDoubles")]
        if len(d) == 1:
            c = colof(d[0][2], md, ix)
            if c is None:
                return None
            scale = {"double": 1, "i8": 8}.get(e[3])
            ok = x == bare(d[0]) and scale == 1 or scale == 8 and times8(x, bare(d[0]))
            return c == k and ok
        if x[0] == "c":
            return False
    return None


def skipfact(s, e, ix, skip):
    """(fact, negated) for the decisions on the list of columns left out"""
    x = uncast(strip_ids(e))
    its = lambda v: contains(("x", v), lambda y: y[:1] == ("call",) and re.search(r"vector::c?(begin|end)$", y[1]) and y[2] == skip) or any(isinstance(a, tuple) and under(a, bare(v)) and contains(("x", m), lambda y: y == skip) for a, m in s.mem.items() if isinstance(m, tuple) and isinstance(bare(v), tuple) and bare(v)[0] == "alloca")
    if x[0] == "call" and re.search(r"operator(!=|==)$", x[1]) and len(x) > 3:
        vs = [bare(x[2]), bare(x[3])]
        if any(its(v) for v in vs):
            return ("more", x[1].endswith("=="))
    if x[0] == "cmp" and x[1] in ("ult", "eq") and has(("x", x[3]), r"vector::size$") and contains(("x", x[3]), lambda y: y == skip):
        return ("more", x[1] == "eq")
    if x[0] == "cmp" and x[1] == "eq":
        for a, b in ((x[2], x[3]), (x[3], x[2])):
            if uncast(a) == ix:
                b = uncast(b)
                if b[0] == "ld":
                    b = bare(b[1])
                if b[0] == "call" and re.search(r"operator\*$|operator\[\]$", b[1]):
                    return ("here", False)
    return None


def counter_phi(f, L, its):
    """the loop variable that says how many differences were found"""
    out = set()
    for T in its:
        if T.end in ("ret", "throw"):
            for s in T.steps:
                if s.kind == "cond":
                    for x in walk(("x", s.val)):
                        if isinstance(x, tuple) and x[:1] == ("phi",) and any(i.op == "phi" and i.id == x[1] for i in f.B[L.header]):
                            c = uncast(s.val)
                            o = [uncast(y) for y in c[2:4]] if c[0] == "cmp" else []
                            if c == x or x in o and any(y[0] == "c" for y in o):
                                out.add(x)
    return out.pop() if len(out) == 1 else None


def caught(R, f, key, L, cnt, fails):
    """a difference thrown inside the loop and caught there is counted"""
    w = f.where()
    S = f._succs(True)
    # blocks reachable from the loop's landing pads without passing the header
    hdr = L.header
    inloop = set(L.body)
    pads = []
    todo, seen = [hdr], {hdr}
    while todo:
        b = todo.pop()
        for s in S[b]:
            if s not in seen and (s in inloop or f.B[s][0].op == "landingpad" or reaches(S, s, hdr)):
                seen.add(s)
                todo.append(s)
    for b in seen:
        if any(i.op == "landingpad" for i in f.B[b]) and reaches(S, b, hdr):
            pads.append(b)
    if not pads:
        return
    if not cnt:
        tri(R, "E3", key + ":counted", w, None if fails else False, "differences found do not make the comparison fail")
        return
    after = set()
    for p in pads:
        t = [p]
        while t:
            b = t.pop()
            if b in after or b == hdr:
                continue
            after.add(b)
            t += S[b]
    ph = next(i for i in f.B[hdr] if i.op == "phi" and i.id == cnt[1])

    def walkphi(v, b, seen2):
        i = f.I.get(v) if isinstance(v, int) else None
        if i is not None and i.op == "phi" and i.blk != hdr:
            if i.id in seen2:
                return
            seen2.add(i.id)
            for w2, b2 in i["o"]:
                yield from walkphi(w2, b2, seen2)
            return
        yield f.expr(v), b
    for v, b in ph["o"]:
        if not reaches(S, b, hdr) or b not in seen:
            continue
        for e, bb in walkphi(v, b, set()):
            e = uncast(e)
            if e == cnt:
                tri(R, "E3", key + ":counted", w, bb not in after, "a difference that was found is not counted, and the rows are the same")
            elif e[0] == "add" and linear_in(e, cnt) == 1 or e[0] == "c" and e[1] not in (0,) or e[0] == "or":
                tri(R, "E3", key + ":counted", w, True, "")
            elif e[0] == "c":
                tri(R, "E3", key + ":counted", w, False, "differences found earlier are forgotten")
            else:
                tri(R, "E3", key + ":counted", w, False if linear_in(e, cnt) is not None else None, "a difference that was found is not counted, and the rows are the same")


def reaches(S, a, b):
    seen, t = set(), [a]
    while t:
        x = t.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        t += S[x]
    return False


# ------------------------------------------------------------------------------------------------ E4
def src_args(T, e, d=8):
    """arguments and fields that an object was made from"""
    return {x for x in walk(("x", e)) if isinstance(x, tuple) and (x[:1] == ("arg",) and x[2] != "this" or x[:1] == ("fld",))}


def reader_of(T, e):
    """what the reader behind an iterator object reads"""
    e = bare(e)
    obj = next((y for y in [e] + [z for z in walk(("x", e)) if isinstance(z, tuple)] if y[:1] == ("alloca",)), None)
    q, o = None, obj
    for s in T.steps:
        if s.kind == "call" and re.search(r"odc::Reader::(begin|end)$", s.q) and bare(s.args[0]) == obj:
            q, o = s.q.split("::")[-1], bare(s.args[1])
    if q is None:
        m = [x for x in walk(("x", e)) if isinstance(x, tuple) and x[:1] == ("call",) and re.search(r"odc::Reader::(begin|end)$", x[1])]
        if m:
            q, o = m[0][1].split("::")[-1], bare(m[0][-1])
    for s in T.steps:
        if s.kind == "call" and re.search(r"odc::Reader::Reader$", s.q) and bare(s.args[0]) == o:
            return q, s
    return q, None


def wrappers(P, R):
    for n, rx in ((3, r"Comparator::compare\(eckit::PathName const&, eckit::PathName const&\)"), (3, r"Comparator::compare\(eckit::DataHandle&, eckit::DataHandle&\)"), (5, r"Comparator::compare\(eckit::PathName const&, eckit::PathName const&, ")):
        for f in find_fn(P, rx, n):
            key, w = "compare:files" if n == 5 else "compare:handles" if "DataHandle" in f.dem else "compare:paths", f.where()
            for T in tr_(f) or []:
                if T.end != "ret":
                    continue
                cs = T.calls(r"Comparator::compare$")
                tri(R, "E4", key + ":done", w, len(cs) == 1, "the files are compared %d times" % len(cs))
                if len(cs) != 1:
                    continue
                s = cs[0]
                if len(s.args) == 5:
                    a = [bare(x) for x in s.args[1:3]]
                    tri(R, "E4", key + ":files", f.loc(s.i), a in ([argn(f, 0), argn(f, 1)], [argn(f, 1), argn(f, 0)]), "other files are compared")
                elif len(s.args) in (7, 9):
                    both(R, f, T, s, key, {0: argn(f, 0), 1: argn(f, 1)})
                ex = s.args[-2:]
                if len(s.args) in (5, 9) and n == 5:
                    tri(R, "E4", key + ":exclusions", f.loc(s.i), [bare(x) for x in ex] == [argn(f, 2), argn(f, 3)] if all(bare(x)[0] == "arg" for x in ex) else None, "the excluded columns and excluded types are not those asked for")


def both(R, f, T, s, key, want):
    """the two ranges of rows compared are all rows of the two files"""
    got = []
    for k in range(4):
        q, rd = reader_of(T, s.args[1 + k])
        tri(R, "E4", key + ":range%d" % k, f.loc(s.i), None if q is None else q == ("begin", "end")[k % 2], "not all rows are compared")
        got.append(rd)
    if None in got:
        tri(R, "E4", key + ":files", f.loc(s.i), None, "")
        return None
    tri(R, "E4", key + ":same-file", f.loc(s.i), got[0] is got[1] and got[2] is got[3], "the end of the rows is that of another file")
    tri(R, "E4", key + ":two-files", f.loc(s.i), got[0] is not got[2], "a file is compared with itself")
    src = [src_of(T, g) for g in (got[0], got[2])]
    if want:
        vals = list(want.values())
        tri(R, "E4", key + ":files", f.loc(s.i), None if None in src else sorted(map(str, src)) == sorted(map(str, vals)), "other files are compared")
    return src


def src_of(T, rd):
    a = bare(rd.args[1])
    if a[0] == "arg":
        return a
    if a[0] == "fld":
        return a
    return a


def tools(P, R):
    for f in P.find(r"CompareTool::run\(", "cmp"):
        key, w = "CompareTool", f.where()
        for T in tr_(f, limit=20000) or []:
            if T.end != "ret":
                continue
            cs = T.calls(r"Comparator::compare$")
            tri(R, "E4", key + ":done", w, len(cs) == 1, "the files are compared %d times" % len(cs))
            if len(cs) != 1:
                continue
            s = cs[0]
            if len(s.args) in (7, 9):
                src = both(R, f, T, s, key, None)
                if src and all(x[0] == "fld" for x in src):
                    tri(R, "E4", key + ":files", f.loc(s.i), sorted(x[2] for x in src) == ["file1_", "file2_"], "other files are compared")
            elif len(s.args) == 5:
                src = [bare(x) for x in s.args[1:3]]
                tri(R, "E4", key + ":files", f.loc(s.i), sorted(x[2] for x in src) == ["file1_", "file2_"] if all(x[0] == "fld" for x in src) else None, "other files are compared")
            else:
                tri(R, "E4", key + ":files", f.loc(s.i), None, "")
            fl, env = opt_flow(T)
            for j, name in ((-2, "-excludeColumnsTypes"), (-1, "-excludeColumns")):
                if len(s.args) not in (5, 9):
                    tri(R, "E4", key + ":" + name, f.loc(s.i), False if len(s.args) in (3, 7) else None, "the exclusions asked for are ignored")
                    continue
                o = bare(s.args[j])
                nm = option_of(T, fl, o)
                tri(R, "E4", key + ":" + name, f.loc(s.i), None if nm is None else nm == name, "the columns excluded are not those asked for")
            ct = T.calls(r"Comparator::Comparator$")
            for c in ct:
                e = uncast(strip_ids(c.args[1])) if len(c.args) > 1 else ("c", 0)
                opt = optset(T).get("-dontCheckMissing")
                neg = False
                while e[0] == "not" or e[0] == "cmp" and ("c", 0) in e[2:4]:
                    if e[0] == "cmp":
                        neg ^= e[1] == "eq"
                        e = uncast(next(x for x in e[2:4] if x != ("c", 0)))
                    else:
                        e, neg = uncast(e[1]), not neg
                if e[0] == "call" and e[1].endswith("optionIsSet"):
                    tri(R, "E4", key + ":missing", f.loc(c.i), not neg, "-dontCheckMissing does the opposite of what it says")
                elif known(e) is not None:
                    tri(R, "E4", key + ":missing", f.loc(c.i), (known(e) != neg) == opt if opt is not None else False, "-dontCheckMissing is ignored")
                else:
                    tri(R, "E4", key + ":missing", f.loc(c.i), None, "")
    for f in P.find(r"CompareTool::CompareTool\(", "cmp"):
        key, w = "CompareTool:parameters", f.where()
        for T in tr_(f, limit=20000) or []:
            if T.end != "ret":
                continue
            fl, env = opt_flow(T)
            for name, k in (("file1_", 1), ("file2_", 2)):
                v = env.get(F(name)) or next((x for a, x in env.items() if a[:1] == ("fld",) and a[2] == name), None)
                tri(R, "E4", key + ":" + name, w, None if v is None or v[0][0] != "param" else v[0][1] == k, "the tool compares another file than given")
            reg = set()
            for s in T.calls(r"registerOptionWithArgument$"):
                reg |= {x[1] for x in walk(("x", s.arg(1))) if isinstance(x, tuple) and x[:1] == ("str",)}
            for o in ("-excludeColumns", "-excludeColumnsTypes"):
                tri(R, "E4", key + ":" + o, w, o in reg if T.calls(r"registerOptionWithArgument$") else False, "%s is not known to take an argument" % o)
            n = [(c, t) for c, t in T.conds() if c[0] == "cmp" and has(("x", c), r"vector::size$") and c[3][0] == "c"]
            tri(R, "E4", key + ":count", w, any(c[1] == "eq" and c[3] == ("c", 3) and t for c, t in n) if n else None, "a wrong number of parameters is accepted")
    for cls in ("CompactTool", "FixedSizeRowTool"):
        for f in P.find(cls + r"::run\(", "cmp"):
            key, w = cls, f.where()
            for T in tr_(f, limit=20000) or []:
                if T.end != "ret":
                    continue
                ps, cs = T.calls(r"::pass1$"), T.calls(r"Comparator::compare$")
                tri(R, "E4", key + ":copied", w, len(ps) == 1, "the rows are copied %d times" % len(ps))
                tri(R, "E4", key + ":compared", w, len(cs) == 1, "the result is not compared with the input")
                n = [(c, t) for c, t in T.conds() if c[0] == "cmp" and has(("x", c), r"vector::size$") and c[3][0] == "c"]
                tri(R, "E4", key + ":count", w, any(c[1] == "eq" and c[3] == ("c", 3) and t for c, t in n) if n else None, "a wrong number of parameters is accepted")
                fl, env = opt_flow(T)
                P_ = lambda o: (env.get(bare(o)) or (None,))[0]
                wr = T.calls(r"odc::Writer::Writer$")
                for s in wr:
                    v = P_(s.args[1])
                    tri(R, "E4", key + ":output", f.loc(s.i), None if not v or v[0] != "param" else v[1] == 2, "the output is written to another file than given")
                for s in ps:
                    for k in (1, 2):
                        q, rd = reader_of(T, s.args[k])
                        if q is None:
                            q, rd = copied_iter(T, s.args[k])
                        tri(R, "E4", key + ":range%d" % k, f.loc(s.i), None if q is None else q == ("begin", "end")[k - 1], "not all rows are copied")
                        if rd is not None:
                            v = P_(rd.args[1])
                            tri(R, "E4", key + ":input", f.loc(s.i), None if not v or v[0] != "param" else v[1] == 1, "another file is copied than given")
                for s in cs:
                    for p in ps:
                        tri(R, "E4", key + ":after", f.loc(s.i), T.index(p) < T.index(s), "the result is compared before it is written")
                    if len(s.args) in (7, 9):
                        src = both(R, f, T, s, key, None)
                        if src:
                            vs = [P_(x) for x in src]
                            tri(R, "E4", key + ":verified", f.loc(s.i), None if None in vs else sorted(v[1] for v in vs if v[0] == "param") == [1, 2], "the result is not compared with the input")


def copied_iter(T, e):
    """the range end behind a copy of an iterator"""
    o = bare(e)
    for s in T.steps:
        if s.kind == "call" and re.search(r"IteratorProxy::IteratorProxy$", s.q) and bare(s.args[0]) == o and len(s.args) == 2:
            return reader_of(T, s.args[1])
    return None, None


def option_of(T, fl, o):
    """the option whose argument was split into the list o"""
    for s in T.calls(r"StringTools::split$"):
        if bare(s.args[0]) == o:
            env = next(e for q, e in fl if q is s)
            v = env.get(bare(s.args[2]))
            if v and v[0][0] == "option":
                return v[0][1]
            m = [x for x in walk(("x", s.arg(2))) if isinstance(x, tuple) and x[:1] == ("str",) and x[1].startswith("-")]
            if len(m) == 1:
                return m[0][1]
    return None


# ------------------------------------------------------------------------------------------------ E5
def numbers(P, R):
    EPS = "1.0000000000000001E-9"
    for f in find_fn(P, r"Comparator::same\(", 2):
        key, w = "same", f.where()
        A, B = ("arg", 0, f.args[0]["n"]), ("arg", 1, f.args[1]["n"])

        def fab(e):
            e = uncast(e)
            return uncast(e[2]) if e[0] == "call" and re.search(r"fabs|std::abs$", e[1]) else None

        def diff(e):
            e = uncast(e)
            return e[0] == "fsub" and {uncast(e[1]), uncast(e[2])} == {A, B}

        def mag(e):
            """what a denominator's magnitude is: A, B or the larger one"""
            e = uncast(e)
            x = fab(e)
            if x in (A, B):
                return x
            if e in (A, B):
                return e
            if e[0] in ("max", "call") and ("max" in e[0] or re.search(r"fmax|std::max|maxnum", e[1])):
                xs = [fab(y) or y for y in e[1:] if isinstance(y, tuple)]
                if {A, B} <= set(xs):
                    return "max"
            if e[0] == "select":
                return None
            return None

        def err(e):
            """('abs',) or ('rel', by) for an error measure"""
            e = uncast(e)
            x = fab(e)
            if x is not None:
                if diff(x):
                    return ("abs",)
                if x[0] == "fdiv" and diff(x[1]):
                    m = mag(x[2])
                    return ("rel",) if m else None
                return None
            if diff(e):
                return ("signed",)
            if e[0] == "fdiv":
                x = fab(e[1])
                if x is not None and diff(x):
                    m = fab(e[2]) or mag(e[2])
                    return ("rel",) if m in (A, B, "max") else None
            return None
        for T in tr_(f) or []:
            if T.end != "ret" or T.ret is None:
                continue
            conds = [((strip_ids(c)), t) for c, t in T.conds()]

            def lf(e, get):
                e = uncast(e)
                if e[0] == "c":
                    return e[1]
                if e[0] == "cmp":
                    p, a, b = e[1], uncast(e[2]), uncast(e[3])
                    if {a, b} == {A, B} and p in ("oeq", "eq", "ueq"):
                        return get("equal")
                    if {a, b} == {A, B} and p in ("one", "une", "ne"):
                        return not get("equal")
                    if p in ("ogt", "oge", "ugt", "uge"):
                        p, a, b = {"g": "l"}.get(p[1]) and p[0] + "l" + p[2], b, a
                    x, y = fab(a), fab(b)
                    if x in (A, B) and y in (A, B):
                        if x == y:
                            raise Unknown()
                        return get("order", ("A<B", "A>B")) == ("A<B" if x == A else "A>B")
                    if x in (A, B) and b[0] == "f":
                        if float(b[1]) != float(EPS):
                            return get(("small" + b[1], 0 if x == A else 1))
                        return get(("small", 0 if x == A else 1))
                    if y in (A, B) and a[0] == "f":
                        return not get(("small" if float(a[1]) == float(EPS) else "small" + a[1], 0 if y == A else 1))
                    r = err(a)
                    if r and b[0] == "f":
                        if float(b[1]) != float(EPS):
                            return get(("err" + b[1],) + r)
                        return get(("err",) + r)
                    r = err(b)
                    if r and a[0] == "f":
                        return not get(("err" if float(a[1]) == float(EPS) else "err" + a[1],) + r)
                raise Unknown()

            def want(get):
                if get("equal"):
                    return True
                if get(("small", 0)) or get(("small", 1)):
                    return get(("err", "abs"))
                # which of the two the difference is divided by changes the result by less than rounding does
                return get(("err", "rel"))
            def ev(e, get):
                return logic(e, lambda x: lf(x, get))
            ret = strip_ids(T.ret)
            try:
                ws, odd = worlds([(c, t) for c, t in conds], ev, lambda g: (want(g), ev(ret, g)))
            except Unknown:
                tri(R, "E5", key, w, None, "")
                continue
            if odd:
                tri(R, "E5", key, w, None, "")
                continue
            for a, (x, y) in ws:
                t = "values that differ are the same" if y else "equal values are different"
                R.check(bool(x) == bool(y), "E5", key + (":wide" if y and not x else ":narrow" if x and not y else ""), w, "%s (%s)" % (t, ", ".join("%s=%s" % (k, v) for k, v in sorted(a.items(), key=str) if k)), "as it should be")
