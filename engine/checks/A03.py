"""The C++ frame interface (api/Odb.cc, core/Span, core/TablesReader): iteration and aggregation as a state machine over iterator
positions, queries as complete walks over the frame's tables, splitting of encoded tables, forwarding and copying."""
from ir import *
from loops import *
from frlib import linear, value_edges, edges_where, edge_open, INVERSE, SWAP
from rangelib import *
from report import AnalysisBroken

KEEP = [r"core::Table::", r"core::MetaData::", r"core::Column::", r"core::Span::", r"core::encodeFrame", r"StridedDataT<.*>::slice", r"TablesReader::", r"ReadTablesIterator::",
        r"odc::api::filter\(", r"odc::Select::", r"odc::Writer<.*>::", r"pass1"]
CONFIG = {"roots": [
    {"tag": "next", "re": r"^odc::api::ReaderImpl::next\(", "keep": KEEP, "depth": 6},
    {"tag": "frame", "re": r"^odc::api::FrameImpl::(rowCount|columnCount|offset|length|hasColumn|columnInfo|properties(\[abi:cxx11\])?|encodedData|span|filter)\(", "keep": KEEP, "depth": 6},
    {"tag": "serial", "re": r"^odc::api::\(anonymous namespace\)::SerialTableReadHandle::(read|openForRead)\(", "keep": KEEP, "depth": 6},
    {"tag": "encode", "re": r"^odc::api::encode\(", "keep": KEEP, "depth": 6},
    {"tag": "iter", "re": r"^odc::core::ReadTablesIterator::(operator|ReadTablesIterator)", "keep": [r"TablesReader::"], "depth": 4},
    {"tag": "span", "re": r"^odc::core::Span::|^void odc::core::Span::visit", "keep": [], "depth": 4},
    {"tag": "tspan", "re": r"^odc::core::Table::span\(", "keep": [r"core::Table::", r"core::Span::", r"core::MetaData::", r"core::Column::", r"core::Codec::"], "depth": 4},
    {"tag": "compat", "re": r"^odc::core::MetaData::compatible\(", "keep": [r"core::Column::"], "depth": 4},
    {"tag": "fwd", "re": r"^odc::api::(Frame|Reader|Span)::(?!Frame\(|~|Reader\(|Span\()\w+", "keep": [r"odc::api::(FrameImpl|ReaderImpl)::", r"core::Span::", r"SpanVisitor"], "depth": 4},
    {"tag": "copy", "re": r"^odc::api::Frame::(Frame\(odc::api::Frame const&\)|operator=\(odc::api::Frame const&\))", "keep": [r"odc::api::FrameImpl::"], "depth": 4},
    {"tag": "filter", "re": r"^odc::api::filter\(", "keep": [r"odc::Select::", r"odc::Writer<.*>::", r"pass1", r"SelectIterator", r"IteratorProxy"], "depth": 4},
]}


def tri(R, rid, key, where, verdict, bad, ok=None):
    if verdict is None:
        R.extra.setdefault("undecided", []).append("%s: %s at %s" % (rid, key, where))
        return
    R.check(verdict, rid, key, where, bad, ok or "checked")


def run(P, R):
    R.rule("N1", "Iterating takes the file's frames in order, each exactly once; a frame joins the previous one only if it exists, its layout is compatible and the row limit is not exceeded, and aggregation stops only for one of these reasons")
    R.rule("N2", "Advancing the table iterator moves it by one table or to the end, and iterators are equal only at the same position")
    R.rule("Q1", "Row count, properties, encoded data and span of a frame are gathered from every table it aggregates, once each")
    R.rule("Q2", "Offset and length span from the start of the first table to the end of the last; column queries come from a table of the frame")
    R.rule("Q3", "Column info lists every column with its own name, type and size, and bitfield members with the running sum of the sizes before them as offset")
    R.rule("S1", "A span is the union of the values of all three kinds, compares all of them and reports each by its own type")
    R.rule("S2", "Every requested column enters the span: constants with the column's own value, others by decoding, which only-constant queries refuse")
    R.rule("L1", "Layouts are compatible only if they have the same number of columns and every column has an equal one of the same name")
    R.rule("D1", "The handle that feeds a frame to a query delivers the bytes of every table once, in order, and ends only after the last")
    R.rule("E1", "Encoding in several frames slices all columns into consecutive ranges of at most the given number of rows that cover every row once, and makes progress")
    R.rule("F1", "Public methods forward to the implementation's method of that meaning with the caller's arguments and return its result; copies of an empty frame stay empty")
    for fn in (advance, iterator, queries, extent, info, span, table_span, compatible, serial, splitting, forwarding, copies, filtering):
        fn(P, R)
    R.need("N1", 3)
    R.need("Q1", 2)


def get(P, R, tag, rx, rid):
    fs = P.find(rx, tag)
    if not fs:
        R.extra.setdefault("undecided", []).append("%s: %s not found" % (rid, rx))
    return fs


# ------------------------------------------------------------------------------------------------ N1
class Sum:
    """rows summed: all tables taken up to relative position k (None: none) plus those at the positions in extra"""

    def __init__(self, k, extra):
        self.k, self.extra = k, frozenset(extra)

    def key(self):
        return ("sum", self.k, self.extra)


def norm(k, extra, ntaken):
    extra = set(extra)
    if k is None and ntaken == 1 and 0 in extra:
        extra.discard(0)
        k = 0
    while k is not None and k + 1 in extra:
        extra.discard(k + 1)
        k += 1
    if k is not None and k < -3 or any(abs(x) > 4 for x in extra):
        return None
    return ("sum", k, frozenset(extra))


class Walk:
    """explores ReaderImpl::next with iterator positions relative to the table taken last (0)"""

    def __init__(self, f, R):
        self.f, self.R = f, R
        self.bad, self.unknown = {}, set()
        self.seen = 0

    def itname(self, e):
        e = bare(e)
        while e[0] == "call" and len(e) > 2 and re.search(r"ReadTablesIterator::operator(\+\+|=)$", e[1]) and self.prefix(e):
            e = bare(e[2])
        e = root(e)
        return e if e[0] in ("alloca", "fld") else None

    def prefix(self, e):
        return len(e) == 3 or e[1].endswith("=")

    def report(self, key, i, msg):
        self.bad.setdefault(key, (self.f.loc(i) if i is not None else self.f.where(), msg))

    def run(self):
        f = self.f
        this = [a for a in range(len(f.args)) if f.args[a]["n"] == "this"]
        self.home = None
        for i in f.insts():
            if i.op in ("call", "invoke") and re.search(r"ReadTablesIterator::operator", f.cq(i) or ""):
                n = self.itname(f.expr(i["o"][0]))
                if n and n[0] == "fld":
                    self.home = n
        if self.home is None:
            self.unknown.add("iterator")
            return
        start = []
        for first in (True, False):
            start.append((0, None, (("pos", self.home, 1 if first else 0),), frozenset(), 0, (("first", first),), None))
        seen = set()
        st = list(start)
        while st:
            s = st.pop()
            if s in seen:
                continue
            seen.add(s)
            if len(seen) > 60000:
                self.unknown.add("states")
                return
            st += self.step(s)
        self.seen = len(seen)

    # state: (block, previous block, positions, facts, taken, env, result)
    def step(self, s):
        f = self.f
        b, pb, pos, facts, taken, env, res = s
        pos = {x[1]: x[2] for x in pos}
        env = dict(env)
        facts = set(facts)
        L = f.B[b]
        end = f.cut[b] + 1 if b in f.cut else len(L)
        phis = {}
        for i in L[:end]:
            if i.op == "phi":
                for v, x in i["o"]:
                    if x == pb:
                        phis[i.id] = self.val(f.expr(v), env, taken)
        for k, v in phis.items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        for i in L[:end]:
            if i.op in ("call", "invoke"):
                r = self.call(i, pos, facts, taken, env)
                if r == "take":
                    taken = min(2, taken + 1)
                    pos = {k: max(v - 1, -3) for k, v in pos.items()}
                    facts = {(k, p - 1) for k, p in facts if p is not None and p - 1 >= 0} | {x for x in facts if x[1] is None}
                    for k, v in list(env.items()):
                        if isinstance(v, tuple) and v[0] in ("isend", "isnotend", "compat"):
                            if v[1] < -2:
                                env.pop(k)
                            else:
                                env[k] = (v[0], v[1] - 1)
                        elif isinstance(v, tuple) and v[0] == "sum" and v[1] == "twice":
                            pass
                        elif isinstance(v, tuple) and v[0] == "sum":
                            n = norm(None if v[1] is None else v[1] - 1, {x - 1 for x in v[2]}, taken)
                            if n is None:
                                env.pop(k)
                            else:
                                env[k] = n
                elif r == "stop":
                    return []
            elif i.op == "store":
                a = f.expr(i["o"][1])
                if a[0] == "fld" and a[2] == "first_":
                    v = f.expr(i["o"][0])
                    env["first"] = bool(v[1]) if v[0] == "c" else None
            elif i.op == "ret":
                self.final(i, pos, facts, taken, env, res)
                return []
        out = []
        conds = [(y, c, tr) for x, y, c, tr in f.edge_conds() if x == b]
        for t in f._succs(False)[b]:
            fs = set(facts)
            ok = True
            for y, c, tr in conds:
                if y == t and not isinstance(tr, tuple):
                    for e, tt in f.implied(c, tr):
                        v = self.assume(e, tt, fs, env, taken)
                        if v is False:
                            ok = False
            if ok:
                out.append((t, b, tuple(sorted((("pos", k, v) for k, v in pos.items()), key=repr)), frozenset(fs), taken, tuple(sorted(env.items(), key=repr)), env.get("res")))
        return out

    def val(self, e, env, taken):
        e = uncast(e)
        if e[0] == "phi":
            return env.get(e[1])
        if e[0] in ("call", "vcall") and e[-1][:1] == ("#",) and e[-1][1] in env:
            return env[e[-1][1]]
        if e == ("c", 0):
            return ("sum", None, frozenset())
        if e[0] == "add":
            ks, ex = None, set()
            for x in e[1:]:
                v = self.val(x, env, taken)
                if not v or v[0] != "sum":
                    return None
                if v[1] is not None:
                    if ks is not None:
                        return ("sum", "twice", frozenset())
                    ks = v[1]
                if ex & v[2]:
                    return ("sum", "twice", frozenset())
                ex |= v[2]
            if ks == "twice":
                return ("sum", "twice", frozenset())
            return norm(ks, ex, taken)
        return None

    def where(self, e, pos):
        """position of the table an expression is (in): *it, it->, elements of the collected tables"""
        x = uncast(e)
        for _ in range(8):
            if x[0] == "call" and re.search(r"ReadTablesIterator::operator(\*|->)$", x[1]):
                n = self.itname(x[2])
                return pos.get(n) if n else None
            if x[0] == "call" and re.search(r"std::vector::(back|front|operator\[\]|at)$", x[1]) and x[2][0] == "alloca":
                return 0 if x[1].endswith("back") else "member"
            if x[0] == "call" and len(x) > 2 and (IDENT.search(x[1]) or re.search(r"Table::columns$", x[1])):
                x = uncast(x[2])
            elif x[0] in ("fld", "sub", "ld", "idx"):
                x = uncast(x[1])
            else:
                return None
        return None

    def call(self, i, pos, facts, taken, env):
        f = self.f
        q = f.cq(i) or ""
        c = i.get("c") or ""
        o = [f.expr(x) for x in i["o"]]
        if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove"):
            a, d = self.itname(o[1]), self.itname(o[0])
            if a in pos and d is not None:
                pos[d] = pos[a]
            return
        if re.search(r"ReadTablesIterator::(ReadTablesIterator|operator=)$", q) and len(o) == 2:
            a, d = self.itname(o[1]), self.itname(o[0])
            if a in pos and d is not None:
                pos[d] = pos[a]
            return
        m = re.search(r"ReadTablesIterator::operator(\+\+|==|!=)$", q)
        if m:
            sret = len(o) >= 2 and m.group(1) == "++" and re.search(r"ReadTablesIterator::operator\+\+\(int\)", f.P.dem(f.csym(i) or "") or "")
            k = 1 if sret and f.ty(i["o"][0]) == "ptr" and len(o) == 3 else 0
            n = self.itname(o[k])
            if m.group(1) == "++":
                if n not in pos:
                    self.unknown.add("++")
                    return
                if sret and k == 1:
                    d = self.itname(o[0])
                    if d is not None:
                        pos[d] = pos[n]
                p = pos[n]
                if n == self.home:
                    if p >= 1:
                        self.report("skipped", i, "moves past a frame that was not taken")
                pos[n] = min(p + 1, 4)
                return
            p = pos.get(n)
            if p is None and len(o) > 1:
                p = pos.get(self.itname(o[1]))
            if p is None:
                self.unknown.add("compare")
                return
            env[i.id] = ("isend" if m.group(1) == "==" else "isnotend", p)
            return
        if re.search(r"Table::rowCount$|MetaData::rowsNumber$", q):
            w = self.where(o[0], pos)
            v = norm(None, {w}, taken) if isinstance(w, int) else None
            if v:
                env[i.id] = v
            else:
                env.pop(i.id, None)
            return
        if re.search(r"MetaData::(compatible|operator==|equals)$", q):
            ws = [self.where(x, pos) for x in o[:2]]
            env.pop(i.id, None)
            for a, d in (ws, ws[::-1]):
                if isinstance(a, int) and a >= 1 and (d == "member" or isinstance(d, int) and d <= 0):
                    env[i.id] = ("compat", a)
                    break
            else:
                if all(w == "member" or isinstance(w, int) and w <= 0 for w in ws):
                    self.report("compared", i, "compares the layouts of tables that are part of the frame already")
                else:
                    self.unknown.add("compatible")
            return
        if re.search(r"std::vector::(emplace_back|push_back)$", q) and len(o) > 1:
            x = uncast(o[1])
            if not (x[0] == "call" and re.search(r"ReadTablesIterator::operator(\*|->)$", x[1])):
                return
            w = pos.get(self.itname(x[2]))
            if w is None:
                self.unknown.add("take")
                return
            if w < 1:
                self.report("duplicate", i, "takes a frame a second time")
            elif w > 1:
                self.report("skipped", i, "leaves out a frame")
            if not ({("notend", w)} & facts):
                self.report("exists", i, "takes a frame without knowing that there is one")
            if taken >= 1:
                if ("agg", None) not in facts:
                    self.report("aggregated", i, "joins frames although aggregation was not asked for")
                if ("compat", w) not in facts:
                    if "compatible" in self.unknown:
                        pass
                    else:
                        self.report("layout", i, "joins a frame without knowing that its layout is compatible")
                if ("nolimit", None) not in facts and ("limit", w) not in facts:
                    if "limit" not in self.unknown:
                        self.report("rows", i, "joins a frame without knowing that the row limit is kept")
            return "take"
        if re.search(r"unique_ptr::unique_ptr$", q) and o and o[0][0] == "arg":
            v = o[1] if len(o) > 1 else None
            env["res"] = "empty" if v is None or "null" in str(uncast(v)[:1]) else "frame"
            return
        return

    def assume(self, e, t, facts, env, taken):
        e = uncast(e)
        if e[0] == "call" and e[-1][:1] == ("#",):
            v = env.get(e[-1][1])
            if v and v[0] in ("isend", "isnotend"):
                end = (v[0] == "isend") == t
                if end and ("notend", v[1]) in facts or not end and ("end", v[1]) in facts:
                    return False
                if not end and v[1] > 0 and False:
                    return
                facts.add(("end" if end else "notend", v[1]))
            elif v and v[0] == "compat":
                facts.add(("compat" if t else "incompat", v[1]))
            return
        if e[0] == "ld" and e[1][0] == "fld":
            if e[1][2] == "first_":
                v = env.get("first")
                if v is not None and v != t:
                    return False
            if e[1][2] == "aggregated_":
                if (("agg" if not t else "notagg"), None) in facts:
                    return False
                facts.add(("agg" if t else "notagg", None))
            return
        if e[0] == "cmp":
            lim = lambda x: uncast(x)[0] == "ld" and uncast(x)[1][0] == "fld" and uncast(x)[1][2] == "rowlimit_"
            p, a, d = e[1], uncast(e[2]), uncast(e[3])
            if lim(d):
                p, a, d = SWAP.get(p), d, a
            if not lim(a) or p is None:
                return
            if not t:
                p = INVERSE.get(p)
            if d[0] == "c":
                neg_ = (p == "slt" and d[1] <= 0) or (p == "sle" and d[1] < 0) or (p == "eq" and d[1] < 0)
                pos_ = (p == "sge" and d[1] >= 0) or (p == "sgt" and d[1] >= -1)
                if neg_:
                    if ("limited", None) in facts:
                        return False
                    facts.add(("nolimit", None))
                elif pos_:
                    if ("nolimit", None) in facts:
                        return False
                    facts.add(("limited", None))
                return
            v = self.val(d, env, taken)
            if not v or v[0] != "sum":
                self.unknown.add("limit")
                return
            # limit >= sum
            if v[1] == "twice":
                self.report("sum", None, "counts a frame's rows twice against the row limit")
                return
            full = v[1] is not None and v[1] >= 1 and not v[2]
            if p in ("sge", "uge"):
                if full:
                    facts.add(("limit", v[1]))
                else:
                    facts.add(("partial", None))
            elif p in ("sgt", "ugt"):
                if full:
                    facts.add(("limit", v[1]))
            elif p in ("slt", "ult"):
                if full:
                    facts.add(("over", v[1]))
                else:
                    facts.add(("overpartial", None))
            elif p in ("sle", "ule"):
                facts.add(("at", v[1] if full else 0))
        return

    def final(self, i, pos, facts, taken, env, res):
        r = env.get("res")
        if r == "empty":
            if taken:
                self.report("dropped", i, "drops frames it has taken")
            elif ("end", 1) not in facts and ("end", 0) not in facts:
                self.report("end", i, "reports the end although it is not known to be reached")
            return
        if r != "frame":
            self.unknown.add("result")
            return
        if taken == 0:
            self.report("none", i, "returns a frame without data")
            return
        p = pos.get(self.home)
        if p == 1:
            self.report("skipped", i, "the next frame will be skipped: the iterator stands on it already")
        elif p is not None and p < 0:
            self.report("duplicate", i, "the iterator lags behind the frames taken: they will be returned again")
        if env.get("first") is not False:
            self.report("first", i, "the first frame will be returned again")
        if not ({("notagg", None), ("end", 1), ("incompat", 1), ("over", 1)} & facts):
            if ("at", 1) in facts:
                self.report("limit", i, "stops although the next frame would just meet the row limit")
            elif {"limit", "compatible", "compare"} & self.unknown:
                pass
            else:
                self.report("early", i, "stops aggregating without a reason")


def advance(P, R):
    for f in get(P, R, "next", r"ReaderImpl::next\(", "N1"):
        w = Walk(f, R)
        w.run()
        for u in sorted(w.unknown):
            R.extra.setdefault("undecided", []).append("N1: %s at %s" % (u, f.where()))
        keys = {"skipped": "no frame is skipped", "duplicate": "no frame is taken twice", "exists": "frames taken exist", "layout": "joined layouts are compatible",
                "rows": "row limit kept", "aggregated": "joined only when asked", "end": "end only at the end", "early": "aggregation is maximal", "limit": "the limit is inclusive",
                "first": "first frame once", "none": "frames have data", "dropped": "nothing taken is dropped", "sum": "rows counted once", "compared": "compared with the next table"}
        for k, txt in keys.items():
            bad = w.bad.get(k)
            if "iterator" in w.unknown or "states" in w.unknown:
                break
            R.check(bad is None, "N1", k, bad[0] if bad else f.where(), bad[1] if bad else "", "%s (%d states)" % (txt, w.seen))


# ------------------------------------------------------------------------------------------------ N2
def stores_to(f, name):
    return [i for i in f.insts() if i.op == "store" and f.expr(i["o"][1])[:1] == ("fld",) and f.expr(i["o"][1])[2] == name]


def iterator(P, R):
    for f in get(P, R, "iter", r"ReadTablesIterator::operator\+\+\(\)", "N2") + P.find(r"ReadTablesIterator::operator\+\+\(int\)", "iter"):
        st = stores_to(f, "pos_")
        inc = [i for i in st if uncast(f.expr(i["o"][0]))[0] == "add" and ("c", 1) in uncast(f.expr(i["o"][0]))]
        ends = [i for i in st if f.expr(i["o"][0]) == ("c", -1)]
        ens = [i for i in f.insts() if i.op in ("call", "invoke") and re.search(r"TablesReader::ensureTable$", f.cq(i) or "")]
        other = [i for i in st if i not in inc and i not in ends]
        if other or not ens:
            if not ens and not other:
                R.check(False, "N2", "ensured", f.where(), "advances without making sure that the next table is there", "")
            else:
                tri(R, "N2", "advance", f.where(), None, "")
            continue
        miss = f.path_avoiding(None, lambda x: x.op == "ret", lambda x: x in inc) is not None
        twice = any(f.path_avoiding(a, lambda x: x in inc, lambda x: False) is not None for a in inc)
        R.check(not miss and not twice, "N2", "one step", f.where(), "does not advance by exactly one table", "by one")
        no = lambda e, t: e[0] == "call" and re.search(r"ensureTable$", e[1]) and not t
        yes = lambda e, t: e[0] == "call" and re.search(r"ensureTable$", e[1]) and t
        ne, ye = edges_where(f, no), edges_where(f, yes)
        okend = bool(ne) and all(reach_without(f, s, ends) is False for b, s in ne) and all(not from_edge(f, s, ends) for b, s in ye)
        R.check(okend, "N2", "end", f.where(), "the position after the last table is not the end position", "end when no table follows")
        for i in ens:
            a = uncast(f.expr(i["o"][1]))
            good = (a[0] == "add" and ("c", 1) in a) or a[0] == "ld" and all(f.dominates(x, i) for x in inc)
            tri(R, "N2", "which", f.loc(i), True if good else (False if a[0] == "ld" else None), "asks for a table other than the one it moves to", "the table moved to")
    for f in get(P, R, "iter", r"ReadTablesIterator::operator==\(", "N2"):
        good = None
        for r in f.rets():
            alts = []
            for e, x in value_edges(f, r["o"][0], r.blk):
                if x == ("c", 0):
                    continue
                fs = list(f.edge_facts(*e)) if e else list(f.facts(r.blk))
                if x != ("c", 1):
                    fs.append((x, True))
                alts.append(fs)
            same = lambda fs: any(c[0] == "cmp" and (c[1] == "eq") == t and c[1] in ("eq", "ne") and all(uncast(y)[0] == "ld" and uncast(y)[1][0] == "fld" and uncast(y)[1][2] == "pos_" for y in c[2:4]) for c, t in fs)
            good = all(same(a) for a in alts) if alts else None
        tri(R, "N2", "equality", f.where(), good, "iterators at different positions compare equal", "same position")
    for f in get(P, R, "iter", r"ReadTablesIterator::ReadTablesIterator\(odc::core::TablesReader&, long\)", "N2"):
        st = stores_to(f, "pos_")
        ends = [i for i in st if f.expr(i["o"][0]) == ("c", -1)]
        ens = [i for i in f.insts() if i.op in ("call", "invoke") and re.search(r"TablesReader::ensureTable$", f.cq(i) or "")]
        ne = edges_where(f, lambda e, t: e[0] == "call" and re.search(r"ensureTable$", e[1]) and not t)
        good = bool(ens) and bool(ne) and all(reach_without(f, s, ends) is False for b, s in ne)
        tri(R, "N2", "begin", f.where(), good if ens or not ends else None, "an empty file's first position is not the end", "end when there is no first table")


def reach_without(f, s, avoid):
    """can the function return from block s without executing one of avoid"""
    seen, st = {s}, [s]
    S = f._succs(False)
    blk = {i.blk for i in avoid}
    rets = {i.blk for i in f.rets()}
    while st:
        b = st.pop()
        if b in blk:
            continue
        if b in rets:
            return True
        for t in S[b]:
            if t not in seen:
                seen.add(t)
                st.append(t)
    return False


def from_edge(f, s, targets):
    seen, st = {s}, [s]
    S = f._succs(False)
    blk = {i.blk for i in targets}
    while st:
        b = st.pop()
        if b in blk:
            return True
        for t in S[b]:
            if t not in seen:
                seen.add(t)
                st.append(t)
    return False


# ------------------------------------------------------------------------------------------------ Q1, Q2
TABLES = ("fld", ("arg",), "tables_")


def is_tables(c):
    return c[0] == "fld" and c[2] == "tables_"


def cont_of(f):
    """the tables_ member as an expression in f"""
    for i in f.insts():
        if i.op in ("call", "invoke"):
            for o in i["o"]:
                e = bare(f.expr(o))
                if is_tables(e):
                    return e
    return None


def calls(f, rx):
    return [i for i in f.insts() if i.op in ("call", "invoke") and re.search(rx, (f.vcall(i) or (f.cq(i) or "",))[0])]


def arg(f, i, rx=None, k=0):
    """k-th explicit argument of a call, skipping a result slot"""
    o = [f.expr(x) for x in i["o"]]
    return o


def table_arg(f, i):
    """the table a Table:: member function is called on (first argument after a result slot)"""
    o = [f.expr(x) for x in i["o"]]
    sym = f.P.dem(f.csym(i) or "")
    return o


def recv(f, i):
    """receiver of a member call that may have a result slot"""
    o = [f.expr(x) for x in i["o"]]
    if len(o) >= 2 and o[0][0] in ("alloca", "arg") and f.ty(i["o"][1]) == "ptr" and is_sret(f, i):
        return o[1], o[2:]
    return o[0], o[1:]


def is_sret(f, i):
    g = f.P.fns.get(f.csym(i) or "")
    if g is not None:
        return bool(g.args) and g.args[0]["n"] in ("agg.result",)
    return len(i["o"]) >= 2 and i.get("t") == "void" and bool(re.search(r"(readEncodedData|startPosition|nextPosition|Table::span|encodedDataSize|decodeSpan|begin|end)$", f.cq(i) or ""))


def queries(P, R):
    # row count
    for f in get(P, R, "frame", r"FrameImpl::rowCount\(\) const$", "Q1"):
        tri(R, "Q1", "rowCount", f.where(), *summed(P, f, r"Table::rowCount$|MetaData::rowsNumber$"))
    for f in get(P, R, "frame", r"FrameImpl::properties(\[abi:cxx11\])?\(\) const$", "Q1"):
        cont = cont_of(f)
        S = calls(f, r"Table::properties$")
        outer = [i for i in S]
        # several uses of the same element's properties (begin and end) count as one
        byel = {}
        for i in outer:
            byel.setdefault(i.blk if False else bare(recv(f, i)[0]), []).append(i)
        reps = [v[0] for v in byel.values()]
        v, why = covers(f, reps, lambda i: recv(f, i)[0], cont) if cont else (None, "")
        if S and not calls(f, r"std::map::(insert|emplace|operator\[\]|merge|insert_or_assign|try_emplace)$"):
            v, why = None, ""
        tri(R, "Q1", "properties", f.where(), v, "the frame's properties are not those of all its tables: " + str(why), "all tables")
        # memoisation: skipped only when already gathered, marked only when gathered
        got = stores_to(f, "propertiesRetrieved_")
        if got and reps:
            rs = range_at(f, reps[0])
            if rs:
                L = rs[-1].L
                hdr = f.B[L.header][0]
                bad = [i for i in got if f.expr(i["o"][0]) != ("c", 0) and L.header not in {x for x in f.live() if L.header in f.live()} ]
                done = lambda e, t: uncast(e)[0] == "ld" and uncast(e)[1][0] == "fld" and uncast(e)[1][2] == "propertiesRetrieved_" and t
                ed = edges_where(f, done)
                r = f.reach(0, avoid_blocks=[L.header], avoid_edges=ed)
                R.check(not any(i.blk in r for i in f.rets()), "Q1", "properties remembered", f.where(), "the properties may be returned before they were gathered", "returned only after they were gathered")
                early = [i for i in got if f.expr(i["o"][0]) == ("c", 1) and i.blk in f.reach(0, avoid_blocks=[L.header])]
                R.check(not early, "Q1", "properties marked", f.where(), "the properties are marked as gathered before they are (a failure in between loses them)", "marked afterwards")
    for f in get(P, R, "frame", r"FrameImpl::encodedData\(\)$", "Q1"):
        cont = cont_of(f)
        S = calls(f, r"Table::readEncodedData$")
        v, why = covers(f, S, lambda i: recv(f, i)[0], cont) if cont else (None, "")
        tri(R, "Q1", "encodedData", f.where(), v, "the encoded data is not that of all tables: " + str(why), "all tables")
        for i in S:
            a = recv(f, i)[1]
            tri(R, "Q1", "with headers", f.loc(i), (a[0] == ("c", 1)) if a and a[0][0] == "c" else None, "the tables' headers are left out of the encoded data", "with headers")
            app = calls(f, r"BufferList::append$")
            res = f.expr(i["o"][0])
            used = [j for j in app if len(j["o"]) > 1 and f.expr(j["o"][1]) == res]
            tri(R, "Q1", "appended", f.loc(i), True if used else (None if not app else False), "a table's data is not appended to the result", "appended")
    for f in get(P, R, "frame", r"FrameImpl::span\(", "Q1"):
        cont = cont_of(f)
        S = calls(f, r"core::Table::span$")
        v, why = covers(f, S, lambda i: recv(f, i)[0], cont) if cont else (None, "")
        tri(R, "Q1", "span", f.where(), v, "the span does not take in all tables: " + str(why), "all tables")
        for i in S:
            a = recv(f, i)[1]
            good = len(a) >= 2 and uncast(a[0])[:1] == ("arg",) and uncast(a[1])[:1] == ("arg",)
            names = [x["n"] for x in f.args]
            if good:
                cols, only = uncast(a[0])[1], uncast(a[1])[1]
                good = only > cols
            tri(R, "Q1", "span arguments", f.loc(i), good if a else None, "tables are asked for other columns than the caller's", "caller's columns")
            res = f.expr(i["o"][0])
            used = [j for j in f.insts() if j.op in ("call", "invoke") and j is not i and res in [f.expr(x) for x in j["o"]] and not re.search(r"~\w+$", f.cq(j) or "")]
            R.check(bool(used), "Q1", "span joined", f.loc(i), "a table's span is dropped", "joined")


def summed(P, f, rx):
    """(verdict, bad, ok) for `return sum over tables_ of rx(table)`"""
    bad, ok = "the row count is not the sum over all tables", "sum over all tables"
    cont = cont_of(f)
    acc = calls(f, r"^std::accumulate$")
    if acc:
        i = acc[0]
        o = [f.expr(x) for x in i["o"]]
        b, e = itval(f, o[0], i), itval(f, o[1], i)
        if b is None or e is None or cont is None:
            return None, bad, ok
        v = b == ("begin", cont, 0) and e == ("end", cont, 0) and o[2] == ("c", 0)
        lam = [g for g in P.find(r"FrameImpl::rowCount\(\) const::.*operator\(\)", "frame")]
        if not lam:
            return None, bad, ok
        g = lam[0]
        for r in g.rets():
            x = uncast(g.expr(r["o"][0]))
            v = v and x[0] == "add" and any(uncast(y)[:1] == ("arg",) for y in x[1:]) and any(uncast(y)[0] == "call" and re.search(rx, uncast(y)[1]) for y in x[1:])
        for r in f.rets():
            if uncast(f.expr(r["o"][0]))[:2] != ("call", "std::accumulate"):
                return None, bad, ok
        return v, bad, ok
    S = calls(f, rx)
    if cont is None or not S:
        return (False if not S else None), bad, ok
    v, why = covers(f, S, lambda i: f.expr(i["o"][0]), cont)
    if v is not True:
        return v, bad + ": " + why, ok
    rs = range_at(f, S[0])
    L = rs[0].L
    for r in f.rets():
        x = uncast(f.expr(r["o"][0]))
        if x[0] != "phi" or f.I[x[1]].blk != L.header:
            return None, bad, ok
        init, nxt = phi_parts(L, f.I[x[1]])
        for _, e in nxt:
            y = uncast(e)
            if not (y[0] == "add" and x in [uncast(z) for z in y[1:]] and any(uncast(z)[0] == "call" and re.search(rx, uncast(z)[1]) for z in y[1:])):
                return False, bad, ok
        if any(e != ("c", 0) for _, e in init) and rs[0].start == 0:
            return False, bad, ok
    return True, bad, ok


def extent(P, R):
    for f in get(P, R, "frame", r"FrameImpl::offset\(\) const$", "Q2"):
        cont = cont_of(f)
        S = calls(f, r"Table::(startPosition|nextPosition)$")
        v = None
        if cont and S:
            v = all(re.search("startPosition$", f.cq(i)) and is_first(f, recv(f, i)[0], cont, i) for i in S)
        tri(R, "Q2", "offset", f.where(), v, "the frame's offset is not the start of its first table", "start of the first table")
    for f in get(P, R, "frame", r"FrameImpl::length\(\) const$", "Q2"):
        cont = cont_of(f)
        st, nx = calls(f, r"Table::startPosition$"), calls(f, r"Table::nextPosition$")
        v = None
        if cont and nx and (st or calls(f, r"FrameImpl::offset$")):
            v = all(is_first(f, recv(f, i)[0], cont, i) for i in st) and all(is_last(f, recv(f, i)[0], cont, i) for i in nx)
            d = calls(f, r"Offset::operator-$")
            for i in d:
                o = [f.expr(x) for x in i["o"]]
                a = [x for x in o[-2:]]
                n1, s1 = [f.expr(i2["o"][0]) for i2 in nx], [f.expr(i2["o"][0]) for i2 in st]
                if st and a[0] in s1 and a[1] in n1:
                    v = False
        elif cont and not nx:
            v = None if calls(f, r"Table::") and not st else None
        tri(R, "Q2", "length", f.where(), v, "the frame's length does not reach from the start of its first table to the end of its last", "first start to last end")
    for f in get(P, R, "frame", r"FrameImpl::(columnCount|hasColumn)\(", "Q2"):
        cont = cont_of(f)
        what = "columnCount" if "columnCount" in f.dem else "hasColumn"
        S = calls(f, r"Table::(columnCount|columns)$")
        v = None
        if cont and S:
            v = all(is_first(f, recv(f, i)[0], cont, i) or is_last(f, recv(f, i)[0], cont, i) for i in S)
        elif calls(f, r"FrameImpl::columnInfo$"):
            v = None
        for r in f.rets():
            x = uncast(f.expr(r["o"][0]))
            if what == "hasColumn":
                if x[0] == "call" and re.search(r"MetaData::hasColumn$", x[1]):
                    v = v and uncast(x[3])[:1] == ("arg",) if v is not None else None
                elif x[0] == "not":
                    v = False
                else:
                    v = None
            elif not (x[0] == "call" and re.search(r"(columnCount|size)$", x[1])):
                v = None if x[0] == "phi" else (False if x[0] in ("add", "sub", "c") else None)
        tri(R, "Q2", what, f.where(), v, "%s is not that of the frame's tables" % what, "from the frame's first table")


# ------------------------------------------------------------------------------------------------ Q3
def info(P, R):
    for f in get(P, R, "frame", r"FrameImpl::columnInfo\(\) const$", "Q3"):
        pushes = calls(f, r"std::vector::(emplace_back|push_back)$")
        bit, col = [], []
        for i in pushes:
            b = bare(f.expr(i["o"][0]))
            (col if b[0] == "fld" and b[2] == "columnInfo_" else bit).append(i)
        rs = [r for r in ranges(f) if any(i.blk in r.L.body for i in col)]
        if not col:
            tri(R, "Q3", "columns", f.where(), None, "")
            continue
        R0 = None
        for i in col:
            for r in range_at(f, i):
                R0 = R0 or r
        if R0 is None:
            tri(R, "Q3", "columns", f.where(), None, "")
            continue
        ok = R0.full and R0.start == 0 and not R0.breaks and each_once(f, R0.L, col)
        c = bare(R0.cont)
        of = contains(c, lambda x: x[0] == "call" and re.search(r"Table::columns$", x[1]))
        tri(R, "Q3", "columns", f.where(), ok if of or not ok else None, "not every column is listed exactly once", "every column once")
        home = {bare(root(f.expr(i["o"][1]))) for i in col if len(i["o"]) > 1}
        homeb = {bare(root(f.expr(i["o"][1]))) for i in bit if len(i["o"]) > 1}
        for i in f.insts():
            if i.op != "store":
                continue
            a, v = f.expr(i["o"][1]), f.expr(i["o"][0])
            if a[0] == "fld" and bare(a[1]) in home:
                if a[2] == "type":
                    x = uncast(v)
                    tri(R, "Q3", "type", f.loc(i), (R0.ofelem(x[2]) if x[0] == "call" and re.search(r"Column::type$", x[1]) else (False if x[0] == "c" else None)), "the type listed is not the column's", "column's type")
                elif a[2] == "decodedSize":
                    x = linear(uncast(v))
                    at = list(x[0].items())
                    good = None
                    if len(at) == 1 and uncast(at[0][0])[0] == "call" and re.search(r"dataSizeDoubles$", uncast(at[0][0])[1]):
                        good = at[0][1] == 8 and x[1] == 0 and R0.ofelem(uncast(at[0][0])[2])
                    elif v[0] == "c":
                        good = False
                    tri(R, "Q3", "size", f.loc(i), good, "the size listed is not the column's", "8 bytes per double of the column")
        for i in calls(f, r"basic_string::basic_string$|basic_string::operator=$|basic_string::assign$"):
            a = f.expr(i["o"][0])
            if a[0] == "fld" and a[2] == "name" and len(i["o"]) > 1:
                v = uncast(f.expr(i["o"][1]))
                if bare(a[1]) in home:
                    tri(R, "Q3", "name", f.loc(i), R0.ofelem(v[2]) if v[0] == "call" and re.search(r"Column::name$", v[1]) else None, "the name listed is not the column's", "column's name")
        bits(R, f, R0, bit, homeb)


def bits(R, f, R0, bit, homeb):
    if not bit:
        R.check(False, "Q3", "bitfield", f.where(), "bitfield members are not listed", "")
        return
    i = bit[0]
    rb = next((r for r in range_at(f, i) if r.L is not R0.L), None)
    if rb is None or rb.kind != "ix":
        tri(R, "Q3", "bitfield", f.loc(i), None, "")
        return
    is_bf = lambda e, m: contains(e, lambda x: x[0] == "fld" and x[2] == m) and contains(e, lambda x: x[0] == "call" and re.search(r"Column::bitfieldDef$", x[1]))
    R.check(rb.full and rb.start == 0 and not rb.breaks and each_once(f, rb.L, bit), "Q3", "bitfield", f.loc(i), "not every bitfield member is listed exactly once", "every member once")
    at = lambda e, m: is_bf(e, m) and contains(e, lambda x: x[0] == "call" and re.search(r"(operator\[\]|at)$", x[1]) and len(x) > 3 and bare(x[3]) == rb.it)
    for s in f.insts():
        if s.op == "store":
            a, v = f.expr(s["o"][1]), f.expr(s["o"][0])
            if a[0] == "fld" and bare(a[1]) in homeb:
                if a[2] == "size":
                    tri(R, "Q3", "bit size", f.loc(s), True if at(v, "second") else (False if is_bf(v, "second") or v[0] == "c" else None), "a bitfield member's size is not its own", "own size")
                elif a[2] == "offset":
                    x = uncast(v)
                    good = None
                    lx = linear(uncast_deep(x))[0]
                    if len(lx) > 1 and any(k[0] == "phi" and f.I[k[1]].blk == rb.L.header for k in lx if isinstance(k, tuple)) and any(at(deep(f, k), "second") for k in lx):
                        good = False
                    elif x[0] == "phi" and x[1] in f.I and f.I[x[1]].blk == rb.L.header:
                        init, nxt = phi_parts(rb.L, f.I[x[1]])
                        good = all(e == ("c", 0) for _, e in init)
                        for _, e in nxt:
                            y = linear(uncast_deep(e))
                            me = y[0].get(x, 0)
                            rest = {k: c for k, c in y[0].items() if k != x}
                            good = good and me == 1 and y[1] == 0 and len(rest) == 1 and list(rest.values()) == [1] and at(deep(f, list(rest)[0]), "second")
                    elif x[0] == "c":
                        good = False
                    elif contains(x, lambda z: z == rb.it) and not contains(x, lambda z: z[0] == "phi" and z != rb.it):
                        good = False
                    tri(R, "Q3", "bit offset", f.loc(s), good, "a bitfield member's offset is not the sum of the sizes before it", "running sum of sizes")
    for s in calls(f, r"basic_string::basic_string$|basic_string::operator=$"):
        a = f.expr(s["o"][0])
        if a[0] == "fld" and a[2] == "name" and bare(a[1]) in homeb and len(s["o"]) > 1:
            v = f.expr(s["o"][1])
            tri(R, "Q3", "bit name", f.loc(s), True if at(v, "first") else (False if is_bf(v, "first") else None), "a bitfield member's name is not its own", "own name")


def uncast_deep(e):
    if not isinstance(e, tuple):
        return e
    e = uncast(e)
    if e[0] in ("add", "sub", "mul"):
        return (e[0],) + tuple(uncast_deep(x) for x in e[1:])
    return e


# ------------------------------------------------------------------------------------------------ S1
MAPS = {"integerValues_": "integer", "realValues_": "real", "stringValues_": "string"}


def reach_value(f, isx, v):
    """blocks reachable when the expression recognised by isx has the constant value v"""
    dead = []
    for b, s, c, tr in f.edge_conds():
        if isinstance(tr, tuple):
            if isx(uncast(f.expr(c))):
                if (tr[0] == "case") != (v in tr[1]):
                    dead.append((b, s))
            continue
        e = uncast(f.expr(c))
        t = tr
        while e[0] == "not":
            e, t = uncast(e[1]), not t
        if e[0] == "cmp":
            p, a, d = e[1], uncast(e[2]), uncast(e[3])
            if isx(d):
                p, a, d = SWAP.get(p), d, a
            if isx(a) and d[0] == "c" and p:
                val = {"eq": v == d[1], "ne": v != d[1], "slt": v < d[1], "sle": v <= d[1], "sgt": v > d[1], "sge": v >= d[1], "ult": v < d[1], "ule": v <= d[1],
                       "ugt": v > d[1], "uge": v >= d[1]}.get(p)
                if val is not None and val != t:
                    dead.append((b, s))
    return f.reach(0, avoid_edges=dead)


def member(e, name=None):
    """(object, member) of a member address (through moves and casts)"""
    e = bare(e)
    while e[0] == "call" and len(e) > 2 and IDENT.search(e[1]):
        e = bare(e[2])
    if e[0] == "fld" and (name is None or e[2] == name):
        return e[1], e[2]
    return None


def target_map(e):
    """name of the span's own map that an expression is an entry of"""
    x = bare(e)
    for _ in range(8):
        if x[0] == "call" and re.search(r"std::map::(operator\[\]|at|find|insert|emplace|try_emplace)$", x[1]):
            m = member(x[2])
            return m[1] if m and m[1] in MAPS and m[0][0] == "arg" else None
        if x[0] in ("fld", "sub", "ld"):
            x = x[1]
        elif x[0] == "call" and len(x) > 2 and DEREF.search(x[1]):
            x = bare(x[2])
        else:
            return None
    return None


def span(P, R):
    for f in get(P, R, "span", r"^odc::core::Span::extend\(odc::core::Span const&\)", "S1"):
        ins = calls(f, r"std::set::(insert|merge)$|odc::core::Span::addValues$")
        for m, what in MAPS.items():
            src = [r for r in ranges(f) if r.cont[0] == "fld" and r.cont[2] == m and r.cont[1] != ("arg", 0, "this")]
            use = any(contains(f.expr(o), lambda x: x[0] == "fld" and x[2] == m and x[1][0] == "arg" and x[1][1] == 1) for i in f.insts() for o in i.get("o", []) if not isinstance(o, tuple))
            if not src:
                tri(R, "S1", "extend " + what, f.where(), None if use else False, "the %s values of the other span are not taken over" % what)
                continue
            r = src[0]
            mine = [i for i in ins if i.blk in r.L.body and any(r.ofelem(f.expr(o)) or contains(f.expr(o), r.elem) for o in i["o"])]
            if not mine:
                tri(R, "S1", "extend " + what, f.where(), None if any(i.op in ("call", "invoke") and i.blk in r.L.body and contains(f.expr(o), r.elem) for i in f.insts() for o in (i.get("o") or []) if i.op in ("call", "invoke")) else False,
                    "the %s values of the other span are not taken over" % what)
                continue
            good = r.full and r.start == 0 and not r.breaks and each_once(f, r.L, mine)
            tri(R, "S1", "extend " + what, f.loc(mine[0]), True if good else False, "not all %s values of the other span are taken over" % what, "all %s values" % what)
            for i in mine:
                to = target_map(f.expr(i["o"][0]))
                if to is not None:
                    R.check(to == m, "S1", "into " + what, f.loc(i), "the other span's %s values end up among the %s values" % (what, MAPS[to]), "same kind")
                k = [x for o in i["o"] for x in [f.expr(o)] if contains(x, lambda y: y[0] == "call" and re.search(r"std::map::(operator\[\]|at)$", y[1]))]
                for x in k:
                    key = [y for y in find_all(x, lambda y: y[0] == "call" and re.search(r"std::map::(operator\[\]|at)$", y[1]))]
                    for y in key:
                        if r.ofelem(y[3]):
                            R.check(contains(y[3], lambda z: z[0] == "fld" and z[2] == "first"), "S1", "key " + what, f.loc(i), "values are filed under something other than their column", "own column")
        add = [i for i in calls(f, r"Length::operator\+=$|Length::operator=$") if (member(f.expr(i["o"][0])) or (0, 0))[1] == "length_"]
        add += [i for i in stores_in(f, "length_")]
        has = [i for i in add if any(contains(deep(f, f.expr(o)), lambda x: x[0] == "fld" and x[2] == "length_" and x[1][0] == "arg" and x[1][1] == 1) for o in i["o"])]
        if not has:
            tri(R, "S1", "length", f.where(), None if add else False, "extending a span does not extend its length")
        else:
            same = lambda e, t: e[0] == "call" and re.search(r"operator(==|!=)$", e[1]) and (e[1].endswith("==") == t) and all((member(x) or (0, 0))[1] == "start_" for x in e[2:4])
            ed = edges_where(f, same)
            miss = f.reach(0, avoid_blocks=[i.blk for i in has], avoid_edges=ed)
            ok = not any(i.blk in miss for i in f.rets()) or has[0].blk == 0
            R.check(ok, "S1", "length", f.where(), "extending a span by one that starts elsewhere may leave out its length", "length added unless both start at the same place")
            R.check(bool(ed), "S1", "same table", f.where(), "the same stretch of the file may be counted twice", "not counted again when both start at the same place")
    for f in get(P, R, "span", r"^odc::core::Span::addValue\(", "S1"):
        isx = lambda x: x[:1] == ("arg",) and x[2] == "t" or x[:1] == ("arg",) and x[1] == 2
        want = {1: "integerValues_", 4: "integerValues_", 2: "realValues_", 5: "realValues_", 3: "stringValues_"}
        names = {1: "integer", 2: "real", 3: "string", 4: "bitfield", 5: "double"}
        ins = calls(f, r"std::set::(insert|emplace)$")
        if not any(isx(uncast(f.expr(c))) for _, _, c, tr in f.edge_conds() if isinstance(tr, tuple)) and not any(e[0] == "cmp" and (isx(uncast(e[2])) or isx(uncast(e[3]))) for _, _, c, tr in f.edge_conds() for e in [uncast(f.expr(c))]):
            tri(R, "S1", "addValue", f.where(), None, "")
        else:
            for v, m in want.items():
                r = reach_value(f, isx, v)
                got = {target_map(f.expr(i["o"][0])) for i in ins if i.blk in r}
                tri(R, "S1", "add " + names[v], f.where(), None if None in got else got == {m}, "a value of a %s column is filed as %s" % (names[v], ", ".join(sorted(MAPS.get(x, "?") for x in got)) or "nothing"), "filed as %s" % MAPS[m])
            r = reach_value(f, isx, 0)
            R.check(not any(i.blk in r for i in f.rets()), "S1", "add ignored", f.where(), "a value of a column without type is silently accepted", "refused")
    for f in get(P, R, "span", r"^odc::core::Span::addValues\(", "S1"):
        m = "stringValues_" if "set<std::" in f.dem else ("realValues_" if "set<double" in f.dem else "integerValues_")
        got = {target_map(f.expr(i["o"][0])) for i in calls(f, r"std::set::(insert|merge|operator=)$")}
        tri(R, "S1", "addValues " + MAPS[m], f.where(), None if None in got or not got else got == {m}, "%s values are filed as something else" % MAPS[m], "filed as %s" % MAPS[m])
    for f in get(P, R, "span", r"^odc::core::Span::operator==\(", "S1"):
        eq = lambda c, t, m: c[0] == "call" and re.search(r"operator(==|!=)$", c[1]) and (c[1].endswith("==") == t) and all((member(x) or (0, 0))[1] == m for x in c[2:4]) and member(c[2])[0] != member(c[3])[0]
        for m, what in MAPS.items():
            good = None
            for r in f.rets():
                good = True
                for e, x in value_edges(f, r["o"][0], r.blk):
                    if x == ("c", 0):
                        continue
                    fs = list(f.edge_facts(*e)) if e else list(f.facts(r.blk))
                    if x != ("c", 1):
                        fs.append((uncast(x), True))
                    if not any(eq(uncast(c), t, m) for c, t in fs):
                        good = False
            if good is False and not any(eq(uncast(c), t, m) for b, s, cc, tr in f.edge_conds() for c, t in f.implied(cc, tr)) and not any(contains(f.expr(o), lambda x: x[0] == "fld" and x[2] == m) for i in f.insts() if i.op in ("call", "invoke") for o in i["o"]):
                good = False
            elif good is False and any(i.op in ("call", "invoke") and not re.search(r"operator(==|!=)$", f.cq(i) or "") and any((member(f.expr(o)) or (0, 0))[1] == m for o in i["o"]) for i in f.insts()):
                good = None
            tri(R, "S1", "equal " + what, f.where(), good, "spans that differ in their %s values compare equal" % what, "%s values compared" % what)
    for f in P.find(r"^odc::core::Span::get(Integer|Real|String)Values\(", "span"):
        m = {"I": "integerValues_", "R": "realValues_", "S": "stringValues_"}[re.search(r"Span::get(\w)", f.dem).group(1)]
        fnd = calls(f, r"std::map::(find|at|operator\[\])$")
        if len(fnd) != 1:
            tri(R, "S1", "get " + MAPS[m], f.where(), None, "")
            continue
        i = fnd[0]
        mm = member(f.expr(i["o"][0]))
        R.check(bool(mm) and mm[1] == m and uncast(f.expr(i["o"][1]))[:1] == ("arg",), "S1", "get " + MAPS[m], f.loc(i), "another column's or kind's values are returned", "own values of the column asked for")
        if f.cq(i).endswith("find"):
            ok = all(any(c[0] == "call" and CMP.search(c[1]) and ((CMP.search(c[1]).group(1) == "==") != t) and any(has_end(f, x, b) for x in c[2:4]) for c, t in f.facts(r.blk)) for r in f.rets() for b in [r])
            tri(R, "S1", "unknown " + MAPS[m], f.where(), ok, "a column that is not in the span is not refused", "refused")
    for f in P.find(r"Span::visit", "span"):
        vis = [i for i in f.insts() if i.op in ("call", "invoke") and re.search(r"SpanVisitor::operator\(\)$", (f.vcall(i) or (f.cq(i) or "",))[0] or f.cq(i) or "")]
        if not vis:
            continue
        for m, what in MAPS.items():
            rs = [r for r in ranges(f) if r.cont[0] == "fld" and r.cont[2] == m]
            if not rs:
                use = any(contains(f.expr(o), lambda x: x[0] == "fld" and x[2] == m) for i in f.insts() if i.op in ("call", "invoke") for o in i["o"])
                tri(R, "S1", "visit " + what, f.where(), None if use else False, "%s values are not reported" % what)
                continue
            r = rs[0]
            mine = [i for i in vis if i.blk in r.L.body]
            ok = bool(mine) and r.full and r.start == 0 and not r.breaks and each_once(f, r.L, mine)
            for i in mine:
                o = [f.expr(x) for x in i["o"]]
                ok = ok and r.ofelem(o[-2]) and contains(o[-2], lambda z: z[0] == "fld" and z[2] == "first") and r.ofelem(o[-1]) and contains(o[-1], lambda z: z[0] == "fld" and z[2] == "second")
            R.check(ok, "S1", "visit " + what, f.where(), "not all %s values are reported under their column" % what, "all %s values" % what)


def deep(f, e, d=6):
    """temporaries replaced by the only value they are given"""
    if d <= 0 or not isinstance(e, tuple) or not e:
        return e
    if e[0] in ("alloca", "ld") or e[0] in ("fld", "sub") and root(e)[0] == "alloca":
        a = e[1] if e[0] == "ld" else e
        if e[0] != "ld" or isinstance(a, tuple) and a[0] in ("alloca", "fld", "sub"):
            vs = []
            for i in f.insts():
                if i.op == "store" and f.expr(i["o"][1]) == a or i.op == "store" and root(f.expr(i["o"][1])) == a and a[0] == "alloca":
                    vs.append(f.expr(i["o"][0]))
                elif i.op in ("call", "invoke") and len(i.get("o") or []) > 1 and f.expr(i["o"][0]) == a and ((i.get("c") or "").startswith("llvm.memcpy") or re.search(r"(\w+)::\1$", f.cq(i) or "")):
                    vs.append(f.expr(i["o"][1]))
            if len(vs) == 1:
                return deep(f, vs[0], d - 1)
    return (e[0],) + tuple(deep(f, x, d - 1) if isinstance(x, tuple) and x[:1] != ("#",) else x for x in e[1:])


def has_end(f, x, at):
    v = itval(f, x, at)
    return v is not None and v[0] == "end"


def stores_in(f, name):
    return [i for i in f.insts() if i.op == "store" and f.expr(i["o"][1])[:1] == ("fld",) and (f.expr(i["o"][1])[2] == name or contains(f.expr(i["o"][1]), lambda x: x[0] == "fld" and x[2] == name))]


def find_all(e, pred):
    out = []
    if isinstance(e, tuple):
        if e and pred(e):
            out.append(e)
        for x in e[1:]:
            if isinstance(x, tuple):
                out += find_all(x, pred)
    return out


# ------------------------------------------------------------------------------------------------ S2
def table_span(P, R):
    for f in get(P, R, "tspan", r"^odc::core::Table::span\(", "S2"):
        col = next((("arg", k, a["n"]) for k, a in enumerate(f.args) if a["n"] == "columns"), None)
        rs = [r for r in ranges(f) if r.cont == col]
        if col is None or not rs:
            tri(R, "S2", "columns", f.where(), None, "")
            continue
        r = rs[0]
        add = [i for i in calls(f, r"odc::core::Span::addValues?$") if i.blk in r.L.body]
        push = [i for i in calls(f, r"std::vector::(push_back|emplace_back)$|std::set::(insert|emplace)$") if i.blk in r.L.body and any(r.elem(f.expr(o)) for o in i["o"][1:]) and bare(f.expr(i["o"][0]))[0] == "alloca"]
        own = [i for i in add if any(r.elem(f.expr(o)) for o in i["o"][:3])]
        R.check(len(own) == len(add), "S2", "filed", f.where(), "a value is filed under a column that was not asked for", "filed under the column asked for")
        ok = r.full and r.start == 0 and not r.breaks and each_once(f, r.L, add + push)
        R.check(ok, "S2", "every column", f.where(), "not every column asked for enters the span exactly once", "every column once")
        const = lambda e, t: e[0] == "call" and re.search(r"Column::isConstant$", e[1]) and t
        nonconst = lambda e, t: e[0] == "call" and re.search(r"Column::isConstant$", e[1]) and not t
        for i in add:
            R.check(any(const(c, t) for c, t in f.facts(i.blk)), "S2", "constant", f.loc(i), "a single value stands for a column that is not constant", "only for constant columns")
            o = [f.expr(x) for x in i["o"]]
            if f.cq(i).endswith("addValue") and len(o) == 4:
                v, t = uncast(o[3]), uncast(o[2])
                if v[0] == "call" and re.search(r"Column::(min|max)$", v[1]):
                    same = bare(uncast(t)[2]) == bare(v[2]) if t[0] == "call" and len(t) > 2 else None
                    own_ = contains(v[2], r.elem)
                    tri(R, "S2", "value", f.loc(i), same and own_ if same is not None else None, "the constant is another column's, or filed under another type", "the column's own value and type")
                    strq = any(c[0] == "cmp" and c[1] in ("eq", "ne") and any(uncast(x)[0] == "call" and re.search(r"Column::type$", uncast(x)[1]) for x in c[2:4]) and ("c", 3) in [uncast(x) for x in c[2:4]] and (c[1] == "eq") != tt for c, tt in f.facts(i.blk))
                    R.check(strq, "S2", "whole string", f.loc(i), "a constant string longer than eight characters is cut short", "only values that fit in a double")
                else:
                    tri(R, "S2", "value", f.loc(i), False if re.search(r"missing", str(v)) else None, "a column's missing value stands for its constant")
        ext = [i for i in calls(f, r"odc::core::Span::extend$")]
        dec = [i for i in calls(f, r"odc::core::Table::decodeSpan$")]
        if push:
            lst = bare(f.expr(push[0]["o"][0]))
            for i in push:
                pass
            if not dec:
                R.check(False, "S2", "decoded", f.where(), "columns that are not constant never enter the span", "")
                continue
            d = dec[0]
            o = [bare(f.expr(x)) for x in d["o"]]
            R.check(lst in o, "S2", "decoded", f.loc(d), "other columns than those left over are decoded", "the columns left over")
            used = [i for i in ext if f.expr(d["o"][0]) in [f.expr(x) for x in i["o"][1:]]]
            R.check(bool(used), "S2", "joined", f.loc(d), "the decoded values do not enter the span", "joined")
            empty = lambda e, t: (e[0] == "call" and re.search(r"::empty$", e[1]) and bare(e[2]) == lst and t) or (e[0] == "cmp" and any(sizes_of(x) == lst for x in e[2:4]) and any(uncast(x) == ("c", 0) for x in e[2:4]) and ((e[1] == "eq") == t if e[1] in ("eq", "ne") else not t))
            ed = edges_where(f, empty)
            rr = f.reach(0, avoid_edges=ed, avoid_blocks=[d.blk])
            R.check(not any(i.blk in rr for i in f.rets()), "S2", "not left out", f.where(), "columns that are not constant may be left out of the span", "decoded whenever there are any")
            only = lambda e, t: uncast(e)[:1] == ("arg",) and uncast(e)[2] == "onlyConstants" and t
            oe = edges_where(f, lambda e, t: uncast(e)[:1] == ("arg",) and not t and f.P is not None and uncast(e)[1] == len(f.args) - 1)
            rr = f.reach(0, avoid_edges=oe + ed)
            R.check(d.blk not in rr, "S2", "constants only", f.loc(d), "data is decoded although only constants were asked for", "refused when only constants were asked for")


# ------------------------------------------------------------------------------------------------ L1
def meta(e):
    """'this'/'other' for a metadata object seen as its vector base"""
    e = bare(e)
    while e[0] in ("idx", "fld", "sub") and e[1][0] in ("arg", "idx", "fld", "sub"):
        e = e[1]
    return e[1] if e[0] == "arg" else None


def compatible(P, R):
    for f in get(P, R, "compat", r"^odc::core::MetaData::compatible\(", "L1"):
        sizeq = lambda e, t: e[0] == "cmp" and e[1] in ("eq", "ne") and (e[1] == "eq") == t and all(sizes_of(x) is not None for x in e[2:4]) and {meta(sizes_of(x)) for x in e[2:4]} == {0, 1}
        alts = []
        for r in f.rets():
            for e, x in value_edges(f, r["o"][0], r.blk):
                if x == ("c", 0):
                    continue
                alts.append((e, x, r))
        if any(x != ("c", 1) for _, x, _ in alts) or not alts:
            tri(R, "L1", "compatible", f.where(), None, "")
            continue
        R.check(all(any(sizeq(c, t) for c, t in (f.edge_facts(*e) if e else f.facts(r.blk))) for e, x, r in alts), "L1", "same number", f.where(), "layouts with different numbers of columns may count as compatible", "same number of columns")
        colcmp = lambda e: e[0] == "call" and re.search(r"Column::(operator==|operator!=|equals)$", e[1])
        differ = lambda e, t: colcmp(e) and (e[1].endswith("!=")) == t
        de = edges_where(f, differ)
        R.check(bool(de), "L1", "columns compared", f.where(), "columns are not compared", "columns compared")
        for e, x, r in alts:
            verdict, why = pairwise(f, e, r, de, differ)
            if verdict is None:
                verdict, why = after_difference(f, e, r, de)
            tri(R, "L1", "every column", f.loc(r), verdict, "layouts may count as compatible although columns differ: " + why, why)


def pairwise(f, e, r, de, differ):
    """the way to this positive answer compared every column: through a loop that visits all columns of one side, comparing each with a
    column of the other side (same index, or found under its name) and leaving for a negative answer or another loop on difference"""
    b = e[0] if e else r.blk
    best = None
    for q in ranges(f):
        if meta(q.cont) is None or not q.full:
            continue
        cmps = [i for i in calls(f, r"Column::(operator==|operator!=|equals)$") if i.blk in q.L.body]
        cmps = [i for i in cmps if any(q.elem(x) or q.ofelem(x) for x in [f.expr(o) for o in i["o"]])]
        if not cmps:
            continue
        # the loop's regular end leads here, and on this way no difference was seen
        ends = [(x, y) for x, y in loop_ends(f, q)]
        if not ends:
            continue
        # reaching the answer requires the regular end of the loop
        if b in f.reach(0, avoid_edges=ends) and not (e and tuple(e) in [tuple(z) for z in ends]):
            continue
        if q.start != 0:
            best = best or ((False if all(enclosing(f, i) for i in calls(f, r"Column::(operator==|operator!=|equals)$")) else None), "the first column is left out")
            continue
        if not each_once(f, q.L, cmps):
            best = best or (False, "not every column is compared")
            continue
        bad = [d for d in de if d[0] in q.L.body and stays(f, q, d)]
        if bad:
            best = (False, "a difference is ignored")
            continue
        if not all(any(contains(uncast(c), lambda x: x[:1] == ("#",) and x[1] == i.id) for y, z, cc, tr in f.edge_conds() if (y, z) in [tuple(d) for d in de] for c, t in f.implied(cc, tr)) for i in cmps):
            continue
        for i in cmps:
            o = [f.expr(x) for x in i["o"]]
            other = [x for x in o if not (q.elem(x) or q.ofelem(x))]
            me = meta(q.cont)
            if not other:
                best = best or (False, "a column is compared with itself")
                continue
            k = partner(f, q, other[0], me)
            if k is True:
                return True, "every column of one side is equal to its partner on the other"
            best = best or (k, "partner of a column")
    if best is None:
        return None, ""
    return best


def after_difference(f, e, r, de):
    """(False, reason) when this positive answer can follow a difference without another comparison"""
    avoid = {i.blk for i in calls(f, r"Column::(operator==|operator!=|equals)$")}
    hdr = {L.header for L in loops(f) if any(b in L.body for b in avoid)}
    S = f._succs(False)
    goal = e[0] if e else r.blk
    for d in de:
        seen, st = set(), [d[1]]
        while st:
            b = st.pop()
            if b in seen or b in avoid or b in hdr and b != d[1]:
                continue
            seen.add(b)
            if b == goal:
                # the way must not be closed by what the difference set
                if not flagged(f, e, d):
                    return False, "a difference is ignored"
            st += S[b]
    for c, t in (f.edge_facts(*e) if e else f.facts(r.blk)):
        for x in find_all(c, lambda x: x[0] == "phi"):
            h = f.I.get(x[1])
            for L in loops(f):
                if h is not None and h.blk == L.header:
                    _, nxt = phi_parts(L, h)
                    for _, v in nxt:
                        y = uncast(v)
                        while y[0] == "not":
                            y = uncast(y[1])
                        if y[0] == "call" and re.search(r"Column::(operator==|operator!=|equals)$", y[1]):
                            return False, "only the last column compared counts"
    return None, ""


def flagged(f, e, d):
    """the edge e is guarded by a flag (we do not follow its values)"""
    known = {(noid(c), t) for c, t in f.edge_facts(*d)}
    return any(find_all(c, lambda x: x[0] == "phi") for c, t in (f.edge_facts(*e) if e else ()) if (noid(c), t) not in known)


def stays(f, q, d):
    """after difference edge d the loop goes on (reaches its header again inside the loop)"""
    S = f._succs(False)
    seen, st = set(), [d[1]]
    while st:
        b = st.pop()
        if b in seen or b not in q.L.body:
            continue
        seen.add(b)
        if b == q.L.header:
            return True
        st += S[b]
    return False


def loop_ends(f, q):
    out = []
    for (b, s), fs in exit_facts(q.L):
        own = False
        mine = [x for y, z, cc, tr in f.edge_conds() if (y, z) == (b, s) for x in f.implied(cc, tr)]
        for c, t in mine:
            if c[0] == "call" and CMP.search(c[1]) and (t == (CMP.search(c[1]).group(1) == "==")):
                if any(root(bare(x)) == q.it for x in c[2:4]):
                    own = True
            if c[0] == "cmp" and any(uncast(x) == q.it for x in c[2:4]) and any(sizes_of(x) is not None for x in c[2:4]):
                own = True
        if own:
            out.append((b, s))
    return out


def partner(f, q, x, me):
    """is x the column of the other side that corresponds to the loop's element?"""
    y = uncast(x)
    while y[0] in ("ld", "fld", "sub"):
        y = uncast(y[1])
    if y[0] == "call" and re.search(r"(operator\[\]|at)$", y[1]) and len(y) > 3:
        m = meta(y[2])
        if m is None and bare(y[2])[0] == "alloca":
            return None
        if q.kind == "ix":
            return m is not None and m != me and bare(y[3]) == q.it
        return None
    if y[0] == "call" and re.search(r"operator(->|\*)$|std::pair::pair$", y[1]) and len(y) > 2:
        A = root(y[2])
        for i, v in writes(f, A):
            v = uncast(v)
            if v[0] == "call" and re.search(r"::find$", v[1]) and len(v) > 3:
                if not contains(v[3], lambda z: z[0] == "call" and re.search(r"Column::name$", z[1]) and (q.ofelem(z[2]) or q.elem(z[2]))):
                    return False
                lk = bare(v[2])
                # the lookup holds every column of the other side
                for p in ranges(f):
                    if meta(p.cont) is not None and meta(p.cont) != me and p.full and not p.breaks:
                        put = [j for j in calls(f, r"std::(unordered_)?map::(emplace|insert|operator\[\]|try_emplace|insert_or_assign)$") if j.blk in p.L.body and bare(f.expr(j["o"][0])) == lk]
                        if put and each_once(f, p.L, put):
                            return True
                    elif meta(p.cont) == me and [j for j in calls(f, r"std::(unordered_)?map::(emplace|insert|operator\[\])$") if j.blk in p.L.body and bare(f.expr(j["o"][0])) == lk]:
                        return False
                return None
    if y[0] == "call" and re.search(r"MetaData::columnByName$", y[1]) and len(y) > 3:
        return meta(y[2]) not in (None, me) and contains(y[3], lambda z: q.ofelem(z) if isinstance(z, tuple) and z else False)
    return None


# ------------------------------------------------------------------------------------------------ D1
def fld_is(e, name):
    e = uncast(e)
    return e[0] == "ld" and uncast(e[1])[0] == "fld" and uncast(e[1])[2] == name


def bufsize(e):
    e = uncast(e)
    return e[0] == "call" and re.search(r"Buffer::size$", e[1]) and (member(e[2]) or (0, 0))[1] == "buffer_"


def mins(e):
    """the two operands of a minimum, through std::min or a selection"""
    e = uncast(e)
    if e[0] == "min":
        return [uncast(x) for x in e[1:3]]
    if e[0] == "call" and re.search(r"std::min$", e[1]):
        return [uncast(e[2]), uncast(e[3])]
    return None


def serial(P, R):
    for f in get(P, R, "serial", r"SerialTableReadHandle::openForRead\(", "D1"):
        z = {n: [i for i in stores_to(f, n)] for n in ("table_", "pos_")}
        for n, st in z.items():
            tri(R, "D1", "reset " + n, f.where(), all(f.expr(i["o"][0]) == ("c", 0) for i in st) and all(any(f.dominates(i, r) for i in st) for r in f.rets()) if st else False, "opening does not go back to the first table", "back to the start")
        rd = calls(f, r"Table::readEncodedData$")
        tri(R, "D1", "first table", f.where(), len(rd) == 1 and all(any(x[:1] == ("fld",) and x[2] == "tables_" for x in [bare(y)]) or first_of(f, recv(f, i)[0], i) for i in rd for y in [("c", 0)]) if rd else None, "opening does not load the first table", "first table loaded")
        header(f, R, rd)
        load(f, R, rd)
    for f in get(P, R, "serial", r"SerialTableReadHandle::read\(", "D1"):
        cp = [i for i in f.insts() if i.op in ("call", "invoke") and re.search(r"memcpy|memmove", i.get("c") or "")]
        rd = calls(f, r"Table::readEncodedData$")
        posw = stores_to(f, "pos_")
        adv = [i for i in posw if f.expr(i["o"][0]) != ("c", 0)]
        zero = [i for i in posw if f.expr(i["o"][0]) == ("c", 0)]
        tabw = stores_to(f, "table_")
        header(f, R, rd)
        load(f, R, rd)
        if len(cp) != 1 or not rd or not adv:
            tri(R, "D1", "read", f.where(), None if cp and (rd or adv) else False, "reading does not go through the tables")
            continue
        c = cp[0]
        o = [f.expr(x) for x in c["o"]]
        src = o[1]
        inb = contains(src, lambda x: x[0] == "call" and re.search(r"Buffer::", x[1]) and (member(x[2]) or (0, 0))[1] == "buffer_")
        atp = contains(src, lambda x: fld_is(x, "pos_") if x[0] == "ld" else False)
        tri(R, "D1", "source", f.loc(c), True if inb and atp else (False if inb else None), "data is not taken from the current position", "current position of the current table")
        m = mins(o[2])
        left = lambda e: linear(e)[1] == 0 and sorted(linear(e)[0].values()) == [-1, 1] and any(bufsize(k) and v == 1 for k, v in linear(e)[0].items()) and any(fld_is(k, "pos_") and v == -1 for k, v in linear(e)[0].items())
        if m:
            ok = any(x[:1] == ("arg",) for x in m) and any(left(val_of(f, x)) for x in m)
            tri(R, "D1", "amount", f.loc(c), True if ok else None, "", "no more than asked for and than is left")
        else:
            n = uncast(o[2])
            tri(R, "D1", "amount", f.loc(c), False if n[:1] == ("arg",) and not any(x[0] == "cmp" and any(uncast(y) == n for y in x[2:4]) for x, t in f.facts(c.blk)) or left(n) and not any(x[0] == "cmp" and any(uncast(y)[:1] == ("arg",) for y in x[2:4]) for x, t in f.facts(c.blk)) else None, "more may be copied than is left or was asked for")
        n = noid(uncast(o[2]))
        for i in adv:
            y = linear(f.expr(i["o"][0]))
            d = {noid(uncast(k)): v for k, v in y[0].items()}
            me = [k for k in y[0] if fld_is(k, "pos_")]
            tri(R, "D1", "position", f.loc(i), d.get(n) == 1 and len(me) == 1 and y[0][me[0]] == 1 and y[1] == 0 and len(d) == 2, "the position does not move by the amount read", "moves by the amount read")
        R.check(all(f.path_avoiding(c, lambda x: x.op == "ret", lambda x: x in adv) is None for _ in [0]), "D1", "position kept", f.loc(c), "the position does not move after reading", "moves after reading")
        for r in f.rets():
            for e, x in alternatives(f, r["o"][0], n):
                fs = f.edge_facts(*e) if e else f.facts(r.blk)
                if x == ("c", 0):
                    atend = any(q[0] == "cmp" and q[1] in ("eq", "ne", "uge", "ult") and ((q[1] in ("eq", "uge")) == t) and any(fld_is(z, "pos_") for z in q[2:4]) and any(bufsize(z) for z in q[2:4]) for q, t in fs)
                    last = lastfact(fs)
                    tri(R, "D1", "end", f.where(), True if atend and last else (None if last is None else False), "the end is reported before the last table is read", "end after the last table")
                elif noid(uncast(x)) != n:
                    tri(R, "D1", "result", f.where(), False if x[0] == "c" or x[:1] == ("arg",) else None, "the amount reported is not the amount read", "")
                else:
                    R.check(True, "D1", "result", f.where(), "", "amount read")
        # the next table: only when this one is used up, one further, from its start
        for i in rd:
            fs = f.facts(i.blk)
            used = any(q[0] == "cmp" and q[1] in ("eq", "ne", "uge", "ult", "sge", "slt") and ((q[1] in ("eq", "uge", "sge")) == t) and any(fld_is(z, "pos_") for z in q[2:4]) and any(bufsize(z) for z in q[2:4]) for q, t in fs)
            R.check(used, "D1", "used up", f.loc(i), "the next table is loaded before this one is read to its end", "only after the end of this one")
            ix = [x for x in find_all(recv(f, i)[0], lambda x: x[0] == "call" and re.search(r"(operator\[\]|at)$", x[1]) and len(x) > 3)]
            one = [j for j in tabw if linear(f.expr(j["o"][0]))[1] == 1 and any(fld_is(k, "table_") for k in linear(f.expr(j["o"][0]))[0])]
            if ix and tabw:
                k = uncast(ix[0][3])
                plus = k[0] == "add" and ("c", 1) in k
                good = len(one) == len(tabw) == 1 and (plus or fld_is(k, "table_") and f.dominates(one[0], i))
                if fld_is(k, "table_") and len(one) == 1 and f.dominates(i, one[0]):
                    good = False
                if good and plus and f.dominates(one[0], i):
                    good = None
                tri(R, "D1", "next table", f.loc(i), good if good is not False or len(one) != 1 or not one else False, "the next table is not the one after the current", "one further")
            else:
                tri(R, "D1", "next table", f.loc(i), False if not tabw else None, "the position among the tables does not move")
            R.check(bool(zero) and all(f.path_avoiding(i, lambda x: x is c, lambda x: x in zero) is None or any(f.dominates(zz, i) for zz in zero) for _ in [0]), "D1", "from its start", f.loc(i), "the next table is not read from its start", "from its start")


def alternatives(f, op, stop, seen=frozenset()):
    """value_edges that does not look into the value `stop`"""
    if noid(uncast(f.expr(op))) == stop:
        return [(None, f.expr(op))]
    if isinstance(op, int) and op in f.I and f.I[op].op == "phi" and op not in seen:
        out = []
        for v, b in f.I[op]["o"]:
            if b in f.live():
                out += [(e if e is not None else (b, f.I[op].blk), x) for e, x in alternatives(f, v, stop, seen | {op})]
        return out
    if isinstance(op, int) and op in f.I and f.I[op].op in ("zext", "trunc", "sext"):
        return alternatives(f, f.I[op]["o"][0], stop, seen)
    return [(None, f.expr(op))]


def val_of(f, e):
    """value of a temporary a reference is bound to"""
    if e[0] == "ld" and root(e[1])[0] == "alloca":
        st = [i for i in f.insts() if i.op == "store" and f.expr(i["o"][1]) == e[1]]
        if len(st) == 1:
            return uncast(f.expr(st[0]["o"][0]))
    if e[0] == "alloca":
        st = [i for i in f.insts() if i.op == "store" and f.expr(i["o"][1]) == e]
        if len(st) == 1:
            return uncast(f.expr(st[0]["o"][0]))
    return e


def lastfact(fs):
    """True: known that the current table is the last; False: known facts about table_ do not say so; None: nothing known"""
    seen = None
    for q, t in fs:
        if q[0] != "cmp":
            continue
        p, a, b = q[1], uncast(q[2]), uncast(q[3])
        la, lb = linear(a), linear(b)
        ta = [k for k in la[0] if fld_is(k, "table_")]
        tb = [k for k in lb[0] if fld_is(k, "table_")]
        if tb and not ta:
            p, la, lb, ta = SWAP.get(p), lb, la, tb
        if not ta or p is None:
            continue
        if not t:
            p = INVERSE.get(p)
        sz = [k for k in lb[0] if sizes_of(k) is not None]
        if not sz:
            continue
        # table_ + la[1]  p  size + lb[1]
        d = lb[1] - la[1]  # table_ p size + d
        if p in ("uge", "sge", "eq"):
            seen = d == -1 or seen is True
            if d > -1:
                seen = seen or None
        elif p in ("ugt", "sgt"):
            seen = d == -2 or seen is True
        else:
            seen = seen or False
    return False if seen is None else seen


def first_of(f, e, at):
    x = bare(e)
    c = find_all(x, lambda y: y[0] == "fld" and y[2] == "tables_")
    if not c:
        return False
    for y in c:
        if is_first(f, e, ("ld", y), at) or is_first(f, e, y, at):
            return True
    return x[0] == "call" and len(x) > 3 and re.search(r"(operator\[\]|at)$", x[1]) and (x[3] == ("c", 0) or fld_is(x[3], "table_"))


def header(f, R, rd):
    for i in rd:
        a = recv(f, i)[1]
        tri(R, "D1", "with header", f.loc(i), (a[0] == ("c", 1)) if a and a[0][0] == "c" else None, "a table is passed on without its header", "with header")


def load(f, R, rd):
    for i in rd:
        res = f.expr(i["o"][0])
        put = [j for j in calls(f, r"Buffer::operator=$|std::swap$|Buffer::swap$") if (member(f.expr(j["o"][0])) or (0, 0))[1] == "buffer_" or len(j["o"]) > 1 and (member(f.expr(j["o"][1])) or (0, 0))[1] == "buffer_"]
        used = [j for j in put if bare(res) in [bare(f.expr(x)) for x in j["o"]]]
        tri(R, "D1", "loaded", f.loc(i), True if used else (None if not put or True and put else False), "the table's data is dropped", "kept")


# ------------------------------------------------------------------------------------------------ E1
def splitting(P, R):
    fs = [f for f in get(P, R, "encode", r"^odc::api::encode\(", "E1") if "$_" not in f.dem]
    for f in fs:
        enc = calls(f, r"core::encodeFrame$")
        A = {a["n"]: ("arg", k, a["n"]) for k, a in enumerate(f.args)}
        if not enc:
            R.check(False, "E1", "encoded", f.where(), "nothing is encoded", "")
            continue
        data = ("arg", 2, f.args[2]["n"])
        mx = ("arg", 4, f.args[4]["n"]) if len(f.args) > 4 else None
        for i in enc:
            o = [uncast(f.expr(x)) for x in i["o"]]
            ok = [o[k][:2] == ("arg", w) for k, w in ((0, 0), (1, 1), (3, 3))]
            tri(R, "E1", "passed on", f.loc(i), True if all(ok) else (False if all(x[:1] == ("arg",) for x in (o[0], o[1], o[3])) else None), "frames are encoded to another place or with other columns or properties", "caller's output, columns and properties")
        whole = [i for i in enc if uncast(f.expr(i["o"][2])) == data]
        parts = [i for i in enc if i not in whole]
        isrows = lambda e: uncast(e)[0] in ("ld", "call") and contains(uncast(e), lambda x: x[0] == "fld" and x[2] == "nelem_" or x[0] == "call" and x[1].endswith("::nelem"))
        for i in whole:
            fits = any(q[0] == "cmp" and fit(q, t, mx, isrows) for q, t in f.facts(i.blk))
            R.check(fits, "E1", "fits", f.loc(i), "more rows than allowed may be written into one frame", "only if all rows fit")
        # progress: the row limit is positive wherever a slice loop runs
        for i in parts:
            v = uncast(f.expr(i["o"][2]))
            if v[0] != "alloca":
                tri(R, "E1", "slices", f.loc(i), None, "")
                continue
            L = innermost(f, i)
            push = [j for j in calls(f, r"std::vector::(emplace_back|push_back)$") if bare(f.expr(j["o"][0])) == v]
            sl = [j for j in calls(f, r"StridedDataT::slice$")]
            if L is None or not sl:
                tri(R, "E1", "slices", f.loc(i), None, "")
                continue
            s = sl[0]
            ra, args = recv(f, s) if not slice_sret(f, s) else (f.expr(s["o"][1]), [f.expr(x) for x in s["o"][2:]])
            inner = [r for r in range_at(f, s) if r.cont == data]
            if not inner:
                tri(R, "E1", "slices", f.loc(s), None, "")
                continue
            r = inner[0]
            R.check(r.full and r.start == 0 and not r.breaks and each_once(f, r.L, [s]) and (not push or each_once(f, r.L, push)), "E1", "all columns", f.loc(s), "not every column is part of every frame exactly once", "all columns")
            R.check(f.path_avoiding(i, lambda x: x is s, lambda x: x.op in ("call", "invoke") and (re.search(r"std::vector::(clear|resize)$", f.cq(x) or "") and bare(f.expr(x["o"][0])) == v or re.search(r"std::vector::vector$", f.cq(x) or "") and bare(f.expr(x["o"][0])) == v or re.search(r"std::vector::operator=$", f.cq(x) or "") and bare(f.expr(x["o"][0])) == v)) is None,
                    "E1", "fresh", f.loc(i), "the slices of one frame are still there in the next", "emptied for each frame")
            start, n = uncast(args[0]), uncast(args[1])
            hp = [h for h in header_phis(L) if ("phi", h.id) == start]
            m = mins(n)
            if not hp or not m:
                tri(R, "E1", "slices", f.loc(s), None, "")
                continue
            init, nxt = phi_parts(L, hp[0])
            ok0 = all(e == ("c", 0) for _, e in init)
            step = all((lambda y: y[0].get(start) == 1 and len(y[0]) == 2 and y[1] == 0 and any((noid(uncast(k)) == noid(n) or uncast(k) == mx) and c == 1 for k, c in y[0].items()))(linear(e)) for _, e in nxt)
            R.check(ok0, "E1", "from the first row", f.loc(s), "the first rows are left out", "from the first row")
            R.check(step, "E1", "consecutive", f.loc(s), "the next frame does not start where the previous one ended", "next slice follows")
            vals = [val_of(f, x) for x in m]
            rest = any((lambda y: y[0].get(start) == -1 and len(y[0]) == 2 and y[1] == 0 and any(isrows(k) and c == 1 for k, c in y[0].items()))(linear(x)) for x in vals)
            lim = any(x == mx for x in vals)
            R.check(rest and lim, "E1", "amount", f.loc(s), "the number of rows in a frame is not limited by the rows left and the rows allowed", "min(rows left, rows allowed)")
            ends = [own for (b, t), own in exit_facts(L)]
            good = bool(ends) and all(any(q[0] == "cmp" and done(q, t, start, isrows) for q, t in fs_) for fs_ in ends)
            tri(R, "E1", "to the last row", f.loc(s), True if good else None, "", "until the last row")
            bad = [q for fs_ in ends for q, t in fs_ if q[0] == "cmp" and early(q, t, start, isrows)]
            if bad:
                R.check(False, "E1", "to the last row", f.loc(s), "the last rows may be left out", "")
            pos = any(q[0] == "cmp" and positive(q, t, mx) for q, t in f.facts(s.blk))
            R.check(pos, "E1", "progress", f.loc(s), "with no rows allowed per frame, empty frames are written without end", "rows allowed per frame are known to be positive")


def slice_sret(f, s):
    return len(s["o"]) == 4


def norm_cmp(q, t, pick):
    """comparison with the side recognised by pick on the left: (pred, left, right)"""
    p, a, b = q[1], uncast(q[2]), uncast(q[3])
    if not pick(a):
        p, a, b = SWAP.get(p), b, a
    if p is None or not pick(a):
        return None
    return (p if t else INVERSE.get(p)), a, b


def fit(q, t, mx, isrows):
    n = norm_cmp(q, t, isrows)
    return bool(n) and n[2] == mx and n[0] in ("ule", "ult", "sle", "slt", "eq")


def done(q, t, start, isrows):
    n = norm_cmp(q, t, lambda e: e == start)
    return bool(n) and isrows(n[2]) and n[2][0] != "add" and n[0] in ("uge", "sge", "eq")


def early(q, t, start, isrows):
    n = norm_cmp(q, t, lambda e: e == start or e[0] in ("add", "sub") and start in linear(e)[0])
    if not n:
        return False
    la, lb = linear(n[1]), linear(n[2])
    if la[0].get(start) != 1 or not any(isrows(k) and c == 1 for k, c in lb[0].items()):
        return False
    d = lb[1] - la[1]
    extra = {k: v for k, v in lb[0].items() if not isrows(k)}
    extra2 = {k: v for k, v in la[0].items() if k != start}
    if n[0] in ("uge", "sge", "eq"):
        return d < 0 or any(c < 0 for c in extra.values()) or any(c > 0 for c in extra2.values())
    if n[0] in ("ugt", "sgt"):
        return d < -1
    return False


def positive(q, t, mx):
    n = norm_cmp(q, t, lambda e: e == mx)
    if not n or n[2][0] != "c":
        return False
    return n[0] in ("ugt", "sgt") and n[2][1] >= 0 or n[0] in ("uge", "sge") and n[2][1] >= 1 or n[0] == "ne" and n[2][1] == 0


# ------------------------------------------------------------------------------------------------ F1
def forwarding(P, R):
    for f in get(P, R, "fwd", r"^odc::api::(Frame|Reader|Span)::", "F1"):
        m = re.match(r"^odc::api::(Frame|Reader|Span)::(operator bool|operator==|\w+)", f.dem)
        cls, name = m.group(1), m.group(2)
        if name in ("operator", "swap") or "operator=(" in f.dem:
            continue
        key = "%s::%s" % (cls, name)
        isimpl = lambda e: contains(e, lambda x: x[0] == "fld" and x[2] == "impl_")
        nonnull = lambda e, t: (e[0] == "call" and re.search(r"operator bool$", e[1]) and isimpl(e[2]) and t) or (e[0] == "cmp" and e[1] in ("eq", "ne") and (e[1] == "ne") == t and any(isimpl(x) for x in e[2:4]) and any("null" in str(uncast(x)) for x in e[2:4]))
        if name == "operator bool":
            r = f.rets()
            good = None
            for i in r:
                good = True
                for e, x in value_edges(f, i["o"][0], i.blk):
                    fs = list(f.edge_facts(*e)) if e else list(f.facts(i.blk))
                    if x == ("c", 1):
                        good = good and any(nonnull(c, t) for c, t in fs)
                    elif x == ("c", 0):
                        good = good and any(nonnull(c, not t) for c, t in fs)
                    else:
                        ts = f_truth(x)
                        good = good and (any(nonnull(c, t) for c, t in [ts]))
            tri(R, "F1", key, f.where(), good, "a frame is true although it is empty, or the other way round", "true exactly if there is a frame")
            continue
        own = [i for i in f.insts() if i.op in ("call", "invoke") and re.search(r"(odc::api::(FrameImpl|ReaderImpl)|odc::core::Span)::%s$" % re.escape(name), f.cq(i) or "")]
        if not own:
            tri(R, "F1", key, f.where(), None, "")
            continue
        i = own[0]
        o = [f.expr(x) for x in i["o"]]
        mine = [("arg", k, a["n"]) for k, a in enumerate(f.args)]
        sret = f.args and f.args[0]["n"] == "agg.result"
        want = [a for a in mine if a[2] not in ("this", "agg.result")]
        got = [x for x in o if not isimpl(x)]
        got = got[1:] if sret and len(got) > len(want) else got
        if name == "operator==":
            good = len(o) == 2 and all(isimpl(x) for x in o) and {find_arg(x) for x in o} == {0, 1}
        else:
            good = len(got) == len(want) and all(uncast(g) == w for g, w in zip(got, want))
            if not good and not all(uncast(g)[0] in ("arg", "c") for g in got):
                good = None
        tri(R, "F1", key, f.loc(i), good, "the call is passed on with other arguments", "passed on unchanged")
        if cls in ("Frame", "Reader"):
            R.check(any(nonnull(c, t) for c, t in f.facts(i.blk)), "F1", key + " empty", f.loc(i), "an empty frame or reader is not refused: a null pointer is followed", "refused when empty")
        if not sret and f.rets() and "o" in f.rets()[0] and f.rets()[0]["o"]:
            for r in f.rets():
                x = uncast(f.expr(r["o"][0]))
                if r["o"] and x[0] == "call":
                    tri(R, "F1", key + " result", f.loc(i), x[-1] == ("#", i.id) or None, "another result is returned", "result returned")
                elif x[0] in ("c", "not"):
                    R.check(False, "F1", key + " result", f.loc(i), "another result is returned", "")


def f_truth(x):
    t = True
    x = uncast(x)
    while x[0] == "not":
        x, t = uncast(x[1]), not t
    return x, t


def find_arg(e):
    a = find_all(e, lambda x: x[0] == "arg")
    return a[0][1] if a else None


def copies(P, R):
    for f in get(P, R, "copy", r"^odc::api::Frame::", "F1"):
        name = "copying a frame" if "Frame(" in f.dem.split("::")[-1] or "::Frame(" in f.dem else "assigning a frame"
        mk = calls(f, r"odc::api::FrameImpl::FrameImpl$")
        src = lambda e: contains(e, lambda x: x[0] == "fld" and x[2] == "impl_" and x[1][:1] == ("arg",) and x[1][1] == 1) or bare(e)[:2] == ("arg", 1) or bare(e)[0] == "ld" and bare(e)[1][:2] == ("arg", 1)
        nonnull = lambda e, t: (e[0] == "call" and re.search(r"operator bool$", e[1]) and src(e[2]) and t) or (e[0] == "cmp" and e[1] in ("eq", "ne") and (e[1] == "ne") == t and any(src(x) for x in e[2:4]) and any("null" in str(uncast(x)) for x in e[2:4]))
        if not mk:
            tri(R, "F1", name, f.where(), None, "")
            continue
        for i in mk:
            o = [f.expr(x) for x in i["o"]]
            R.check(any(src(x) for x in o[1:]), "F1", name, f.loc(i), "the copy is not made from the original", "copied from the original")
            R.check(any(nonnull(c, t) for c, t in f.facts(i.blk)), "F1", name + " empty", f.loc(i), "%s that is empty follows a null pointer" % name, "only if there is one")
        ed = edges_where(f, lambda e, t: nonnull(e, not t))
        selfed = edges_where(f, lambda e, t: e[0] == "cmp" and e[1] in ("eq", "ne") and (e[1] == "eq") == t and {uncast(x)[:1] for x in e[2:4]} == {("arg",)})
        rr = f.reach(0, avoid_edges=ed + selfed, avoid_blocks=[i.blk for i in mk])
        R.check(not any(i.blk in rr for i in f.rets()), "F1", name + " kept", f.where(), "%s may leave out its contents" % name, "contents copied whenever there are any")


# ------------------------------------------------------------------------------------------------ filter
def filtering(P, R):
    for f in get(P, R, "filter", r"^odc::api::filter\(", "F1"):
        sel, wr, ps, sv = calls(f, r"odc::Select::Select$"), calls(f, r"odc::Writer::Writer$"), calls(f, r"::pass1$"), calls(f, r"DataHandle::(saveInto|copyTo)$")
        if len(ps) != 1 or len(sel) != 1 or len(wr) != 1:
            tri(R, "F1", "filter", f.where(), None, "")
            continue
        a = lambda i: [uncast(f.expr(x)) for x in i["o"]]
        o = a(sel[0])
        R.check(len(o) > 2 and o[1][:2] == ("arg", 0) and o[2][:2] == ("arg", 1), "F1", "filter query", f.loc(sel[0]), "another query or input is used", "caller's query on the caller's input")
        o = a(wr[0])
        R.check(any(x[:2] == ("arg", 2) for x in o[1:]), "F1", "filter output", f.loc(wr[0]), "the result is not written to the caller's output", "caller's output")
        its = {}
        for i in calls(f, r"odc::Select::(begin|end)$"):
            its[bare(f.expr(i["o"][0]))] = f.cq(i).split("::")[-1]
        cp = {}
        for i in calls(f, r"IteratorProxy::IteratorProxy$"):
            o = [bare(f.expr(x)) for x in i["o"]]
            if len(o) > 1:
                cp[o[0]] = o[1]
        o = [bare(f.expr(x)) for x in ps[0]["o"]]
        got = [its.get(cp.get(x, x)) for x in o[-2:]]
        tri(R, "F1", "filter rows", f.loc(ps[0]), None if None in got else got == ["begin", "end"], "not all rows of the result are written", "all rows")
        empty = lambda e, t: e[0] == "call" and re.search(r"basic_string::empty$", e[1]) and uncast(e[2])[:2] == ("arg", 0) and t
        for i in sv:
            R.check(any(empty(c, t) for c, t in f.facts(i.blk)), "F1", "filter copy", f.loc(i), "the input is copied although there is a query", "copied only without a query")
        ed = edges_where(f, empty)
        rr = f.reach(0, avoid_edges=ed, avoid_blocks=[ps[0].blk])
        R.check(not any(i.blk in rr for i in f.rets()), "F1", "filter runs", f.where(), "a query may not be run", "run whenever there is a query")
        for r in f.rets():
            for e, x in value_edges(f, r["o"][0], r.blk):
                x = uncast(x)
                if x[0] == "call":
                    tri(R, "F1", "filter count", f.where(), x[-1] == ("#", ps[0].id) or None, "another number than the rows written is returned", "rows written")
                elif x == ("c", 0) and not any(empty(c, t) for c, t in (f.edge_facts(*e) if e else f.facts(r.blk))):
                    R.check(False, "F1", "filter count", f.where(), "the number of rows written is not returned", "")
    for f in P.find(r"^odc::api::FrameImpl::filter\(", "frame"):
        c = calls(f, r"^odc::api::filter$")
        if len(c) != 1:
            tri(R, "F1", "frame filter", f.where(), None, "")
            continue
        o = [uncast(f.expr(x)) for x in c[0]["o"]]
        sql = next((("arg", k) for k, x in enumerate(f.args) if x["n"] == "sql"), None)
        R.check(sql is None or o[0][:2] == sql, "F1", "frame filter", f.loc(c[0]), "another query is used", "caller's query")
        h = root(o[1])
        fed = [i for i in f.insts() if i.op == "store" and f.expr(i["o"][1])[:1] == ("fld",) and f.expr(i["o"][1])[2] == "tables_" and root(f.expr(i["o"][1])[1]) == h]
        tri(R, "F1", "frame filter input", f.loc(c[0]), all((member(f.expr(i["o"][0])) or (0, 0))[1] == "tables_" for i in fed) if fed else None, "the query does not run on the frame's own tables", "the frame's own tables")
