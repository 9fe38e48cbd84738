"""Splitting: rows dispatched to files by the values of the columns named in a template."""
from ir import *
from loops import *
from frlib import linear
from rangelib import *
from trace import *
from A03 import tri, find_all
from S01 import tr_, has, strip_ids, loop_with, THIS, F, LD
from I01 import opt_flow, possible

CONFIG = {"roots": [
    {"tag": "split", "re": r"odc::WriterDispatchingIterator<[^>]*>::|^odc::TemplateParameters::|^odc::tool::SplitTool::|^odc::DispatchingWriter::|odc::Writer<odc::WriterBufferingIterator>::createWriteIterator",
     "keep": [r"core::Column::", r"core::MetaData::", r"odc::core::TablesReader", r"ReadTablesIterator", r"core::Table::", r"IteratorProxy<", r"odc::Writer<.*>::", r"WriterBufferingIterator::",
              r"LibOdc::instance", r"tool::Tool::", r"CommandLineParser::", r"SplitTool::(split|presortAndSplit|getChunks|genOrderBySelect|usage)", r"TemplateParameters::(parse|reset|TemplateParameters)", r"TemplateParameter::TemplateParameter",
              r"WriterDispatchingIterator<.*>::(dispatch|dispatchIndex|createIterator|generateFileName|parseTemplateParameters|writeRow|verify|pass1|close|columns|rowDataSizeDoubles|gatherStats|writeHeader|WriterDispatchingIterator)\b",
              r"odc::Reader::", r"odc::Select::", r"Comparator::", r"DispatchingWriter::DispatchingWriter"], "depth": 4}]}


COLV = ("idx", F("columns_"), ("c", 8), "i8")
WDI = r"WriterDispatchingIterator<[^>]*>::"


def run(P, R):
    R.rule("P1", "A value named in the template is read at its column's place, the sum of the widths of the columns before it; the row buffer of a dispatching writer is laid out the same way and starts with the missing values")
    R.rule("K1", "Rows go to the writer of their own values: all of the named columns' values are compared, remembered and looked up together with the writer found for them")
    R.rule("W1", "A writer is opened under its values' file name, appends exactly if asked to or if this run created the file, gets the current columns and a header, and is recorded under index, values and name; a file has one writer")
    R.rule("W2", "A writer given up for another is closed, and nothing still points to it")
    R.rule("R1", "Every row of every input is written once, by its own writer, with the layout it has: a changed layout reaches the dispatcher and every open writer, after a flush, before the row")
    R.rule("C1", "Closing closes and releases every writer once, and reports failures")
    R.rule("N1", "The file name is the template with every {name} replaced, at its place, by the value of that column; slashes are replaced")
    R.rule("N2", "Every {name} of a template is taken with its limits and its column; a missing } is refused")
    R.rule("T1", "odc split reads the given file, dispatches all its rows by the given template, closes before verifying; -sort orders by every named column and covers all frames of the file")
    R.rule("V1", "Verification opens and creates no output file, and compares every input row with the next row of its own file")
    for fn in (places, keys, writers, setup, rows, closing, names, template, tool, chunks, verify):
        fn(P, R)
    for r, n in (("K1", 1), ("W1", 1), ("R1", 1), ("N1", 1)):
        R.need(r, n)


def wdi(P, name, args=r"\("):
    return [f for f in P.find(WDI + name + args, "split") if "'lambda" not in f.dem and not f.dem.startswith("odc::Row_") and "Row_<" not in f.dem]


def colwidth(e, ixs):
    """dataSizeDoubles of the column with one of the indices (predicate)"""
    e = uncast(bare(e))
    if not (e[0] in ("call", "vcall") and re.search(r"Column::dataSizeDoubles$", e[1])):
        return False
    c = bare(e[2])
    if c[0] == "ld":
        c = bare(c[1])
    if c[0] == "call" and re.search(r"(vector|MetaData)::(operator\[\]|at)$", c[1]) and is_cols((c[2],)):
        return ixs(uncast(bare(c[3])))
    return False


def is_cols(c):
    return c is not None and contains(("x",) + tuple(c), lambda x: x[:1] == ("fld",) and x[2] == "columns_" or x[0] == "call" and x[1].endswith("::columns"))


# ------------------------------------------------------------------------------------------------ P1
def running(R, rule, key, f, L, c, its, v, w, ixok, what):
    """v, used in the loop L counted by c, is the sum of the widths of the columns before the current one"""
    ix = c[0]
    if v[0] != "phi":
        tri(R, rule, key, w, False if v[0] in ("c", "add") or colwidth(v, lambda x: True) or v == ix else None, what)
        return
    for T in its:
        if T.end != "stop":
            continue
        nx = next_phi(T, L, v[1])
        if nx is None:
            tri(R, rule, key, w, None, "")
            continue
        step_by_width(R, rule, key, w, strip_ids(nx), v, lambda x: x == ix, what)
    for ph in header_phis(L):
        if ("phi", ph.id) == v:
            ent = [strip_ids(e) for b, e in phi_parts(L, ph)[0]]
            tri(R, rule, key + ":from0", w, None if not ent else all(e == ("c", 0) for e in ent), what)


def step_by_width(R, rule, key, w, nx, v, ixs, what):
    if nx == v:
        tri(R, rule, key, w, False, what)
        return
    at, k = linear(nx)
    rest = [x for x in at if x != v]
    if len(rest) == 1 and at.get(v) == 1:
        x = rest[0]
        tri(R, rule, key, w, (at[x] == 1 and k == 0 and colwidth(x, ixs)) if has(("x", x), r"dataSizeDoubles$") else None, what)
    else:
        tri(R, rule, key, w, False if not rest else None, what)


def places(P, R):
    bad = "the value of a column named in the template is not read at the sum of the widths before it"
    for f in wdi(P, "parseTemplateParameters"):
        key, w = "parseTemplateParameters", f.where()
        pushes = [i for i in f.calls(r"vector::(push_back|emplace_back)$") if f.expr(i["o"][0]) == F("dispatchedIndexes_")]
        if len(pushes) != 1:
            tri(R, "P1", key, w, False if not pushes and not list(f.calls(r"transform|resize|assign|emplace")) else None, bad)
        for i in pushes:
            rs = [r for r in ranges(f) if i.blk in r.L.body]
            rt = [r for r in rs if r.cont == F("templateParameters_")]
            if not rt:
                tri(R, "P1", key, w, None, "")
                continue
            rt = rt[0]
            tri(R, "P1", key + ":all", w, rt.start == 0 and rt.full and not rt.breaks, "not every column named in the template is used")
            its = body(f, rt.L, unroll=0)
            # the value pushed, with the inner loop
            inner = [L for L in loops(f) if L.body < rt.L.body]
            vals = set()
            for T in its:
                for s in T.calls(r"vector::(push_back|emplace_back)$"):
                    if bare(s.args[0]) == F("dispatchedIndexes_"):
                        vals.add(strip_ids(s.arg(1)))
            for L in inner:
                for T in body(f, L):
                    for s in T.calls(r"vector::(push_back|emplace_back)$"):
                        if bare(s.args[0]) == F("dispatchedIndexes_"):
                            vals.add(strip_ids(s.arg(1)))
            own = lambda e: contains(("x", e), lambda x: x[:1] == ("fld",) and x[2] == "columnIndex")
            if any(own(v) and v[0] == "ld" for v in vals):
                tri(R, "P1", key, f.loc(i), False, bad)
                continue
            if len(inner) != 1:
                if any(has(("x", v), r"dataOffset$") for v in vals):
                    tri(R, "P1", key, f.loc(i), None, "")
                else:
                    tri(R, "P1", key, f.loc(i), False if vals and all(v[0] in ("c", "phi") for v in vals) and not inner else None, bad)
                continue
            L = inner[0]
            c = counted(f, L)
            bt = body(f, L)
            vs = [v for v in vals if v[0] == "phi" and any(h.id == v[1] for h in header_phis(L))]
            far = any(cc[:2] == ("cmp", "ult") and own(cc[2]) and bare(cc[3])[0] == "phi" and not t for T in bt if T.end == "stop" and T.final_pred in L.body for cc, t in T.conds())
            if not c or len(vs) != 1:
                tri(R, "P1", key, f.loc(i), False if far else None, bad)
                continue
            bound = c[1]
            tri(R, "P1", key + ":before", f.loc(i), None if bound[0] != "count" else (c[2] == 0 and c[3] and own(bound[1]) and not any(x[0] in ("add", "sub") for x in walk(bound[1]) if isinstance(x, tuple) and x)), bad)
            seen = False
            for T in bt:
                if T.end == "stop" and T.final_pred in L.body:
                    nx = next_phi(T, L, vs[0][1])
                    if nx is None:
                        continue
                    nx = strip_ids(nx)
                    if nx == ("c", 0) and any(s.kind == "call" and s.q.endswith("push_back") for s in T.steps):
                        continue
                    seen = True
                    step_by_width(R, "P1", key, f.loc(i), nx, vs[0], lambda x: x == c[0], bad)
            if not seen:
                tri(R, "P1", key, f.loc(i), None, "")
            for ph in header_phis(L):
                if ("phi", ph.id) == vs[0]:
                    ent = [strip_ids(e) for e in entries(f, L, ph)]
                    tri(R, "P1", key + ":from0", f.loc(i), None if not ent else all(e == ("c", 0) for e in ent), bad)
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            ps = T.calls(r"TemplateParameters::parse$")
            tri(R, "P1", key + ":parse", w, len(ps) >= 1 if ps or not T.calls(r"TemplateParameters::") else None, "the template is not parsed")
            if len(ps) == 1:
                a = [bare(ps[0].args[k]) for k in range(3)]
                tri(R, "P1", key + ":parse-args", f.loc(ps[0].i), a[0] == F("outputFileTemplate_") and a[1] == F("templateParameters_") and is_cols((ps[0].arg(2),)) if a[1] == F("templateParameters_") else None,
                    "something other than the output template is parsed against the current columns")
                k = T.index(ps[0])
                rst = [s for s in T.calls(r"TemplateParameters::reset$|vector::(clear|resize|operator=|swap|assign)$") if bare(s.args[0]) == F("templateParameters_") and T.index(s) < k]
                tri(R, "P1", key + ":again", w, bool(rst), "the parameters of the previous layout stay in the list")
            if pushes:
                rst = [s for s in T.calls(r"vector::(clear|resize|operator=|swap|assign|erase)$") if bare(s.args[0]) == F("dispatchedIndexes_")]
                tri(R, "P1", key + ":again-places", w, bool(rst) and not any(f.may_follow(i, rst[0].i) for i in pushes), "the places of the previous layout stay in the list")
            v = T.field("initialized_")
            tri(R, "P1", key + ":initialized", w, v == ("c", 1) if v is not None else True if (LD("initialized_"), True) in T.conds() else False, "the template stays marked as not parsed, or is never marked")
    for f in wdi(P, "writeHeader"):
        key, w = "writeHeader", f.where()
        L = c = None
        for M in loops(f):
            its = body(f, M)
            if any(s.addr[0] == "idx" and bare(s.addr[1]) == LD("columnOffsets_") for T in its for s in T.stores()) and any(T.calls(r"missingValue$") for T in its):
                L, c = M, counted(f, M)
        if L is None or c is None:
            tri(R, "P1", key, w, False if not list(f.calls(r"missingValue$")) else None, "the row does not start with the missing values")
            continue
        its = [T for T in body(f, L) if T.end == "stop"]
        tri(R, "P1", key + ":all", w, (c[2] == 0 and c[3]) if is_cols((c[1],)) else None, "not every column gets a place and its missing value")
        for T in its:
            nxt = [s for s in T.stores() if s.addr[0] == "idx" and s.addr[3] == "double"]
            off = [s for s in T.stores() if s.addr[0] == "idx" and s.addr[3] == "i64"]
            tri(R, "P1", key + ":values", w, len(nxt) >= 1, "the row does not start with the missing values")
            vs = set()
            for s in nxt:
                v = strip_ids(s.full(s.val))
                tri(R, "P1", key + ":missing", f.loc(s.i), missing_of(v, c[0]) if has(("x", v), r"missingValue$") else None, "a column does not start with its own missing value")
                vs.add(strip_ids(s.full(s.addr[2])))
            for s in off:
                tri(R, "P1", key + ":own", f.loc(s.i), bare(s.addr[2]) == c[0], "the place is recorded for another column")
                vs.add(strip_ids(s.full(s.val)))
            for v in vs:
                if v == c[0]:
                    tri(R, "P1", key + ":place", w, False, "a missing value or place goes by the number of the column instead of the widths before it")
                elif v[0] == "ld" and v[1][:1] == ("idx",) and bare(v[1][2]) == c[0]:
                    continue
                else:
                    running(R, "P1", key + ":place", f, L, c, its, v, w, None, "a missing value or place is not at the sum of the widths before the column")
    for f in P.find(WDI + r"data\(unsigned long\)", "split"):
        for T in tr_(f) or []:
            if T.end == "ret" and T.ret is not None:
                e = strip_ids(T.ret)
                tri(R, "P1", "data", f.where(), bare(e[2]) == ("ld", ("idx", LD("columnOffsets_"), ("arg", 1, bare(e[2])[1][2][2]) if bare(e[2])[0] == "ld" and bare(e[2])[1][:1] == ("idx",) and bare(e[2])[1][2][:2] == ("arg", 1) else ("?",), "i64"))
                    if e[0] == "idx" and bare(e[1]) == LD("nextRow_") else None, "a column's value is set at another place")
    for f in wdi(P, "rowDataSizeDoubles"):
        for L in loops(f):
            rs = [r for r in ranges(f) if r.L is L]
            if rs:
                tri(R, "P1", "rowDataSizeDoubles:all", f.where(), rs[0].start == 0 and rs[0].full and not rs[0].breaks, "not all columns count for the length of a row")


def missing_of(v, ix):
    v = uncast(bare(v))
    if v[0] in ("call", "vcall") and re.search(r"Column::missingValue$", v[1]):
        c = bare(v[2])
        if c[0] == "ld":
            c = bare(c[1])
        return c[0] == "call" and len(c) > 3 and bare(c[3]) == ix
    return False


def entries(f, L, ph):
    """values of a header phi on the ways into the loop"""
    return [f.expr(v) for v, b in ph["o"] if b not in L.body and b in f.live()]


# ------------------------------------------------------------------------------------------------ K1
def keys(P, R):
    for f in wdi(P, "dispatchIndex"):
        key, w = "dispatchIndex", f.where()
        L, c, its = loop_with(f, r"vector::(insert|push_back|emplace_back)$")
        dv = None
        if L is None or its is None or c is None:
            tri(R, "K1", key + ":values", w, None, "")
        else:
            ix = c[0]
            tri(R, "K1", key + ":all", w, (c[2] == 0 and c[3]) if c[1] in (F("dispatchedIndexes_"), F("templateParameters_")) else None, "not all values named in the template tell rows apart")
            for T in its:
                if T.end != "stop":
                    continue
                ins = T.calls(r"vector::insert$")
                psh = T.calls(r"vector::(push_back|emplace_back)$")
                if len(psh) == 1 and not ins and not any(M.body < L.body for M in loops(f)):
                    tri(R, "K1", key + ":values", f.loc(psh[0].i), False, "only part of a value tells rows apart")
                    continue
                if len(ins) != 1:
                    tri(R, "K1", key + ":values", w, None, "")
                    continue
                s = ins[0]
                b, e = strip_ids(s.arg(2)), strip_ids(s.arg(3))
                bb, be = offs(b), offs(e)
                loc = f.loc(s.i)
                if bb is None or be is None or bb[0] != be[0]:
                    tri(R, "K1", key + ":values", loc, None, "")
                    continue
                at_b, at_e = linear(bb[1]), linear(be[1])
                place_ok = len(at_b[0]) == 1 and at_b[1] == 0 and next(iter(at_b[0]))[0] == "ld" and idx_of(next(iter(at_b[0]))[1], F("dispatchedIndexes_"), ix)
                tri(R, "K1", key + ":place", loc, place_ok if contains(bb[1], lambda x: x == F("dispatchedIndexes_")) or bb[1][0] in ("c", "phi") else None, "rows are told apart by other values than those named")
                diff = dict(at_e[0])
                for x, m in at_b[0].items():
                    diff[x] = diff.get(x, 0) - m
                diff = {x: m for x, m in diff.items() if m}
                kd = at_e[1] - at_b[1]
                tp = lambda x: contains(("x", x), lambda y: y[:1] == ("fld",) and y[2] == "columnIndex") and contains(("x", x), lambda y: y == ix)
                if len(diff) == 1:
                    x, m = next(iter(diff.items()))
                    tri(R, "K1", key + ":values", loc, (m == 1 and kd == 0 and colwidth(x, tp)) if has(("x", x), r"dataSizeDoubles$") else None, "only part of a value tells rows apart")
                else:
                    tri(R, "K1", key + ":values", loc, False if not diff else None, "only part of a value tells rows apart")
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            v = strip_ids(T.ret)
            isdv = lambda x: root(bare(x))[0] == "alloca"
            upd = [s for s in T.calls(r"vector::(operator=|swap|assign)$") if bare(s.args[0]) == F("lastDispatchedValues_") or len(s.args) > 1 and bare(s.args[1]) == F("lastDispatchedValues_")]
            same = None
            for s in T.steps:
                if s.kind == "cond" and s.val[0] == "call" and re.search(r"operator(==|!=)$", s.val[1]) and contains(s.val, lambda x: x == F("lastDispatchedValues_")):
                    same = s.truth == s.val[1].endswith("==")
            if uncast(v) == LD("lastIndex_") and T.field("lastIndex_") is None:
                tri(R, "K1", key + ":last", w, same is True if same is not None else None if has(("x",) + tuple(c for c, t in T.conds()), r"std::equal$") else False, "the last writer is used for other values")
                continue
            tri(R, "K1", key + ":remember", w, (len(upd) == 1) == (T.field("lastIndex_") is not None), "the last values and the last writer are not remembered together")
            li = T.field("lastIndex_")
            if li is not None:
                tri(R, "K1", key + ":remember-same", w, same_index(li, v), "another writer than the one found is remembered")
            u = uncast(v)
            if u[:1] == ("ld",) and u[1][:1] == ("fld",) and u[1][2] == "second":
                fd = [s for s in T.calls(r"map::(find|lower_bound)$") if bare(s.args[0]) == F("values2iteratorIndex_")]
                tr = [s.truth == s.val[1].endswith("!=") for s in T.steps if s.kind == "cond" and s.val[0] == "call" and re.search(r"operator(==|!=)$", s.val[1]) and not contains(s.val, lambda x: x == F("lastDispatchedValues_"))]
                tri(R, "K1", key + ":found", w, (True in tr) if len(fd) == 1 and fd[0].q.endswith("find") else None, "a writer is taken for values that have none")
            elif u[0] == "call" and u[1].endswith("createIterator"):
                cr = T.calls(r"::createIterator$")
                tri(R, "K1", key + ":once", w, len(cr) == 1, "writers are opened %d times" % len(cr))
                gn = T.calls(r"::generateFileName$")
                tri(R, "K1", key + ":name", f.loc(cr[0].i), len(gn) == 1 and any(bare(x)[:2] == ("arg", 1) for x in gn[0].args) and has(("x", cr[0].arg(2)), r"generateFileName") if gn else None, "a writer is opened under a name not made from the row's values")
                tr = [s.truth == s.val[1].endswith("==") for s in T.steps if s.kind == "cond" and s.val[0] == "call" and re.search(r"operator(==|!=)$", s.val[1]) and has(("x", s.val), r"^std::operator") and not contains(s.val, lambda x: x == F("lastDispatchedValues_"))]
                if T.calls(r"map::find$"):
                    tri(R, "K1", key + ":new", f.loc(cr[0].i), (True in tr) if tr else False, "a writer is opened for values that have one")
            else:
                tri(R, "K1", key + ":index", w, False if u[0] == "c" else None, "a writer unrelated to the row's values is used")
            st = [s for s in T.stores() if s.addr[0] == "call" and s.addr[1].endswith("operator[]") and bare(s.addr[2]) == F("lastDispatch_")]
            if st:
                tri(R, "K1", key + ":used", f.loc(st[0].i), same_index(s_full(st[0], st[0].addr[3]), v) and strip_ids(st[0].full(st[0].val)) == LD("nrows_"), "the last use of another writer is recorded")
    for f in wdi(P, "dispatch"):
        for T in tr_(f) or []:
            if T.end == "ret":
                e = strip_ids(T.ret)
                if e[0] == "ld":
                    e = bare(e[1])
                ok = e[0] == "call" and re.search(r"operator\[\]|::at$", e[1]) and bare(e[2]) == F("iterators_")
                tri(R, "K1", "dispatch", f.where(), has(("x", e[3]), r"dispatchIndex$") and not any(x[0] in ("add", "sub") for x in walk(e[3]) if isinstance(x, tuple) and x) if ok else None, "a row goes to another writer than the one of its values")


def s_full(s, e):
    return strip_ids(s.full(e))


def same_index(a, b):
    g = lambda e: re.sub(r"\(self\(\)[^()]*\)|ref\.tmp\d*", "_", pretty(uncast(strip_ids(e))))
    if g(a) == g(b):
        return True
    x, y = uncast(strip_ids(a)), uncast(strip_ids(b))
    return x[:2] == y[:2] and x[0] == "call"


def offs(e):
    """(base, offset) of a pointer into doubles"""
    e = bare(e)
    if e[0] == "idx":
        r = offs(e[1])
        if r is None or e[3] != "double":
            return None
        return r[0], ("add", r[1], e[2]) if r[1] != ("c", 0) else e[2]
    if e[0] in ("arg", "ld", "alloca"):
        return e, ("c", 0)
    return None


def idx_of(e, cont, ix):
    e = bare(e)
    return e[0] == "call" and re.search(r"vector::(operator\[\]|at)$", e[1]) is not None and e[2] == cont and bare(e[3]) == ix


# ------------------------------------------------------------------------------------------------ W1 / W2
def quiet(T):
    return not any(s.kind == "cond" and has(("x", s.val), r"::debug$") and s.truth for s in T.steps)


def writers(P, R):
    for f in P.find(WDI, "split"):
        if re.search(r"::WriterDispatchingIterator\(", f.dem) or "Row_<" in f.dem:
            continue
        for i in f.insts():
            if i.op == "store" and f.expr(i["o"][1]) == F("append_"):
                tri(R, "W1", "append_", f.loc(i), False, "that a file is reopened makes all later files be appended to")
    for f in wdi(P, "createIterator"):
        key, w = "createIterator", f.where()
        try:
            ts = [T for T in traces(f, limit=20000) if quiet(T)]
        except TooMany:
            tri(R, "W1", key, w, None, "")
            continue
        reuse = []
        evict = False
        for L in loops(f):
            try:
                its = [T for T in body(f, L, limit=20000) if quiet(T)]
            except TooMany:
                continue
            for T in its:
                if T.end == "ret" and not T.calls(r"createWriteIterator$"):
                    reuse.append((L, T))
        for T in ts:
            if T.end != "ret":
                continue
            W = T.calls(r"::createWriteIterator$")
            if not W:
                continue
            one_writer(R, f, key, T, W)
        # one writer per file
        if not reuse:
            names = [i for i in f.calls(r"operator==$|::compare$|std::find(_if)?$|map::(find|count)$") if True]
            other = [i for i in names if contains(("x",) + tuple(f.expr(o) for o in i["o"] if f.ty(o) == "ptr"), lambda x: x == F("iteratorIndex2fileName_") or x == F("files_"))]
            tri(R, "W1", key + ":one", w, None if other else False, "a file that is being written is opened again when other values have the same name")
        for L, T in reuse:
            eqs = [s for s in T.steps if s.kind == "cond" and s.val[0] == "call" and re.search(r"operator(==|!=)$", s.val[1]) and has_name(s.val)]
            ok = [s for s in eqs if s.truth == s.val[1].endswith("==")]
            ix = uncast(strip_ids(T.ret)) if T.ret is not None else None
            names_ = find_all(("x",) + tuple(s.val for s in eqs), lambda x: x[0] == "call" and re.search(r"operator\[\]$|::at$", x[1]) and bare(x[2]) in (F("iteratorIndex2fileName_"), F("files_")))
            tri(R, "W1", key + ":same", w, bool(ok) if eqs else None, "a writer of another file is used")
            if names_ and ix is not None:
                tri(R, "W1", key + ":same-index", w, all(same_index(x[3], ix) for x in names_), "a writer of another file is used")
            rs = [r for r in ranges(f) if r.L is L]
            if rs and rs[0].cont == F("iterators_"):
                tri(R, "W1", key + ":same-all", w, rs[0].start == 0 and rs[0].full, "not every open file is looked at")
            remembered(R, f, key + ":same", T, ix)
        for L in loops(f):
            for T in body(f, L, limit=20000):
                er = T.calls(r"map::erase$")
                cs = [x for x in T.steps if x.kind == "cond" and x.val[0] == "call" and re.search(r"_Rb_tree_iterator::operator(!=|==)$|^std::operator(!=|==)$", x.val[1])]
                if T.end == "ret" and er and cs and cs[0].i.blk in L.body and cs[0].truth == cs[0].val[1].endswith("!=") and T.index(cs[0]) < T.index(er[-1]):
                    it = {root(bare(x)) for x in cs[0].val[2:] if isinstance(x, tuple) and root(bare(x))[0] == "alloca"}
                    if contains(("x",) + tuple(er[-1].args), lambda x: x in it) and not any(T.index(x) > T.index(er[-1]) and it & {root(bare(y)) for y in x.val[2:] if isinstance(y, tuple)} for x in cs):
                        tri(R, "W2", key + ":erase-all", f.loc(er[-1].i), False, "only the first values of the closed writer are forgotten")
                if T.end in ("stop", "ret") and any(bare(s.args[0]) == F("values2iteratorIndex_") and s.i.blk in L.body for s in er):
                    evict = True
                    erasing(R, f, key, L)
                    break
        dele = [T for T in ts if T.end == "ret" and T.calls(r"createWriteIterator$") and (T.calls(r"Writer\w*Iterator::(~\w+|close)$") or T.calls(r"^operator delete$"))]
        full_ = [T for T in ts if T.end == "ret" and T.calls(r"createWriteIterator$") and limit_hit(T)]
        for T in full_:
            st = [s for s in T.stores() if cell(s.addr, "iterators_") and has(("x", s.val), r"createWriteIterator$")]
            d = T.calls(r"Writer\w*Iterator::(~\w+|close)$") + [s for s in T.calls(r"vector::erase$|::reset$")]
            isnull = any(c[:2] == ("cmp", "eq") and t and contains(c, lambda x: x == F("iterators_")) and ("null",) in c for c, t in T.conds())
            if st:
                tri(R, "W2", key + ":closed", w, bool(d) or isnull, "a writer is replaced by another without being closed")
                for s in d:
                    tri(R, "W2", key + ":closed-same", f.loc(s.i), same_index(index_in(s.arg(0), "iterators_"), s_full(st[0], st[0].addr[3])) if index_in(s.arg(0), "iterators_") is not None else None,
                        "another writer is closed than the one replaced")
                clr = [s for s in T.calls(r"map::clear$") if bare(s.args[0]) == F("values2iteratorIndex_")]
                seen = [s for s in T.calls(r"map::(begin|find|erase|clear|swap)$|erase_if$|for_each$") if bare(s.args[0]) == F("values2iteratorIndex_") or "erase_if" in s.q]
                gone = list(f.calls(r"map::(erase|clear|swap|operator=)$|erase_if$"))
                tri(R, "W2", key + ":forgotten", w, True if evict or clr else None if seen and gone else False, "values of the closed writer still lead to its place")


def has_name(e):
    return contains(e, lambda x: x in (F("iteratorIndex2fileName_"), F("files_")))


def limit_hit(T):
    for c, t in T.conds():
        if c[0] == "cmp" and contains(c, lambda x: x == LD("maxOpenFiles_")) and has(("x", c), r"::size$"):
            n, m = bare(c[2]), bare(c[3])
            if c[1] in ("ult", "slt"):
                return not t if contains(m, lambda x: x == LD("maxOpenFiles_")) else None
            if c[1] == "eq":
                return t
    return None


def cell(a, name):
    return a[0] == "call" and re.search(r"operator\[\]$|::at$", a[1]) is not None and bare(a[2]) == F(name)


def index_in(e, name):
    xs = find_all(strip_ids(e), lambda x: cell(x, name))
    return xs[0][3] if xs else None


def remembered(R, f, key, T, ix):
    st = [s for s in T.stores() if cell(s.addr, "values2iteratorIndex_")]
    ins = [s for s in T.calls(r"map::(insert|emplace|insert_or_assign|try_emplace)$") if bare(s.args[0]) == F("values2iteratorIndex_")]
    tri(R, "W1", key + ":values", f.where(), True if st else None if ins else False, "the writer found for the values is not remembered, or under others")
    for s in st:
        tri(R, "W1", key + ":values-own", f.loc(s.i), bare(s.addr[3])[:2] == ("arg", 1), "the writer is remembered for other values")
        if ix is not None:
            tri(R, "W1", key + ":values-index", f.loc(s.i), same_index(s_full(s, s.val), ix), "the values lead to another writer")


def one_writer(R, f, key, T, W):
    w = f.where()
    s = W[0]
    loc = f.loc(s.i)
    tri(R, "W1", key + ":once", w, len(W) == 1, "a file is opened %d times" % len(W))
    nm = lambda e: contains(("x", e), lambda x: x[:2] == ("arg", 2))
    nv = s.arg(1)
    tri(R, "W1", key + ":file", loc, nm(nv) if nm(nv) or contains(("x", nv), lambda x: x[:1] in (("arg",), ("str",)) or x in (F("outputFileTemplate_"), F("files_"), F("iteratorIndex2fileName_"))) else None, "another file is opened than the one of the values")
    # append or overwrite
    a = bare(s.arg(2)) if len(s.args) > 2 else ("c", 0)
    conds = T.conds()
    asked = next((t for c, t in conds if uncast(c) == LD("append_")), None)
    created = None
    for s2 in T.steps:
        if s2.kind != "cond":
            continue
        c = full(s2.mem, s2.val)
        if c[0] == "call" and re.search(r"operator(==|!=)$", c[1]) and (contains(c, lambda x: x == F("filesCreated_")) or stored_find(T, s2)):
            created = s2.truth == c[1].endswith("!=")
        elif c[:2] == ("cmp", "eq") and has(("x", c), r"map::count$") and c[3] == ("c", 0):
            created = not s2.truth
        elif has(("x", c), r"map::contains$"):
            created = s2.truth
    exists = None
    for c, t in conds:
        if c[0] == "call" and re.search(r"PathName::exists$", c[1]):
            exists = t
    v = known(uncast(a))
    if uncast(a) == LD("append_"):
        v = asked if asked is not None else "asked"
    if v == "asked":
        tri(R, "W1", key + ":append", loc, True if created is False or exists is False else None if created is None and exists is None else False, "a file this run has created is overwritten when it is opened again")
    elif v is True:
        tri(R, "W1", key + ":append", loc, asked is True or created is True if asked is not None or created is not None else False if exists is not None else None, "a file left from an earlier run is appended to")
    elif v is False:
        tri(R, "W1", key + ":append", loc, (asked is False and (created is False or exists is False)) if asked is not None and (created is not None or exists is not None) else None, "a file is overwritten although appending was asked for or this run has created it")
    else:
        tri(R, "W1", key + ":append", loc, None, "")
    fc = [x for x in T.stores() if cell(x.addr, "filesCreated_") and nm(x.addr[3])]
    fc2 = [x for x in T.calls(r"(map|set)::(insert|emplace|operator\[\])$") if bare(x.args[0]) == F("filesCreated_") and nm(x.arg(1))]
    tri(R, "W1", key + ":created", w, bool(fc or fc2) or created is True, "that the file was created is not remembered, so it is overwritten when opened again")
    ret = uncast(strip_ids(T.ret))
    psh = [x for x in T.calls(r"vector::(push_back|emplace_back)$") if bare(x.args[0]) == F("iterators_")]
    st = [x for x in T.stores() if cell(x.addr, "iterators_") and has(("x", x.val), r"createWriteIterator$")]
    if psh:
        sz = ret[0] == "call" and ret[1].endswith("vector::size") and bare(ret[2]) == F("iterators_")
        eq = any(c[:2] == ("cmp", "eq") and t and any(same_index(y, ret) for y in c[2:4]) and has(("x", c), r"vector::size$") and contains(c, lambda x: x == F("iterators_")) for c, t in T.conds())
        back = contains(("x", ret), lambda x: x[0] in ("sub", "add")) and has(("x", ret), r"vector::size$")
        tri(R, "W1", key + ":index", w, True if sz or eq else None if back else False, "the index of the new writer is not its place in the list")
    elif st:
        tri(R, "W1", key + ":index", w, same_index(s_full(st[0], st[0].addr[3]), ret), "the index of the new writer is not its place in the list")
    else:
        tri(R, "W1", key + ":kept", w, None if any(contains(("x",) + tuple(x.args), lambda y: y == F("iterators_")) for x in T.steps if x.kind == "call") else False, "the new writer is not kept")
    remembered(R, f, key, T, ret)
    nmst = [x for x in T.calls(r"basic_string::(operator=|assign|swap)$") if cell(bare(x.args[0]), "iteratorIndex2fileName_")]
    tri(R, "W1", key + ":name", w, any(same_index(s_full(x, bare(x.args[0])[3]), ret) and nm(x.arg(1)) for x in nmst) if nmst else None if T.calls(r"iteratorIndex2fileName_") else False, "the file name of the writer is not recorded")
    cs = [x for x in T.calls(r"WriterBufferingIterator::columns$") if len(x.args) > 1]
    hs = T.calls(r"WriterBufferingIterator::writeHeader$")
    tri(R, "W1", key + ":columns", w, len(cs) == 1 and is_cols((cs[0].arg(1),)), "a new writer does not get the current columns")
    tri(R, "W1", key + ":header", w, len(hs) == 1, "a new writer starts without a header")
    if len(cs) == 1 and len(hs) == 1:
        tri(R, "W1", key + ":order", w, T.index(cs[0]) < T.index(hs[0]), "the header is written before the columns are known")
        for x in (cs[0], hs[0]):
            ix = index_in(x.arg(0), "iterators_")
            if ix is not None:
                tri(R, "W1", key + ":header-own", f.loc(x.i), same_index(ix, ret), "another writer is set up")


def stored_find(T, s2):
    """the decision compares an iterator found in filesCreated_"""
    for x in T.steps[:T.index(s2)]:
        if x.kind == "store" and has(("x", x.val), r"map::find$") and contains(("x", x.val), lambda y: y == F("filesCreated_")):
            if any(root(x.addr) == root(bare(y)) for y in s2.val[2:] if isinstance(y, tuple) and y):
                return True
    return False


def erasing(R, f, key, L):
    w = f.where()
    rs = [r for r in ranges(f) if r.L is L]
    for T in body(f, L, limit=20000):
        er = [s for s in T.calls(r"map::erase$") if bare(s.args[0]) == F("values2iteratorIndex_")]
        inc = T.calls(r"_iterator::operator\+\+$")
        sec = [(c, t) for c, t in T.conds() if c[:2] == ("cmp", "eq") and contains(c, lambda x: x[:1] == ("fld",) and x[2] == "second")]
        if T.end == "stop":
            if er:
                tri(R, "W2", key + ":erase", f.loc(er[0].i), any(t for c, t in sec) if sec else None, "values of other writers are forgotten")
            elif sec:
                tri(R, "W2", key + ":erase", w, not any(t for c, t in sec), "values of the closed writer still lead to its place")
        elif T.end == "ret" and er:
            e = [s for s in T.calls(r"operator!=$|operator==$")]
            at_end = any(s.kind == "cond" and s.val[0] == "call" and re.search(r"operator(!=|==)$", s.val[1]) and s.i.blk in L.body and T.index(s) > T.index(er[-1]) for s in T.steps)
            tri(R, "W2", key + ":erase-all", f.loc(er[0].i), None if at_end else False, "only the first values of the closed writer are forgotten")


def setup(P, R):
    for f in P.find(r"^odc::DispatchingWriter::DispatchingWriter\(", "split"):
        key, w = "DispatchingWriter", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            st = [s for s in T.calls(r"basic_string::(basic_string|operator=|assign)$") if bare(s.args[0]) == F("outputFileTemplate_")]
            tri(R, "W1", key + ":template", w, contains(("x", st[-1].arg(1)), lambda x: x[:2] == ("arg", 1)) if st else None, "another template is used than given")
            v = T.field("append_")
            tri(R, "W1", key + ":append", w, None if v is None else uncast(v)[:2] == ("arg", 3), "that files are to be appended to is lost")
            v = T.field("maxOpenFiles_")
            given = next((not t for c, t in T.conds() if c[:2] == ("cmp", "eq") and uncast(c[2])[:2] == ("arg", 2) and c[3] == ("c", 0)), None)
            if v is not None and given is not None:
                tri(R, "W1", key + ":limit", w, (uncast(v)[:2] == ("arg", 2)) == given, "the limit of open files is not the one given")
    for f in P.find(r"^odc::DispatchingWriter::begin\(", "split"):
        for T in tr_(f) or []:
            for s in T.calls(WDI.replace("<[^>]*>", "") + r"WriterDispatchingIterator$"):
                if T.end == "ret":
                    a = [strip_ids(s.arg(k)) for k in range(len(s.args))]
                    g = lambda e: uncast(e)[2] if uncast(e)[:1] == ("fld",) else uncast(e)[1][2] if uncast(e)[0] == "ld" and uncast(e)[1][:1] == ("fld",) else None
                    tri(R, "W1", "begin", f.loc(s.i), (g(a[2]), g(a[3])) == ("maxOpenFiles_", "append_") if len(a) == 4 and g(a[2]) and (g(a[3]) or a[3][0] == "c") else None, "the dispatcher does not get the limit of open files and whether to append")
    for f in P.find(WDI + r"WriterDispatchingIterator\(", "split"):
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            for m in ("lastDispatch_", "iteratorIndex2fileName_"):
                c = [s for s in T.calls(r"vector::(vector|resize|assign)$") if bare(s.args[0]) == F(m)]
                if c:
                    sz = uncast(strip_ids(c[-1].arg(1))) if len(c[-1].args) > 2 or c[-1].q.endswith("resize") else None
                    tri(R, "W1", "size:" + m, f.loc(c[-1].i), sz[:2] == ("arg", 2) or sz == LD("maxOpenFiles_") if sz is not None and sz[0] in ("arg", "c", "ld") else None, "there is no room for as many writers as may be open")
            v = T.field("maxOpenFiles_")
            tri(R, "W1", "limit", f.where(), None if v is None else uncast(v)[:2] == ("arg", 2), "the limit of open files is not the one given")
            v = T.field("append_")
            tri(R, "W1", "append", f.where(), None if v is None else uncast(v)[:2] == ("arg", 3), "that files are to be appended to is lost")
            v = T.field("initialized_")
            tri(R, "W1", "initialized", f.where(), None if v is None else v == ("c", 0), "the template is taken for parsed from the start")
    for f in P.find(r"Writer<odc::WriterBufferingIterator>::createWriteIterator", "split"):
        key, w = "createWriteIterator", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            op = T.calls(r"ODBAPISettings::(appendToFile|writeToFile)$|Handle::openFor(Append|Write)$")
            ap = [t for c, t in T.conds() if uncast(c)[:1] == ("arg",) and uncast(c)[2] == "append"]
            tri(R, "W1", key + ":append", w, bool(re.search(r"[aA]ppend", op[0].q)) == ap[-1] if len(op) == 1 and ap else False if len(op) == 1 and not any(contains(("x",) + tuple(x.args), lambda y: y[:1] == ("arg",) and y[2] == "append") for x in op) else None,
                "a file to be appended to is overwritten, or the other way round")
            for s in T.calls(r"FileHandle::FileHandle$|ODBAPISettings::(appendToFile|writeToFile)$"):
                tri(R, "W1", key + ":file", f.loc(s.i), any(contains(("x", s.arg(k)), lambda y: y[:1] == ("arg",) and y[2] == "pathName") for k in range(len(s.args))) or None, "another file is opened")


# ------------------------------------------------------------------------------------------------ R1
def rows(P, R):
    for f in wdi(P, "writeRow"):
        key, w = "writeRow", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            d, wr = T.calls(r"::dispatch$"), T.calls(r"WriterBufferingIterator::writeRow$")
            tri(R, "R1", key + ":once", w, len(wr) == 1, "a row is written %d times" % len(wr))
            if len(wr) != 1:
                continue
            tri(R, "R1", key + ":own", f.loc(wr[0].i), has(("x", wr[0].arg(0)), r"::dispatch(Index)?$") or None, "a row goes to another writer than that of its values")
            tri(R, "R1", key + ":values", f.loc(wr[0].i), bare(wr[0].args[1])[:2] == ("arg", 1) and all(bare(s.args[1])[:2] == ("arg", 1) for s in d), "other values are written")
            rc = strip_ids(wr[0].val)
            tri(R, "R1", key + ":result", w, True if strip_ids(T.ret) == rc or uncast(strip_ids(T.ret)) == rc else False if known(uncast(T.ret)) is not None and not any(rc in c for c, t in T.conds()) else None, "the writer's result is not returned")
            nz = [t for c, t in T.conds() if c[:2] == ("cmp", "eq") and uncast(c[2])[:2] == rc[:2] and c[3] == ("c", 0)]
            n = T.field("nrows_")
            if n is not None:
                tri(R, "R1", key + ":count", w, n in (("add", ("c", 1), LD("nrows_")), ("add", LD("nrows_"), ("c", 1))) and (not nz or nz[0]), "rows are not counted by one, or when they were not written")
            else:
                tri(R, "R1", key + ":count", w, nz != [] and not nz[0], "a written row is not counted")
            init = [t for c, t in T.conds() if uncast(c) == LD("initialized_")]
            p = T.calls(r"::parseTemplateParameters$")
            tri(R, "R1", key + ":parsed", w, True if p or init and init[0] else False if not init and not list(f.calls(r"parseTemplateParameters$")) else None if not init else False, "rows are dispatched before the template is known")
            if p:
                tri(R, "R1", key + ":parsed-first", w, not d or T.index(p[0]) < T.index(d[0]), "rows are dispatched before the template is known")
    for f in P.find(WDI + r"pass1", "split"):
        if "Row_<odc::WriterDisp" in f.dem.split("pass1")[0]:
            continue
        pass1(R, f)


def layout_conds(T, after=0):
    """(isNewDataset, columns differ) as decided"""
    new = diff = None
    for s in T.steps:
        if s.kind != "cond":
            continue
        c = uncast(s.val)
        if c[0] in ("call", "vcall") and re.search(r"::isNewDataset$", c[1]):
            new = s.truth
        elif c[0] == "call" and re.search(r"MetaData::operator(!=|==)$", c[1]):
            diff = s.truth == c[1].endswith("!=")
        elif c[0] == "call" and re.search(r"MetaData::(equals|compatible)$", c[1]):
            diff = not s.truth
        elif c[0] == "call" and re.search(EQMISS, c[1]):
            diff = True if not s.truth else diff
    return new, diff


EQMISS = r"MetaData::\w*[mM]issingValues\w*$"


def missing_seen(T):
    """whether the values that stand for missing ones are the same; 0 when that is looked at in another way"""
    for s in T.steps:
        if s.kind == "cond" and uncast(s.val)[0] == "call" and re.search(EQMISS, uncast(s.val)[1]):
            return s.truth
    if T.calls(r"issingValue|MetaData::\w*(same|equal|differ)\w*$"):
        return 0
    return None


def pass1(R, f):
    key, w = "pass1" + ("" if "Reader" in f.dem else "(Select)"), f.where()
    Ls = [L for L in loops(f) if any(i.blk in L.body for i in f.calls(WDI_ROW))]
    Ls.sort(key=lambda L: -len(L.body))
    if not Ls:
        tri(R, "R1", key, w, False if not list(f.calls(r"for_each|std::")) else None, "no row is written")
        return
    L = Ls[0]
    try:
        its = body(f, L)
        pre = tr_(f, stop={L.header}) or []
    except TooMany:
        tri(R, "R1", key, w, None, "")
        return
    inner = [M for M in loops(f) if M.body < L.body and any(i.blk in M.body for i in f.calls(r"WriterBufferingIterator::(flush|columns|writeHeader)$"))]
    for M in inner:
        rs = [r for r in ranges(f) if r.L is M]
        if rs:
            tri(R, "R1", key + ":open-all", w, rs[0].start == 0 and rs[0].full and not rs[0].breaks if rs[0].cont == F("iterators_") else None, "a changed layout does not reach every open writer")
        for T in body(f, M):
            if T.end == "stop" and T.final_pred in M.body:
                fl, co, hd = T.calls(r"BufferingIterator::flush$"), [s for s in T.calls(r"BufferingIterator::columns$") if len(s.args) > 1], T.calls(r"BufferingIterator::writeHeader$")
                tri(R, "R1", key + ":open-columns", w, len(co) >= 1 and all(is_cols((s.arg(1),)) for s in co), "an open writer does not get the changed columns")
                tri(R, "R1", key + ":open-flush", w, len(fl) >= 1 and (not co or T.index(fl[0]) < T.index(co[0])), "rows of the previous layout are still waiting when the columns change")
                tri(R, "R1", key + ":open-header", w, len(hd) >= 1 and (not co or T.index(hd[-1]) > T.index(co[-1])), "an open writer writes the changed columns without a new header")
    phis = {("phi", h.id) for h in header_phis(L)}
    for T in its:
        if T.end != "stop":
            continue
        wr = T.calls(WDI_ROW)
        adv = T.calls(r"IteratorProxy::operator\+\+$|Row_::operator\+\+$")
        tri(R, "R1", key + ":once", w, len(wr) == 1, "a row is written %d times" % len(wr))
        tri(R, "R1", key + ":next", w, len(adv) == 1, "the input is advanced by %d rows for each row written" % len(adv))
        if len(wr) == 1 and len(adv) == 1:
            tri(R, "R1", key + ":order", w, T.index(wr[0]) < T.index(adv[0]), "the input is advanced before its row was written")
            tri(R, "R1", key + ":row", f.loc(wr[0].i), has(("x", wr[0].arg(1)), r"::data$") and contains(wr[0].arg(1), lambda x: x[:2] == ("arg", 1)) if contains(("x", wr[0].arg(1)), lambda x: x[:1] == ("arg",)) else None, "something other than the input's row is written")
            rc = strip_ids(wr[0].val)
            tests = [t for c, t in T.conds() if c[:2] == ("cmp", "eq") and strip_ids(uncast(c[2])) == rc and c[3] == ("c", 0)]
            tri(R, "R1", key + ":failure", w, tests == [True] or bool(tests) and all(tests), "a row that could not be written is passed over")
        new, diff = layout_conds(T)
        setc = [s for s in T.calls(r"WriterDispatchingIterator::columns$") if len(s.args) > 1] + [s for s in T.calls(r"MetaData::operator=$") if bare(s.args[0]) == F("columns_")]
        flag = [t for c, t in T.conds() if uncast(c) in phis]
        ps = T.calls(r"::parseTemplateParameters$")
        if setc:
            tri(R, "R1", key + ":layout", f.loc(setc[0].i), has(("x", setc[0].arg(1)), r"::columns$") and contains(setc[0].arg(1), lambda x: x[:2] == ("arg", 1)), "the dispatcher gets other columns than the input has")
            tri(R, "R1", key + ":layout-parse", w, bool(ps) and T.index(ps[-1]) > T.index(setc[0]), "the places of the values in the template stay those of the previous layout")
            if wr:
                tri(R, "R1", key + ":layout-first", w, T.index(setc[0]) < T.index(wr[0]), "a row is written before its layout is known")
            nofile = any(c[:2] == ("cmp", "eq") and t and c[3] == ("c", 0) and contains(c, lambda x: x == F("iterators_")) for c, t in T.conds())
            tri(R, "R1", key + ":open", w, True if inner else None if T.calls(r"::flush|for_each|::columns$") and T.calls(r"::flush") else False, "open writers keep the previous layout")
            clr = [s for s in T.calls(r"(map|vector)::(clear|swap|operator=)$") if bare(s.args[0]) in (F("values2iteratorIndex_"), F("lastDispatchedValues_"))]
            tri(R, "R1", key + ":forget", w, {bare(s.args[0])[2] for s in clr} == {"values2iteratorIndex_", "lastDispatchedValues_"} if clr or not T.calls(r"WriterDispatchingIterator::\w*(reset|forget|clear)\w*$") else None,
                "values of the previous layout are taken for those of the new one")
        else:
            same = new is False or diff is False
            tri(R, "R1", key + ":noticed", w, same and not any(flag), "a changed layout is not noticed")
            mv = missing_seen(T)
            tri(R, "R1", key + ":missing", w, True if new is False or mv is True else None if mv == 0 and mv is not False else False, "rows with another missing value are written under the previous one")
    # before the first row
    flags_ = set()
    for T in its:
        for c, t in T.conds():
            if uncast(c) in phis:
                flags_.add(uncast(c)[1])
    for T in pre:
        if T.end != "stop":
            if T.end == "ret":
                tri(R, "R1", key + ":empty", w, uncast(strip_ids(T.ret)) in (("c", 0), LD("nrows_")) if T.ret is not None else None, "rows are reported for an input without any")
            continue
        n = T.field("nrows_")
        tri(R, "R1", key + ":count0", w, n == ("c", 0) if n is not None else None if T.calls(r"WriterDispatchingIterator::(writeHeader|\w*[rR]eset\w*|\w*clear\w*)$") else False, "rows of earlier inputs are counted again")
        init = [t for c, t in T.conds() if uncast(c) == LD("initialized_")]
        new, diff = layout_conds(T)
        ps = T.calls(r"::parseTemplateParameters$")
        vals = [uncast(strip_ids(next_phi(T, L, p))) for p in flags_]
        if ps:
            opened = inner or list(f.calls(r"BufferingIterator::flush$"))
            empty = any(c[:2] == ("cmp", "eq") and t and c[3] == ("c", 0) and contains(c, lambda x: x == F("iterators_")) for c, t in T.conds())
            tri(R, "R1", key + ":first", w, None if diff is None and init and not init[0] or opened else False, "open writers keep the layout of the previous input")
            continue
        mv = missing_seen(T)
        unclear = mv == 0 and mv is not False
        need = not (init and init[0] and diff is False and mv is True)
        if not vals:
            tri(R, "R1", key + ":first", w, False if need else True, "the first rows of an input are dispatched by the layout of the previous input")
            continue
        for v in vals:
            neg = False
            while v[0] == "not":
                v, neg = uncast(v[1]), not neg
            k = known(v)
            if k is not None:
                tri(R, "R1", key + ":first", w, (k != neg) or not need or (None if unclear else False), "the first rows of an input are dispatched by the layout of the previous input")
            elif v[0] == "call" and re.search(EQMISS, v[1]):
                tri(R, "R1", key + ":first", w, neg and diff is False and bool(init and init[0]), "the first rows of an input are dispatched by the layout of the previous input")
            elif v[0] == "call" and re.search(r"MetaData::operator(!=|==)$", v[1]):
                tri(R, "R1", key + ":first", w, (v[1].endswith("!=") != neg) and bool(init and init[0]) and (mv is True or (None if unclear else False)), "the first rows of an input are dispatched by the layout of the previous input")
            else:
                tri(R, "R1", key + ":first", w, False if v == LD("initialized_") else None, "the first rows of an input are dispatched by the layout of the previous input")
    for T in its:
        if T.end == "ret":
            tri(R, "R1", key + ":count", w, uncast(strip_ids(T.ret)) == LD("nrows_") if uncast(strip_ids(T.ret))[0] in ("ld", "c") else None, "the number of rows written is not returned")
            if not T.calls(WDI_ROW):
                e = [s for s in T.steps if s.kind == "cond" and s.val[0] == "call" and re.search(r"operator(!=|==)$", s.val[1]) and contains(s.val, lambda x: x[:2] == ("arg", 2))]
                tri(R, "R1", key + ":end", w, bool(e) and e[-1].truth == e[-1].val[1].endswith("=="), "rows are left over")


WDI_ROW = r"WriterDispatchingIterator::writeRow$"


# ------------------------------------------------------------------------------------------------ C1
def closing(P, R):
    for f in wdi(P, "close"):
        key, w = "close", f.where()
        L, c, its = loop_with(f, r"WriterBufferingIterator::close$")
        rs = [r for r in ranges(f) if r.L is L] if L else []
        if not L or its is None:
            tri(R, "C1", key, w, False if not list(f.calls(r"for_each|::close$|~")) else None, "writers are not closed")
            continue
        if rs:
            tri(R, "C1", key + ":all", w, rs[0].start == 0 and rs[0].full and not rs[0].breaks if rs[0].cont == F("iterators_") else None, "not every writer is closed")
        for T in its:
            if T.end == "stop":
                cl = T.calls(r"WriterBufferingIterator::close$")
                tri(R, "C1", key + ":once", w, len(cl) == 1, "a writer is closed %d times" % len(cl))
                de = T.calls(r"WriterBufferingIterator::~WriterBufferingIterator$")
                if cl and de:
                    tri(R, "C1", key + ":order", w, T.index(cl[0]) < T.index(de[0]), "a writer is closed after it was released")
                for ph in header_phis(L):
                    nx = next_phi(T, L, ph.id)
                    if cl and nx is not None and ("phi", ph.id) in retvals(its):
                        n = strip_ids(nx)
                        rc = strip_ids(cl[0].val)
                        tri(R, "C1", key + ":result", w, (n[0] in ("or", "add") and ("phi", ph.id) in n[1:] and rc in n[1:]) if n[0] in ("or", "add", "call", "phi") or n == rc else None, "the failure of a writer is lost")
            if T.end == "ret":
                cl = [s for s in T.calls(r"vector::(clear|resize|swap|operator=)$") if bare(s.args[0]) == F("iterators_")]
                de = any(U.calls(r"WriterBufferingIterator::~WriterBufferingIterator$|^operator delete$") for U in its)
                if de:
                    tri(R, "C1", key + ":forgotten", w, bool(cl), "released writers are released again later")
                v = uncast(strip_ids(T.ret)) if T.ret is not None else None
                tri(R, "C1", key + ":returned", w, False if v is not None and v[0] == "c" and v[1] == 0 else None if v is None or v[0] != "phi" else True, "the failure of a writer is lost")
    for f in P.find(WDI + r"~WriterDispatchingIterator\(", "split"):
        key, w = "destructor", f.where()
        L, c, its = loop_with(f, r"WriterBufferingIterator::~WriterBufferingIterator$")
        rs = [r for r in ranges(f) if r.L is L] if L else []
        if not L:
            tri(R, "C1", key, w, None if list(f.calls(r"::close$|for_each")) else False, "open writers are leaked, and their rows with them")
            continue
        if rs:
            tri(R, "C1", key + ":all", w, rs[0].start == 0 and rs[0].full and not rs[0].breaks if rs[0].cont == F("iterators_") else None, "open writers are leaked, and their rows with them")
    for f in wdi(P, "flushAndResetColumnSizes"):
        key, w = "flushAndResetColumnSizes", f.where()
        L, c, its = loop_with(f, r"WriterBufferingIterator::flushAndResetColumnSizes$")
        rs = [r for r in ranges(f) if r.L is L] if L else []
        if rs:
            tri(R, "C1", key + ":all", w, rs[0].start == 0 and rs[0].full and not rs[0].breaks if rs[0].cont == F("iterators_") else None, "wider strings do not reach every open writer")


def retvals(its):
    return {uncast(strip_ids(T.ret)) for T in its if T.end == "ret" and T.ret is not None}


# ------------------------------------------------------------------------------------------------ N1
def fieldof(e, name):
    e = uncast(bare(e))
    return e[0] == "ld" and e[1][:1] == ("fld",) and e[1][2] == name


def names(P, R):
    for f in wdi(P, "generateFileName", r""):
        if f.dem.count("generateFileName") != 1 or "lambda" in f.dem:
            continue
        key, w = "generateFileName", f.where()
        this = next((("arg", k, a["n"]) for k, a in enumerate(f.args) if a["n"] == "this"), THIS)
        F = lambda n: ("fld", this, n)
        rs = [r for r in ranges(f) if r.cont == F("templateParameters_")]
        if rs:
            tri(R, "N1", key + ":all", w, rs[0].start == 0 and rs[0].full and not rs[0].breaks, "not every name in the template is replaced")
        for T in tr_(f, unroll=0) or []:
            if T.end == "ret":
                b = [s for s in T.calls(STR + r"(basic_string|operator=)$") if bare(s.args[0])[:2] == ("arg", 0)]
                if b:
                    tri(R, "N1", key + ":template", f.loc(b[0].i), bare(b[0].args[1]) == F("outputFileTemplate_"), "the file name does not start as the template")
        if not rs:
            tri(R, "N1", key, w, None, "")
            continue
        L = rs[0].L
        its = body(f, L, limit=20000)
        inner = [M for M in loops(f) if M is not L and M.body < L.body]
        every = [(L, T) for T in its] + [(M, T) for M in inner for T in body(f, M, limit=20000)]
        done = 0
        for M, T in every:
            reps = T.calls(STR + r"replace$")
            for s in reps:
                o = bare(s.args[0])
                if o[:2] == ("arg", 0) or root(o)[:2] == ("arg", 0):
                    done += 1
                    at, k = linear(strip_ids(s.arg(1)))
                    pos = [x for x in at if fieldof(x, "startPos")]
                    rest = [x for x in at if x not in pos]
                    shape = bool(pos) and len(rest) <= 1
                    ok = shape and at[pos[0]] == 1 and k == 0 and len(rest) == 1 and abs(at[rest[0]]) == 1
                    if shape and not rest:
                        tri(R, "N1", key + ":place", f.loc(s.i), False, "a replacement ignores how earlier ones changed the length")
                    else:
                        tri(R, "N1", key + ":place", f.loc(s.i), ok if shape else None, "a value does not replace its name in the template")
                    an, kn = linear(strip_ids(s.arg(2)))
                    e_ = [x for x in an if fieldof(x, "endPos")]
                    s_ = [x for x in an if fieldof(x, "startPos")]
                    tri(R, "N1", key + ":length", f.loc(s.i), (an[e_[0]] == 1 and an[s_[0]] == -1 and kn == 1 and len(an) == 2) if e_ and s_ else None, "a value does not replace exactly its name and its braces")
                    if ok and rest[0][0] == "phi":
                        sign = at[rest[0]]
                        for LL in (L,) + tuple(inner):
                            if any(("phi", h.id) == rest[0] for h in header_phis(LL)):
                                for U in (body(f, LL, limit=20000)):
                                    if U.end == "stop" and U.calls(STR + r"replace$") and any(root(bare(x.args[0]))[:2] == ("arg", 0) for x in U.calls(STR + r"replace$")):
                                        nx = next_phi(U, LL, rest[0][1])
                                        if nx is None:
                                            continue
                                        shift(R, f, key, strip_ids(nx), sign, w, F)
                elif contains(("x",) + tuple(s.arg(k) for k in range(1, len(s.args))), lambda x: x == ("str", "__SLASH__")) or has(("x", s.arg(1)), r"::find"):
                    n = s.arg(2)
                    tri(R, "N1", key + ":slash", f.loc(s.i), False if n[0] == "c" and n != ("c", 1) else (has(("x", s.arg(1)), r"::find") or None) if n[0] == "c" else None if not has(("x", n), r"::find") else False, "more than the slash is replaced")
        tri(R, "N1", key + ":replaced", w, True if done else None, "no name is replaced")
        # the value
        for T in its:
            tp = [(c, t) for c, t in T.conds() if c[:2] == ("cmp", "eq") and has(("x", c), r"Column::type$") and c[3][0] == "c"]
            for c, t in tp:
                tri(R, "N1", key + ":kind", w, c[3][1] == 3, "the kind of column that is text is mistaken")
                tri(R, "N1", key + ":column", w, contains(c, lambda x: x[:1] == ("fld",) and x[2] == "columnIndex") or None, "another column's type is looked at")
            val = lambda e: contains(("x", e), lambda x: x[:1] == ("idx",) and bare(x[1])[:2] in (("arg", 2), ("arg", 1)) and contains(x[2], lambda y: y == F("dispatchedIndexes_")))
            raw = lambda e: contains(("x", e), lambda x: x[:1] == ("idx",) and bare(x[1])[:2] in (("arg", 2), ("arg", 1)) and contains(x[2], lambda y: y[:1] == ("fld",) and y[2] == "columnIndex"))
            for s in T.calls(r"Translator::operator\(\)$|to_string$"):
                if tp:
                    tri(R, "N1", key + ":number", f.loc(s.i), tp[-1][1] != (tp[-1][0][3][1] == 3), "text is made into a number")
                a = [s.arg(k) for k in range(len(s.args))]
                tri(R, "N1", key + ":value", f.loc(s.i), True if any(val(x) for x in a) else False if any(raw(x) for x in a) else None, "the value of another place in the row is used")
            for s in T.calls(r"lambda::operator\(\)$|trim\w*$"):
                wd = [s.arg(k) for k in range(len(s.args)) if has(("x", s.arg(k)), r"dataSizeDoubles$")]
                any_ = [x for k, x in ((k, s.arg(k)) for k in range(len(s.args))) if val(x) or raw(x)]
                if any_ or wd:
                    tri(R, "N1", key + ":text", f.loc(s.i), True if any(val(x) for x in any_) else False if any_ else None, "the text of another place in the row is used")
                    fixed = [s.arg(k) for k in range(1, len(s.args)) if bare(s.arg(k))[0] == "c" and bare(s.arg(k))[1] > 0]
                    tri(R, "N1", key + ":width", f.loc(s.i), True if any(wide(x) for x in wd) else False if wd or fixed else None, "only part of a text is used")


def wide(e):
    """width of a column in bytes"""
    at, k = linear(uncast(strip_ids(e)))
    if len(at) != 1 or k != 0:
        e = uncast(strip_ids(e))
        return e[0] == "shl" and e[2] == ("c", 3) and colwidth(e[1], lambda x: True)
    x, m = next(iter(at.items()))
    if m == 8 and colwidth(x, lambda y: True):
        return True
    return x[0] == "shl" and x[2] == ("c", 3) and colwidth(x[1], lambda y: True)


def shift(R, f, key, nx, sign, w, F):
    """the value the shift has afterwards: -sign * (size of the name so far - size of the template)"""
    at, k = linear(uncast(nx))
    at = {uncast(x): m for x, m in at.items()}
    tpl = [x for x in at if x[0] == "call" and re.search(r"::(size|length)$", x[1]) and bare(x[2]) == F("outputFileTemplate_")]
    res = [x for x in at if x[0] == "call" and re.search(r"::(size|length)$", x[1]) and root(bare(x[2]))[:2] == ("arg", 0)]
    if nx[0] == "c" or not res and not any(x[0] == "phi" for x in at):
        tri(R, "N1", key + ":shift", w, False, "a replacement ignores how earlier ones changed the length")
    elif tpl and res and len(at) == 2:
        tri(R, "N1", key + ":shift", w, at[tpl[0]] == -sign and at[res[0]] == sign and k == 0, "later names are looked for at the wrong place")
    else:
        tri(R, "N1", key + ":shift", w, None, "")


STR = r"basic_string::"


# ------------------------------------------------------------------------------------------------ N2
def finds(e, ch):
    e = uncast(bare(e))
    return e[0] == "call" and re.search(STR + r"find(_first_of)?$", e[1]) is not None and bare(e[2])[:1] == ("arg",) and (bare(e[3]) == ("str", ch) or bare(e[3]) == ("c", ord(ch)))


def template(P, R):
    for f in P.find(r"^odc::TemplateParameters::parse\(", "split"):
        key, w = "parse", f.where()
        L, c, its = loop_with(f, r"TemplateParameter::TemplateParameter$")
        if not L or its is None:
            tri(R, "N2", key, w, None, "")
            continue
        for T in its:
            if T.end == "ret":
                # only when there is no further {
                last = [t for cc, t in T.conds() if cc[:2] == ("cmp", "eq") and cc[3] == ("c", -1) and finds(cc[2], "{")]
                tri(R, "N2", key + ":all", w, last[-1] is True if last else None, "names after the first are not taken")
                continue
            if T.end != "stop":
                continue
            cs = T.calls(r"TemplateParameter::TemplateParameter$")
            ps = T.calls(r"vector::(push_back|emplace_back)$")
            tri(R, "N2", key + ":once", w, len(cs) == 1 and len(ps) == 1, "a name in the template is taken %d times" % len(ps))
            if len(cs) != 1:
                continue
            s = cs[0]
            a = [strip_ids(s.arg(k)) for k in range(1, len(s.args))]
            loc = f.loc(s.i)
            tri(R, "N2", key + ":start", loc, finds(a[0], "{") if a[0][0] in ("call", "add", "sub", "phi", "c") else None, "a name does not start at its {")
            tri(R, "N2", key + ":end", loc, finds(a[1], "}") if a[1][0] in ("call", "add", "sub", "phi", "c") else None, "a name does not end at its }")
            if finds(a[1], "}") and len(uncast(a[1])) > 4:
                fr = uncast(a[1])[4]
                at, k = linear(fr)
                tri(R, "N2", key + ":end-own", loc, len(at) == 1 and finds(next(iter(at)), "{") and k >= 0, "a name ends at a } before its {")
            br = [t for cc, t in T.conds() if cc[:2] == ("cmp", "eq") and cc[3] == ("c", -1) and finds(cc[2], "}")]
            tri(R, "N2", key + ":closed", w, br == [False] if br else False, "a name without a closing } is accepted")
            sub = T.calls(STR + r"substr$")
            if len(sub) == 1:
                p, n = linear(strip_ids(sub[0].arg(2))), linear(strip_ids(sub[0].arg(3)))
                lo = [x for x in p[0] if finds(x, "{")]
                hi, l2 = [x for x in n[0] if finds(x, "}")], [x for x in n[0] if finds(x, "{")]
                tri(R, "N2", key + ":name", f.loc(sub[0].i), (len(p[0]) == 1 and p[1] == 1 and len(n[0]) == 2 and n[0][hi[0]] == 1 and n[0][l2[0]] == -1 and n[1] == -1) if lo and hi and l2 else None, "a name is not the text between its braces")
            ci = T.calls(r"MetaData::columnIndex$")
            if ci:
                tri(R, "N2", key + ":column", f.loc(ci[0].i), has(("x", a[2]), r"MetaData::columnIndex$") and not any(x[0] in ("add", "sub") and has(("x", x), r"columnIndex$") and not has(("x", x), r"substr$") for x in [uncast(a[2])])
                    and contains(("x", ci[0].arg(0)), lambda x: x[:2] == ("arg", 2)), "a name is given another column")
            elif uncast(a[2])[0] == "c":
                nul = [t for cc, t in T.conds() if cc[:2] == ("cmp", "eq") and contains(cc, lambda x: x[:1] == ("arg",) and x[1] == 2)]
                tri(R, "N2", key + ":column", loc, bool(nul) and nul[-1], "a name is not looked up in the columns")
            for ph in header_phis(L):
                nx = next_phi(T, L, ph.id)
                if nx is None:
                    continue
                at, k = linear(strip_ids(uncast(nx)))
                at = {uncast(x): m for x, m in at.items()}
                if len(at) == 1 and finds(next(iter(at)), "}"):
                    tri(R, "N2", key + ":next", w, 0 <= k <= 1, "text after a name is skipped")
                elif len(at) == 1 and finds(next(iter(at)), "{"):
                    tri(R, "N2", key + ":next", w, k >= 1, "a name is found again for ever")
    for f in P.find(r"^odc::TemplateParameter::TemplateParameter\(", "split"):
        for T in tr_(f) or []:
            if T.end == "ret":
                for nm, k in (("startPos", 1), ("endPos", 2), ("columnIndex", 3)):
                    v = T.field(nm)
                    tri(R, "N2", "TemplateParameter:" + nm, f.where(), None if v is None else v[:2] == ("arg", k), "%s is not kept as given" % nm)


# ------------------------------------------------------------------------------------------------ T1
def tool(P, R):
    for f in P.find(r"SplitTool::run\(", "split"):
        key, w = "SplitTool::run", f.where()
        for T in tr_(f, limit=20000) or []:
            if T.end != "ret":
                continue
            fl, _ = opt_flow(T)
            work = T.calls(r"SplitTool::(split|presortAndSplit)$")
            tri(R, "T1", key + ":work", w, len(work) == 1, "the file is split %d times" % len(work))
            n = [(c, t) for c, t in T.conds() if c[0] == "cmp" and has(("x", c), r"vector::size$") and c[3][0] == "c"]
            tri(R, "T1", key + ":parameters", w, any(c[1] == "eq" and c[3] == ("c", 3) and t for c, t in n) if n else None, "a wrong number of parameters is accepted")
            if len(work) != 1:
                continue
            s = work[0]
            env = next(e for q, e in fl if q is s)
            off = 1 if bare(s.args[0]) == THIS else 0
            for j, k, what in ((0, 1, "reads another file"), (1, 2, "uses another template")):
                v = env.get(bare(s.args[off + j]))
                tri(R, "T1", "%s:param%d" % (key, j), f.loc(s.i), None if v is None or v[0][0] != "param" else v[0][1] == k, "the tool " + what + " than given")
            so = [t for c, t in T.conds() if uncast(c) == LD("sort_")]
            op = optset(T)
            if so and "-sort" not in op:
                given = any(i.op == "store" and g.expr(i["o"][1]) == F("sort_") and has(("x", g.expr(i["o"][0])), r"optionIsSet$") for g in P.find(r"SplitTool::(SplitTool|run)\(", "split") for i in g.insts())
                tri(R, "T1", key + ":sort", w, None if given else False, "-sort is ignored or always on")
            elif so or "-sort" in op:
                asked, st = op.get("-sort"), T.field("sort_")
                if so and st is not None and known(st) is not None and known(st) != so[-1]:
                    continue
                want = asked if asked else so[-1] if so else asked
                tri(R, "T1", key + ":sort", w, s.q.endswith("presortAndSplit") == bool(want) if want is not None else None, "-sort is ignored or always on")
            if s.q.endswith("::split") and len(s.args) > off + 3:
                e = uncast(strip_ids(s.arg(off + 3)))
                neg = False
                while e[0] == "not":
                    e, neg = uncast(e[1]), not neg
                k = known(e)
                ns = op.get("-no_verification")
                if has(("x", e), r"optionIsSet$"):
                    tri(R, "T1", key + ":verify", f.loc(s.i), neg, "verification is done exactly when it is not wanted")
                elif k is not None:
                    tri(R, "T1", key + ":verify", f.loc(s.i), ((k != neg) == (not ns)) if ns is not None else k != neg, "verification is done exactly when it is not wanted")
    for f in P.find(r"SplitTool::split\(", "split"):
        key, w = "split", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            rd, dw, ps, cl, vf = T.calls(r"Reader::Reader$"), T.calls(r"DispatchingWriter::DispatchingWriter$"), T.calls(r"::pass1$"), T.calls(r"(Row_|WriterDispatchingIterator|IteratorProxy)::close$"), T.calls(r"::verify$")
            static = 0
            A = lambda e, k: contains(("x", e), lambda x: x[:1] == ("arg",) and x[1] == k)
            tri(R, "T1", key + ":pass", w, len(ps) == 1, "the rows are written %d times" % len(ps))
            for s in rd:
                tri(R, "T1", key + ":in", f.loc(s.i), A(s.arg(1), 0 + base(f)) if contains(("x", s.arg(1)), lambda x: x[:1] == ("arg",)) else None, "another file is read")
            for s in dw:
                tri(R, "T1", key + ":template", f.loc(s.i), A(s.arg(1), 1 + base(f)) if contains(("x", s.arg(1)), lambda x: x[:1] == ("arg",)) else None, "another template is used")
                if len(s.args) > 3:
                    tri(R, "T1", key + ":append", f.loc(s.i), known(uncast(s.arg(3))) is False if known(uncast(s.arg(3))) is not None else None, "files left from earlier runs are appended to")
            for s in ps:
                b, e = T.calls(r"Reader::begin$"), T.calls(r"Reader::end$")
                tri(R, "T1", key + ":rows", f.loc(s.i), has(("x", s.arg(1)), r"Reader::begin$") and has(("x", s.arg(2)), r"Reader::end$") or None, "not all rows are written")
            if vf:
                tri(R, "T1", key + ":closed", f.loc(vf[0].i), bool(cl) and T.index(cl[0]) < T.index(vf[0]), "files are verified before they are complete")
                tri(R, "T1", key + ":verified", f.loc(vf[0].i), not ps or T.index(ps[-1]) < T.index(vf[0]), "files are verified before they are written")
            tri(R, "T1", key + ":close", w, True if cl else None, "")
            vc = [t for c, t in T.conds() if uncast(c)[:2] == ("arg", 3 + base(f))]
            if vc:
                tri(R, "T1", key + ":verify", w, vc[0] == bool(vf), "verification is done exactly when it is not wanted")
    for f in P.find(r"SplitTool::presortAndSplit\(", "split"):
        key, w = "presortAndSplit", f.where()
        L, c, its = loop_with(f, r"::pass1$")
        if not L or its is None:
            tri(R, "T1", key, w, False if not list(f.calls(r"::pass1$|for_each")) else None, "no row is written")
            continue
        rs = [r for r in ranges(f) if r.L is L]
        if rs:
            tri(R, "T1", key + ":all", w, rs[0].start == 0 and rs[0].full and not rs[0].breaks, "not all parts of the file are split")
        for T in its:
            if T.end != "stop":
                continue
            ps, sl, ph, op = T.calls(r"::pass1$"), T.calls(r"Select::Select$"), T.calls(r"PartFileHandle::PartFileHandle$"), T.calls(r"::openForRead$")
            tri(R, "T1", key + ":once", w, len(ps) == 1, "a part is split %d times" % len(ps))
            if len(sl) == 1 and op:
                tri(R, "T1", key + ":open", f.loc(op[0].i), False if any(root(bare(a)) == root(bare(sl[0].args[2])) for a in op[0].args) else None, "the part is opened although the query opens it")
            if len(ph) == 1:
                x, y = strip_ids(ph[0].arg(2)), strip_ids(ph[0].arg(3))
                g = lambda e: next((z[2] for z in walk(("x", e)) if isinstance(z, tuple) and z[:1] == ("fld",) and z[2] in ("first", "second")), None)
                tri(R, "T1", key + ":part", f.loc(ph[0].i), (g(x), g(y)) == ("first", "second") if g(x) and g(y) else None, "a part's offset and length are mixed up")
            if len(sl) == 1 and len(ps) == 1:
                tri(R, "T1", key + ":rows", f.loc(ps[0].i), has(("x", ps[0].arg(1)), r"Select::begin$") and has(("x", ps[0].arg(2)), r"Select::end$") or None, "not all rows of a part are written")
    for f in P.find(r"SplitTool::genOrderBySelect\(", "split"):
        key, w = "genOrderBySelect", f.where()
        L, c, its = loop_with(f, r"operator<<$|::append$|operator\+=$")
        if not L or its is None:
            tri(R, "T1", key, w, False if not loops(f) and not list(f.calls(r"for_each|accumulate|transform|join")) else None, "the rows are not ordered by every column in the template")
            continue
        if c:
            tri(R, "T1", key + ":all", w, c[2] == 0 and c[3], "the rows are not ordered by every column in the template")
            for T in its:
                if T.end == "stop":
                    nm = [s for s in T.calls(r"operator<<$|::append$|operator\+=$|::push_back$") if contains(("x", s.arg(len(s.args) - 1)), lambda x: x[:1] == ("fld",) and x[2] == "name")]
                    tri(R, "T1", key + ":names", w, len(nm) == 1 if nm or not T.calls(r"::push_back$") else None, "the rows are not ordered by every column in the template")
                    sep = [s for s in T.calls(r"operator<<$|::append$|operator\+=$") if bare(s.args[-1]) in (("str", ","), ("c", 44), ("str", ", "))]
                    num = lambda e: uncast(e) == c[0]
                    cs = [(cc, t) for cc, t in T.conds() if cc[0] == "cmp" and any(num(x) for x in cc[2:4]) and any(uncast(x)[0] == "c" for x in cc[2:4])]
                    if cs:
                        tri(R, "T1", key + ":comma", w, not possible(cs, num, 0) if sep else not possible(cs, num, 1) and not possible(cs, num, 2), "the names are not separated by commas")
                    elif T.calls(r"operator<<$") and not any(x.kind == "call" and contains(("x",) + tuple(x.args), lambda y: y[:1] in (("phi",), ("select",)) and y != c[0]) for x in T.steps):
                        tri(R, "T1", key + ":comma", w, False if sep else None, "the names are not separated by commas")
        for T in tr_(f) or []:
            if T.end == "ret":
                ss = [bare(s.args[-1])[1] for s in T.calls(r"operator<<$|basic_string$|operator=$") if bare(s.args[-1])[0] == "str"]
                q = [x for x in ss if "select" in x.lower()]
                if q:
                    tri(R, "T1", key + ":query", w, bool(re.match(r"\s*select\s+\*\s+order\s+by\s+$", q[0], re.I)), "not all columns are kept, or the rows are not ordered")


def base(f):
    """index of the first argument proper"""
    return 1 if f.args and f.args[0]["n"] == "this" else 0


def optset(T):
    out = {}
    for s in T.steps:
        if s.kind == "cond":
            c = uncast(s.val)
            if c[0] == "call" and c[1].endswith("optionIsSet"):
                nm = None
                a = root(bare(c[3])) if len(c) > 3 else None
                for x in T.steps[:T.index(s)]:
                    if x.kind == "call" and re.search(r"basic_string$", x.q) and len(x.args) > 1 and bare(x.args[0]) == a and bare(x.args[1])[0] == "str":
                        nm = bare(x.args[1])[1]
                if nm:
                    out[nm] = s.truth
    return out


def chunks(P, R):
    for f in P.find(r"SplitTool::getChunks\(", "split"):
        key, w = "getChunks", f.where()
        L, c, its = loop_with(f, r"Table::startPosition$")
        if not L or its is None:
            tri(R, "T1", key, w, None, "")
            continue
        ends = [T for T in its if T.end == "ret"]
        off = ln = None
        for T in ends:
            mk = T.calls(r"std::make_pair$|pair::pair$")
            if mk:
                off, ln = bare(mk[0].args[1]), bare(mk[0].args[2])
        if off is None:
            tri(R, "T1", key, w, None, "")
            if not any(T.calls(r"push_back|emplace_back") for T in ends):
                tri(R, "T1", key + ":last", w, False, "the last part of the file is left out")
            continue
        isln = lambda e: contains(("x", e), lambda x: x == ln)
        empt = lambda T: next((t for c, t in T.conds() if c[:2] == ("cmp", "eq") and isln(c)), None)
        for T in ends:
            mk = T.calls(r"vector::(push_back|emplace_back)$")
            if not mk:
                tri(R, "T1", key + ":last", w, empt(T) is True, "the last part of the file is left out")
            else:
                tri(R, "T1", key + ":last", w, len(mk) == 1, "the last part of the file is split %d times" % len(mk))
        for T in its:
            if T.end != "stop":
                continue
            ps = T.calls(r"vector::(push_back|emplace_back)$")
            so = [s for s in T.calls(r"Offset::operator=$|Offset::Offset$") if bare(s.args[0]) == off]
            sl = [s for s in T.calls(r"Length::operator=$|Length::Length$") if bare(s.args[0]) == ln]
            ad = [s for s in T.calls(r"Length::operator\+=$") if bare(s.args[0]) == ln]
            if not (so or sl or ad or ps) and [s for s in T.stores() if root(s.addr) in (off, ln)]:
                so = [s for s in T.stores() if root(s.addr) == off]
                sl = [s for s in T.stores() if root(s.addr) == ln]
            if not ps:
                tri(R, "T1", key + ":grow", w, len(ad) == 1 and not sl if not so else None, "a frame is left out of its part")
                if ad:
                    tri(R, "T1", key + ":grow-own", f.loc(ad[0].i), framelen(ad[0].arg(1)), "a part does not grow by the length of the frame")
            else:
                tri(R, "T1", key + ":empty", w, empt(T) is False, "a part without frames takes the place of the first frame's")
                tri(R, "T1", key + ":restart", w, (bool(so or offstore(T, off)) and bool(sl or offstore(T, ln))), "the next part does not start with the frame that did not fit")
                k = T.index(ps[0])
                for s in so + sl:
                    tri(R, "T1", key + ":pushed", f.loc(s.i), T.index(s) > k or copied_before(T, s, ps[0], off, ln), "a part is recorded after the next was begun")
                for s in sl:
                    tri(R, "T1", key + ":restart-length", f.loc(s.i), framelen(s.arg(1)) if s.kind == "call" else None, "the next part does not have the length of its first frame")
                for s in so:
                    tri(R, "T1", key + ":restart-offset", f.loc(s.i), (has(("x", s.arg(1)), r"Table::startPosition$") or None) if s.kind == "call" else None, "the next part does not start with the frame that did not fit")


def offstore(T, a):
    return [s for s in T.stores() if root(s.addr) == a] + [s for s in T.calls(r"^llvm.memcpy|^memcpy") if root(bare(s.args[0])) == a]


def copied_before(T, s, p, off, ln):
    return any(x.kind == "call" and re.search(r"make_pair$|pair::pair$", x.q) and T.index(x) < T.index(s) for x in T.steps)


def framelen(e):
    e = strip_ids(e)
    a, b = has(("x", e), r"Table::nextPosition$"), has(("x", e), r"Table::startPosition$")
    return True if a and b else False if not a and not b and all(x[1].endswith(("Length::Length", "Offset::Offset")) for x in walk(("x", e)) if isinstance(x, tuple) and x[:1] == ("call",)) and not find_all(("x", e), lambda x: x[0] in ("phi", "ld")) else None


# ------------------------------------------------------------------------------------------------ V1
def verify(P, R):
    for f in P.find(WDI + r"verify", "split"):
        key, w = "verify", f.where()
        bad = list(f.calls(r"::(dispatch|dispatchIndex|createIterator|createWriteIterator|writeRow|writeHeader|gatherStats)$"))
        tri(R, "V1", key + ":reads", f.loc(bad[0]) if bad else w, not bad, "verification opens output files for writing")
        L, c, its = loop_with(f, r"Comparator::compare$")
        if not L or its is None:
            tri(R, "V1", key, w, False if not list(f.calls(r"::compare$|equal$")) else None, "the rows are not compared")
            continue
        for T in its:
            if T.end != "stop":
                continue
            cp = T.calls(r"Comparator::compare$")
            if not cp:
                continue
            adv = T.calls(r"IteratorProxy::operator\+\+$")
            own = [s for s in adv if contains(("x", bare(s.args[0])), lambda x: x[:2] == ("arg", 1))]
            tri(R, "V1", key + ":advance", w, len(adv) == 2 and len(own) == 1 if len(cp) == 1 else None, "the input and the file of its row do not advance together")
            s = cp[0]
            d = [strip_ids(s.arg(k)) for k in range(len(s.args))]
            dat = [x for x in d if bare(x)[0] in ("call", "vcall") and bare(x)[1].endswith("::data")]
            src = [x for x in dat if contains(x, lambda y: y[:2] == ("arg", 1)) and not has(("x", x), r"generateFileName$")]
            tri(R, "V1", key + ":rows", f.loc(s.i), len(src) == 1 if len(dat) == 2 else None, "a row is compared with itself or with another file's")
            g = T.calls(r"::generateFileName$")
            tri(R, "V1", key + ":file", w, len(g) == 1 or None, "")
            new, diff = layout_conds(T)
            setc = [s for s in T.calls(r"WriterDispatchingIterator::columns$") if len(s.args) > 1]
            if setc:
                ps = T.calls(r"::parseTemplateParameters$")
                tri(R, "V1", key + ":layout", w, bool(ps) and T.index(ps[0]) > T.index(setc[0]), "rows are looked up by the places of the previous layout")
            else:
                tri(R, "V1", key + ":layout", w, new is False or diff is False, "rows are looked up by the places of the previous layout")
