"""Tools that write rows (compact, merge, set, index): every row of the input arrives once, with the values it had."""
from ir import *
from loops import *
from frlib import linear
from rangelib import *
from trace import *
from A03 import tri
from S01 import tr_, has, strip_ids, THIS, F, LD, str_tests
from D01 import EQMISS, layout_conds, missing_seen, step_by_width, colwidth
from I01 import opt_flow, possible, ev

CONFIG = {"roots": [
    {"tag": "tool", "re": r"odc::tool::(MergeTool|SetTool|CompactTool)::|doMerge<|odc::Indexer::|ODAUpdatingIterator<.*>::|ConstantSetter<.*>::|WriterBufferingIterator::pass1",
     "keep": [r"core::Column::", r"core::MetaData::", r"\bRow_<", r"IteratorProxy<[^()]*>::(operator|IteratorProxy|next|~)", r"odc::Writer<.*>::", r"LibOdc::instance", r"CommandLineParser::", r"odc::Reader::", r"odc::Select::",
              r"WriterBufferingIterator::(writeRow|flush|close|columns|writeHeader|allocRowsBuffer|allocBuffers|gatherStats|setOptimalCodecs|doWriteRow|resetColumnsBuffer)\b", r"StringTool::", r"doMerge<", r"MergeTool::merge",
              r"Indexer::(createIndex|offsetsOfBlocks)", r"core::(Table|TablesReader|ReadTablesIterator|Header)::",
              r"ODAUpdatingIterator<[^()]*>::(update|updateIndices|next|ODAUpdatingIterator)\b", r"ConstantSetter<[^()]*>::", r"parseUpdateList", r"Comparator::", r"::usage\("], "depth": 4}]}

ADV = r"IteratorProxy::operator\+\+$|Row_::operator\+\+$|IteratorProxy::next$|Row_::next$"


def run(P, R):
    R.rule("W1", "Copying rows to a writer (pass1): the writer takes over the input's columns and writes a header first; every row is written once and the input advanced once; other columns or missing values start a new table after what waits is flushed; at the end the writer is closed and the number of rows returned")
    R.rule("M1", "A merged row takes one row of every input: every column, its whole width, to the next column of the output; missing stays missing; nothing is written once an input has ended")
    R.rule("M2", "The merged columns are those of all inputs in order; a column of two inputs, a layout that changes and a value that does not fit are refused")
    R.rule("M3", "odc merge reads every input named, with its own query, and writes to the output named")
    R.rule("S1", "odc set: a row is the input's row, whole, in which the values of the named columns, and nothing else, are replaced; every row is seen once")
    R.rule("S2", "The columns named are found, with their places and widths, anew in every table: the place is the sum of the widths before it")
    R.rule("S3", "The update list: each name gets its own value, given as a number, text or hexadecimal bytes")
    R.rule("X1", "Index: the blocks are those of all tables of the file, with their own limits")
    R.rule("X2", "Index: an entry states block, sequence number and the number of rows in which it follows itself; no row is left out or counted twice")
    R.rule("C1", "odc compact copies the input named, all of it, to the output named, and compares the two")
    for fn in (pass1, merge_rows, merge_columns, merge_inputs, set_rows, set_places, set_values, set_list, blocks, index, compact):
        fn(P, R)
    for r, n in (("W1", 1), ("M1", 1), ("S1", 1), ("X2", 1)):
        R.need(r, n)


def fns(P, rx):
    return P.find(rx, "tool")


def bodies(f, L):
    try:
        return body(f, L)
    except TooMany:
        return []


def holder(f, rx):
    """loops that call rx, outermost first"""
    Ls = [L for L in loops(f) if any(i.blk in L.body for i in f.calls(rx))]
    return sorted(Ls, key=lambda L: -len(L.body))


def has_arg(e, k):
    return contains(("x", e), lambda x: x[:2] == ("arg", k))


def raw(s, k):
    return noid(s.args[k])


def whole(L, T):
    return T.end == "stop" and (T.final_pred in L.body)


# ------------------------------------------------------------------------------------------------ W1
def pass1(P, R):
    for f in fns(P, r"WriterBufferingIterator::pass1<"):
        m = re.search(r"IteratorProxy<odc::(\w+)", f.dem)
        key, w = "pass1(%s)" % (m.group(1) if m else "?"), f.where()
        WR = r"BufferingIterator::writeRow$"
        Ls = holder(f, WR)
        if not Ls:
            tri(R, "W1", key, w, None if list(f.calls(r"for_each|std::")) else False, "no row is written")
            continue
        L = Ls[-1]
        its = bodies(f, L)
        pre = tr_(f, stop={L.header}) or []
        SETC = r"BufferingIterator::columns$|MetaData::operator=$"

        def sets(T):
            return [s for s in T.calls(SETC) if len(s.args) > 1 and has_arg(s.arg(1), 1)]
        for T in pre:
            if T.end == "throw":
                continue
            if T.end == "ret" and not T.calls(SETC) and not T.calls(r"writeHeader$"):
                continue
            co, hd, al = sets(T), T.calls(r"BufferingIterator::writeHeader$"), T.calls(r"allocRowsBuffer$|allocBuffers$")
            tri(R, "W1", key + ":columns", w, bool(co) if co or not T.calls(SETC) else None, "the writer does not take over the input's columns")
            tri(R, "W1", key + ":header", w, len(hd) == 1 and (not co or T.index(co[-1]) < T.index(hd[0])), "the columns are not written before the rows")
            if co:
                tri(R, "W1", key + ":room", w, bool(al) and T.index(al[-1]) > T.index(co[-1]) and (not hd or T.index(al[-1]) < T.index(hd[0]) or True), "the row buffers keep the size of earlier columns")
        for T in its:
            if T.end == "throw":
                continue
            wr, adv = T.calls(WR), [s for s in T.calls(ADV) if has_arg(noid(s.args[0]), 1)]
            if whole(L, T):
                tri(R, "W1", key + ":once", w, len(wr) == 1, "a row is written %d times" % len(wr))
                tri(R, "W1", key + ":next", w, len(adv) == 1 if adv or not T.calls(r"next|advance") else None, "the input is advanced by %d rows for a row written" % len(adv))
                new, diff = layout_conds(T)
                co, hd, fl = sets(T), T.calls(r"BufferingIterator::writeHeader$"), T.calls(r"BufferingIterator::flush$")
                al = T.calls(r"allocRowsBuffer$|allocBuffers$")
                if wr and adv:
                    tri(R, "W1", key + ":order", w, T.index(wr[0]) < T.index(adv[0]), "the input is advanced before its row is written")
                if wr:
                    a = wr[0].arg(1)
                    tri(R, "W1", key + ":row", f.loc(wr[0].i), has(("x", a), r"::data$") and has_arg(a, 1) if contains(("x", a), lambda x: x[:1] == ("arg",)) else None, "something other than the input's row is written")
                if co:
                    if wr:
                        tri(R, "W1", key + ":restart", w, T.index(co[0]) < T.index(wr[0]), "a row is written before its columns are known")
                        tri(R, "W1", key + ":restart-header", w, len(hd) >= 1 and T.index(co[-1]) < T.index(hd[-1]) < T.index(wr[0]), "rows follow other columns without a new header")
                        tri(R, "W1", key + ":restart-room", w, bool(al) and T.index(al[-1]) > T.index(co[-1]), "the row buffers keep the size of the previous columns")
                    tri(R, "W1", key + ":restart-flush", w, bool(fl) and T.index(fl[0]) < T.index(co[0]) or bool(hd) and False, "rows waiting under the previous columns are written under the new ones")
                else:
                    tri(R, "W1", key + ":noticed", w, new is False or diff is False, "rows with other columns are written under the previous ones")
                    mv = missing_seen(T)
                    tri(R, "W1", key + ":missing", w, True if new is False or mv is True else None if mv == 0 and mv is not False else False, "rows with another missing value are written under the previous one")
                for ph in header_phis(L):
                    pass
            elif T.end == "ret":
                done(R, f, L, key, w, T, its)
        for T in pre:
            if T.end == "ret" and (T.calls(SETC) or T.calls(r"writeHeader$")):
                tri(R, "W1", key + ":close", w, len(T.calls(r"BufferingIterator::close$")) == 1, "the writer is not closed")


def done(R, f, L, key, w, T, its):
    cl, fl = T.calls(r"BufferingIterator::close$"), T.calls(r"BufferingIterator::flush$")
    tri(R, "W1", key + ":close", w, len(cl) == 1, "the writer is closed %d times" % len(cl))
    if cl and fl:
        tri(R, "W1", key + ":flush", w, T.index(fl[-1]) < T.index(cl[0]), "rows are flushed after closing")
    if cl:
        rc = strip_ids(cl[0].val)
        tests = [t for c, t in T.conds() if c[:2] == ("cmp", "eq") and strip_ids(uncast(c[2])) == rc and c[3] == ("c", 0)]
        tri(R, "W1", key + ":closed", w, bool(tests) and all(tests), "a failure to close is passed over")
    tri(R, "W1", key + ":all", w, not T.calls(r"BufferingIterator::writeRow$"), "the rest of the rows is left out")
    v = uncast(strip_ids(T.ret)) if T.ret is not None else None
    if v and v[0] == "phi":
        nx = {uncast(strip_ids(n)) for S in its if whole(L, S) for n in [next_phi(S, L, v[1])] if n is not None}
        for n in nx:
            at, k = linear(n)
            tri(R, "W1", key + ":count", w, (k == 1 and at == {v: 1}) if set(at) <= {v} else None, "the number of rows returned is not that of the rows written")
        for ph in header_phis(L):
            if ph.id == v[1]:
                ent = [strip_ids(e) for b, e in phi_parts(L, ph)[0]]
                tri(R, "W1", key + ":count0", w, None if not ent else all(e == ("c", 0) for e in ent), "the number of rows returned does not start from 0")
    elif v and v[0] == "c":
        tri(R, "W1", key + ":count", w, False, "the number of rows is not returned")


# ------------------------------------------------------------------------------------------------ M1
def domerge(P):
    return fns(P, r"doMerge<")


def mkey(f):
    return "doMerge<%s>" % ("Select" if re.search(r"doMerge<odc::Select", f.dem) else "Reader")


def out_of(f):
    """the output iterator"""
    for i in f.calls(r"Writer::begin$|Writer<[^()]*>::begin$"):
        return bare(f.expr(i["o"][0]))
    return None


def side(e, o):
    if e is None:
        return None
    i = contains(("x", e), lambda x: x[:2] == ("arg", 0))
    u = contains(("x", e), lambda x: x == o)
    return "in" if i and not u else "out" if u and not i else None


def ix_of(e, rx):
    """index given to the call rx within e (outermost)"""
    for x in walk(("x", e)):
        if isinstance(x, tuple) and x and x[0] in ("call", "vcall") and re.search(rx, x[1]) and len(x) > 3:
            return uncast(bare(x[3]))
    return None


def width_of(e, o):
    """(side, index) of the column whose width e is"""
    e = uncast(bare(e))
    if e[0] in ("call", "vcall") and re.search(r"Column::dataSizeDoubles$", e[1]):
        return side(e, o), ix_of(e, r"(vector|MetaData)::(operator\[\]|at)$")
    return None


def place_of(e, o):
    """(side, index) of the value whose address e is"""
    e = uncast(bare(e))
    if e[0] in ("call", "vcall") and re.search(r"(Row_::|::)(data|operator\[\])$", e[1]) and len(e) > 3:
        return side(e, o), uncast(bare(e[3]))
    return None


def merge_rows(P, R):
    for f in domerge(P):
        key, w = mkey(f), f.where()
        o = out_of(f)
        if o is None:
            tri(R, "M1", key, w, None, "")
            continue
        DATA = r"Row_::data$|Row_::operator\[\]$"
        Cs = sorted([L for L in loops(f) if any(i.blk in L.body and side(noid(f.expr(i["o"][0])), o) == "in" for i in f.calls(DATA))], key=lambda L: len(L.body))
        C = next((L for L in Cs if counted(f, L) and contains(("x", counted(f, L)[1]), lambda x: x[0] in ("call", "vcall") and x[1].endswith("::columns"))), None)
        M = next((L for L in Cs if C is not None and C.body < L.body), None)
        if C is None or M is None:
            tri(R, "M1", key, w, None, "")
            continue
        O = next((L for L in sorted(loops(f), key=lambda L: len(L.body)) if M.body < L.body), None)
        ci = counted(f, C)
        tri(R, "M1", key + ":every-column", w, ci[2] == 0 and bool(ci[3]), "not every column of an input is taken")
        cn = uncast(ci[0])
        CT = bodies(f, C)
        iis = {uncast(bare(x[3])) for T in CT if whole(C, T) for s in T.calls(DATA) if side(raw(s, 0), o) == "in" for x in walk(("x", raw(s, 0)))
               if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"vector::(operator\[\]|at)$", x[1]) and len(x) > 3 and bare(x[2])[:2] == ("arg", 0)}
        mphi = {("phi", h.id): h for h in header_phis(M)}
        if len(iis) != 1 or next(iter(iis)) not in mphi:
            tri(R, "M1", key, w, False if len(iis) == 1 and next(iter(iis))[0] == "c" else None, "only one input is read")
            continue
        ii = next(iter(iis))
        places = set()
        for T in CT:
            if whole(C, T):
                one_column(R, f, key, w, T, C, o, cn, ii, places)
                tri(R, "M1", key + ":advance-column", w, not [s for s in T.calls(ADV) if side(raw(s, 0), o) is not None], "an input or the output is advanced between two columns of a row")
        advs = lambda T, sd: [s for s in T.calls(ADV) if side(raw(s, 0), o) == sd]
        running_place(R, f, key, w, C, CT, O, places, lambda T: len(advs(T, "out")))
        # every input advances once; the row is written once all have given theirs
        ent = [uncast(strip_ids(e)) for b, e in phi_parts(M, mphi[ii])[0]]
        tri(R, "M1", key + ":first-input", w, all(e == ("c", 0) for e in ent) if ent and all(e[0] in ("c", "phi") for e in ent) else None, "not every input is taken")
        written = False
        for T in bodies(f, M):
            ai, ao = advs(T, "in"), advs(T, "out")
            if T.end == "throw":
                continue
            if T.end == "ret":
                tri(R, "M1", key + ":row-partial", w, not ao, "a row is written although an input has ended")
                continue
            if T.final_pred not in M.body:
                continue
            nx = next_phi(T, M, ii[1])
            nx = uncast(strip_ids(nx)) if nx is not None else None
            left = [t for c, t in T.conds() if c[:2] == ("cmp", "ult") and linear(uncast(c[2]))[0] == {ii: 1} and has(("x", c[3]), r"::size$", lambda x: bare(x)[:2] == ("arg", 0))]
            none = ao and not ai and left == [False] and any(c[:2] == ("cmp", "ult") and uncast(c[2]) == ii and not t for c, t in T.conds())
            tri(R, "M1", key + ":advance", w, len(ai) == 1 or bool(none), "an input is advanced %d times for a row of the output" % len(ai))
            for s in ai:
                tri(R, "M1", key + ":advance-own", f.loc(s.i), same_ix(raw(s, 0), ii), "another input is advanced than the one read")
            if nx is None:
                continue
            at, k = linear(nx)
            if ao:
                written = True
                tri(R, "M1", key + ":row", w, len(ao) == 1, "a merged row is written %d times" % len(ao))
                tri(R, "M1", key + ":row-early", w, nx == ("c", 0) and (not left or left[-1] is False) if nx[0] == "c" or set(at) <= {ii} else None, "a row is written before every input gave its columns")
            else:
                tri(R, "M1", key + ":every-input", w, at == {ii: 1} and k == 1 if set(at) <= {ii} else None, "not every input is taken")
        if O is not None:
            c = counted(f, M)
            if c:
                tri(R, "M1", key + ":every-input", w, bool(c[3]) and c[2] == 0 or None, "")
            for T in bodies(f, O):
                ao = advs(T, "out")
                if T.end == "stop" and T.final_pred in O.body:
                    written = True
                    tri(R, "M1", key + ":row", w, len(ao) == 1, "a merged row is written %d times" % len(ao))
                elif T.end == "ret":
                    tri(R, "M1", key + ":row-partial", w, not ao, "a row is written although an input has ended")
        if not written:
            tri(R, "M1", key + ":row", w, None if list(f.calls(r"for_each|Row_::writeRow$")) else False, "no merged row is written")
        input_end(R, f, key, w, M, O, o, ii, cn)


def same_ix(e, ii):
    """the element of `iterators` that e is of has the index ii"""
    xs = [uncast(bare(x[3])) for x in walk(("x", e)) if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"vector::(operator\[\]|at)$", x[1]) and len(x) > 3 and bare(x[2])[:2] == ("arg", 0)]
    if not xs:
        return None
    if all(x == ii for x in xs):
        return True
    return False if all(x[0] in ("c", "phi", "add") for x in xs) else None


def one_column(R, f, key, w, T, C, o, cn, ii, places):
    widths = [(s, uncast(s.val), s.truth) for s in T.steps if s.kind == "cond" and s.val[0] == "cmp"]
    fits = any(c[1] == "ult" and not t and (width_of(c[2], o) or (0,))[0] == "out" and (width_of(c[3], o) or (0,))[0] == "in" for s, c, t in widths)
    eq = any(c[1] == "eq" and t and {(width_of(c[2], o) or (0,))[0], (width_of(c[3], o) or (0,))[0]} == {"in", "out"} for s, c, t in widths)
    strs = [t for s, c, t in widths if c[1] == "eq" and c[3] == ("c", 3) and has(("x", c[2]), r"Column::type$")]
    cp = [s for s in T.calls(r"^std::(copy|copy_n)$|mem(cpy|move)")]
    st = [s for s in T.stores() if (place_of(s.addr, o) or (0,))[0] == "out"]
    inner = [L for L in loops(f) if L.body < C.body]
    val = [s for s in st if contains(("x", noid(s.val)), lambda x: x[0] in ("call", "vcall") and re.search(r"Row_::(data|operator\[\])$", x[1]) and side(x, o) == "in")]
    good = False
    for s in cp:
        a = [noid(x) for x in s.args]
        src, dst = (1, 0) if "mem" in s.q else (0, 2)
        ps, pd = place_of(a[src], o), place_of(a[dst], o)
        if not ps or not pd:
            tri(R, "M1", key + ":copy", f.loc(s.i), None, "")
            good = None
            continue
        tri(R, "M1", key + ":copy", f.loc(s.i), ps[0] == "in" and pd[0] == "out" if None not in (ps[0], pd[0]) else None, "a merged value is not the input's")
        tri(R, "M1", key + ":copy-column", f.loc(s.i), ps[1] == cn, "the value of another column is taken")
        tri(R, "M1", key + ":copy-input", f.loc(s.i), same_ix(a[src], ii), "the value of another input is taken")
        places.add(pd[1])
        n = count_of(s, a)
        if n is None:
            tri(R, "M1", key + ":copy-width", f.loc(s.i), None, "")
        else:
            wd = width_of(n, o)
            ok = wd is not None and (wd == ("in", cn) or wd[0] == "out" and (eq or wd[1] == pd[1] and False))
            tri(R, "M1", key + ":copy-width", f.loc(s.i), ok if wd is not None or n[0] == "c" else None, "a value is not taken in its whole width")
        good = True
    if good is False:
        if val and not inner:
            tri(R, "M1", key + ":copy-width", w, False, "only the first eight bytes of a value are taken")
            for s in val:
                places.add(place_of(s.addr, o)[1])
        else:
            tri(R, "M1", key + ":copy", w, None if inner or T.calls(r"std::") else False, "a column is not taken")
        return
    if good is None:
        return
    tri(R, "M2", key + ":fits", w, fits or eq or None if not widths else (fits or eq), "a value wider than the output's column is written over the next columns")
    fl = T.calls(r"^std::(fill|fill_n)$|memset|bzero")
    tri(R, "M1", key + ":rest", w, bool(fl) or eq or (None if inner else False), "a value narrower than the output's column keeps the rest of an earlier row's")
    for s in fl:
        if s.q.endswith("fill") and len(s.args) > 2:
            v = uncast(s.arg(2))
            if v[0] in ("c", "f"):
                tri(R, "M1", key + ":rest0", f.loc(s.i), v == ("c", 0) or v[0] == "f" and float(v[1]) == 0, "the rest of a string is not cleared")
            lo = place_of(strip_idx(noid(s.args[0])), o)
            if lo and noid(s.args[0]) != strip_idx(noid(s.args[0])):
                k = uncast(bare(bare(noid(s.args[0]))[2]))
                wd = width_of(k, o)
                tri(R, "M1", key + ":rest-from", f.loc(s.i), wd == ("in", cn) if wd else False if k[0] == "c" else None, "clearing the rest does not start behind the value")
            elif lo:
                tri(R, "M1", key + ":rest-from", f.loc(s.i), not cp or T.index(s) < T.index(cp[0]), "the value itself is cleared")
    miss = [s.truth for s in T.steps if s.kind == "cond" and uncast(s.val)[0] in ("call", "vcall") and re.search(r"::isMissing$", uncast(s.val)[1])]
    mi = [s for s in T.steps if s.kind == "cond" and uncast(s.val)[0] in ("call", "vcall") and re.search(r"::isMissing$", uncast(s.val)[1])]
    for s in mi:
        e = noid(uncast(s.val))
        tri(R, "M1", key + ":missing-of", w, (side(e, o), uncast(bare(e[3])) if len(e) > 3 else None) == ("in", cn) if side(e, o) else None, "another value is asked whether it is missing")
    ms = [s for s in st if contains(("x", noid(s.val)), lambda x: x[0] in ("call", "vcall") and x[1].endswith("missingValue"))]
    if miss and miss[-1]:
        tri(R, "M1", key + ":missing", w, bool(ms) or (True in strs), "a missing value does not stay missing")
        for s in ms:
            v = noid(s.val)
            tri(R, "M1", key + ":missing-value", f.loc(s.i), side(v, o) == "out" if side(v, o) else None, "a missing value becomes another input's missing value")
            pl = place_of(s.addr, o)
            if pl and cp:
                tri(R, "M1", key + ":missing-place", f.loc(s.i), pl[1] in places, "another column is made missing")
                tri(R, "M1", key + ":missing-order", f.loc(s.i), T.index(s) > T.index(cp[-1]), "the missing value is written over again")
    elif miss:
        tri(R, "M1", key + ":kept", w, not ms, "a value becomes missing")
    else:
        tri(R, "M1", key + ":missing", w, True if True in strs else None if T.calls(r"issing") else False, "a missing value does not stay missing")


def strip_idx(e):
    e = bare(e)
    while e[0] == "idx":
        e = bare(e[1])
    return e


def count_of(s, a):
    if s.q.endswith("copy_n"):
        return uncast(a[1])
    if "mem" in s.q:
        at, k = linear(uncast(a[2]))
        if len(at) == 1 and k == 0 and list(at.values()) == [8]:
            return next(iter(at))
        return None if at else ("c", k // 8)
    e = bare(a[1])
    if e[0] == "idx" and bare(e[1]) == bare(a[0]):
        return uncast(bare(e[2]))
    return None


def running_place(R, f, key, w, C, CT, O, places, rows):
    """the output's place runs on over columns and inputs and starts anew with every row"""
    bad = "the columns of the inputs do not follow each other in the output"
    if len(places) != 1:
        tri(R, "M1", key + ":place", w, None if len(places) < 2 else False, bad)
        return
    v = next(iter(places))
    if v[0] != "phi":
        tri(R, "M1", key + ":place", w, False if v[0] == "c" else None, bad)
        return
    mine = [h for h in header_phis(C) if h.id == v[1]]
    if not mine:
        tri(R, "M1", key + ":place", w, None, "")
        return
    for T in CT:
        if T.end != "stop":
            continue
        nx = next_phi(T, C, v[1])
        if nx is None:
            continue
        nx = uncast(strip_ids(nx))
        at, k = linear(nx)
        if T.final_pred in C.body:
            tri(R, "M1", key + ":place", w, (at == {v: 1} and k == 1) if set(at) <= {v} else None, bad)
        elif rows(T):
            tri(R, "M1", key + ":place-0", w, nx == ("c", 0) if set(at) <= {v} else None, "a row of the output does not start with its first column")
        else:
            tri(R, "M1", key + ":place-on", w, at == {v: 1} and k == 0 if set(at) <= {v} else None, bad)
    for b, e in phi_parts(C, mine[0])[0]:
        e = uncast(strip_ids(e))
        if e[0] == "phi" and e != v:
            for h in [h for L in loops(f) for h in header_phis(L)]:
                if h.id == e[1]:
                    L = next(L for L in loops(f) if any(x.id == h.id for x in header_phis(L)))
                    for b2, x in phi_parts(L, h)[0]:
                        x = uncast(strip_ids(x))
                        tri(R, "M1", key + ":place-0", w, x == ("c", 0) if x[0] == "c" else None, "a row of the output does not start with its first column")
                    for T in bodies(f, L):
                        if T.end == "stop" and T.final_pred in L.body and rows(T):
                            n0 = next_phi(T, L, h.id)
                            n0 = uncast(strip_ids(n0)) if n0 is not None else None
                            if n0 is not None:
                                tri(R, "M1", key + ":place-0", w, n0 == ("c", 0) if n0[0] == "c" or n0 == ("phi", h.id) else None, "a row of the output does not start with its first column")
                    nxt = {uncast(strip_ids(x)) for b2, x in phi_parts(L, h)[1]}
                    if nxt and all(x == ("c", 0) for x in nxt):
                        tri(R, "M1", key + ":place-on", w, False, bad)
        elif e[0] == "c":
            tri(R, "M1", key + ":place-0", w, e == ("c", 0), "a row of the output does not start with its first column")


def input_end(R, f, key, w, M, O, o, ii, cn):
    """an input is read only if it has not ended, and a changed layout is refused"""
    end_seen = new_seen = False
    for L in [x for x in (M, O) if x is not None] + [l for l in loops(f) if l.body < M.body]:
        for T in bodies(f, L):
            for k, s in enumerate(T.steps):
                if s.kind != "cond":
                    continue
                e = uncast(s.val)
                if e[0] == "call" and re.search(r"IteratorProxy::operator(!=|==)$", e[1]) and side(noid(e), o) == "in" or e[0] == "call" and re.search(r"operator(!=|==)$", e[1]) and has(("x", e), r"vector::operator\[\]$", lambda x: bare(x)[:2] == ("arg", 0)):
                    end_seen = True
                    more = s.truth == e[1].endswith("!=")
                    after = [t for t in T.steps[k + 1:] if t.kind == "call" and re.search(r"Row_::(data|isNewDataset|isMissing)$", t.q)]
                    if not more:
                        nxt = after and not any(c.kind == "cond" and uncast(c.val)[0] == "call" and re.search(r"operator(!=|==)$", uncast(c.val)[1]) for c in T.steps[k + 1:T.index(after[0])])
                        tri(R, "M1", key + ":ended", w, not nxt, "a row is read from an input that has ended")
                    sides = sorted({x[2] for x in walk(("x", e)) if isinstance(x, tuple) and x[:1] == ("fld",) and x[2] in ("first", "second")})
                    if sides and len(sides) == 1:
                        tri(R, "M1", key + ":end-of", w, False, "an input's end is not looked for")
                    xs = {uncast(bare(x[3])) for x in walk(("x", e)) if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"vector::(operator\[\]|at)$", x[1]) and len(x) > 3}
                elif e[0] in ("call", "vcall") and re.search(r"::isNewDataset$", e[1]) and s.truth:
                    new_seen = True
                    eq = [t.truth == (not uncast(t.val)[1].endswith("!=")) for t in T.steps[k + 1:] if t.kind == "cond" and uncast(t.val)[0] == "call" and re.search(r"MetaData::(equals|operator==|operator!=|compatible)$", uncast(t.val)[1])]
                    if T.end != "throw":
                        nextnew = [t for t in T.steps[k + 1:] if t.kind == "cond"]
                        tri(R, "M2", key + ":changed", w, True in eq if eq else False if not T.calls(r"MetaData::|std::operator(!=|==)") and not list(f.calls(r"MetaData::(equals|operator==|operator!=)$")) else None if not list(f.calls(r"MetaData::(equals|operator==|operator!=)$")) else (True in eq), "a layout that changes within an input is not noticed")
    tri(R, "M1", key + ":ends", w, True if end_seen else None, "")
    if not new_seen:
        tri(R, "M2", key + ":changed", w, None if list(f.calls(r"MetaData::(equals|operator==|operator!=)$")) or list(f.calls(r"isNewDataset$")) else False, "a layout that changes within an input is not noticed")


# ------------------------------------------------------------------------------------------------ M2
def merge_columns(P, R):
    for f in domerge(P):
        key, w = mkey(f), f.where()
        o = out_of(f)
        Ls = holder(f, r"MetaData::(operator\+=|addColumnPtr|addColumn)$")
        if not Ls or o is None:
            tri(R, "M2", key, w, None, "")
            continue
        A = Ls[0]
        c = counted(f, A)
        its = [T for T in bodies(f, A) if T.end == "stop" and T.final_pred in A.body]
        if c and contains(("x", c[1]), lambda x: x[:2] == ("arg", 0)):
            tri(R, "M2", key + ":every", w, c[2] == 0 and bool(c[3]), "the columns of not every input are taken")
        for T in its:
            add = T.calls(r"MetaData::(operator\+=)$")
            if not add:
                continue
            setc = [s for s in T.calls(r"Row_::columns$") if len(s.args) > 1]
            onto = add[0]
            tri(R, "M2", key + ":added", w, len(add) == 1, "the columns of an input are taken %d times" % len(add))
            src = ori(T, raw(onto, 1), f)
            dst = ori(T, raw(onto, 0), f)
            if src is not None:
                s_ = side(src, o)
                tri(R, "M2", key + ":in-order", f.loc(onto.i), s_ == "in" if s_ else None, "the inputs' columns come before those of the output")
            if dst is not None:
                d_ = side(dst, o)
                tri(R, "M2", key + ":kept", f.loc(onto.i), d_ == "out" if d_ else None, "the columns of earlier inputs are left out")
            tri(R, "M2", key + ":set", w, len(setc) == 1 and T.index(setc[0]) > T.index(onto) if setc else None if side(raw(onto, 0), o) == "out" else False, "the columns of the output are not set")
        dup = list(f.calls(r"MetaData::(hasColumn|columnExists)$"))
        tri(R, "M2", key + ":duplicate-asked", w, True if dup else None if list(f.calls(r"set::|map::|MetaData::columnIndex$")) else False, "a column of two inputs is not refused")
        for D in [L for L in loops(f) if any(i.blk in L.body for i in dup)][-1:]:
            dc = counted(f, D)
            D = min([L for L in loops(f) if any(i.blk in L.body for i in dup)], key=lambda L: len(L.body))
            dc = counted(f, D)
            if dc:
                tri(R, "M2", key + ":duplicate-all", w, dc[2] == 0 and bool(dc[3]), "not every column is looked for among the earlier inputs")
            for T in bodies(f, D):
                for s in T.steps:
                    e = uncast(s.val) if s.kind == "cond" else ("x",)
                    if e[0] == "call" and re.search(r"MetaData::hasColumn$", e[1]):
                        if any(isinstance(x, tuple) and x and x[0] == "call" and re.search(r"vector::(operator\[\]|at)$", x[1]) and len(x) > 3 and uncast(bare(x[3]))[0] == "c" for x in walk(("x",) + e[3:])):
                            tri(R, "M2", key + ":duplicate-all", w, False, "not every column is looked for among the earlier inputs")
                        if T.end != "throw" and s.truth:
                            tri(R, "M2", key + ":duplicate", w, False, "a column of two inputs is not refused")
                        elif T.end != "throw":
                            tri(R, "M2", key + ":duplicate", w, True, "")
        # header after the columns and before the rows
        hd = list(f.calls(r"Row_::writeHeader$"))
        tri(R, "M2", key + ":header", w, len(hd) >= 1 and all(h.blk not in A.body for h in hd), "the columns are not written once, when all are known")
        for h in hd:
            rows = [i for i in f.calls(r"Row_::data$|Row_::isNewDataset$")]
            tri(R, "M2", key + ":header-first", f.loc(h), all(not f.may_follow(i, h) or h.blk == i.blk and False for i in rows) if rows else None, "rows are written before the columns")


def ori(T, e, f, d=4):
    """what the object e was copied from on the trace"""
    e = bare(e)
    if d <= 0 or root(e)[0] != "alloca":
        return e
    a = e
    while a[0] == "idx" and a[2] == ("c", 8):
        a = bare(a[1])
    for s in T.steps:
        if s.kind == "call" and re.search(r"MetaData::(MetaData|operator=)$", s.q) and len(s.args) > 1 and raw(s, 0) == a:
            return ori(T, raw(s, 1), f, d - 1)
    return e


# ------------------------------------------------------------------------------------------------ M3
def merge_inputs(P, R):
    for f in fns(P, r"MergeTool::merge\("):
        sqls = len(f.args) > 2
        key, w = "merge" + ("(sql)" if sqls else ""), f.where()
        RD = r"Select::Select$" if sqls else r"Reader::Reader$"
        rs = [r for r in ranges(f) if any(i.blk in r.L.body for i in f.calls(RD))]
        if not rs:
            tri(R, "M3", key, w, None, "")
        for r in rs[:1]:
            tri(R, "M3", key + ":every", w, r.start == 0 and r.full and not r.breaks if bare(r.cont)[:1] == ("arg",) else None, "not every input file is read")
            for T in bodies(f, r.L):
                if not whole(r.L, T):
                    continue
                rd = T.calls(RD)
                tri(R, "M3", key + ":once", w, len(rd) == 1, "an input is opened %d times" % len(rd))
                for s in rd:
                    if sqls:
                        q, h = s.arg(1), noid(s.args[2])
                        own = contains(("x", q), lambda x: x == uncast(r.it)) or r.elem(q)
                        tri(R, "M3", key + ":query", f.loc(s.i), elem_ix(q, 1) == uncast(r.it) if elem_ix(q, 1) is not None else False if not own and has(("x", q), r"vector::(front|back)$") else None, "an input is read with another input's query")
                        hx = [uncast(bare(x[3])) for x in walk(("x", h)) if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"vector::(operator\[\]|at)$", x[1]) and len(x) > 3]
                        if hx and all(x[0] in ("c", "phi", "add") for x in hx):
                            tri(R, "M3", key + ":file", f.loc(s.i), all(x == uncast(r.it) for x in hx), "a query reads another input's file")
                    else:
                        p = s.arg(1)
                        tri(R, "M3", key + ":file", f.loc(s.i), elem_ix(p, 0) == uncast(r.it) if elem_ix(p, 0) is not None else r.elem(p) or None, "another file is read")
                for s in T.calls(r"FileHandle::FileHandle$"):
                    p = s.arg(1)
                    if elem_ix(p, 0) is not None:
                        tri(R, "M3", key + ":file", f.loc(s.i), elem_ix(p, 0) == uncast(r.it), "another file is read")
                mk = T.calls(r"^std::(make_pair|pair::pair)$")
                ps = [s for s in T.calls(r"vector::(push_back|emplace_back)$") if re.search("iterator", repr(raw(s, 0)))]
                for s in mk[:1]:
                    a = [s.arg(k) for k in range(1, len(s.args))]
                    names = [x[1].split("::")[-1] for e in a for x in [uncast(e)] if x[0] == "call"]
                    if len(names) == 2 and set(names) <= {"begin", "end"}:
                        tri(R, "M3", key + ":limits", f.loc(s.i), names == ["begin", "end"], "an input is not read from its first row to its last")
                    xs = [uncast(bare(x[3])) for e in s.args[1:] for x in walk(("x", strip_ids(s.full(e)))) if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"vector::(operator\[\]|at)$", x[1]) and len(x) > 3]
                    if xs and all(x[0] in ("c", "phi", "add") for x in xs):
                        tri(R, "M3", key + ":own", f.loc(s.i), all(x == uncast(r.it) for x in xs), "the rows of another input are taken")
        for i in f.calls(r"doMerge$|doMerge<"):
            a = bare(f.expr(i["o"][-1]))
            tri(R, "M3", key + ":out", f.loc(i), a[:2] == ("arg", 2 if sqls else 1) if a[0] == "arg" else None, "another file is written")
    for f in fns(P, r"MergeTool::run\("):
        key, w = "MergeTool::run", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            none = any(c[:2] == ("cmp", "eq") and t and c[3] == ("c", 0) and contains(c, lambda x: x == F("inputFiles_")) for c, t in T.conds())
            ms = T.calls(r"MergeTool::merge$|doMerge$")
            if none and not ms:
                continue
            flag = [t for c, t in T.conds() if uncast(c) == LD("sqlFiltering_")]
            tri(R, "M3", key + ":once", w, len(ms) == 1, "the inputs are merged %d times" % len(ms))
            for s in ms:
                a = [bare(x) for x in s.args]
                a = a[1:] if a and a[0] == THIS else a
                withsql = F("sql_") in a
                if flag:
                    tri(R, "M3", key + ":query", f.loc(s.i), withsql == flag[-1], "the queries are not used exactly if -S is given")
                tri(R, "M3", key + ":names", f.loc(s.i), a[0] == F("inputFiles_") and a[-1] == F("outputFile_") if F("inputFiles_") in a and F("outputFile_") in a else None, "inputs and output are mixed up")
    for f in fns(P, r"MergeTool::MergeTool\(int"):
        merge_ctor(R, f)


def elem_ix(e, k):
    """index of the element of parameter k that e is"""
    for x in walk(("x", e)):
        if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"vector::(operator\[\]|at)$", x[1]) and len(x) > 3 and bare(x[2])[:2] == ("arg", k):
            return uncast(bare(x[3]))
    return None


def merge_ctor(R, f):
    key, w = "MergeTool", f.where()
    for T in tr_(f) or []:
        if T.end != "ret":
            continue
        reg = T.calls(r"registerOptionWithArgument$")
        par = T.calls(r"CommandLineParser::(parameters|optionIsSet|optionArgument)$")
        tri(R, "M3", key + ":option", w, bool(reg) and (not par or T.index(reg[0]) < T.index(par[0])), "the argument of -o is taken for an input file")
    rs = [r for r in ranges(f) if any(i.blk in r.L.body for i in f.calls(r"vector::(push_back|emplace_back)$"))]
    for L in holder(f, r"vector::(push_back|emplace_back)$")[:1]:
        phis = {("phi", h.id): h for h in header_phis(L)}
        for T in bodies(f, L):
            if T.end not in ("stop",) or T.final_pred not in L.body:
                continue
            pf = [s for s in T.calls(r"vector::(push_back|emplace_back)$") if raw(s, 0) == F("inputFiles_")]
            pq = [s for s in T.calls(r"vector::(push_back|emplace_back)$") if raw(s, 0) == F("sql_")]
            flag = [t for c, t in T.conds() if uncast(c) == LD("sqlFiltering_")]
            tri(R, "M3", key + ":inputs", w, len(pf) == 1, "a parameter is taken for %d input files" % len(pf))
            if flag:
                tri(R, "M3", key + ":queries", w, len(pq) == int(flag[-1]), "the query after an input file is not taken exactly if -S is given")
            for p, h in phis.items():
                nx = next_phi(T, L, p[1])
                if nx is None or not any(contains(("x", s.arg(1)), lambda x: x == p) for s in pf):
                    continue
                at, k = linear(strip_ids(nx))
                if set(at) == {p} and flag:
                    tri(R, "M3", key + ":step", w, k == (2 if flag[-1] else 1), "a parameter is left out or taken twice")
                ent = [uncast(strip_ids(e)) for b, e in phi_parts(L, h)[0]]
                if ent and all(e[0] == "c" for e in ent):
                    tri(R, "M3", key + ":first", w, all(e == ("c", 1) for e in ent), "the first input file is left out, or the tool's name taken for one")


# ------------------------------------------------------------------------------------------------ S1
UPD = r"^odc::ODAUpdatingIterator<[^()]*>::"


def upd(P, name):
    return [f for f in fns(P, UPD + name) if not f.dem.startswith("odc::Row_")]


def whole_row(s, f):
    """the call copies the input's whole row into data_"""
    a = [bare(noid(x)) for x in s.args]
    if s.q.endswith("copy_n"):
        src, n, dst = a[0], uncast(a[1]), a[2]
    elif "mem" in s.q:
        at, k = linear(uncast(a[2]))
        n = next(iter(at)) if len(at) == 1 and k == 0 and list(at.values()) == [8] else ("?",)
        src, dst = a[1], a[0]
    else:
        src, dst = a[0], a[2]
        e = a[1]
        n = uncast(bare(e[2])) if e[0] == "idx" and strip_ids(bare(e[1])) == strip_ids(src) else ("?",)
    if uncast(dst) != LD("data_") or not has(("x", src), r"::data$"):
        return None
    if n == LD("rowDataSizeDoubles_"):
        return True
    return False if n[0] == "c" or has(("x", n), r"::size$") else None


def set_rows(P, R):
    COPY = r"^std::(copy|copy_n)$|mem(cpy|move)"
    UP, IX = r"ODAUpdatingIterator::update$", r"ODAUpdatingIterator::updateIndices$"

    def moved(T):
        return [s for s in T.calls(ADV) if raw(s, 0) == F("ii_")]

    def taken(R, key, w, T, f, fresh):
        cp, up, ix = T.calls(COPY), T.calls(UP), T.calls(IX)
        tri(R, "S1", key + ":copied", w, len(cp) == 1 if cp or not [L for L in loops(f)] else None, "a row is not taken from the input")
        tri(R, "S1", key + ":updated", w, len(up) >= 1, "a row does not get the new values")
        if cp:
            tri(R, "S1", key + ":whole", f.loc(cp[0].i), whole_row(cp[0], f), "a row is not taken whole")
            if up:
                tri(R, "S1", key + ":order", w, T.index(cp[0]) < T.index(up[-1]), "the new values are overwritten by the input's")
            if fresh is not None:
                tri(R, "S2", key + ":places", w, bool(ix) and T.index(ix[-1]) < T.index(cp[0]) if fresh else True, "rows of a table with another layout are changed at the places of the previous one")
    for f in upd(P, r"next\("):
        key, w = "next", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            over = [t for c, t in T.conds() if uncast(c) == LD("noMore_")]
            adv = moved(T)
            if over and over[-1]:
                tri(R, "S1", key + ":over", w, not adv, "the input is read beyond its end")
                continue
            tri(R, "S1", key + ":once", w, len(adv) == 1, "the input is advanced by %d rows for a row" % len(adv))
            more = [s.truth == uncast(s.val)[1].endswith("!=") for s in T.steps if s.kind == "cond" and uncast(s.val)[0] == "call" and re.search(r"operator(!=|==)$", uncast(s.val)[1])]
            if not more:
                tri(R, "S1", key + ":end", w, None, "")
                continue
            nm = T.field("noMore_")
            if nm is not None:
                v, neg = uncast(nm), False
                while v[0] == "not":
                    v, neg = uncast(v[1]), not neg
                k = known(v)
                val = None
                if k is not None:
                    val = k != neg
                elif v[0] == "call" and re.search(r"operator(!=|==)$", v[1]):
                    val = (more[-1] == v[1].endswith("!=")) != neg
                tri(R, "S1", key + ":more", w, val == (not more[-1]) if val is not None else None, "the end of the input is not remembered")
            elif not more[-1]:
                tri(R, "S1", key + ":more", w, False if not T.stores("noMore_") else None, "the end of the input is not remembered")
            if more[-1]:
                new = [s.truth for s in T.steps if s.kind == "cond" and uncast(s.val)[0] in ("call", "vcall") and re.search(r"::isNewDataset$", uncast(s.val)[1])]
                taken(R, key, w, T, f, new[-1] if new else (True if not T.calls(IX) else None) if not list(f.calls(r"isNewDataset$")) else None)
            else:
                tri(R, "S1", key + ":past", w, not [s for s in T.calls(COPY)], "a row is read beyond the end")
    for f in upd(P, r"ODAUpdatingIterator\("):
        if len(f.args) < 4:
            continue
        key, w = "ctor", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            more = [s.truth == uncast(s.val)[1].endswith("!=") for s in T.steps if s.kind == "cond" and uncast(s.val)[0] == "call" and re.search(r"IteratorProxy::operator(!=|==)$", uncast(s.val)[1])]
            if more and more[-1]:
                taken(R, key, w, T, f, True)
                tri(R, "S1", key + ":stays", w, not moved(T), "the first row is left out")
            for s in T.calls(r"(vector|IteratorProxy)::(vector|IteratorProxy)$"):
                d = raw(s, 0)
                if d in (F("columns_"), F("values_"), F("ii_")) and len(s.args) > 1:
                    want = {"columns_": 3, "values_": 4, "ii_": 1}[d[2]]
                    a = raw(s, 1)
                    tri(R, "S1", key + ":" + d[2], f.loc(s.i), a[:2] == ("arg", want) if a[0] == "arg" else None, "names, values and rows are mixed up")
    for f in upd(P, r"(data|columns|isNewDataset)\(\)"):
        nm = re.search(r"::(\w+)\(\)$", f.dem.replace(" const", "")).group(1)
        for T in tr_(f) or []:
            if T.end != "ret" or T.ret is None:
                continue
            v = uncast(strip_ids(T.ret))
            if nm == "data":
                tri(R, "S1", "data", f.where(), True if v == LD("data_") else False if has(("x", v), r"::data$") else None, "the row handed out is not the changed one")
            else:
                tri(R, "S1", nm, f.where(), True if has(("x", v), r"::%s$" % nm) and contains(v, lambda x: x == F("ii_")) else False if v[0] == "c" else None, "what the input says of its %s is not passed on" % nm)
    for f in upd(P, r"update\("):
        key, w = "update", f.where()
        Ls = [L for L in loops(f)]
        rs = [r for r in ranges(f)]
        if not rs:
            tri(R, "S1", key, w, None if Ls or list(f.calls(r"for_each")) else False, "the new values are not written")
            continue
        r = rs[0]
        tri(R, "S1", key + ":all", w, r.start == 0 and r.full and not r.breaks if bare(r.cont) in (F("columnOffsets_"), F("columns_"), F("values_"), F("columnSizes_")) else None, "not every column named is changed")
        for T in bodies(f, r.L):
            if not whole(r.L, T):
                continue
            st = [s for s in T.stores() if bare(s.addr)[0] == "idx" and uncast(bare(bare(s.addr)[1])) == LD("data_")]
            if not st:
                tri(R, "S1", key + ":written", w, None if T.calls(r"std::") else False, "the new values are not written")
                continue
            for s in st:
                at = uncast(strip_ids(bare(s.addr)[2]))
                v = uncast(strip_ids(s.full(s.val)))
                ok = at[0] == "ld" and elem(at[1], F("columnOffsets_"), r.it)
                tri(R, "S1", key + ":place", f.loc(s.i), ok if at[0] in ("ld", "phi", "c") else None, "the new value is not written at its column's place")
                if v[0] == "ld" and has(("x", v), r"operator\[\]$"):
                    tri(R, "S1", key + ":value", f.loc(s.i), elem(v[1], F("values_"), r.it), "a column gets another column's value")
            fl = T.calls(r"^std::(fill|fill_n)$|memset|bzero")
            tri(R, "S1", key + ":rest", w, True if fl else None if [L for L in Ls if L.body < r.L.body] else False, "the rest of a wide string keeps its old characters")
            for s in fl:
                if s.q.endswith("fill"):
                    a, b = bare(noid(s.args[0])), bare(noid(s.args[1]))
                    v = uncast(s.arg(2))
                    tri(R, "S1", key + ":rest0", f.loc(s.i), v == ("c", 0) or v[0] == "f" and float(v[1]) == 0 if v[0] in ("c", "f") else None, "the rest of a wide string is not cleared")
                    if a[0] == "idx" and b[0] == "idx":
                        ka, kb = uncast(strip_ids(a[2])), uncast(strip_ids(b[2]))
                        if strip_ids(bare(a[1])) == strip_ids(bare(b[1])):
                            tri(R, "S1", key + ":rest-from", f.loc(s.i), ka == ("c", 1) if ka[0] == "c" else None, "clearing the rest reaches other values")
                            if kb[0] == "ld" and has(("x", kb), r"operator\[\]$"):
                                tri(R, "S1", key + ":rest-to", f.loc(s.i), elem(kb[1], F("columnSizes_"), r.it), "clearing the rest reaches other values")
                            elif kb[0] == "c":
                                tri(R, "S1", key + ":rest-to", f.loc(s.i), False, "clearing the rest reaches other values")


def elem(e, cont, it):
    """element `it` of cont"""
    e = bare(e)
    if e[0] == "call" and re.search(r"vector::(operator\[\]|at)$", e[1]) and len(e) > 3:
        return bare(e[2]) == cont and uncast(bare(e[3])) == uncast(it)
    return None


# ------------------------------------------------------------------------------------------------ S2
def set_places(P, R):
    bad = "a column's place is not the sum of the widths of the columns before it"
    for f in upd(P, r"updateIndices\("):
        key, w = "updateIndices", f.where()
        Ls = loops(f)
        WD = [L for L in Ls if any(i.blk in L.body for i in f.calls(r"Column::dataSizeDoubles$")) and not any(i.blk in L.body for i in f.calls(r"MetaData::columnIndex$"))]
        WD = WD or [L for L in Ls if not any(i.blk in L.body for i in f.calls(r"MetaData::columnIndex$"))]
        for L in WD[:1]:
            c = counted(f, L)
            if not c:
                tri(R, "S2", key, w, None, "")
                continue
            tri(R, "S2", key + ":all", w, c[2] == 0 and bool(c[3]), "the widths of not every column count")
            ix = uncast(c[0])
            for T in bodies(f, L):
                if not whole(L, T):
                    continue
                st = [s for s in T.stores() if has(("x", noid(s.addr)), r"vector::operator\[\]$") and root(noid(s.addr))[0] != "arg" or s.addr[0] == "call"]
                off = [s for s in T.stores() if bare(noid(s.addr))[0] == "call" and bare(noid(s.addr))[1].endswith("operator[]")]
                for s in off:
                    a = bare(noid(s.addr))
                    tri(R, "S2", key + ":at", f.loc(s.i), uncast(bare(a[3])) == ix if uncast(bare(a[3]))[0] in ("phi", "c", "add") else None, "the place of another column is set")
                    v = uncast(strip_ids(s.full(s.val)))
                    width_acc(R, f, key, w, T, L, v, s, ix, bad)
                if not off:
                    tri(R, "S2", key + ":place", w, None, "")
        NM = [L for L in Ls if any(i.blk in L.body for i in f.calls(r"MetaData::columnIndex$"))]
        for L in NM[:1]:
            c = counted(f, L)
            if not c:
                tri(R, "S2", key, w, None, "")
                continue
            tri(R, "S2", key + ":names", w, c[2] == 0 and bool(c[3]) if contains(("x", c[1]), lambda x: x[:1] == ("fld",) and x[2] in ("columns_", "values_", "columnOffsets_", "columnSizes_")) else None, "not every column named is looked up")
            ix = uncast(c[0])
            for T in bodies(f, L):
                if not whole(L, T):
                    continue
                ci = T.calls(r"MetaData::columnIndex$")
                for s in ci:
                    a = bare(noid(s.args[1]))
                    if a[0] == "call" and a[1].endswith("operator[]"):
                        tri(R, "S2", key + ":named", f.loc(s.i), uncast(bare(a[3])) == ix and bare(a[2]) == F("columns_"), "another name is looked up")
                for nm, wantw in (("columnOffsets_", False), ("columnSizes_", True)):
                    st = [s for s in T.stores() if elem(noid(s.addr), F(nm), ix) is not None and bare(bare(noid(s.addr))[2]) == F(nm)]
                    tri(R, "S2", key + ":" + nm, w, len(st) == 1 if st or not T.calls(r"(copy|transform)$") else None, "the place of a column named is not kept")
                    for s in st:
                        tri(R, "S2", key + ":%s-at" % nm, f.loc(s.i), elem(noid(s.addr), F(nm), ix), "the place is kept for another column")
                        v = uncast(noid(s.val))
                        idx = [uncast(bare(x[3])) for x in walk(("x", noid(s.full(s.val)))) if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"(vector|MetaData)::(operator\[\]|at)$", x[1]) and len(x) > 3]
                        idx = [x for x in idx if x != ix]
                        byname = any(x[0] == "call" and x[1].endswith("columnIndex") for x in idx)
                        if wantw:
                            tri(R, "S2", key + ":size", f.loc(s.i), True if byname and has(("x", v), r"dataSizeDoubles$") else False if v[0] == "c" or not idx and has(("x", v), r"dataSizeDoubles$") else None, "the width kept is not that of the column named")
                        else:
                            direct = v[0] == "call" and v[1].endswith("columnIndex")
                            tri(R, "S2", key + ":offset", f.loc(s.i), True if byname else False if direct or not idx and v[0] == "ld" else None, bad)
        for T in tr_(f) or []:
            if T.end == "ret":
                nw = T.calls(r"^operator new\[\]$")
                tri(R, "S2", key + ":room", w, len(nw) >= 1 if nw or not T.calls(r"resize|make_unique|Buffer") else None, "the row keeps the size of the previous table's")
        for i in f.calls(r"^operator new\[\]$"):
            e = f.expr(i["o"][0])
            tri(R, "S2", key + ":room", f.loc(i), True if contains(("x", e), lambda x: x == F("rowDataSizeDoubles_")) else False if has(("x", e), r"::size$") else None, "the row has not room for all values")
            tri(R, "S2", key + ":room-late", f.loc(i), all(not any(f.may_follow(i, j) for j in f.insts() if j.blk in L.body) for L in WD[:1]) if WD else None, "the row is allocated before its width is known") if False else None


def width_acc(R, f, key, w, T, L, v, s, ix, bad):
    """v: the sum so far, a field (or local variable) grown by the width of column ix after use"""
    if v[0] == "phi":
        for h in header_phis(L):
            if h.id == v[1]:
                nx = next_phi(T, L, v[1])
                if nx is not None:
                    step_by_width(R, "S2", key + ":place", f.loc(s.i), strip_ids(nx), v, lambda x: x == ix, bad)
                ent = [strip_ids(e) for b, e in phi_parts(L, h)[0]]
                tri(R, "S2", key + ":place-0", w, None if not ent else all(e == ("c", 0) for e in ent), bad)
        return
    if v[0] == "ld" and bare(v[1])[0] in ("fld", "alloca"):
        a = bare(v[1])
        st = [x for x in T.stores() if bare(noid(x.addr)) == a]
        if len(st) != 1:
            tri(R, "S2", key + ":place", f.loc(s.i), False if not st else None, bad)
            return
        tri(R, "S2", key + ":before", f.loc(s.i), T.index(st[0]) > T.index(s), bad)
        step_by_width(R, "S2", key + ":place", f.loc(st[0].i), strip_ids(st[0].full(st[0].val)), v, lambda x: x == ix, bad)
        pre = [x for T2 in tr_(f, stop={L.header}) or [] if T2.end == "stop" for x in [T2.last(v[1])]]
        tri(R, "S2", key + ":place-0", w, all(x == ("c", 0) for x in pre) if pre and all(x is not None for x in pre) else False if pre and a[0] == "fld" and all(x is None for x in pre) else None, bad)
        return
    at, k = linear(v)
    grown = [x for x in at if has(("x", x), r"dataSizeDoubles$")]
    tri(R, "S2", key + ":place", f.loc(s.i), False if v == ix or v[0] == "c" or grown and len(at) > 1 else None, bad)


# ------------------------------------------------------------------------------------------------ S3
def set_values(P, R):
    for f in fns(P, r"SetTool::run\("):
        key, w = "SetTool::run", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            fl, env = opt_flow(T)
            at = {id(s): e for s, e in fl}

            def given(s, k):
                v = env_of(at[id(s)], s, k)
                return v[0] if v else None
            rd, wr, pu, p1 = T.calls(r"Reader::Reader$"), T.calls(r"Writer::Writer$"), T.calls(r"parseUpdateList$"), T.calls(r"::pass1$")
            tri(R, "S1", key + ":rows", w, len(p1) == 1, "the rows are written %d times" % len(p1))
            for s, want, what in [(x, 2, "another file is read") for x in rd] + [(x, 3, "another file is written") for x in wr]:
                g = given(s, 1)
                if g:
                    tri(R, "S1", key + ":files", f.loc(s.i), g == ("param", want), what)
            for s in pu:
                g = given(s, 1) or given(s, 0)
                if g:
                    tri(R, "S1", key + ":list", f.loc(s.i), g == ("param", 1), "another parameter is taken for the update list")
            nparams(R, "S1", key, w, T, {4})
    for f in fns(P, r"ConstantSetter<[^()]*>::(begin|end)\(") + fns(P, r"ConstantSetter<[^()]*>::ConstantSetter\("):
        nm = re.sub(r".*::(\w+)\(.*", r"\1", f.dem.split(" const&")[0] if "ConstantSetter(" not in f.dem else "ctor")
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            for s in T.calls(r"ODAUpdatingIterator::ODAUpdatingIterator$"):
                a = [raw(s, k) for k in range(1, len(s.args))]
                if len(a) == 4 and all(x[0] in ("fld", "ld") for x in a):
                    names = [x[2] if x[0] == "fld" else bare(x[1])[2] if bare(x[1])[0] == "fld" else None for x in a]
                    tri(R, "S1", "ConstantSetter:begin", f.loc(s.i), names == ["ii_", "end_", "columns_", "values_"], "rows, names and values are mixed up")


def nparams(R, rule, key, w, T, allowed):
    """the number of parameters is one of those expected"""
    conds = [(s.val, s.truth) for s in T.steps if s.kind == "cond" and s.val[0] == "cmp" and s.val[2][0] == "call" and s.val[2][1].endswith("vector::size") and s.val[3][0] == "c"]
    conds = [(c, t) for c, t in conds if has(("x", T_full(T, c[2])), r"parameters$") or contains(c[2], lambda x: x[0] in ("alloca", "fld") and re.search(r"tmp|param", str(x[2])))]
    if not conds:
        tri(R, rule, key + ":parameters", w, None, "")
        return
    def ok(n):
        for c, t in conds:
            k = c[3][1]
            v = {"eq": n == k, "ult": n < k, "slt": n < k}.get(c[1])
            if v is not None and v != t:
                return False
        return True
    left = {n for n in range(0, 8) if ok(n)}
    tri(R, rule, key + ":parameters", w, left <= allowed if isinstance(allowed, set) else all(n >= allowed for n in left), "a wrong number of parameters is accepted")


def T_full(T, e):
    return e


def env_of(env, s, k):
    if k >= len(s.args):
        return None
    x = bare(s.args[k])
    for _ in range(6):
        if x in env:
            return env[x]
        if x[0] == "ld":
            x = bare(x[1])
        elif x[0] == "call" and len(x) > 2:
            if re.search(r"CommandLineParser::parameters$", x[1]) and len(x) > 4 and bare(x[4])[0] == "c":
                return (("param", bare(x[4])[1]), ())
            x = bare(x[2])
        else:
            return None
    return None


def set_list(P, R):
    for f in fns(P, r"SetTool::parseUpdateList\("):
        key, w = "SetTool::parseUpdateList", f.where()
        PB = r"vector::(push_back|emplace_back)$"
        Ls = holder(f, PB)
        if not Ls:
            tri(R, "S3", key, w, None, "")
            continue
        L = Ls[0]
        c = counted(f, L)
        if c:
            tri(R, "S3", key + ":all", w, c[2] == 0 and bool(c[3]), "not every assignment is used")
        B = [M for M in loops(f) if M.body < L.body]
        ts = [T for X in [L] + B for T in bodies(f, X) if T.end == "stop" and (T.final_pred in X.body)]
        ts += [T for X in B for T in bodies(f, X) if T.end == "stop" and T.final_pred in L.body and T.final_pred not in X.body]
        for T in ts:
            ps = T.calls(PB)
            pc = [s for s in ps if has_arg(raw(s, 0), 1) or has_arg(raw(s, 0), 2) and len(f.args) > 3]
            names = [s for s in ps if str_arg(raw(s, 0)) == "columns"]
            vals = [s for s in ps if str_arg(raw(s, 0)) == "values"]
            if not names and not vals:
                continue
            tri(R, "S3", key + ":pairs", w, len(names) == len(vals) == 1, "names and values do not belong together")
        for T in [T for T in bodies(f, L) if T.end == "stop"]:
            hexes = [t for l, t, e in str_tests(T) if l == "0x"] or [s.truth for s in T.steps if s.kind == "cond" and has(("x", s.val), r"::(find|compare|rfind|substr)$") and s.val[0] == "cmp"]
            tr = T.calls(r"StringTool::translate$|^odc::\w*translate$|::translate$")
            vals = [s for s in T.calls(PB) if str_arg(raw(s, 0)) == "values"]
            for s in vals:
                v = uncast(strip_ids(s.arg(1)))
                if hexes and not hexes[-1]:
                    other = v[0] in ("c", "f") or any(isinstance(x, tuple) and x and x[0] == "call" and len(x) > 2 and str_arg(x[2]) == "values" for x in walk(("x", v)))
                    tri(R, "S3", key + ":given", f.loc(s.i), False if other and not has(("x", v), r"translate$") else True if has(("x", v), r"translate$") else None, "another value than the one given is set")
                if tr:
                    tri(R, "S3", key + ":value", f.loc(s.i), has(("x", v), r"translate$") if v[0] in ("call", "c", "f") else None, "the value given is not the one set")
        # the hexadecimal bytes
        for M in B:
            st = []
            for T in bodies(f, M):
                if whole(M, T):
                    sb = T.calls(r"basic_string::substr$")
                    sv = T.calls(r"strtoul$|strtol$|stoul$|stoi$")
                    c2 = counted(f, M)
                    if not sb or not sv or not c2:
                        continue
                    ix = uncast(c2[0])
                    at, k = linear(uncast(noid(sb[0].args[2])))
                    tri(R, "S3", key + ":byte", f.loc(sb[0].i), at == {ix: 2} and k == 0 if set(at) <= {ix} else None, "the digits of another byte are taken")
                    n = uncast(sb[0].arg(3))
                    tri(R, "S3", key + ":digits", f.loc(sb[0].i), n == ("c", 2) if n[0] == "c" else None, "a byte does not have two digits")
                    b = uncast(sv[0].args[-1])
                    if b[0] == "c" and re.search("strto", sv[0].q):
                        tri(R, "S3", key + ":base", f.loc(sv[0].i), b in (("c", 16), ), "hexadecimal digits are read in another base")
                    for s in T.stores():
                        a = bare(noid(s.addr))
                        if a[0] == "idx" and a[3:] == ("i8",) and contains(("x", a[2]), lambda x: x == ix):
                            at, k = linear(uncast(a[2]))
                            tri(R, "S3", key + ":byte-at", f.loc(s.i), at == {ix: 1} and k == 0, "a byte is put in another place")


def str_arg(e):
    e = bare(e)
    return e[2] if e[0] == "arg" and len(e) > 2 else None


# ------------------------------------------------------------------------------------------------ X1
def table_loop(R, rule, key, f, rx):
    """the loop over all tables of a reader"""
    Ls = holder(f, r"ReadTablesIterator::operator\+\+$")
    if not Ls:
        tri(R, rule, key, f.where(), None, "")
        return None
    return Ls[-1]


def blocks(P, R):
    for f in fns(P, r"Indexer::offsetsOfBlocks\("):
        key, w = "offsetsOfBlocks", f.where()
        L = table_loop(R, "X1", key, f, None)
        if L is None:
            continue
        for T in bodies(f, L):
            if T.end == "throw":
                continue
            if whole(L, T):
                adv = T.calls(r"ReadTablesIterator::operator\+\+$")
                ps = T.calls(r"vector::(push_back|emplace_back)$")
                tri(R, "X1", key + ":next", w, len(adv) == 1, "tables are passed over")
                tri(R, "X1", key + ":each", w, len(ps) == 1, "a table gives %d entries" % len(ps))
                for s in ps:
                    # first: start; second: next - start
                    mk = T.calls(r"^std::make_pair$|pair::pair$")
                    if len(mk) == 1 and len(mk[0].args) > 2:
                        a, b = mk[0].arg(1), mk[0].arg(2)
                        pair(R, "X1", key, f, mk[0], a, b)
                    elif len(s.args) > 2:
                        pair(R, "X1", key, f, s, s.arg(1), s.arg(2))
                for s in T.calls(r"Table::(startPosition|nextPosition)$") if len(adv) == 1 else []:
                    t = [bare(x[2]) for a in s.args for x in walk(("x", noid(a))) if isinstance(x, tuple) and x and x[0] == "call" and x[1].endswith("ReadTablesIterator::operator->") and len(x) > 2]
                    if len(t) == 1 and t[0][0] == "alloca":
                        tri(R, "X1", key + ":of", f.loc(s.i), root(t[0]) == root(raw(adv[0], 0)), "the limits of another table are taken")
                if adv and T.calls(r"::(startPosition|nextPosition)$"):
                    tri(R, "X1", key + ":own", w, all(T.index(s) < T.index(adv[0]) for s in T.calls(r"Table::(startPosition|nextPosition)$")) or None, "")
            elif T.end == "ret":
                e = [s for s in T.steps if s.kind == "cond" and uncast(s.val)[0] == "call" and re.search(r"operator(!=|==)$", uncast(s.val)[1])]
                tri(R, "X1", key + ":all", w, bool(e) and e[-1].truth != uncast(e[-1].val)[1].endswith("!="), "the rest of the tables is left out")


def pair(R, rule, key, f, s, a, b):
    pos = lambda e: [x[1].split("::")[-1] for x in walk(("x", e)) if isinstance(x, tuple) and x and x[0] in ("call", "vcall") and re.search(r"Table::\w+$", x[1])]
    pa, pb = pos(a), pos(b)
    if pa:
        tri(R, rule, key + ":begin", f.loc(s.i), pa == ["startPosition"], "a block does not begin where its table does")
    if pb:
        d = [x for x in walk(("x", b)) if isinstance(x, tuple) and x and x[0] == "call" and x[1].endswith("operator-")]
        if d:
            args = [x for x in d[0][2:] if pos(x)]
            names = [pos(x)[0] for x in args]
            if names:
                tri(R, rule, key + ":length", f.loc(s.i), names[-2:] == ["nextPosition", "startPosition"], "a block is not as long as its table")
        else:
            tri(R, rule, key + ":length", f.loc(s.i), False if len(pb) == 1 else None, "a block is not as long as its table")


# ------------------------------------------------------------------------------------------------ X2
def index(P, R):
    for f in fns(P, r"Indexer::createIndex\(eckit::PathName const&, eckit::PathName const&\)"):
        key, w = "createIndex", f.where()
        wrt = None
        for i in f.calls(r"Writer::begin$"):
            wrt = bare(f.expr(i["o"][0]))
        Ls = holder(f, r"Select::begin$|PartFileHandle::PartFileHandle$")
        B = Ls[-1] if Ls else None
        RL = [L for L in loops(f) if B is not None and L.body < B.body and any(i.blk in L.body for i in f.calls(r"IteratorProxy::operator\+\+$"))]
        if B is None or not RL or wrt is None:
            tri(R, "X2", key, w, None, "")
            continue
        L = min(RL, key=lambda l: len(l.body)) if len(RL) == 1 else max(RL, key=lambda l: len(l.body))
        c = counted(f, B)
        if c:
            tri(R, "X2", key + ":every-block", w, c[2] == 0 and bool(c[3]), "not every block is indexed")
        its = bodies(f, L)
        isw = lambda s: contains(("x", raw(s, 0)), lambda x: x == wrt)
        phis = [("phi", h.id) for h in header_phis(L)]
        hits = []
        # the run: a counter and the sequence number it belongs to
        cnt, seq = None, None
        for T in its:
            if whole(L, T):
                for s in T.stores():
                    a = bare(noid(s.addr))
                    if a[0] == "call" and a[1].endswith("operator[]") and contains(("x", a), lambda x: x == wrt):
                        k = uncast(bare(a[3]))
                        v = strip_num(uncast(strip_ids(s.full(s.val))))
                        if k == ("c", 2) and v in phis:
                            seq = v
                        if k == ("c", 3) and v in phis:
                            cnt = v
        if cnt is not None and seq is None:
            cand = {uncast(e) for T in its for c_, t in T.conds() if c_[:2] == ("cmp", "eq") and has(("x", c_), r"operator\[\]$") for e in c_[2:] if uncast(e) in phis and uncast(e) != cnt}
            seq = next(iter(cand)) if len(cand) == 1 else None
        if cnt is None or seq is None:
            tri(R, "X2", key + ":run", w, None, "")
            continue
        later = any(i.blk not in L.body and (i.blk not in B.body or L.header in f.reach(i.blk, avoid_blocks=[B.header])) and contains(("x", noid(f.expr(i["o"][0]))), lambda x: x == wrt) for i in f.calls(r"IteratorProxy::operator\+\+$"))
        for T in its:
            if T.end == "throw":
                continue
            ws = [s for s in T.calls(r"IteratorProxy::operator\+\+$") if isw(s)]
            adv = [s for s in T.calls(r"IteratorProxy::operator\+\+$") if not isw(s)]
            can = [n for n in (0, 1, 2, 3) if holds_for(T, cnt, n)]
            pos = None if len(can) == 4 else True if can and 0 not in can else False
            some = any(n > 0 for n in can)
            for s in ws:
                entry(R, f, key, T, s, wrt, cnt, seq)
            if whole(L, T):
                tri(R, "X2", key + ":next", w, len(adv) == 1, "rows are passed over")
                same = [t for c_, t in T.conds() if c_[:2] == ("cmp", "eq") and seq in (uncast(c_[2]), uncast(c_[3])) and not contains(c_, lambda x: x == ("c", 0) and False)]
                same = [t for c_, t in T.conds() if c_[:2] == ("cmp", "eq") and seq in (uncast(c_[2]), uncast(c_[3])) and has(("x", c_), r"operator\[\]$")]
                nc, ns = next_phi(T, L, cnt[1]), next_phi(T, L, seq[1])
                nc = uncast(strip_ids(nc)) if nc is not None else None
                ns = uncast(strip_ids(ns)) if ns is not None else None
                if not same:
                    tri(R, "X2", key + ":run", w, None, "")
                    continue
                if nc is None:
                    continue
                at, k = linear(nc)
                if same[-1]:
                    tri(R, "X2", key + ":counted", w, at == {cnt: 1} and k == 1 if set(at) <= {cnt} else None, "a row of the run is not counted once")
                    tri(R, "X2", key + ":entry-early", w, not ws, "an entry is written before the run ends")
                    tri(R, "X2", key + ":kept", w, ns == seq or has(("x", ns), r"operator\[\]$") and any(same_value(c_, seq, ns) for c_, t in T.conds() if t) or (None if ns[0] != "c" else False) if ns is not None else None, "the sequence number changes within a run")
                else:
                    if some:
                        tri(R, "X2", key + ":entry", w, len(ws) == 1, "a run that ends gives %d entries" % len(ws))
                        tri(R, "X2", key + ":restart", w, nc == ("c", 1) if nc[0] == "c" or set(at) <= {cnt} else None, "the rows of the previous run are counted again")
                    else:
                        tri(R, "X2", key + ":restart", w, (nc == ("c", 1) or at == {cnt: 1} and k == 1) if set(at) <= {cnt} else None, "the first row of a run is not counted")
                        tri(R, "X2", key + ":entry", w, not ws, "an entry without rows is written")
                    tri(R, "X2", key + ":number", w, ns is None or ns != seq and not (ns[0] == "c"), "the sequence number of the previous run is kept")
            else:
                # left the row loop: what remains is written
                if some:
                    tri(R, "X2", key + ":last", w, len(ws) == 1 or (None if later else False), "the last run of a block is left out")
                else:
                    tri(R, "X2", key + ":last", w, not ws, "an entry without rows is written")
        for h in header_phis(L):
            if ("phi", h.id) == cnt:
                ent = [uncast(strip_ids(e)) for b, e in phi_parts(L, h)[0]]
                tri(R, "X2", key + ":count0", w, all(e == ("c", 0) for e in ent) if ent and all(e[0] in ("c", "phi") for e in ent) else None, "the rows of the previous block are counted again")
        for T in bodies(f, B):
            ph = T.calls(r"PartFileHandle::PartFileHandle$")
            for s in ph:
                a = [s.arg(k) for k in range(len(s.args))]
                fi = [fld(x) for x in a]
                if len(fi) > 3 and fi[2] and fi[3]:
                    tri(R, "X2", key + ":block", f.loc(s.i), fi[2] == "first" and fi[3] == "second", "another part of the file is read")
        names = []
        for T in tr_(f, stop={B.header}) or []:
            if T.end != "stop":
                continue
            ad = T.calls(r"MetaData::addColumn$")
            names = [lit(s.arg(1)) for s in ad]
            if ad and all(names):
                tri(R, "X2", key + ":columns", w, names == ["block_begin", "block_length", "seqno", "n_rows"], "the columns of the index are not block_begin, block_length, seqno and n_rows")
            hd, co = T.calls(r"Row_::writeHeader$"), [s for s in T.calls(r"Row_::columns$") if len(s.args) > 1]
            tri(R, "X2", key + ":header", w, len(hd) == 1 and bool(co) and T.index(co[-1]) < T.index(hd[0]) if hd or not T.calls(r"writeHeader") else None, "the index is written without its columns")
        for s in f.calls(r"Select::Select$"):
            for T in bodies(f, B):
                for x in T.calls(r"Select::Select$"):
                    q = lit(x.arg(1))
                    op = [o for o in T.calls(r"::openForRead$") if any(root(bare(a)) == root(bare(x.args[2])) for a in o.args)]
                    tri(R, "X2", key + ":opened-once", f.loc((op[0] if op else x).i), not op, "a block is opened although the query opens it, which fails")
                    if q:
                        tri(R, "X2", key + ":query", f.loc(x.i), re.match(r"\s*select\s+seqno(@\w+)?\s*;?\s*$", q) is not None, "rows are left out, or another column is indexed")
            break


def same_value(c, a, b):
    return c[:2] == ("cmp", "eq") and {strip_num(uncast(strip_ids(c[2]))), strip_num(uncast(strip_ids(c[3])))} == {a, strip_num(b)}


def holds_for(T, v, n):
    """the conditions on v that T passed are true of n"""
    for c, t in T.conds():
        if c[0] != "cmp" or len(c) < 4:
            continue
        a, b = uncast(c[2]), uncast(c[3])
        if a == v and b[0] == "c":
            x, y = n, b[1]
        elif b == v and a[0] == "c":
            x, y = a[1], n
        else:
            continue
        r = {"eq": x == y, "ne": x != y, "slt": x < y, "ult": x < y, "sle": x <= y, "ule": x <= y, "sgt": x > y, "ugt": x > y, "sge": x >= y, "uge": x >= y}.get(c[1])
        if r is not None and r != t:
            return False
    return True


def lit(e):
    for x in walk(("x", e)):
        if isinstance(x, tuple) and x[:1] == ("str",):
            return x[1]
    return None


def fld(e):
    xs = {x[2] for x in walk(("x", e)) if isinstance(x, tuple) and x[:1] == ("fld",) and x[2] in ("first", "second")}
    return next(iter(xs)) if len(xs) == 1 else None


def strip_num(e):
    while e[0] in ("sitofp", "uitofp", "sext", "zext", "trunc", "fptosi", "cast") and isinstance(e[-1], tuple):
        e = uncast(e[-1])
    return e


def entry(R, f, key, T, s, wrt, cnt, seq):
    vals = {}
    for x in T.steps[:T.index(s)]:
        if x.kind == "store":
            a = bare(noid(x.addr))
            if a[0] == "call" and a[1].endswith("operator[]") and contains(("x", a), lambda y: y == wrt) and uncast(bare(a[3]))[0] == "c":
                vals[uncast(bare(a[3]))[1]] = (x, strip_num(uncast(noid(x.full(x.val)))), noid(x.val))
    for k in range(4):
        if k not in vals:
            tri(R, "X2", key + ":value%d" % k, f.loc(s.i), None if not vals else False, "an entry lacks one of its values")
            continue
        x, v, rv = vals[k]
        if k == 2:
            tri(R, "X2", key + ":seqno", f.loc(x.i), v == seq if v[0] == "phi" else False if v[0] == "ld" or has(("x", v), r"operator\[\]$") else None, "an entry has another run's sequence number")
        elif k == 3:
            tri(R, "X2", key + ":rows", f.loc(x.i), v == cnt if v[0] in ("phi", "c") else None, "an entry has not the number of the run's rows")
        else:
            nm = "Offset" if k == 0 else "Length"
            q = [y[1] for y in walk(("x", rv)) if isinstance(y, tuple) and y and y[0] == "call" and re.search(r"eckit::(Offset|Length)::operator", y[1])]
            if q:
                tri(R, "X2", key + ":limits", f.loc(x.i), all("::%s::" % nm in y for y in q), "begin and length of the block are mixed up")


# ------------------------------------------------------------------------------------------------ C1
def compact(P, R):
    for f in fns(P, r"CompactTool::run\("):
        key, w = "CompactTool::run", f.where()
        for T in tr_(f, limit=8000) or []:
            if T.end != "ret":
                continue
            nparams(R, "C1", key, w, T, {3})
            fl, env = opt_flow(T)
            at = {id(s): e for s, e in fl}
            rd, wr, p1, cmp_ = T.calls(r"Reader::Reader$"), T.calls(r"Writer::Writer$"), T.calls(r"::pass1$"), T.calls(r"Comparator::compare$")
            tri(R, "C1", key + ":rows", w, len(p1) == 1, "the rows are copied %d times" % len(p1))
            for k, s in enumerate(rd[:2]):
                g = env_of(at[id(s)], s, 1)
                if g:
                    tri(R, "C1", key + ":files", f.loc(s.i), g[0] == ("param", 1 + k), "another file is read")
            for s in wr:
                g = env_of(at[id(s)], s, 1)
                if g:
                    tri(R, "C1", key + ":files", f.loc(s.i), g[0] == ("param", 2), "another file is written")
            tri(R, "C1", key + ":compared", w, len(cmp_) == 1 and bool(p1) and T.index(cmp_[0]) > T.index(p1[0]) if cmp_ or not T.calls(r"ompar\w*$") or not [s for s in T.calls(r"ompar\w*$") if not s.q.endswith("Comparator::Comparator")] else None, "input and output are not compared")
            if len(rd) > 1 and p1:
                tri(R, "C1", key + ":reread", w, T.index(rd[1]) > T.index(p1[0]), "the output is compared before it is written")
