"""Tools that report on files or edit their headers (count, ls, header, xyv, mdset, sql): what they say is what the file holds, and they edit only what they are asked to."""
from ir import *
from loops import *
from frlib import linear
from rangelib import *
from trace import *
from A03 import tri
from S01 import tr_, has, strip_ids, THIS, F, LD, str_tests
from I01 import opt_flow
from T01 import holds_for, bodies, holder, raw, whole, lit, fld, strip_num, pair, nparams, env_of

CONFIG = {"roots": [
    {"tag": "rep", "re": r"odc::tool::(CountTool|LSTool|XYVTool|MDSetTool|HeaderTool|SQLTool)::|odc::tool::CommandLineParser::|::(VerbosePrinter|OffsetsPrinter|DDLPrinter)::",
     "keep": [r"core::Column::", r"core::MetaData::", r"\bRow_<", r"IteratorProxy<[^()]*>::(operator|IteratorProxy|next|~)", r"LibOdc::instance", r"CommandLineParser::", r"odc::Reader::", r"odc::Select::", r"StringTool::",
              r"core::(Table|TablesReader|ReadTablesIterator|Header)::", r"::usage\(", r"(CountTool::rowCount|LSTool::printData|parseUpdateList|stripAtTable|typeName|typeDefinitionAndName|printTable)\b", r"::(Verbose|Offsets|DDL)Printer::", r"sql::ODATable::", r"odc::sql::SQLOutputConfig::", r"ODBAPISettings::"], "depth": 4}]}



ADV = r"IteratorProxy::operator\+\+$|Row_::operator\+\+$|IteratorProxy::next$"
TADV = r"ReadTablesIterator::operator\+\+$|ReadTablesIterator::next$"


def run(P, R):
    R.rule("N1", "odc count: the sum of the rows of every table of every file named")
    R.rule("L1", "odc ls: every row once; the columns named whenever they change; the values of all columns in order, '.' exactly for missing ones")
    R.rule("H1", "odc header: every table once, with its own limits, rows and columns; -offsets and -ddl choose what is written")
    R.rule("H2", "odc header -ddl: every layout with each of its columns under its own name and type")
    R.rule("V1", "odc xyv: longitude, latitude and value of every row, in that order")
    R.rule("E1", "odc mdset: only the columns named change, each in the type, fields or constant given for it; a value is set only in constant columns")
    R.rule("E2", "odc mdset: every table once: a header in the table's byte order with its own size, rows, properties and columns, followed by its data unchanged")
    R.rule("E3", "The update list gives each column its own type, value and fields")
    R.rule("Q1", "odc sql: the input named is read, from -offset for -length bytes if given")
    R.rule("O1", "Command lines: an option that takes an argument consumes the next word, others none; everything else is a parameter, in order; a copy keeps everything; options are known before the line is read")
    for fn in (count, ls_rows, ls_run, header_offsets, header_verbose, header_ddl, header_run, xyv, mdset_columns, mdset_tables, mdset_list, sql_input, parse, parser_copy, parsed_first, registered):
        fn(P, R)
    for r, n in (("N1", 1), ("L1", 1), ("E2", 1), ("O1", 1)):
        R.need(r, n)


def fns(P, rx):
    return P.find(rx, "rep")


def sroot(e):
    """the stream a chain of << begins with"""
    e = bare(e)
    while e[0] in ("call", "vcall") and re.search(r"operator<<$", e[1]) and len(e) > 2:
        e = bare(e[2])
    return e


def prints(T):
    """[(step, stream, value)] in the order printed; manipulators left out"""
    out = []
    for s in T.calls(r"operator<<$|MetaData::print$|ostream::(put|write)$"):
        if s.q.endswith("MetaData::print"):
            out.append((s, sroot(raw(s, 1)), raw(s, 0)))
            continue
        if len(s.args) < 2:
            continue
        v = uncast(noid(s.arg(1)))
        if v[0] == "f" or v[0] in ("fn", "g") and re.search(r"endl|fixed|setprecision|ios_base", repr(v)):
            continue
        out.append((s, sroot(raw(s, 0)), v))
    return out


def newline(T, stream=None):
    for s in T.calls(r"operator<<$|std::endl"):
        v = uncast(noid(s.arg(1))) if len(s.args) > 1 else ("fn", "endl")
        if "endl" in repr(v) or v[0] == "str" and "\n" in v[1] or v == ("c", 10):
            return True
    return False


def calls_in(e):
    return [x[1].split("::")[-1] for x in walk(("x", e)) if isinstance(x, tuple) and x and x[0] in ("call", "vcall")]


def elem_of(e):
    """index given to the outermost element access within e"""
    for x in walk(("x", e)):
        if isinstance(x, tuple) and x and x[0] in ("call", "vcall") and re.search(r"(vector|MetaData|Row_)::(operator\[\]|at|string|isMissing)$", x[1]) and len(x) > 3:
            return uncast(bare(noid(x)[-1] if x[1].endswith("::string") else x[3]))
    return None


def total(R, rule, key, f, L, T, what, amount):
    """T goes round L: exactly one header phi grows by `amount`, which is what f returns or prints"""
    for h in header_phis(L):
        nx = next_phi(T, L, h.id)
        if nx is None:
            continue
        at, k = linear(noid(uncast(nx)))
        me = ("phi", h.id)
        rest = [x for x in at if x != me]
        if any(amount(x) for x in rest):
            tri(R, rule, key + ":sum", f.where(), at.get(me) == 1 and len(rest) == 1 and at[rest[0]] == 1 and k == 0, what)
            tri(R, rule, key + ":wide", f.where(), h["t"] not in ("i8", "i16", "i32") and "'trunc'" not in repr(nx), "a count of many rows wraps around")
            ent = [uncast(strip_ids(e)) for b, e in phi_parts(L, h)[0]]
            tri(R, rule, key + ":sum0", f.where(), None if not ent or not all(e[0] == "c" for e in ent) else all(e == ("c", 0) for e in ent), what)
            return me
    return None


# ------------------------------------------------------------------------------------------------ N1
def count(P, R):
    what = "not all rows are counted"
    for f in fns(P, r"CountTool::rowCount\("):
        key, w = "rowCount", f.where()
        Ls = holder(f, TADV)
        if not Ls:
            tri(R, "N1", key, w, None if list(f.calls(r"accumulate|for_each")) else False, "the tables of a file are not visited")
            continue
        L = Ls[-1]
        me, its = None, bodies(f, L)
        for T in its:
            if whole(L, T):
                tri(R, "N1", key + ":next", w, len(T.calls(TADV)) == 1, "tables are passed over")
                rc = T.calls(r"Table::rowCount$|MetaData::rowsNumber$")
                tri(R, "N1", key + ":rows", w, len(rc) == 1 if rc else False if not T.calls(r"Table::") else None, "the rows of a table are counted %d times" % len(rc))
                m = total(R, "N1", key, f, L, T, what, lambda x: bool(re.search(r"rowCount|rowsNumber", repr(x))))
                if m is None and rc:
                    tri(R, "N1", key + ":sum", w, False if all((next_phi(T, L, h.id) or ("?",))[0] in ("call", "vcall") for h in header_phis(L)) and header_phis(L) else None, what)
                me = m or me
        for T in its:
            if T.end == "ret":
                e = [s for s in T.steps if s.kind == "cond" and uncast(s.val)[0] == "call" and re.search(r"operator(!=|==)$", uncast(s.val)[1])]
                tri(R, "N1", key + ":all", w, bool(e) and e[-1].truth != uncast(e[-1].val)[1].endswith("!="), "the rest of the tables is left out")
                if me and T.ret is not None:
                    v = uncast(strip_ids(T.ret))
                    tri(R, "N1", key + ":returned", w, v == me if v[0] in ("phi", "c") else None, what)
    for f in fns(P, r"CountTool::run\("):
        key, w = "CountTool::run", f.where()
        Ls = holder(f, r"CountTool::rowCount$")
        if not Ls:
            tri(R, "N1", key, w, None if holder(f, TADV) else False, "only one file is counted" if list(f.calls(r"CountTool::rowCount$")) else "nothing is counted")
            continue
        L = Ls[-1]
        c = counted(f, L)
        if c:
            tri(R, "N1", key + ":files", w, c[2] == 1 and bool(c[3]), "not every file named is counted")
        its, me = bodies(f, L), None
        for T in its:
            if not whole(L, T):
                continue
            rc = T.calls(r"CountTool::rowCount$")
            tri(R, "N1", key + ":file", w, len(rc) == 1, "a file is counted %d times" % len(rc))
            for s in T.calls(r"CommandLineParser::parameters$"):
                if len(s.args) > 2 and c:
                    k = uncast(noid(s.arg(2)))
                    tri(R, "N1", key + ":named", f.loc(s.i), k == uncast(c[0]) if k[0] in ("phi", "c", "add") else None, "another file is counted")
            me = total(R, "N1", key, f, L, T, what, lambda x: "rowCount" in repr(x)) or me
            if me is None and rc:
                tri(R, "N1", key + ":sum", w, False if any((uncast(next_phi(T, L, h.id) or ("?",)))[0] in ("call", "vcall") for h in header_phis(L)) else None, what)
        for T in its:
            if T.end == "ret":
                vs = [v for s, r_, v in prints(T) if v[0] not in ("str",)]
                if me and vs:
                    tri(R, "N1", key + ":written", w, me in [strip_num(v) for v in vs], "the sum is not what is written")
                elif me:
                    tri(R, "N1", key + ":written", w, None if T.calls(r"print|operator<<") else False, "the sum is not written")


# ------------------------------------------------------------------------------------------------ L1
def ls_rows(P, R):
    for f in fns(P, r"LSTool::printData\("):
        key, w = "printData", f.where()
        Rs = holder(f, ADV)
        Cs = [L for L in loops(f) if any(i.blk in L.body for i in f.calls(r"Row_::isMissing$|Row_::operator\[\]$|Row_::string$"))]
        Cs = [L for L in sorted(Cs, key=lambda L: len(L.body)) if not any(i.blk in L.body for i in f.calls(ADV))]
        if not Rs or not Cs:
            tri(R, "L1", key, w, None, "")
            continue
        L, C = Rs[0], Cs[-1]
        out = ("arg", 1, f.args[1]["n"]) if len(f.args) == 2 else None
        c = counted(f, C)
        if not c:
            tri(R, "L1", key, w, None, "")
            continue
        tri(R, "L1", key + ":columns", w, c[2] == 0 and bool(c[3]), "not every column is written")
        ix = uncast(c[0])
        for T in bodies(f, C):
            if whole(C, T):
                ls_value(R, f, key, w, T, ix)
        me = None
        its = bodies(f, L)
        for T in its:
            if T.end == "throw":
                continue
            if T.end == "ret":
                if me and T.ret is not None and uncast(strip_ids(T.ret))[0] in ("phi", "c"):
                    tri(R, "L1", key + ":count", w, uncast(strip_ids(T.ret)) == me, "the number of rows returned is not that of the rows written")
                continue
            if not whole(L, T):
                continue
            adv = T.calls(ADV)
            tri(R, "L1", key + ":next", w, len(adv) == 1, "rows are passed over")
            # a changed layout is taken over
            for k, s in enumerate(T.steps):
                e = uncast(s.val) if s.kind == "cond" else ("x",)
                if e[0] == "call" and re.search(r"MetaData::(operator!=|operator==|equals)$", e[1]):
                    differ = s.truth == e[1].endswith("!=")
                    asg = [t for t in T.steps[k:] if t.kind == "call" and re.search(r"MetaData::operator=$", t.q)]
                    tri(R, "L1", key + ":layout", w, bool(asg) if differ else True, "rows are written under the previous columns")
            if not T.calls(r"MetaData::(operator!=|operator==|equals)$"):
                tri(R, "L1", key + ":layout", w, None if T.calls(r"isNewDataset$") else False, "rows are written under the previous columns")
            tri(R, "L1", key + ":line", w, newline(T), "rows are not told apart by lines")
            for h in header_phis(L):
                nx = next_phi(T, L, h.id)
                at, k = linear(uncast(strip_ids(nx))) if nx is not None else ({}, 0)
                if at == {("phi", h.id): 1} and k == 1:
                    me = ("phi", h.id)
        rets = [uncast(strip_ids(T.ret)) for T in its if T.end == "ret" and T.ret is not None]
        for v in rets:
            if v[0] == "c":
                tri(R, "L1", key + ":count", w, False, "the number of rows is not returned")
            elif me is None and v[0] == "phi":
                tri(R, "L1", key + ":count", w, None, "")
        NM = [x for x in loops(f) if any(i.blk in x.body for i in f.calls(r"Column::name$")) and x.body < L.body and x.body != C.body and not (C.body < x.body)]
        if not NM:
            tri(R, "L1", key + ":names", w, None if list(f.calls(r"MetaData::|Column::name$")) and Rs and not list(f.calls(r"Column::name$")) and False else (False if not list(f.calls(r"Column::name$")) else None), "the columns are not named")
        for N in NM[-1:]:
            c = counted(f, N)
            if not c:
                tri(R, "L1", key + ":names", w, None, "")
                continue
            tri(R, "L1", key + ":names", w, c[2] == 0 and bool(c[3]), "not every column is named")
            for T in bodies(f, N):
                if whole(N, T):
                    nm = [v for s, r_, v in prints(T) if "name" in calls_in(v)]
                    tri(R, "L1", key + ":name", w, len(nm) == 1 and elem_of(nm[0]) == uncast(c[0]), "a column is not named once, in its place")


def ls_value(R, f, key, w, T, ix):
    miss = [(s, uncast(s.val)) for s in T.steps if s.kind == "cond" and uncast(s.val)[0] in ("call", "vcall") and re.search(r"::isMissing$", uncast(s.val)[1])]
    for s, e in miss:
        k = uncast(bare(noid(e)[3])) if len(noid(e)) > 3 else None
        tri(R, "L1", key + ":missing-of", w, k == ix if k and k[0] in ("phi", "c") else None, "another value is asked whether it is missing")
    vs = [(s, v) for s, r_, v in prints(T)]
    data = [(s, v) for s, v in vs if set(calls_in(v)) & {"operator[]", "string", "data"} and has(("x", v), r"Row_::")]
    dots = [v for s, v in vs if v == ("str", ".")]
    is_miss = [s.truth for s, e in miss]
    if len(set(is_miss)) > 1:
        return
    if is_miss and is_miss[0]:
        tri(R, "L1", key + ":missing", w, len(dots) == 1 and not data, "a missing value is not written as such")
        return
    tri(R, "L1", key + ":missing", w, bool(is_miss) and not dots or (None if T.calls(r"issing") and not is_miss else False), "a value is written as missing, or the other way round")
    kinds = {c[3][1]: t for c, t in T.conds() if c[:2] == ("cmp", "eq") and c[3][0] == "c" and has(("x", c[2]), r"Column::type$")}
    tri(R, "L1", key + ":value", w, len(data) == 1 if data or not T.calls(r"print|str$|format") else None, "a value is written %d times" % len(data))
    for s, v in data:
        k = elem_of(v)
        tri(R, "L1", key + ":value-of", f.loc(s.i), k == ix if k and k[0] in ("phi", "c", "add") else None, "the value of another column is written")
        text = "string" in calls_in(v)
        if kinds.get(3):
            tri(R, "L1", key + ":text", f.loc(s.i), text, "text is written as a number")
        elif any(kinds.values()):
            tri(R, "L1", key + ":number", f.loc(s.i), not text, "a number is written as text")
        rv = repr(s.args[1])
        if kinds.get(2) or kinds.get(5):
            tri(R, "L1", key + ":fraction", f.loc(s.i), not re.search(r"'fpto[su]i'", rv), "a real value loses its fraction")
        tri(R, "L1", key + ":precision", f.loc(s.i), "'fptrunc'" not in rv, "a value is written in single precision")


def ls_run(P, R):
    for f in fns(P, r"LSTool::run\("):
        key, w = "LSTool::run", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            nparams(R, "L1", key, w, T, {2})
            fl, env = opt_flow(T)
            at = {id(s): e for s, e in fl}
            pd = T.calls(r"LSTool::printData$")
            tri(R, "L1", key + ":once", w, len(pd) == 1, "the rows are written %d times" % len(pd))
            o = [t for nm, t in optset_(T) if nm == "-o"]
            for s in pd:
                st = s.arg(len(s.args) - 1)
                if o:
                    tocout = "cout" in repr(st)
                    tri(R, "L1", key + ":where", f.loc(s.i), tocout != o[-1] if tocout or "ofstream" in repr(st) or "new" in repr(st) else None, "rows are not written where -o says")
                g = env_of(at[id(s)], s, 0) or env_of(at[id(s)], s, 1)
                if g:
                    tri(R, "L1", key + ":file", f.loc(s.i), g[0] == ("param", 1), "another file is read")


def optset_(T):
    """[(option, whether set)] as decided on the path"""
    out = []
    for s in T.steps:
        if s.kind != "cond":
            continue
        e, t = uncast(s.val), s.truth
        while e[0] == "not":
            e, t = uncast(e[1]), not t
        if e[0] in ("call", "vcall") and e[1].endswith("optionIsSet"):
            for x in T.steps:
                if x.kind == "call" and x.q.endswith("optionIsSet") and bare(x.val) == bare(s.val):
                    nm = lit(x.arg(1))
                    if nm:
                        out.append((nm, t))
                    break
    return out


# ------------------------------------------------------------------------------------------------ H1
def tcall(v):
    """names of the Table operations in v"""
    return [x[1].split("::")[-1] for x in walk(("x", v)) if isinstance(x, tuple) and x and x[0] in ("call", "vcall") and re.search(r"core::Table::\w+$", x[1])]


def header_offsets(P, R):
    for f in fns(P, r"OffsetsPrinter::print\("):
        key, w = "offsets", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            vs = [(s, v) for s, r_, v in prints(T) if v[0] != "str" and v[0] != "c"]
            names = [tcall(v) for s, v in vs]
            if not all(names) or not vs:
                tri(R, "H1", key, w, None if vs else False, "a table's limits are not written")
                continue
            def kind(n):
                return "length" if sorted(set(n)) == ["nextPosition", "startPosition"] else n[0] if len(set(n)) == 1 else "?"
            ks = [kind(n) for n in names]
            tri(R, "H1", key + ":values", w, ks == ["startPosition", "length", "rowCount", "columnCount"], "a line is not begin, length, rows and columns of the table")
            for s, v in vs:
                if kind(tcall(v)) == "length":
                    for x in walk(("x", v)):
                        if isinstance(x, tuple) and x and x[0] == "call" and x[1].endswith("operator-"):
                            n = [tcall(y)[0] for y in x[2:] if isinstance(y, tuple) and tcall(y)]
                            tri(R, "H1", key + ":length", f.loc(s.i), n[-2:] == ["nextPosition", "startPosition"], "the length is not that of the table")
            tri(R, "H1", key + ":line", w, newline(T), "tables are not told apart by lines")


def header_verbose(P, R):
    want = [(r"egin offset", "startPosition"), (r"end offset", "nextPosition"), (r"number of rows", "rowCount")]
    for f in fns(P, r"VerbosePrinter::print\("):
        key, w = "verbose", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            ps = prints(T)
            label = ""
            for s, r_, v in ps:
                if v[0] == "str":
                    label = v[1]
                    continue
                n = tcall(v)
                for rx, op in want:
                    if re.search(rx, label, re.I):
                        tri(R, "H1", key + ":" + op, f.loc(s.i), n == [op] if n else None, "what is called '%s' is something else" % label.strip(" ,:"))
                if "byteOrder" in label and v[0] == "select":
                    c = bare(v[1])
                    if c[:2] == ("cmp", "eq") and tcall(c) == ["byteOrder"] and c[3] == ("c", 1):
                        tri(R, "H1", key + ":byteOrder", f.loc(s.i), [lit(v[2]), lit(v[3])] == ["same", "other"], "the byte order is told wrongly")
                if n == ["columns"]:
                    label = "columns"
            seen = {x for s, r_, v in ps for x in tcall(v)}
            cols = T.calls(r"MetaData::print$") or [1 for s, r_, v in ps if tcall(v) == ["columns"]]
            tri(R, "H1", key + ":columns", w, bool(cols), "the columns of a table are not written")
            for op in ("startPosition", "nextPosition", "rowCount"):
                tri(R, "H1", key + ":has-" + op, w, op in seen, "a table's %s is not written" % op)
            hc = [s for s in T.stores() if bare(s.addr) == F("headerCount_")]
            if any(contains(("x", v), lambda x: x == F("headerCount_")) for s, r_, v in ps):
                tri(R, "H1", key + ":counted", w, len(hc) == 1, "tables are not numbered in order")
            for s in hc:
                at, k = linear(uncast(strip_ids(s.full(s.val))))
                tri(R, "H1", key + ":number", f.loc(s.i), k == 1 and list(at.values()) == [1], "tables are not numbered in order")


# ------------------------------------------------------------------------------------------------ H2
def header_ddl(P, R):
    for f in fns(P, r"DDLPrinter::print\("):
        key, w = "ddl", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            ps = T.calls(r"vector::(push_back|emplace_back)$")
            ps = [s for s in ps if raw(s, 0) == F("md_")]
            empty, diff = None, None
            for s in T.steps:
                if s.kind != "cond":
                    continue
                e = uncast(s.val)
                if e[0] == "call" and e[1].endswith("vector::empty"):
                    empty = s.truth
                elif e[0] == "call" and re.search(r"MetaData::operator(!=|==)$", e[1]):
                    diff = s.truth == e[1].endswith("!=")
            for s in ps:
                tri(R, "H2", key + ":layout", f.loc(s.i), tcall(s.arg(1)) == ["columns"] or None, "")
            if empty or diff:
                tri(R, "H2", key + ":taken", w, len(ps) == 1, "a layout is left out")
            elif diff is False:
                tri(R, "H2", key + ":twice", w, not ps, "a layout is written again for every table")
            else:
                tri(R, "H2", key + ":taken", w, True if ps else None if empty is None and T.calls(r"find|equals|compatible|any_of") else False, "a layout is left out")
    for f in fns(P, r"DDLPrinter::printSummary\("):
        key, w = "printSummary", f.where()
        rs = [r for r in ranges(f) if bare(r.cont) == F("md_")]
        if not rs:
            tri(R, "H2", key, w, None if loops(f) or list(f.calls(r"for_each")) else False, "not every layout is written")
        for r in rs:
            tri(R, "H2", key + ":all", w, r.start == 0 and r.full and not r.breaks, "not every layout is written")
            for T in bodies(f, r.L):
                if whole(r.L, T):
                    pt = T.calls(r"printTable$")
                    tri(R, "H2", key + ":once", w, len(pt) == 1 if pt or not T.calls(r"operator<<$") else None, "a layout is written %d times" % len(pt))
                    for s in pt:
                        a = [bare(x) for x in s.args]
                        if F("tableName_") in a and F("path_") in a:
                            tri(R, "H2", key + ":names", f.loc(s.i), a.index(F("tableName_")) < a.index(F("path_")), "the name of the table and of the file are mixed up")
                        k = [elem_of(x) for x in s.args if elem_of(noid(x)) is not None]
                        if k and k[0][0] in ("phi", "c"):
                            tri(R, "H2", key + ":own", f.loc(s.i), k[0] == uncast(r.it), "another layout is written")
    for f in fns(P, r"DDLPrinter::printTable\("):
        key, w = "printTable", f.where()
        Ls = holder(f, r"typeDefinitionAndName$")
        if not Ls:
            tri(R, "H2", key, w, None, "")
            continue
        L = Ls[-1]
        c = counted(f, L)
        if c:
            tri(R, "H2", key + ":all", w, c[2] == 0 and bool(c[3]), "not every column is written")
        for T in bodies(f, L):
            if not whole(L, T) or not c:
                continue
            td = T.calls(r"typeDefinitionAndName$")
            for s in td:
                k = elem_of(noid(s.args[-1]))
                tri(R, "H2", key + ":type-of", f.loc(s.i), k == uncast(c[0]) if k and k[0] in ("phi", "c", "add") else None, "a column gets another column's type")
            nm = [s for s in T.calls(r"Column::name$")]
            for s in nm:
                k = elem_of(noid(s.args[-1]))
                tri(R, "H2", key + ":name-of", f.loc(s.i), k == uncast(c[0]) if k and k[0] in ("phi", "c", "add") else None, "a column gets another column's name")
            ps = prints(T)
            got = [(set(calls_in(v)), fld(v), r_, s) for s, r_, v in ps]
            names = [s for q, fd, r_, s in got if q & {"stripAtTable", "name"}]
            tri(R, "H2", key + ":name", w, len(names) == 1, "a column is named %d times" % len(names))
            first = [s for q, fd, r_, s in got if "typeDefinitionAndName" in q and fd == "first"]
            second = [s for q, fd, r_, s in got if "typeDefinitionAndName" in q and fd == "second"]
            if first or second:
                tri(R, "H2", key + ":type", w, len(second) == 1 or (None if not second else False), "a column's type is written %d times" % len(second))
                if names and second:
                    tri(R, "H2", key + ":name-type", w, T.index(names[0]) < T.index(second[-1]), "a column's name and type are mixed up")
    want = {3: "STRING", 1: "INTEGER", 4: "INTEGER", 2: "REAL", 5: "DOUBLE"}
    for f in fns(P, r"DDLPrinter::typeName"):
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            ks = [c[3][1] for c, t in T.conds() if t and c[:2] == ("cmp", "eq") and c[3][0] == "c" and has(("x", c[2]), r"Column::type$")]
            bs = [lit(s.arg(1)) for s in T.calls(r"basic_string::basic_string$") if len(s.args) > 1 and lit(s.arg(1))]
            if ks and bs:
                tri(R, "H2", "typeName:%d" % ks[-1], f.where(), bs[-1].upper() == want.get(ks[-1]), "a column's type is named wrongly")
    for f in fns(P, r"DDLPrinter::typeDefinitionAndName\("):
        key, w = "typeDefinition", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            bit = [t for c, t in T.conds() if c[:2] == ("cmp", "eq") and c[3] == ("c", 4) and has(("x", c[2]), r"Column::type$")]
            txt = [v[1] for s, r_, v in prints(T) if v[0] == "str"]
            if bit:
                tri(R, "H2", key + ":bitfield", w, any("CREATE TYPE" in t for t in txt) == bit[-1], "a type is defined for a column that is no bitfield, or none for one that is")
        for r in [r for r in ranges(f)][:1]:
            tri(R, "H2", key + ":fields", w, r.start == 0 and r.full and not r.breaks, "not every field is written")
            for T in bodies(f, r.L):
                if not whole(r.L, T):
                    continue
                ps = [(s, v) for s, r_, v in prints(T) if has(("x", v), r"vector::(operator\[\]|at)$") and v[0] != "select"]
                fs = [fld(v) for s, v in ps]
                if fs and all(fs):
                    tri(R, "H2", key + ":field", w, fs == ["first", "second"], "a field is not its name and its size")
                for s, v in ps:
                    k = elem_of(v)
                    tri(R, "H2", key + ":field-own", f.loc(s.i), k == uncast(r.it) if k and k[0] in ("phi", "c", "add") else None, "a field gets another field's name or size")
    for f in fns(P, r"DDLPrinter::stripAtTable\("):
        key, w = "stripAtTable", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            cmp_ = [t for c, t in T.conds() if c[:2] == ("cmp", "eq") and c[3] == ("c", 0) and has(("x", c[2]), r"compare$")]
            sub = [s for s in T.calls(r"substr$") if "agg.result" in repr(s.args[0])]
            if cmp_:
                tri(R, "H2", key + ":stripped", w, bool(sub) == cmp_[-1] if sub or T.calls(r"basic_string::basic_string$") else None, "a column loses a part of its name that is not the table's")
            elif sub:
                end = T.calls(r"compare$|ends_with$|rfind$|find_last_of$|operator==$|equal$|mismatch$|substr$|find_end$")
                end = [s for s in end if s not in sub]
                tri(R, "H2", key + ":stripped", w, None if end or not T.calls(r"basic_string::find$") else False, "a column loses a part of its name that is not the table's")


def header_run(P, R):
    for f in fns(P, r"HeaderTool::run\("):
        key, w = "HeaderTool::run", f.where()
        for T in tr_(f, limit=6000) or []:
            if T.end != "ret":
                continue
            nparams(R, "H1", key, w, T, {2})
            opts = dict(optset_(T))
            sm = T.calls(r"::printSummary$")
            tri(R, "H1", key + ":summary", w, len(sm) == 1, "the layouts are written %d times" % len(sm))
            cl = None
            if opts.get("-offsets"):
                cl = "OffsetsPrinter"
            elif opts.get("-offsets") is False and "-ddl" in opts:
                cl = "DDLPrinter" if opts["-ddl"] else "VerbosePrinter"
            for s in sm:
                ks = set(re.findall(r"(Offsets|DDL|Verbose)Printer", repr(s.arg(0))))
                if cl and len(ks) == 1:
                    tri(R, "H1", key + ":option", f.loc(s.i), next(iter(ks)) + "Printer" == cl, "what is written is not what the options ask for")
        Ls = holder(f, TADV)
        for L in Ls[-1:]:
            for T in bodies(f, L):
                if T.end == "throw":
                    continue
                pr = T.calls(r"Printer::print$")
                if whole(L, T):
                    tri(R, "H1", key + ":next", w, len(T.calls(TADV)) == 1, "tables are passed over")
                    tri(R, "H1", key + ":each", w, len(pr) == 1, "a table is written %d times" % len(pr))
                elif T.end == "ret":
                    e = [s for s in T.steps if s.kind == "cond" and uncast(s.val)[0] == "call" and re.search(r"operator(!=|==)$", uncast(s.val)[1])]
                    tri(R, "H1", key + ":all", w, bool(e) and e[-1].truth != uncast(e[-1].val)[1].endswith("!="), "the rest of the tables is left out")
                    sm = T.calls(r"::printSummary$")
                    tri(R, "H1", key + ":summary", w, len(sm) == 1, "the layouts are written %d times" % len(sm))
        if not Ls:
            tri(R, "H1", key, w, None, "")


# ------------------------------------------------------------------------------------------------ V1
def xyv(P, R):
    for f in fns(P, r"XYVTool::run\("):
        key, w = "XYVTool::run", f.where()
        Ls = holder(f, ADV)
        if not Ls:
            tri(R, "V1", key, w, None, "")
            continue
        L = Ls[-1]
        cols = None
        for T in tr_(f) or []:
            if T.end == "throw":
                continue
            nparams(R, "V1", key, w, T, {4})
            q = [lit(a) for s in T.calls(r"basic_string::(basic_string|operator\+=|append)$|std::operator\+$") for a in [s.arg(k) for k in range(len(s.args))] if lit(a) and re.match(r"\s*select\b", lit(a), re.I)]
            if q:
                m = re.match(r"\s*select\s+(.*?),?\s*$", q[0], re.I | re.S)
                cols = [re.sub(r"@.*", "", x.strip()) for x in m.group(1).split(",") if x.strip()] + ["value"]
            fl, env = opt_flow(T)
            at = {id(s): e for s, e in fl}
            for s in T.calls(r"basic_ofstream::open$|ofstream::(basic_ofstream|open)$"):
                g = env_of(at[id(s)], s, 1)
                if g:
                    tri(R, "V1", key + ":file", f.loc(s.i), g[0] == ("param", 3), "another file is written")
            hd = [v[1] for s, r_, v in prints(T) if v[0] == "str" and re.search(r"x/long|long.*lat|lat.*long", v[1])]
            for h in hd:
                tri(R, "V1", key + ":heading", w, re.search(r"long.*lat.*value", h) is not None, "the heading is not longitude, latitude and value")
        for T in bodies(f, L):
            if not whole(L, T):
                continue
            adv = T.calls(ADV)
            tri(R, "V1", key + ":next", w, len(adv) == 1, "rows are passed over")
            vs = [(s, v) for s, r_, v in prints(T) if has(("x", v), r"Row_::(operator\[\]|data)$")]
            ks = [elem_of(v) for s, v in vs]
            if cols and ks and all(k and k[0] == "c" for k in ks):
                got = [cols[k[1]] if k[1] < len(cols) else "?" for k in ks]
                tri(R, "V1", key + ":values", w, got == ["lon", "lat", "value"], "a line is not longitude, latitude and value")
            elif not vs and not [x for x in loops(f) if x.body < L.body]:
                tri(R, "V1", key + ":values", w, False, "a line is not longitude, latitude and value")
            tri(R, "V1", key + ":line", w, newline(T), "rows are not told apart by lines")


# ------------------------------------------------------------------------------------------------ E1
def listed(e, nm):
    """index of the element of the list nm that e is (of)"""
    for x in walk(("x", e)):
        if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"vector::(operator\[\]|at)$", x[1]) and len(x) > 3 and bare(x[2])[:1] in (("alloca",), ("arg",)) and bare(x[2])[2] == nm:
            return uncast(bare(x[3]))
    return None


def listed_of(T, s, k, nm, d=4):
    """the same for an argument of step s, which may be a copy of the element"""
    e = noid(s.args[k])
    r = listed(e, nm)
    if r is not None or d == 0:
        return r
    for a in walk(("x", e)):
        if isinstance(a, tuple) and a[:1] == ("alloca",):
            for x in reversed(T.steps[:T.index(s)]):
                if x.kind == "call" and len(x.args) > 1 and raw(x, 0) == a and re.search(r"::(\w+)::\1$|operator=$|basic_string$|pair$|translate$", x.q):
                    return listed_of(T, x, 1, nm, d - 1)
    if e[0] == "call":
        for x in T.steps[:T.index(s)]:
            if x.kind == "call" and noid(x.val) == e:
                for j in range(len(x.args)):
                    r = listed_of(T, x, j, nm, d - 1)
                    if r is not None:
                        return r
    return None


def lists(f, P):
    """the four lists of run(), by the parameter of parseUpdateList they are given as"""
    out = {}
    for i in f.calls(r"parseUpdateList$"):
        a = [bare(noid(f.expr(o))) for o in i["o"]]
        a = [x for x in a if x[:1] == ("alloca",)][-4:]
        if len(a) == 4:
            out = dict(zip(("columns", "types", "values", "fields"), [x[2] for x in a]))
    return out


def mdset_columns(P, R):
    for f in fns(P, r"MDSetTool::run\("):
        key, w = "MDSetTool::run", f.where()
        nm = lists(f, P)
        Ls = holder(f, r"MetaData::columnIndex$") or holder(f, r"Column::(min|max|bitfieldDef)$")
        if not Ls or not nm:
            tri(R, "E1", key, w, None, "")
            continue
        C = Ls[-1]
        none = any(lit(noid(g.expr(o))) == "NONE" for g in fns(P, r"MDSetTool::parseUpdateList\(") for i in g.calls(r"basic_string::(basic_string|operator=|assign)$") for o in i["o"][1:2])
        c = counted(f, C)
        if not c:
            tri(R, "E1", key, w, None, "")
            continue
        tri(R, "E1", key + ":all", w, c[2] == 0 and bool(c[3]), "not every column named is changed")
        ix = uncast(c[0])
        for T in bodies(f, C):
            if T.end == "throw" or not whole(C, T):
                continue
            what = {}
            for s in T.steps:
                if s.kind != "cond":
                    continue
                e = noid(s.val)
                for k in ("types", "values", "fields"):
                    if listed(e, nm[k]) is not None:
                        t = s.truth
                        x = uncast(e)
                        if x[:2] == ("cmp", "eq") and x[3] == ("c", 0) and has(("x", x[2]), r"size$"):
                            what.setdefault(k, []).append(not t)
                        elif x[0] == "call" and x[1].endswith("empty"):
                            what.setdefault(k, []).append(not t)
                        elif x[0] == "call" and re.search(r"operator(!=|==)$", x[1]) and lit(x) == "NONE":
                            what.setdefault(k, []).append(t == x[1].endswith("!="))
                        tri(R, "E1", key + ":own-" + k, w, listed(e, nm[k]) == ix, "what is given for another column is used")
            given = {k: all(v) for k, v in what.items()}
            for k, rx in (("types", r"Column::type$"), ("values", r"Column::(min|max)$")):
                if none and any(listed_of(T, x, 1, nm[k]) is not None for x in T.calls(rx) if len(x.args) > 1):
                    seen = [s for s in T.steps if s.kind == "cond" and lit(noid(s.val)) == "NONE" and listed(noid(s.val), nm[k]) is not None]
                    tri(R, "E1", key + ":absent-" + k, w, True if seen else None if T.calls(r"MDSetTool::") else False, "what stands for nothing given is taken for a %s" % k[:-1])
            ci = T.calls(r"MetaData::columnIndex$")
            for s in ci:
                k = listed_of(T, s, 1, nm["columns"])
                tri(R, "E1", key + ":named", f.loc(s.i), k == ix if k is not None else None, "another column is changed")
            ty, bf = [s for s in T.calls(r"Column::type$") if len(s.args) > 1], [s for s in T.calls(r"Column::bitfieldDef$") if len(s.args) > 1]
            mn, mx = [s for s in T.calls(r"Column::min$") if len(s.args) > 1], [s for s in T.calls(r"Column::max$") if len(s.args) > 1]
            for s in ty + bf + mn + mx:
                byname = [x for x in walk(("x", s.arg(0))) if isinstance(x, tuple) and x and x[0] == "call" and x[1].endswith("columnIndex")]
                k = elem_of(noid(s.args[0]))
                kept = [x[2] for x in walk(("x", noid(s.args[0]))) if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"vector::(operator\[\]|at)$", x[1]) and len(x) > 3 and bare(x[2])[:1] == ("alloca",) and bare(x[2])[2] not in nm.values()]
                tables = [x for x in loops(f) if C.body < x.body]
                kept = [a for a in kept if tables and any(i.blk not in tables[-1].body and bare(noid(f.expr(i["o"][0]))) == bare(a) for i in f.calls(r"vector::vector$"))]
                tri(R, "E1", key + ":column", f.loc(s.i), True if byname else False if kept or k and k[0] in ("phi", "c") else None, "a column is changed that is not named, or at its place in another table")
            if given.get("fields"):
                tri(R, "E1", key + ":fields", w, len(bf) == 1 and len(ty) == 1, "the fields given for a column are not set")
                for s in bf:
                    k = listed_of(T, s, 1, nm["fields"])
                    tri(R, "E1", key + ":fields-own", f.loc(s.i), k == ix if k is not None else None, "a column gets another column's fields")
                for s in ty:
                    v = uncast(noid(s.arg(1)))
                    tri(R, "E1", key + ":fields-type", f.loc(s.i), v == ("c", 4) if v[0] == "c" else None, "a column with fields does not become a bitfield")
            elif "fields" in given:
                tri(R, "E1", key + ":no-fields", w, not bf, "a column gets fields that were not given")
                if "types" in given:
                    tri(R, "E1", key + ":type", w, len(ty) == int(given["types"]), "the type given for a column is not set" if given["types"] else "a type is set that was not given")
                for s in ty:
                    k = listed_of(T, s, 1, nm["types"])
                    if k is not None:
                        tri(R, "E1", key + ":type-own", f.loc(s.i), k == ix, "a column gets another column's type")
            if "values" in given:
                n = int(given["values"])
                tri(R, "E1", key + ":value", w, len(mn) == n and len(mx) == n, "the value given for a column is not set" if n else "a value is set that was not given")
                for s in mn + mx:
                    k = listed_of(T, s, 1, nm["values"])
                    if k is not None:
                        tri(R, "E1", key + ":value-own", f.loc(s.i), k == ix, "a column gets another column's value")
                if n:
                    con = [(s, uncast(s.val)) for s in T.steps if s.kind == "cond" and lit(noid(s.val)) == "constant"]
                    con += [(s, uncast(s.val)) for s in T.steps if s.kind == "cond" and has(("x", s.val), r"basic_string::find$")]
                    ok = [(not s.truth) if e[:2] == ("cmp", "eq") and e[3] == ("c", -1) else (s.truth if e[:2] == ("cmp", "ne") else None) for s, e in con]
                    tri(R, "E1", key + ":constant", w, ok[-1] if ok else None if T.calls(r"onstant|find|name$") else False, "a value is set in a column that is not constant, whose values stay what they were")


# ------------------------------------------------------------------------------------------------ E2
def mdset_tables(P, R):
    for f in fns(P, r"MDSetTool::run\("):
        key, w = "MDSetTool::run", f.where()
        Ls = holder(f, TADV)
        if not Ls:
            tri(R, "E2", key, w, None, "")
            continue
        L = Ls[-1]
        for T in tr_(f, stop={L.header}) or []:
            fl, env = opt_flow(T)
            at = {id(s): e for s, e in fl}
            for rx, n, what in ((r"TablesReader::TablesReader$", 2, "another file is read"), (r"writeToFile$|FileHandle::FileHandle$", 3, "another file is written"), (r"parseUpdateList$", 1, "another parameter is taken for the update list")):
                for s in T.calls(rx):
                    gs = [env_of(at[id(s)], s, k) for k in range(len(s.args))]
                    gs = [g[0] for g in gs if g and g[0][0] == "param"]
                    if gs:
                        tri(R, "E2", key + ":files", f.loc(s.i), gs[0] == ("param", n), what)
        for T in bodies(f, L):
            if T.end == "throw":
                continue
            hs = T.calls(r"Header::serializeHeader(OtherByteOrder)?$")
            wr = T.calls(r"DataHandle::write$")
            if T.end == "ret" and not hs:
                e = [s for s in T.steps if s.kind == "cond" and uncast(s.val)[0] == "call" and re.search(r"operator(!=|==)$", uncast(s.val)[1])]
                tri(R, "E2", key + ":all", w, bool(e) and e[-1].truth != uncast(e[-1].val)[1].endswith("!="), "the rest of the tables is left out")
                tri(R, "E2", key + ":closed", w, len(T.calls(r"DataHandle::close$|AutoClose::~AutoClose$")) == 1, "the output is not closed")
            if not whole(L, T):
                continue
            tri(R, "E2", key + ":next", w, len(T.calls(TADV)) == 1, "tables are passed over")
            tri(R, "E2", key + ":header", w, len(hs) == 1, "a table gets %d headers" % len(hs))
            if len(hs) != 1:
                continue
            h = hs[0]
            same = [t if c[1] == "eq" else not t for c, t in T.conds() if c[0] == "cmp" and tcall(c) == ["byteOrder"] and c[3] == ("c", 1)]
            if same:
                tri(R, "E2", key + ":order", f.loc(h.i), same[-1] == h.q.endswith("serializeHeader"), "a header is not in the byte order of its table")
            else:
                tri(R, "E2", key + ":order", f.loc(h.i), None if T.calls(r"yteOrder$") else False, "a header is not in the byte order of its table")
            a = [noid(h.arg(k)) for k in range(1, len(h.args))]
            ops = [tcall(x) for x in a]
            rows = [x for x in a if set(calls_in(x)) & {"rowsNumber", "rowCount"}]
            tri(R, "E2", key + ":size", f.loc(h.i), "encodedDataSize" in ops[0] or has(("x", a[0]), r"Buffer::size$") if ops[0] or a[0][0] == "c" or has(("x", a[0]), r"::") else None, "a header does not give the size of its table's data")
            tri(R, "E2", key + ":rows", f.loc(h.i), a[1] in rows if len(a) > 1 and (rows or a[1][0] == "c" or set(calls_in(a[1])) & {"size", "columnCount", "encodedDataSize"}) else None, "a header does not give the number of its table's rows")
            tri(R, "E2", key + ":properties", f.loc(h.i), "properties" in ops[2] if len(a) > 2 and (ops[2] or a[2][0] == "alloca" or a[2][0] == "call" and re.search(r"::map$", a[2][1])) else None, "a table loses its properties")
            # header and data written, both whole
            if len(wr) != 2:
                tri(R, "E2", key + ":written", w, False if len(wr) < 2 and not [s for s in T.calls(r"::write$|saveInto|copyTo") if s not in wr] else None, "header or data of a table are not written")
                continue
            from_ = ["header" if contains(("x", noid(s.arg(1))), lambda x: isinstance(x, tuple) and x[:1] == ("call",) and "serializeHeader" in x[1]) or "ncodedHeader" in repr(raw(s, 1)) else "data" if "readEncodedData" in calls_in(noid(s.arg(1))) or "ncodedData" in repr(raw(s, 1)) else "?" for s in wr]
            tri(R, "E2", key + ":written", w, from_ == ["header", "data"] if "?" not in from_ else None, "a table is not its header followed by its data")
            for s in wr:
                rc = strip_ids(s.val)
                ok = [t for c, t in T.conds() if c[:2] == ("cmp", "eq") and rc in (strip_ids(uncast(c[2])), strip_ids(uncast(c[3])))]
                tri(R, "E2", key + ":write-checked", f.loc(s.i), bool(ok) and all(ok), "a failure to write is passed over")


# ------------------------------------------------------------------------------------------------ E3
def mdset_list(P, R):
    for f in fns(P, r"MDSetTool::parseUpdateList\("):
        key, w = "parseUpdateList", f.where()
        outs = [("arg", k, a["n"]) for k, a in enumerate(f.args) if k >= len(f.args) - 4]
        PB = r"vector::(push_back|emplace_back)$"
        Ls = [L for L in loops(f) if any(i.blk in L.body and bare(noid(f.expr(i["o"][0]))) in outs for i in f.calls(PB))]
        if not Ls:
            tri(R, "E3", key, w, None, "")
            continue
        L = max(Ls, key=lambda x: len(x.body))
        c = counted(f, L)
        if c:
            tri(R, "E3", key + ":all", w, c[2] == 0 and bool(c[3]), "not every assignment is taken")
        for T in bodies(f, L):
            if not whole(L, T):
                continue
            got = [raw(s, 0) for s in T.calls(PB)]
            for o in outs:
                n = got.count(o)
                tri(R, "E3", key + ":" + o[2], w, n == 1, "an assignment gives %d entries of %s, so the lists do not go together" % (n, o[2]))
            two = [t for c_, t in T.conds() if c_[:2] == ("cmp", "eq") and c_[3] == ("c", 2) and has(("x", c_[2]), r"size$")]
            colon = [not t for c_, t in T.conds() if c_[:2] == ("cmp", "eq") and c_[3] == ("c", -1) and has(("x", c_[2]), r"find")]
            for s in T.calls(PB):
                o = raw(s, 0)
                if o not in outs[:3]:
                    continue
                d = made_of(T, s, raw(s, 1))
                k = outs.index(o)
                if not d:
                    continue
                if k == 0:
                    ok = d[0] == "part" and d[1] == ("c", 0) and d[2] == ("c", 0) or d[0] == "elem" and d[1] == ("c", 0) and bool(colon) and not colon[-1]
                    if d[0] == "part" and d[2][0] not in ("c", "call", "add"):
                        ok = None
                    tri(R, "E3", key + ":column", f.loc(s.i), ok, "the column's name is not what precedes the colon")
                elif k == 1:
                    if d[0] == "part":
                        at, j = linear(d[2])
                        tri(R, "E3", key + ":type", f.loc(s.i), d[1] == ("c", 0) and len(at) == 1 and j == 1 if all("find" in repr(x) for x in at) else None, "the type is not what follows the colon")
                    else:
                        tri(R, "E3", key + ":type", f.loc(s.i), d[0] == "text", "another text is taken for the type")
                else:
                    tri(R, "E3", key + ":value", f.loc(s.i), (d == ("elem", ("c", 1))) == two[-1] if two else d[0] == "text" or d == ("elem", ("c", 1)) or None, "the value is not what follows '='")
            for s in T.calls(r"basic_string::(rfind|find_last_of)$"):
                if any(noid(a) == ("c", 58) or lit(a) == ":" for a in s.args[1:]):
                    tri(R, "E3", key + ":colon", f.loc(s.i), False, "a colon within the definition of the fields is taken for the one after the name")
            bfs = [s for s in T.calls(PB) if raw(s, 0) == outs[3]]
            parts_ = [s for s in T.calls(r"::split$") if raw(s, 0)[0] == "alloca" and lit(s.arg(1)) == ";"]
            for s in bfs:
                d = made_of(T, s, raw(s, 1))
                if d == ("empty",):
                    a = raw(s, 1)
                    tri(R, "E3", key + ":fields-kept", f.loc(s.i), any(contains(("x", noid(f.expr(o))), lambda x: x == a) for i in f.calls(PB + r"|Bitfield|pair::operator=$|::swap$") if i["o"] for o in i["o"][:1] if bare(noid(f.expr(o))) != outs[3]) or (None if list(f.calls(r"ields?\(")) else False), "the fields given for a column are dropped")
        # fields of a bitfield
        for L2 in [x for x in loops(f) if x.body < L.body]:
            c2 = counted(f, L2)
            if not any(i.blk in L2.body for i in f.calls(PB)):
                continue
            if c2:
                tri(R, "E3", key + ":fields", w, c2[2] == 0 and bool(c2[3]), "not every field is taken")
            for T in bodies(f, L2):
                if not whole(L2, T):
                    continue
                for s in T.calls(r"::split$"):
                    k = next((uncast(bare(x[3])) for x in walk(("x", noid(s.args[-1]))) if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"vector::(operator\[\]|at)$", x[1]) and len(x) > 3), None)
                    if k is not None and c2:
                        tri(R, "E3", key + ":each-field", f.loc(s.i), k == uncast(c2[0]) if k[0] in ("phi", "c", "add") else None, "a field is read from another one's definition")
                pf = [(fld(raw(s, 0)), s) for s in T.calls(PB)]
                if all(x for x, s in pf):
                    tri(R, "E3", key + ":field", w, sorted(x for x, s in pf) == ["first", "second"], "a field lacks its name or size")
                    for x, s in pf:
                        v = noid(s.arg(1))
                        k = elem_of(v)
                        if k and k[0] == "c":
                            tri(R, "E3", key + ":field-" + x, f.loc(s.i), k == ("c", 0 if x == "first" else 1), "name and size of a field are mixed up")


def made_of(T, s, a, d=5):
    """where the text (or object) at a comes from when step s takes it: ('text', literal), ('elem', index), ('part', index, start), ('empty',)"""
    if d == 0:
        return None
    if a[0] == "call":
        if re.search(r"vector::(operator\[\]|at)$", a[1]) and len(a) > 3:
            return ("elem", uncast(bare(a[3])))
        return None
    for x in reversed(T.steps[:T.index(s)]):
        if x.kind != "call" or not x.args or raw(x, 0) != a or "::~" in x.q:
            continue
        if x.q.endswith("::substr") and len(x.args) > 2:
            e = made_of(T, x, raw(x, 1), d - 1)
            return ("part", e[1], uncast(noid(x.args[2]))) if e and e[0] == "elem" else None
        if re.search(r"basic_string::(basic_string|operator=|assign)$", x.q) and len(x.args) > 1:
            b = raw(x, 1)
            if b[0] == "str":
                return ("text", b[1])
            return made_of(T, x, b, d - 1)
        if re.search(r"pair::pair$", x.q):
            return ("empty",) if len(x.args) == 1 else made_of(T, x, raw(x, 1), d - 1)
    return None


# ------------------------------------------------------------------------------------------------ Q1
def sql_input(P, R):
    for f in fns(P, r"SQLTool::SQLTool\("):
        key, w = "SQLTool", f.where()
        Ts = [T for T in tr_(f, limit=6000) or [] if T.end == "ret"]
        if not Ts:
            tri(R, "Q1", key, w, None, "")
        for T in Ts:
            for fd, opt in (("offset_", "-offset"), ("length_", "-length"), ("inputFile_", "-i")):
                for s in T.calls(r"operator=$"):
                    if raw(s, 0) == F(fd):
                        o = [lit(x.arg(len(x.args) - 2)) for x in T.steps[:T.index(s)] if x.kind == "call" and x.q.endswith("optionArgument") and uses(T, s, x)]
                        o = [x for x in o if x]
                        for x in T.steps[:T.index(s)]:
                            if fd != "inputFile_" and x.kind == "call" and x.q.endswith("optionArgument") and uses(T, s, x):
                                w32 = {"i64": True, "i32": False}.get(x.i["t"])
                                tri(R, "Q1", key + ":wide", f.loc(x.i), w32, "an offset or length beyond 2 GB is taken for another one")
                        if o:
                            tri(R, "Q1", key + ":" + fd, f.loc(s.i), o[-1] == opt, "%s is taken from another option" % fd)
    for f in fns(P, r"SQLTool::run\("):
        key, w = "SQLTool::run", f.where()
        Ts = [T for T in tr_(f, limit=6000) or [] if T.end == "ret"]
        if not Ts:
            tri(R, "Q1", key, w, None, "")
        for T in Ts:
            opts = dict(optset_(T))
            if any(opts[k] != t for k, t in optset_(T)):
                continue
            add = T.calls(r"addImplicitTable$")
            part = T.calls(r"PartFileHandle::PartFileHandle$")
            full_ = [s for s in T.calls(r"FileHandle::FileHandle$") if s not in part]
            op = T.calls(r"::openForRead$")
            no = [t for c, t in T.conds() if uncast(c)[0] == "call" and uncast(c)[1].endswith("empty") and contains(c, lambda x: x == F("inputFile_"))]
            if no:
                tri(R, "Q1", key + ":read", w, bool(add) != no[-1], "the input is read although none is named, or the other way round")
            if not add:
                continue
            tri(R, "Q1", key + ":opened", w, len(op) == 1, "the input is opened %d times" % len(op))
            tri(R, "Q1", key + ":one", w, len(part) + len(full_) == 1 or (None if not part and not full_ else False), "more than one input is opened")
            asked = [k for k in ("-offset", "-length") if k in opts]
            if any(opts.get(k) for k in asked):
                tri(R, "Q1", key + ":part", w, len(part) == 1, "-offset or -length is ignored")
            elif len(asked) == 2:
                tri(R, "Q1", key + ":whole", w, not part, "a part of the input is read although neither -offset nor -length is given")
            rest = lambda o: not any(contains(c, lambda x: x == F(o)) for c, t in T.conds())
            if full_ and not part and not any(opts.get(k) for k in asked):
                for k, o in (("-offset", "offset_"), ("-length", "length_")):
                    tri(R, "Q1", key + ":asked" + k, w, k in opts or (False if rest(o) and asked else None), "%s is ignored" % k)
            for s in part:
                if len(s.args) > 3:
                    tri(R, "Q1", key + ":offset", f.loc(s.i), has_fld(s.arg(2), "offset_") if has_any(s.arg(2)) else None, "the input is not read from -offset")
                    if opts.get("-length") is True:
                        tri(R, "Q1", key + ":length", f.loc(s.i), has_fld(s.arg(3), "length_") if has_any(s.arg(3)) else None, "not -length bytes are read")
                    elif opts.get("-length") is False:
                        tri(R, "Q1", key + ":rest", f.loc(s.i), not has_fld(s.arg(3), "length_") and (has_fld(s.arg(3), "offset_") or (False if has(("x", s.arg(3)), r"size$") and not has(("x", s.arg(3)), r"operator-$") else None)), "without -length not the rest of the input is read")


def has_fld(e, nm):
    return contains(("x", e), lambda x: x[:1] == ("fld",) and len(x) > 2 and x[2] == nm)


def has_any(e):
    return contains(("x", e), lambda x: x[:1] == ("fld",) and len(x) > 2 and x[2] in ("offset_", "length_")) or bare(e)[0] in ("c", "alloca", "call")


def uses(T, s, x):
    """step s takes the result of call x"""
    r = bare(noid(x.val))
    d = bare(noid(x.args[0])) if x.args else None
    e = ("x",) + tuple(noid(s.arg(k)) for k in range(1, len(s.args)))
    return contains(e, lambda y: y == r) or contains(e, lambda y: isinstance(y, tuple) and y[:1] in (("call",), ("vcall",)) and y[1].endswith("optionArgument") and lit(y) == lit(x.arg(len(x.args) - 2))) or d is not None and d[0] == "alloca" and contains(("x",) + tuple(noid(a) for a in s.args[1:]), lambda y: y == d)


# ------------------------------------------------------------------------------------------------ O1
def parse(P, R):
    for f in fns(P, r"CommandLineParser::parseCommandLine\("):
        key, w = "parseCommandLine", f.where()
        Ls = holder(f, r"CommandLineParser::argv$")
        if not Ls:
            tri(R, "O1", key, w, None, "")
            continue
        L = Ls[0]
        for T in bodies(f, L):
            if T.end == "ret":
                st = T.field("commandLineParsed_")
                tri(R, "O1", key + ":parsed", w, known(uncast(st)) in (True, 1) if st is not None else False, "the command line is read again, so every word is taken twice")
                continue
            if not whole(L, T):
                continue
            av = T.calls(r"CommandLineParser::argv$")
            ph = [("phi", h.id) for h in header_phis(L)]
            par = [s for s in T.calls(r"vector::(push_back|emplace_back)$") if raw(s, 0) == F("parameters_")]
            noa = [s for s in T.calls(r"set::(insert|emplace)$") if raw(s, 0) == F("optionsNoArguments_")]
            wia = [s for s in T.calls(r"map::(operator\[\]|insert|emplace|insert_or_assign)$") if raw(s, 0) == F("optionsWithArguments_")]
            wia = wia[:1]
            n = len(par) + len(noa) + len(wia)
            tri(R, "O1", key + ":word", w, n == 1, "a word is taken %d times" % n)
            if not av or n != 1:
                continue
            i = uncast(noid(av[0].arg(2)))
            if i not in ph:
                tri(R, "O1", key + ":index", w, None, "")
                continue
            nx = next_phi(T, L, i[1])
            at, k = linear(uncast(strip_ids(nx))) if nx is not None else ({}, 0)
            if at == {i: 1}:
                tri(R, "O1", key + ":consumed", w, k == (2 if wia else 1), "a word is passed over or taken twice")
            for h in header_phis(L):
                if h.id == i[1]:
                    ent = [uncast(strip_ids(e)) for b, e in phi_parts(L, h)[0]]
                    tri(R, "O1", key + ":first", w, all(e == ("c", 0) for e in ent) if ent and all(e[0] == "c" for e in ent) else None, "the first word is left out")
            dash = [s.truth if c[1] == "eq" else not s.truth for s in T.steps if s.kind == "cond" for c in [uncast(s.val)] if c[0] == "cmp" and c[3] == ("c", 45)]
            # how long the word can be, on this path: a '-' alone is a parameter
            size = {uncast(x) for c, t in T.conds() if c[0] == "cmp" for x in c[2:4] if uncast(x)[0] == "call" and re.search(r"(size|length)$", uncast(x)[1])}
            lone, longer = (all(holds_for(T, e, n) for e in size) for n in (1, 2))
            if dash and dash[-1]:
                other = [1 for c, t in T.conds() if contains(c, lambda x: x == ("str", "-")) or has(("x", c), r"compare$|empty$|strlen$|strcmp$")] or T.calls(r"compare$")
                opt = True if longer and not lone else False if lone and not longer else None
                if lone and longer and not par:
                    tri(R, "O1", key + ":dash", w, None if other or size else False, "a lone '-' is not a parameter")
                if lone and longer and par and not other and not size:
                    tri(R, "O1", key + ":kind", w, False, "an option is taken for a parameter")
            else:
                opt = False if dash else None
            if dash and opt is not None and (lone or longer):
                tri(R, "O1", key + ":kind", w, bool(par) != opt, "an option is taken for a parameter, or the other way round")
            reg = []
            for s in T.steps:
                if s.kind == "cond":
                    e = uncast(s.val)
                    if e[0] == "call" and re.search(r"operator(!=|==)$", e[1]):
                        reg.append(s.truth == e[1].endswith("!="))
                    elif e[0] == "cmp" and has(("x", e), r"set::count$"):
                        reg.append(s.truth != (e[1] == "eq"))
            if opt and reg and T.calls(r"set::(find|count)$"):
                fs = T.calls(r"set::(find|count)$")
                if all(raw(s, 0) == F("registeredOptionsWithArguments_") for s in fs):
                    tri(R, "O1", key + ":argument", w, bool(wia) == reg[-1], "an option's argument is taken for something else")
            if wia and len(av) > 1:
                j = uncast(noid(av[-1].arg(2)))
                at, k = linear(j)
                if set(at) == {i}:
                    tri(R, "O1", key + ":next-word", w, at == {i: 1} and k == 1, "an option's argument is not the next word")
    for f in fns(P, r"CommandLineParser::parameters(\[abi:cxx11\])?\(unsigned long\)"):
        pass


def parser_copy(P, R):
    ALL = {"argc_", "argv_", "registeredOptionsWithArguments_", "optionsWithArguments_", "optionsNoArguments_", "parameters_"}
    for f in fns(P, r"CommandLineParser::CommandLineParser\(odc::tool::CommandLineParser const&\)") + fns(P, r"CommandLineParser::operator=\(odc"):
        key, w = ("copy" if "operator=" not in f.dem else "operator="), f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            if any(c[:2] == ("cmp", "eq") and t and THIS in (bare(c[2]), bare(c[3])) and all(bare(x)[0] == "arg" for x in c[2:4]) for c, t in T.conds()):
                continue
            if [s for s in T.calls(r"CommandLineParser::(operator=|CommandLineParser)$") if raw(s, 0) == THIS and len(s.args) > 1 and raw(s, 1)[:2] == ("arg", 1)]:
                continue
            got = set()
            for s in T.stores():
                a = bare(s.addr)
                if a[0] == "fld" and bare(a[1]) == THIS and a[2] in ALL and contains(("x", s.val), lambda x: x[:2] == ("arg", 1)):
                    got.add(a[2])
            early = None
            for s in T.calls(r"(set|map|vector)::(operator=|set|map|vector|swap|assign)$"):
                a = raw(s, 0)
                if a[0] == "fld" and a[2] in ALL and len(s.args) > 1 and contains(("x", s.arg(1)), lambda x: x[:2] == ("arg", 1)):
                    got.add(a[2])
                    if a[2] in ("optionsWithArguments_", "optionsNoArguments_"):
                        ps = T.calls(r"CommandLineParser::(parameters|parseCommandLine|optionIsSet)$")
                        parsed = [t for c, t in T.conds() if contains(c, lambda x: x[:1] == ("fld",) and x[2] == "commandLineParsed_" and x[1][:2] == ("arg", 1))]
                        if ps:
                            tri(R, "O1", key + ":parsed-first", f.loc(s.i), T.index(ps[0]) < T.index(s), "options are copied before the command line was read")
            for nm in sorted(ALL):
                tri(R, "O1", key + ":" + nm, w, nm in got, "a copy loses %s" % nm)


def parsed_first(P, R):
    for f in fns(P, r"CommandLineParser::(optionIsSet|optionArgument|parameters)(<|\(|\[)"):
        if f.dem.rstrip().endswith("(unsigned long)"):
            continue
        key, w = re.search(r"CommandLineParser::(\w+)", f.dem).group(1), f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            done = [(s.truth, s) for s in T.steps if s.kind == "cond" and contains(("x", s.val), lambda x: x[:1] == ("fld",) and x[2] == "commandLineParsed_")]
            pc = T.calls(r"CommandLineParser::(parseCommandLine|parameters)$")
            yes = any(t != (uncast(s.val)[0] == "not" or uncast(s.val)[:2] == ("cmp", "eq") and uncast(s.val)[3] == ("c", 0)) for t, s in done)
            tri(R, "O1", key + ":read", w, bool(pc) or yes or (None if T.calls(r"CommandLineParser::") else False), "options are asked for before the command line was read")
            if key == "optionIsSet":
                v = uncast(T.ret) if T.ret is not None else None
                if v is not None and known(v) not in (True, 1):
                    both = {nm for s in T.calls(r"(set|map)::(find|count|contains)$") for nm in ("optionsNoArguments_", "optionsWithArguments_") if raw(s, 0) == F(nm)}
                    tri(R, "O1", key + ":both", w, len(both) == 2 or (None if T.calls(r"any_of|find_if") or not both else False), "an option that is given is taken for one that is not")
            if key == "optionArgument":
                fd = T.calls(r"map::find$")
                found = [s.truth == uncast(s.val)[1].endswith("!=") for s in T.steps if s.kind == "cond" and uncast(s.val)[0] == "call" and re.search(r"operator(!=|==)$", uncast(s.val)[1])]
                tr = T.calls(r"Translator::operator\(\)$|Translator<.*>::operator\(\)$")
                df = T.ret is not None and bare(T.ret)[:1] == ("arg",)
                if found and T.ret is not None and "basic_string" not in f.dem[:20]:
                    tri(R, "O1", key + ":given", w, df != found[-1] if df or has(("x", T.ret), r"Translator") else None, "an option's argument is ignored, or taken without being given")


def registered(P, R):
    """options with arguments are registered before the command line is read"""
    for f in fns(P, r"(LSTool|SQLTool)::\w+\(int|HeaderTool::run\("):
        key, w = re.search(r"(\w+::\w+)\(", f.dem).group(1), f.where()
        for T in tr_(f, limit=6000) or []:
            if T.end != "ret":
                continue
            reg = T.calls(r"registerOptionWithArgument$")
            par = T.calls(r"CommandLineParser::(parameters|optionIsSet|optionArgument)$")
            for s in reg:
                tri(R, "O1", key + ":registered", f.loc(s.i), not par or T.index(s) < T.index(par[0]), "an option's argument is taken for a parameter")
            names = {lit(s.arg(1)) for s in reg}
            for s in T.calls(r"optionArgument$"):
                o = lit(s.arg(len(s.args) - 2))
                if o and None not in names:
                    tri(R, "O1", key + ":known", f.loc(s.i), o in names, "the argument of %s is taken for a parameter" % o)
