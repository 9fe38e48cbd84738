"""SQL over frames: tables, cursors and outputs (src/odc/sql, Select, SelectIterator)."""
from ir import *
from loops import *
from frlib import linear, INVERSE, SWAP
from rangelib import *
from trace import *
from report import AnalysisBroken
from A03 import tri, find_all

KEEP = [r"core::MetaData::", r"core::Column::", r"odc::Writer<.*>::", r"IteratorProxy<", r"Row_<", r"ReaderIterator::", r"WriterBufferingIterator::", r"WriterDispatchingIterator::",
        r"odc::Reader::", r"TextReader", r"SQLSelectOutput::(outputNumber|updateTypes|resetBuffer|SQLSelectOutput|data|metadata|isNewDataset|dataOffset|rowDataSizeDoubles)\(",
        r"TODATableIterator<.*>::(updateMetaData|TODATableIterator)\(", r"TODATable<.*>::(oda|populateMetaData|TODATable)\(", r"sqlToOdbType",
        r"ODAOutput<.*>::(ODAOutput|outputNumber|initUpdateTypes)\(", r"LibOdc::instance", r"TemplateParameters::", r"DispatchingWriter::"]
CONFIG = {"roots": [
    {"tag": "table", "re": r"^odc::sql::(TODATable<.*>|\(anonymous namespace\)::ODAFactory)::", "keep": KEEP, "depth": 4},
    {"tag": "cursor", "re": r"^odc::sql::TODATableIterator<.*>::", "keep": KEEP, "depth": 4},
    {"tag": "out", "re": r"^odc::sql::(SQLSelectOutput|ODAOutput<.*>|SQLOutputConfig)::", "keep": KEEP, "depth": 4},
    {"tag": "types", "re": r"^odc::sql::sqlToOdbType", "keep": [], "depth": 4},
    {"tag": "row", "re": r"^odc::(Row_|IteratorProxy)<.*>::",
     "keep": KEEP + [r"odc::SelectIterator::", r"ODAUpdatingIterator<.*>::", r"WriterDispatchingIterator<.*>::"], "depth": 4},
    {"tag": "select", "re": r"^odc::(Select|SelectIterator)::", "keep": KEEP + [r"odc::sql::ODATable::"], "depth": 4},
]}
THIS = ("arg", 0, "this")


def F(name):
    return ("fld", THIS, name)


def LD(name):
    return ("ld", F(name))


def FT(f, name):
    """the member when a result slot comes before this"""
    return ("fld", ("arg", 1, "this") if f.dem.startswith("odc::Select::begin") else THIS, name)


def LDT(f, name):
    return ("ld", FT(f, name))


def run(P, R):
    R.rule("T1", "A table offers SQL every column of the frame once: its own name, position, type, width, missing value and bitfield definition; an unknown type is refused")
    R.rule("T2", "A column is found by its exact name or by the only name with that prefix before '@'; ambiguous and absent names are refused")
    R.rule("T3", "A query iterates the table it asked for, from where the table's reader stands, with the columns and the callback it passed")
    R.rule("F1", "Files are offered to SQL as tables exactly when their first bytes are those of a frame")
    R.rule("C1", "The cursor delivers each row once: it does not advance before the first, advances by one after, ends only at the end, rewinds to the start, and at a frame boundary refreshes the layout before telling the query")
    R.rule("C2", "For every selected column the cursor publishes offset, width, missing value and flag of the column of that name in the current frame")
    R.rule("O1", "The in-memory output gives each result column its own type's width, consecutive offsets, its own title, type, missing flag and bitfield definition, and a buffer of the sum of the widths")
    R.rule("O2", "Each row sets every output column once from the start of the buffer; a new layout is reported for the first row and only for it")
    R.rule("O3", "Values go to the column's place inside the buffer: missing values as the column's missing value, strings zero-padded to the full width, never past the end")
    R.rule("W1", "Storing a result: the frame's columns are declared with the result columns' own title, type, bitfields and string width before the header is written; later layouts must match or widen the string columns")
    R.rule("W2", "Storing a result: each row sets every column once and advances the writer once; missing values are the column's missing value; strings are cleared to the full width and bounded by it")
    R.rule("Y1", "SQL types map one to one to frame types; other types are refused")
    R.rule("B1", "Results go to text for ascii and wide, to a frame file for odb (split when the name has template parameters), and by default to text without a file and to a frame file with one")
    R.rule("X1", "A query opens its input and adds it as table; it is executed once however often begin() is called; iteration delivers each result row once, ends when the query ends and stays ended")
    R.rule("P1", "Row and iterator accessors forward to the underlying iterator's function of that meaning with the caller's arguments")
    for fn in (populate, lookup, iterate, factory, cursor, cursor_meta, out_types, out_rows, out_values, oda_types, oda_rows, types, build_output, select, proxies):
        fn(P, R)
    for r, n in (("T1", 2), ("C1", 2), ("O2", 1), ("W2", 1), ("X1", 1)):
        R.need(r, n)


def fns(P, R, tag, rx):
    return P.find(rx, tag)


def short(f):
    m = re.search(r"(\w+)<odc::(\w+)[^(]*::(\w+)\(", f.dem)
    return "%s<%s>::%s" % m.groups() if m else re.sub(r"\(.*", "", f.qual)


def tr_(f, **k):
    try:
        return traces(f, **k)
    except TooMany:
        return None


def all_(vs):
    """False dominates, then None, else True"""
    vs = list(vs)
    if any(v is False for v in vs):
        return False
    if any(v is None for v in vs) or not vs:
        return None
    return True


def truth_of(T, e):
    """truth of a returned boolean on a trace"""
    e = uncast(e)
    t = True
    while e[0] == "not":
        e, t = uncast(e[1]), not t
    k = known(e)
    if k is not None:
        return k == t
    a, ta = atom(e, t)
    for c, tr in T.conds():
        if c == a:
            return tr == ta
    return None


def has(e, q, *args):
    """e contains a call of q (regex) whose arguments satisfy the predicates"""
    return any(x[0] in ("call", "vcall") and re.search(q, x[1]) and len(x) > 2 and all(p is None or len(x) > 2 + k and p(x[2 + k]) for k, p in enumerate(args))
               for x in walk(e) if isinstance(x, tuple) and x and len(x) > 1 and isinstance(x[1], str))


def flags(T, rx):
    """truths of the decisions on a flag returned by a call of rx"""
    out = []
    for s in T.steps:
        if s.kind == "cond":
            e, t = uncast(s.val), s.truth
            if e[:2] == ("cmp", "eq") and e[3] in (("c", 0), ("f", "0")):
                e, t = uncast(e[2]), not t
            if e[0] in ("call", "vcall") and re.search(rx, e[1]):
                out.append(t)
    return out


# ------------------------------------------------------------------------------------------------ T1
TYPES = {1: "integer", 2: "real", 3: "string", 5: "double"}


def range_of_call(f, rx):
    """ranges around the calls of rx"""
    out = []
    for i in f.calls(rx):
        rs = range_at(f, i)
        if rs and rs[0] not in out:
            out.append(rs[0])
    return out


def column_value(T, r):
    """column type fixed by the decisions of a trace: value, 'other' (none of those tested), or None"""
    v, negs = None, set()
    for c, t in T.conds():
        if c[0] == "cmp" and c[1] == "eq" and c[3][0] == "c" and has(c[2], r"Column::type$"):
            if t:
                v = c[3][1]
            else:
                negs.add(c[3][1])
    return v if v is not None else ("other", negs)


def populate(P, R):
    for f in fns(P, R, "table", r"::populateMetaData\("):
        w, key = f.where(), short(f)
        adds = list(f.calls(r"SQLTable::addColumn$"))
        rs = range_of_call(f, r"SQLTable::addColumn$")
        if not adds or len(rs) != 1 or rs[0].kind != "ix":
            tri(R, "T1", key, w, False if not adds else None, "no column is added to the table")
            continue
        r = rs[0]
        okc = has(("x", r.cont), r"::columns$")
        tri(R, "T1", key + ":all", w, (r.start == 0 and r.full and not r.breaks) if okc else None, "not every column of the frame is added")
        try:
            its = body(f, r.L)
        except TooMany:
            tri(R, "T1", key, w, None, "")
            continue
        seen = {}
        for T in its:
            v = column_value(T, r)
            if T.end == "throw":
                if isinstance(v, int) and 1 <= v <= 5:
                    # thrown by something other than the type dispatch only after an explicit throw statement
                    if T.calls(r"__cxa_throw$"):
                        tri(R, "T1", "%s:type%d" % (key, v), f.loc(T.at), False, "columns of type %d are refused" % v)
                continue
            if T.end != "stop":
                continue
            cs = T.calls(r"SQLTable::addColumn$")
            vals = [v] if isinstance(v, int) else [x for x in (1, 2, 3, 4, 5, 0) if x not in v[1]]
            for x in vals:
                k = "%s:type%d" % (key, x)
                if not 1 <= x <= 5:
                    tri(R, "T1", k, w, False if cs else None, "a column of unknown type is added as if it were known")
                    continue
                if len(cs) != 1:
                    tri(R, "T1", k, w, False, "a column of type %d is added %d times" % (x, len(cs)))
                    continue
                add_args(R, f, r, k, T, cs[0], x)
        for x in TYPES:
            pass


def add_args(R, f, r, key, T, s, v):
    a = [s.arg(k) for k in range(len(s.args))]
    raw = [bare(x) for x in s.args]
    w = f.loc(s.i)
    if len(a) < 7:
        tri(R, "T1", key, w, None, "")
        return

    def of(q):
        def go(e):
            cs = find_all(e, lambda x: x[0] == "call" and isinstance(x[1], str) and re.search(r"Column::%s$" % q, x[1]))
            return bool(cs) and all(r.ofelem(c[2]) for c in cs)
        return go
    tri(R, "T1", key + ":name", w, of("name")(a[1]) if has(a[1], r"Column::\w+$") or a[1][0] in ("c", "str") else None, "the column is added under something other than its own name")
    tri(R, "T1", key + ":index", w, raw[2] == bare(r.it), "the column is added at a position other than its own")
    tri(R, "T1", key + ":missing", w, of("missingValue")(a[5]) if has(a[5], r"Column::") or a[5][0] in ("c", "f") else None, "the column's missing value is not passed on")
    tri(R, "T1", key + ":hasMissing", w, of("hasMissing")(a[4]) if has(a[4], r"Column::") or a[4][0] in ("c", "f") else None, "whether the column has missing values is not passed on")
    if len(a) > 6:
        e = uncast(a[6])
        k = known(e)
        if k is None and e[0] == "cmp" and e[1] in ("eq", "ne") and has(e[2], r"Column::type$") and e[3][0] == "c":
            k = (e[3][1] == v) == (e[1] == "eq")
        tri(R, "T1", key + ":isBitfield", w, None if k is None else k == (v == 4), "the column is added with the wrong bitfield flag")
    if len(a) > 7:
        # moves and copies of the definition
        x = a[7]
        tri(R, "T1", key + ":bitfields", w, True if has(x, r"Column::bitfieldDef$", lambda y: r.ofelem(y)) else (None if v != 4 or not has(x, r"Column::") else False),
            "the column's bitfield definition is not passed on")
    ty = a[3]
    strs = {x[1] for x in find_all(ty, lambda x: x[0] == "str")}
    if not has(ty, r"SQLType::lookup$"):
        tri(R, "T1", key + ":type", w, None, "")
        return
    if v == 4:
        mk = find_all(ty, lambda x: x[0] == "call" and re.search(r"SQLBitfield::make$", str(x[1])))
        if len(mk) < 1:
            tri(R, "T1", key + ":type", w, False if strs & set(TYPES.values()) else None, "a bitfield column is offered as %s" % sorted(strs))
        else:
            m = mk[0]
            flds = [next((y[2] for y in walk(x) if isinstance(y, tuple) and y[:1] == ("fld",) and y[2] in ("first", "second")), None) for x in m[2:]]
            order = [x for x in flds if x]
            tri(R, "T1", key + ":type", w, order == ["first", "second"] if order else None, "the bitfield type is made with the wrong member lists")
        return
    tri(R, "T1", key + ":type", w, strs & set(TYPES.values()) == {TYPES[v]} if strs & set(TYPES.values()) else None, "a column of type %d is offered as %s" % (v, sorted(strs)))
    if v == 3:
        lk = find_all(ty, lambda x: x[0] == "call" and re.search(r"SQLType::lookup$", str(x[1])))
        ok = any(has(x, r"dataSizeDoubles$") for x in lk)
        src = [x for l in lk for x in find_all(l, lambda x: x[0] == "call" and re.search(r"dataSizeDoubles$", str(x[1])))]
        right = all((len(x) > 3 and bare(x[3]) == bare(r.it)) or r.ofelem(x[2]) for x in src)
        tri(R, "T1", key + ":width", w, ok and right, "a string column is not offered with its own width")


# ------------------------------------------------------------------------------------------------ T2
def lookup(P, R):
    for f in fns(P, R, "table", r"::(hasColumn|column)\("):
        key, w = short(f), f.where()
        what = "has" if "hasColumn" in f.qual else "col"
        T1 = tr_(f, unroll=3)
        if T1 is None:
            tri(R, "T2", key, w, None, "")
            continue
        rs = [r for r in ranges(f) if r.cont == F("columnsByName_")]
        if rs:
            tri(R, "T2", key + ":all", w, rs[0].start == 0 and rs[0].full and not rs[0].breaks,
                "the search stops before all columns have been compared, so an ambiguous name is not noticed")
        elif T1 and not any(T.calls(r"columnsByName_|startsWith$|compare$|find$|lower_bound$") for T in T1):
            tri(R, "T2", key + ":all", w, None, "")
        for T in T1:
            if T.end == "cut":
                continue
            exact = T.truth(lambda c: c[0] == "call" and c[1].endswith("SQLTable::hasColumn"))
            sw = [s for s in T.steps if s.kind == "cond" and s.val[0] == "call" and re.search(r"StringTools::startsWith$", s.val[1])]
            other = [s for s in T.steps if s.kind == "cond" and s not in sw and not (s.val[0] == "call" and re.search(r"(SQLTable::hasColumn|operator(!=|==))$", s.val[1]))
                     and not (s.val[0] == "cmp" and known(s.val) is not None)]
            if not exact:
                tri(R, "T2", key + ":exact", w, None if not (T.end == "ret" and sw) else False, "the exact name is not tried first")
                continue
            if exact[0]:
                if T.end == "throw":
                    tri(R, "T2", key + ":exact", w, False, "a column whose exact name exists is refused")
                elif what == "has":
                    v = truth_of(T, T.ret)
                    tri(R, "T2", key + ":exact", w, v, "a column whose exact name exists is not found")
                else:
                    tri(R, "T2", key + ":exact", w, has(("x", T.ret), r"SQLTable::column$") or None, "")
                continue
            # the columns a table knows are objects
            if any(s.val[:2] == ("cmp", "eq") and s.val[2][:1] == ("ld",) and s.val[2][1][:1] == ("fld",) and s.val[2][1][2] == "second" and s.val[3][0] == "null" and s.truth for s in other):
                continue
            other = [s for s in other if not (s.val[:2] == ("cmp", "eq") and s.val[2][:1] == ("ld",) and s.val[2][1][:1] == ("fld",) and s.val[2][1][2] == "second" and s.val[3][0] == "null")]
            if other:
                tri(R, "T2", key + ":count", w, None, "")
                continue
            for s in T.calls(r"StringTools::startsWith$"):
                e, pre = s.arg(0), s.arg(1)
                good = e[0] == "fld" and e[2] == "first" and any(r.ofelem(s.args[0]) for r in ranges(f))
                strs = [x[1] for x in find_all(pre, lambda x: x[0] == "str")]
                tri(R, "T2", key + ":prefix", f.loc(s.i), (good and strs == ["@"] and contains(pre, lambda x: x[:2] == ("arg", 1))) if has(pre, r"operator\+$") or not strs else None,
                    "names are not compared with the requested name followed by '@'")
            n = sum(1 for s in sw if s.truth)
            if n >= 2:
                tri(R, "T2", "%s:count2" % key, w, T.end == "throw", "an ambiguous name is accepted")
            elif n == 1:
                if what == "has":
                    tri(R, "T2", "%s:count1" % key, w, T.end == "ret" and truth_of(T, T.ret), "the only column with that name is not found")
                else:
                    tri(R, "T2", "%s:count1" % key, w, T.end == "ret" and contains(T.ret, lambda x: x[:1] == ("fld",) and x[2] == "second"), "the only column with that name is not returned")
            elif what == "has":
                v = truth_of(T, T.ret) if T.end == "ret" else False
                tri(R, "T2", "%s:count0" % key, w, None if v is None else not v if T.end == "ret" else None, "an absent column is reported as present")
            else:
                tri(R, "T2", "%s:count0" % key, w, T.end == "throw", "an absent column is returned")


# ------------------------------------------------------------------------------------------------ T3
def is_arg(k):
    return lambda e: (lambda x: x[0] == "arg" and x[1] == k or x[0] == "call" and re.search(r"(::function|move|forward)$", x[1]) and any(isinstance(y, tuple) and y[:2] == ("arg", k) for y in x[2:]))(bare(e))


def iterate(P, R):
    for f in fns(P, R, "table", r"::iterator\("):
        key, w = short(f), f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            cs = T.calls(r"TODATableIterator::TODATableIterator$")
            if len(cs) != 1:
                tri(R, "T3", key, w, None, "")
                continue
            a = [cs[0].arg(k) for k in range(len(cs[0].args))]
            ok = len(a) == 5 and a[1] == THIS and is_arg(1)(a[2]) and is_arg(2)(a[3]) and a[4] in (F("readerIterator_"),)
            tri(R, "T3", key, w, ok if len(a) == 5 else None, "the cursor is not made from this table, the requested columns, the callback and the table's own reader position")
            tri(R, "T3", key + ":ret", w, bare(T.ret) == a[0], "the cursor is not returned")
    for f in fns(P, R, "cursor", r"::TODATableIterator\("):
        key, w = short(f), f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            c = T.calls(r"(IteratorProxy|iterator)::(IteratorProxy|operator=)$")
            src = [s for s in c if s.arg(0) == F("it_")]
            tri(R, "T3", key + ":seed", w, bool(src) and src[-1].arg(1)[:2] == ("arg", 4), "the cursor does not start where the table's reader stands")
            fr = T.field("firstRow_")
            tri(R, "T3", key + ":first", w, None if fr is None else fr == ("c", 1), "a new cursor would skip the first row")
            cb = [s for s in T.calls(r"std::function::(function|operator=)$") if s.arg(0) == F("metadataUpdateCallback_")]
            tri(R, "T3", key + ":callback", w, bool(cb) and contains(cb[-1].arg(1), lambda x: x[:2] == ("arg", 3)), "the callback is not kept")
            col = T.field("columns_")
            tri(R, "T3", key + ":columns", w, None if col is None else col[:2] == ("arg", 2), "the selected columns are not kept")
            end = at_end(T, None)
            upd = T.calls(r"::updateMetaData$")
            if end is False or end is None and not upd:
                tri(R, "T3", key + ":layout", w, bool(upd), "a new cursor has no layout for a table with rows")
    for f in fns(P, R, "table", r"TODATable<.*>::TODATable\("):
        key, w = short(f), f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            b = [s for s in T.calls(r"(Reader|TextReader)::begin$") if s.arg(0) == F("readerIterator_")]
            p = T.calls(r"::populateMetaData$")
            tri(R, "T3", key + ":begin", w, bool(b) and b[0].arg(1) == F("oda_") if b else None, "the table does not read its own file")
            tri(R, "T3", key + ":populate", w, len(p) == 1 and (not b or T.index(p[0]) > T.index(b[0])), "the table's columns are not listed once its reader is open")


def at_end(T, after):
    """truth of 'iterator is at the end' by the last such decision (after step index `after`)"""
    v = None
    for k, s in enumerate(T.steps):
        if after is not None and k < after:
            continue
        if s.kind == "cond" and s.val[0] == "call" and re.search(r"IteratorProxy::operator(==|!=)$", s.val[1]):
            xs = {x for x in s.val[2:4]}
            if xs == {F("it_"), F("end_")}:
                v = s.truth == s.val[1].endswith("==")
    return v


# ------------------------------------------------------------------------------------------------ F1
def factory(P, R):
    for f in fns(P, R, "table", r"ODAFactory::build\("):
        key, w = "ODAFactory::build", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            rd = [s for s in T.steps if s.kind == "cond" and s.val[0] == "cmp" and s.val[1] == "eq" and has(s.val[2], r"::read$")]
            mc = [s for s in T.steps if s.kind == "cond" and s.val[0] == "cmp" and s.val[1] == "eq" and has(s.val[2], r"memcmp$") and s.val[3] == ("c", 0)]
            null = bare(T.ret)[0] == "null"
            full_read = [s.truth for s in rd if s.val[3] == ("c", 5)]
            match = [s.truth for s in mc]
            if not null:
                if not mc and T.calls(r"(equal|strncmp|compare|mismatch)"):
                    tri(R, "F1", key, w, None, "")
                    continue
                tri(R, "F1", key + ":accept", w, full_read == [True] and match == [True], "a file is offered as a table without its first five bytes having been read and compared with a frame's")
                cs = T.calls(r"(TODATable::TODATable|ODATable::ODATable)$")
                if cs:
                    a = [cs[0].arg(k) for k in range(len(cs[0].args))]
                    tri(R, "F1", key + ":args", w, a[1][:2] == ("arg", 1) and contains(a[2], lambda x: x[:2] == ("arg", 3)) and contains(a[3], lambda x: x[:2] == ("arg", 2)),
                        "the table is made from another path or under another name")
                    rc = T.calls(r"odc::Reader::Reader$")
                    tri(R, "F1", key + ":path", w, contains(rc[0].arg(1), lambda x: x[:2] == ("arg", 3)) if rc else None, "the table reads another file")
            elif full_read == [True] and match == [True]:
                tri(R, "F1", key + ":refuse", w, False, "a file that starts like a frame is not offered as a table")
            for s in T.calls(r"memcmp$"):
                a = [bare(x) for x in s.args]
                r = T.calls(r"::read$")
                buf = [bare(x.args[1]) for x in r]
                other = [x for x in a[:2] if x not in buf]
                tri(R, "F1", key + ":bytes", w, len(other) == 1 and a[2] == ("c", 5), "the bytes compared are not the five bytes read")
                if len(other) == 1:
                    src = s.mem.get(("src", other[0]))
                    g = f.P.globals.get(src[1], {}) if src and src[0] == "g" else (f.P.globals.get(other[0][1], {}) if other[0][0] == "g" else {})
                    val = g.get("strx")
                    if isinstance(val, str):
                        tri(R, "F1", key + ":magic", w, val[:10].lower() == "ffff4f4441", "files are compared with other bytes than a frame's first")


# ------------------------------------------------------------------------------------------------ C1
def cursor(P, R):
    late = {}       # next() refreshes the layout whenever the first row is delivered
    for f in fns(P, R, "cursor", r"::next\("):
        key, w = short(f), f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            first = T.truth(lambda c: c == LD("firstRow_") or c == ("trunc", "i8", "i1", LD("firstRow_")))
            adv = [s for s in T.calls(r"IteratorProxy::operator(\+\+|\+=)$") if s.arg(0) == F("it_")]
            if not first:
                tri(R, "C1", key + ":first", w, None if not adv else False, "the cursor advances without asking whether the first row is still to come")
                continue
            tri(R, "C1", key + (":first" if first[0] else ":later"), w, len(adv) == (0 if first[0] else 1),
                "the cursor advances %d times %s" % (len(adv), "before the first row" if first[0] else "between rows"))
            fr = T.field("firstRow_")
            tri(R, "C1", key + ":flag", w, (fr == ("c", 0)) if fr is not None else not first[0], "the first row would be delivered again")
            pos = T.index(adv[-1]) if adv else 0
            end, v = at_end(T, pos), truth_of(T, T.ret)
            if v is None:
                tri(R, "C1", key + ":end", w, None, "")
                continue
            if end is None:
                tri(R, "C1", key + ":end", w, False if v else None, "a row is delivered without asking whether the end is reached")
                continue
            tri(R, "C1", key + ":end", w, v == (not end), "the cursor %s" % ("delivers a row after the end" if v else "ends although a row is there"))
            upd, cb = T.calls(r"::updateMetaData$"), [s for s in T.calls(r"std::function::operator\(\)$") if s.arg(0) == F("metadataUpdateCallback_")]
            if end:
                tri(R, "C1", key + ":layout-at-end", w, not upd, "the layout is refreshed at the end of the table")
                continue
            new = [s for s in T.steps if s.kind == "cond" and s.val[0] == "call" and re.search(r"::isNewDataset$", s.val[1])]
            if first[0]:
                late[short(f)] = late.get(short(f), True) and bool(upd) and bool(cb)
            asked = [k for k, s in enumerate(T.steps) if s.kind == "call" and re.search(r"::isNewDataset$", s.q or "")]
            if new and asked and asked[-1] < pos:
                tri(R, "C1", key + ":boundary", w, False, "the frame boundary is tested before the cursor advances")
                continue
            if new and not new[-1].truth:
                tri(R, "C1", key + ":boundary", w, True, "")
                continue
            ok = len(upd) >= 1 and len(cb) >= 1 and T.index(upd[0]) < T.index(cb[0]) and (not adv or T.index(upd[0]) > pos)
            tri(R, "C1", key + ":boundary", w, ok, "at a frame boundary the layout is not refreshed before the query is told")
            if cb:
                tri(R, "C1", key + ":self", w, cb[0].arg(1) == THIS, "the query is told about another cursor")
    for f in fns(P, R, "cursor", r"::rewind\("):
        key, w = short(f), f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            first = T.truth(lambda c: c == LD("firstRow_") or c == ("trunc", "i8", "i1", LD("firstRow_")))
            if first and first[0]:
                continue
            a = [s for s in T.calls(r"IteratorProxy::operator=$") if s.arg(0) == F("it_")]
            tri(R, "C1", key + ":begin", w, bool(a) and has(a[-1].arg(1), r"::begin$"), "rewinding does not return to the first row")
            tri(R, "C1", key + ":flag", w, T.field("firstRow_") == ("c", 1), "after rewinding the first row would be skipped")
            if not a:
                continue
            pos = T.index(a[-1])
            upd, cb = T.calls(r"::updateMetaData$"), [s for s in T.calls(r"std::function::operator\(\)$") if s.arg(0) == F("metadataUpdateCallback_")]
            if at_end(T, pos):
                tri(R, "C1", key + ":layout-at-end", w, not upd, "the layout is refreshed at the end of the table")
                continue
            ok = len(upd) >= 1 and len(cb) >= 1 and pos < T.index(upd[0]) < T.index(cb[0])
            # or with the first row after it
            later = [late.get(short(f).replace("::rewind", "::next"))]
            tri(R, "C1", key + ":layout", w, ok or later == [True],
                "after rewinding the query keeps reading the row buffer and the layout of the previous pass")


# ------------------------------------------------------------------------------------------------ C2
ACCESS = {"columnOffsets": "dataOffset", "doublesDataSizes": "dataSizeDoubles", "columnsHaveMissing": "hasMissing", "missingValues": "missingValue"}


def vector_of(f):
    """the member vector a getter returns a copy of"""
    out = set()
    for T in tr_(f) or []:
        if T.end == "ret":
            cs = T.calls(r"std::vector::(vector|operator=)$")
            out |= {s.arg(1)[2] for s in cs if len(s.args) > 1 and s.arg(1)[:1] == ("fld",)}
    return out.pop() if len(out) == 1 else None


def cursor_meta(P, R):
    for f in fns(P, R, "cursor", r"::updateMetaData\("):
        key, w = short(f), f.where()
        cls = f.dem[:f.dem.index("::updateMetaData")]
        vec = {}
        for name, what in ACCESS.items():
            for g in P.find("^" + re.escape(cls) + "::" + name + r"\(", "cursor"):
                v = vector_of(g)
                if v:
                    vec[v] = what
                tri(R, "C2", "%s:%s" % (key, name), g.where(), True if v else None, "")
        rs = [r for r in ranges(f) if r.cont in (F("columns_"), LD("columns_"))]
        fills = {}
        for i in f.calls(r"std::vector::(push_back|emplace_back)$"):
            a = bare(f.expr(i["o"][0]))
            if a[0] == "fld" and a[2] in vec:
                fills.setdefault(a[2], []).append(i)
        if len(rs) != 1 or not fills:
            tri(R, "C2", key, w, None, "")
            continue
        r = rs[0]
        tri(R, "C2", key + ":all", w, r.start == 0 and r.full and not r.breaks, "not every selected column gets its layout")
        try:
            its, pre = body(f, r.L), [T for T in traces(f, stop={r.L.header}) if T.end == "stop"]
        except TooMany:
            continue
        for T in pre:
            for v in vec:
                if v in fills:
                    other = [s for s in T.calls(r"std::vector::(clear|assign|resize|operator=|swap|erase)$") if s.arg(0) == F(v)]
                    tri(R, "C2", "%s:%s:clear" % (key, v), w, bool(other), "the layout of the previous frame is not dropped")
        for T in its:
            if T.end != "stop":
                continue
            for v, what in vec.items():
                if v not in fills:
                    tri(R, "C2", "%s:%s" % (key, v), w, None, "")
                    continue
                cs = [s for s in T.calls(r"std::vector::(push_back|emplace_back)$") if s.arg(0) == F(v)]
                k = "%s:%s" % (key, v)
                if len(cs) != 1:
                    tri(R, "C2", k, w, False, "%d values are recorded for a selected column" % len(cs))
                    continue
                x = cs[0].full(bare(cs[0].args[1]))
                x = uncast(x)
                while x[0] in ("ld",) and x[1][0] == "call" and IDENT.search(x[1][1]):
                    x = x[1]
                if x[0] != "call":
                    tri(R, "C2", k, w, False if x[0] in ("c", "f") else None, "a constant is published instead of the column's own value")
                    continue
                tri(R, "C2", k, w, x[1].split("::")[-1] == what if x[1].split("::")[-1] in ACCESS.values() else None, "%s is published where %s belongs" % (x[1].split("::")[-1], what))
                idx = bare(x[3]) if len(x) > 3 else None
                ci = find_all(idx, lambda y: y[0] == "call" and re.search(r"(MetaData::columnIndex|::columnIndex)$", str(y[1]))) if idx else []
                if not ci:
                    tri(R, "C2", k + ":index", w, False if idx is not None and not has(idx, r"^(?!std::vector::size$|std::distance$)") else None, "the layout is not looked up by the column's name in the current frame")
                    continue
                c = ci[0]
                ok = any(has(y, r"SQLColumn::name$", lambda z: r.ofelem(z) or has(("x", z), r"operator\*$|::get$")) for y in c[2:] if isinstance(y, tuple))
                cur = any(has(y, r"::columns$") and contains(y, lambda z: z == F("it_")) for y in c[2:] if isinstance(y, tuple))
                tri(R, "C2", k + ":index", w, ok and cur, "the layout is not looked up by the column's name in the current frame")
    for f in fns(P, R, "cursor", r"::data\("):
        for T in tr_(f) or []:
            if T.end == "ret":
                tri(R, "C2", short(f), f.where(), has(("x", T.ret), r"::data$") and contains(T.ret, lambda z: z == F("it_")) if has(("x", T.ret), r".") else None, "the cursor's data is not the current row's")


# ------------------------------------------------------------------------------------------------ O1
def strip_ids(e):
    return full({}, e)


def loop_with(f, rx):
    """(loop, counted description, body traces) of the loop that calls rx"""
    for L in loops(f):
        if any(i.blk in L.body for i in f.calls(rx)):
            try:
                return L, counted(f, L), body(f, L)
            except TooMany:
                return L, None, None
    return None, None, None


def elem_of(e, cont, ix):
    """e denotes (something of) element ix of container cont"""
    return contains(e, lambda x: x[0] == "call" and x[1].endswith("operator[]") and len(x) > 3 and cont(x[2]) and bare(x[3]) == ix) \
        or contains(e, lambda x: x[0] == "call" and x[1].endswith("::at") and len(x) > 3 and cont(x[2]) and bare(x[3]) == ix)


def seq_of(T, rx, name):
    return [s for s in T.calls(rx) if s.args and s.arg(0) == F(name)]


PUSH = r"std::vector::(push_back|emplace_back)$"
RESET = r"std::vector::(clear|assign|operator=|swap|erase)$"


def out_types(P, R):
    for f in fns(P, R, "out", r"SQLSelectOutput::prepare\("):
        for T in tr_(f) or []:
            if T.end == "ret":
                tri(R, "O1", "prepare", f.where(), True if T.calls(r"::updateTypes$") else None if T.calls(r"push_back") else False, "the layout is not set up before the first row")
    for f in fns(P, R, "out", r"SQLSelectOutput::updateTypes\("):
        key, w = "updateTypes", f.where()
        L, c, its = loop_with(f, r"Column::name$|%s" % PUSH)
        if not L or not c or its is None:
            tri(R, "O1", key, w, None, "")
            continue
        ix, cont, start, full_ = c
        tri(R, "O1", key + ":all", w, start == 0 and full_, "not every result column gets its place in the buffer")
        ismd = lambda x: contains(x, lambda y: y == F("metaData_"))
        isres = lambda x: not ismd(x) and not contains(x, lambda y: y[:1] == ("fld",) and y[1] == THIS)
        pre = [T for T in traces(f, stop={L.header}) if T.end == "stop"]
        for T in pre:
            for v in ("columnSizesDoubles_", "offsets_", "missingValues_"):
                used = any(seq_of(U, PUSH, v) for U in its)
                if used:
                    tri(R, "O1", "%s:%s:clear" % (key, v), w, bool(seq_of(T, RESET, v)), "the layout of the previous result is not dropped")
            tri(R, "O1", key + ":new", w, T.field("isNewDataset_") == ("c", 1) and T.field("newDatasetOutputted_") == ("c", 0)
                if T.field("isNewDataset_") is not None else (None if any(U.field("isNewDataset_") is not None for U in its) else False), "a new layout is not reported with the first row that uses it")
        for T in its:
            if T.end == "stop":
                sz = seq_of(T, PUSH, "columnSizesDoubles_")
                of = seq_of(T, PUSH, "offsets_")
                if len(sz) != 1 or len(of) != 1:
                    tri(R, "O1", key + ":size", w, None if not sz and not of else False, "a result column gets %d widths and %d offsets" % (len(sz), len(of)))
                    continue
                S = strip_ids(sz[0].arg(1))
                good = S[0] in ("udiv", "lshr", "sdiv") and has(S, r"SQLType::size$") and elem_of(S, isres, ix)
                bad = not has(S, r"SQLType::size$") or S[0] == "call" or not elem_of(S, isres, ix) and contains(S, lambda x: x[0] == "call" and x[1].endswith("operator[]"))
                den = S[2] if len(S) > 2 else None
                if good and den is not None:
                    good = den == (("c", 3) if S[0] == "lshr" else ("c", 8))
                    bad = not good
                tri(R, "O1", key + ":size", f.loc(sz[0].i), True if good else False if bad else None, "a result column's width is not its own type's size in doubles")
                # running offset: the pushed value before the increment, the increment by this column's width
                b = bare(of[0].args[1])
                acc = None
                if b[0] == "alloca" and of[0].mem.get(b) is None:
                    acc = b
                else:
                    v = of[0].arg(1)
                    if v[0] == "ld" and v[1][0] == "alloca":
                        acc = v[1]
                    elif v[0] == "phi":
                        acc = v
                if acc is None:
                    v = of[0].arg(1)
                    tri(R, "O1", key + ":offset", f.loc(of[0].i), False if v[0] in ("add", "c") else None, "a column's offset is not the sum of the widths before it")
                else:
                    nxt = T.last(acc) or ("ld", acc) if acc[0] == "alloca" else strip_ids(next_phi(T, L, acc[1]) or ("?",))
                    cur = ("ld", acc) if acc[0] == "alloca" else acc
                    nxt = subst_back(nxt, "columnSizesDoubles_", S)
                    ok = nxt[0] == "add" and cur in nxt[1:] and any(x == S for x in nxt[1:])
                    tri(R, "O1", key + ":offset", f.loc(of[0].i), ok if nxt[0] in ("add", "ld", "phi", "c") else None, "offsets do not advance by the width of the column")
                    for U in pre:
                        v0 = full(U.mem, U.mem[acc]) if acc[0] == "alloca" and acc in U.mem else None
                        if acc[0] == "phi":
                            vs = [f.expr(v) for i in f.B[L.header] if i.op == "phi" and i.id == acc[1] for v, b2 in i["o"] if b2 not in L.body]
                            v0 = vs[0] if len(vs) == 1 else None
                        tri(R, "O1", key + ":offset0", w, None if v0 is None else v0 == ("c", 0), "the first column's offset is not 0")
                # metadata
                mv = seq_of(T, PUSH, "missingValues_")
                tset = None
                for name, src, what in (("name", r"SQLExpression::title$", "title"), ("type", r"sqlToOdbType$", "type"), ("hasMissing", r"SQLExpression::hasMissingValue$", "missing flag"),
                                        ("bitfieldDef", r"SQLExpression::bitfieldDef$", "bitfield definition"), ("dataSizeDoubles", None, "width")):
                    cs = [s for s in T.calls(r"Column::%s$" % name) if len(s.args) > 1]
                    k = "%s:%s" % (key, name)
                    if not cs:
                        tri(R, "O1", k, w, None if not ismd(("x",) + tuple(s.val for s in T.steps if s.kind == "call")) else False, "the result column's %s is not set" % what)
                        continue
                    s = cs[-1]
                    if name == "type":
                        tset = T.index(s)
                    tri(R, "O1", k + ":own", f.loc(s.i), elem_of(s.arg(0), ismd, ix) if contains(s.arg(0), lambda x: x[0] == "call") else None, "the %s goes to another column" % what)
                    v = s.arg(1)
                    if src:
                        ok = has(v, src)
                        own = elem_of(v, isres, ix)
                        tri(R, "O1", k, f.loc(s.i), True if ok and own else False if v[0] in ("c", "str", "f") or has(v, r"SQLExpression::|Column::") and not ok or ok and not own and has(v, r"operator\[\]") else None,
                            "the result column's %s is not its own" % what)
                    else:
                        v = subst_back(strip_ids(v), "columnSizesDoubles_", S)
                        tri(R, "O1", k, f.loc(s.i), v == S if v == S or v[0] in ("c", "udiv") or has(v, r"SQLType::size$") else None, "the result column's width is not its own")
                if len(mv) == 1:
                    v = mv[0].arg(1)
                    ok = has(v, r"Column::missingValue$") and elem_of(v, ismd, ix)
                    tri(R, "O1", key + ":missing", f.loc(mv[0].i), True if ok else False if v[0] in ("f", "c") or has(v, r"SQLExpression::missingValue$") or has(v, r"operator\[\]") else None,
                        "missing values are not the output column's own")
                    mc = T.calls(r"Column::missingValue$")
                    if ok and tset is not None and mc:
                        tri(R, "O1", key + ":missing-after-type", f.loc(mc[0].i), T.index(mc[0]) > tset, "the missing value is taken before the column's type is known")
                elif not mv:
                    tri(R, "O1", key + ":missing", w, None, "")
            elif T.end == "ret":
                rq = T.field("requiredBufferSize_")
                ok = rq is not None and (has(rq, r"std::accumulate$") and contains(rq, lambda x: x == F("columnSizesDoubles_")) and rq[-1] in (("c", 0),) or rq[0] in ("ld", "phi"))
                tri(R, "O1", key + ":required", w, True if ok else False if rq is not None and rq[0] == "c" else None, "the buffer a row needs is not the sum of the widths")
                m = T.truth(lambda x: contains(x, lambda y: y == F("manageOwnBuffer_")))
                rs = seq_of(T, r"std::vector::resize$", "data_")
                if m and m[0]:
                    n = rs[0].arg(1) if rs else None
                    tri(R, "O1", key + ":buffer", w, bool(rs), "the output's own buffer is not sized for the row")
                    if rs:
                        p, o, e = T.field("pos_"), T.field("out_"), T.field("end_")
                        base = lambda x: x is not None and contains(x, lambda y: y == F("data_"))
                        tri(R, "O1", key + ":out", w, base(o) and base(p) and all(T.index(s) > T.index(rs[0]) for s in T.stores("out_")) if o is not None else False,
                            "the row buffer is not taken from the storage after it was sized")
                        if base(e) and e[0] == "idx":
                            tri(R, "O1", key + ":end", w, e[2] == n if e[2][0] in ("c", "ld", "phi") else None, "the end of the row buffer is not its size")


def subst_back(e, name, v):
    """the last element of a member vector, after v was appended"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == "ld" and e[1][:1] == ("call",) and e[1][1].endswith("vector::back") and e[1][2] == F(name):
        return v
    if e[0] == "ld" and e[1][:1] == ("call",) and e[1][1].endswith("operator[]") and e[1][2] == F(name):
        return v
    return (e[0],) + tuple(subst_back(x, name, v) if isinstance(x, tuple) else x for x in e[1:])


# ------------------------------------------------------------------------------------------------ O2 / W2 rows
def row_loop(R, rule, f, key, advance=None):
    """every output column is set exactly once; returns the traces that leave the loop normally"""
    w = f.where()
    L, c, its = loop_with(f, r"SQLExpression::output$")
    if not L or not its:
        tri(R, rule, key + ":all", w, None if any(True for _ in f.calls(r"for_each|::output$")) else False, "no output column is set")
        return None, None, None
    if c:
        tri(R, rule, key + ":all", w, c[2] == 0 and c[3], "not every output column is set")
    else:
        tri(R, rule, key + ":all", w, None, "")
    for T in its:
        if T.end == "stop":
            s = T.calls(r"SQLExpression::output$")
            tri(R, rule, key + ":once", w, len(s) == 1, "an output column is set %d times" % len(s))
            if len(s) == 1:
                a0 = s[0].arg(0)
                if c:
                    tri(R, rule, key + ":own", f.loc(s[0].i), contains(a0, lambda x: x == c[0]) and contains(a0, lambda x: x[:2] == ("arg", 1)) if contains(a0, lambda x: x[:2] == ("arg", 1)) else None,
                        "another result is written for the column")
                tri(R, rule, key + ":self", f.loc(s[0].i), s[0].arg(1) == THIS or contains(s[0].arg(1), lambda x: x == THIS), "the result is written to another output")
    return L, c, its


def bump(T, name):
    v = T.field(name)
    if v is None:
        return 0
    if v[0] == "add" and ("c", 1) in v[1:] and LD(name) in v[1:]:
        return 1
    return None


def out_rows(P, R):
    for f in fns(P, R, "out", r"SQLSelectOutput::output\("):
        key, w = "SQLSelectOutput::output", f.where()
        L, c, its = row_loop(R, "O2", f, key)
        if not L:
            continue
        pre = [T for T in traces(f, stop={L.header}) if T.end == "stop"]
        for T in pre:
            p = T.field("pos_")
            tri(R, "O2", key + ":start", w, False if p is None else True if p == LD("out_") else None, "a row does not start at the beginning of the buffer")
        tbl = {}
        for T in its:
            if T.end != "ret":
                continue
            k = known(uncast(T.ret))
            tri(R, "O2", key + ":ret", w, k, "a row that was output is reported as not output")
            b = bump(T, "count_")
            tri(R, "O2", key + ":count", w, b if b is None else b == 1, "output rows are not counted once")
            N = T.truth(lambda x: contains(x, lambda y: y == F("isNewDataset_")))
            O = T.truth(lambda x: contains(x, lambda y: y == F("newDatasetOutputted_")))
            n, o = T.field("isNewDataset_"), T.field("newDatasetOutputted_")
            for a in (0, 1):
                for d in (0, 1):
                    if N and N[0] != bool(a) or O and O[0] != bool(d):
                        continue
                    r = []
                    for v, old in ((n, a), (o, d)):
                        r.append(old if v is None else known(v) if v[0] == "c" else None)
                    tbl.setdefault((a, d), set()).add(tuple(None if x is None else int(x) for x in r))
        st, seen = (1, 0), []
        for _ in range(4):
            nx = tbl.get(st)
            if not nx or len(nx) != 1 or None in next(iter(nx)):
                seen = None
                break
            st = next(iter(nx))
            seen.append(st[0])
        tri(R, "O2", key + ":new", w, None if seen is None else seen == [1, 0, 0, 0], "a new layout is reported with rows %s after it was set up instead of the first only" % seen)


# ------------------------------------------------------------------------------------------------ O3
def deref_col(e, vec, col):
    return contains(e, lambda x: x[0] == "call" and x[1].endswith("operator[]") and x[2] == F(vec) and bare(x[3]) == col)


FORWARD = ("outputReal", "outputDouble", "outputInt", "outputUnsignedInt", "outputBitfield")


def forwards(P, R, rule, cls, label):
    for n in FORWARD:
        for f in P.find(cls + "::" + n + r"\(", "out"):
            for T in tr_(f) or []:
                if T.end != "ret":
                    continue
                cs = T.calls(r"::output(Number|Real|Double|Int|UnsignedInt|Bitfield)$")
                k = "%s:%s" % (label, n)
                if len(cs) != 1:
                    tri(R, rule, k, f.where(), False if not T.steps else None, "the value is dropped")
                    continue
                a = cs[0].args
                miss = uncast(bare(a[2]))
                tri(R, rule, k, f.where(), bare(a[1])[:2] == ("arg", 1) and miss[:2] == ("arg", 2) if bare(a[1])[0] in ("arg", "c", "f", "fneg", "fptrunc", "sitofp", "uitofp") and miss[0] in ("arg", "c", "not", "zext") else None,
                    "the value or its missing flag is not passed on unchanged")


def missing_of(T):
    t = T.truth(lambda x: x[:2] == ("arg", 2) or x[:1] == ("trunc",) and x[-1][:2] == ("arg", 2) or x[:2] == ("arg", 3) or x[:1] == ("trunc",) and x[-1][:2] == ("arg", 3))
    return t[0] if t else None


def out_values(P, R):
    S = r"SQLSelectOutput"
    forwards(P, R, "O3", S, "SQLSelectOutput")
    pos, end, col = LD("pos_"), LD("end_"), LD("currentColumn_")
    for f in fns(P, R, "out", S + r"::outputNumber\("):
        key, w = "SQLSelectOutput::outputNumber", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            st = [s for s in T.stores() if s.addr == pos]
            m = missing_of(T)
            if len(st) != 1:
                tri(R, "O3", key, w, False if not T.stores() or len(st) > 1 else None, "the value is stored %d times" % len(st))
                continue
            v = st[0].full(st[0].val)
            if v[0] in ("phi", "select"):
                tri(R, "O3", key + ":value", w, None, "")
            elif m is None:
                tri(R, "O3", key + ":value", w, False, "the missing flag is ignored")
            elif m:
                tri(R, "O3", key + ":value", w, deref_col(v, "missingValues_", col) if v[0] in ("arg", "ld", "c", "f") else None, "a missing value is not written as the column's missing value")
            else:
                tri(R, "O3", key + ":value", w, v[:2] == ("arg", 1) if v[0] in ("arg", "ld", "c", "f") else None, "the value written is not the one given")
            p = T.field("pos_")
            tri(R, "O3", key + ":advance", w, p == ("idx", pos, ("c", 1), "double") if p is None or p[0] == "idx" else None, "the next column would not start one place further")
            g = [s for s in T.steps if s.kind == "cond" and contains(s.val, lambda x: x == end)]
            ok = any(s.val == ("cmp", "ult", pos, end) and s.truth or s.val == ("cmp", "eq", pos, end) and not s.truth or
                     s.val == ("cmp", "ult", end, ("idx", pos, ("c", 1), "double")) and not s.truth for s in g)
            tri(R, "O3", key + ":bound", w, True if ok else False if not g or any(s.val == ("cmp", "ult", end, pos) for s in g) else None, "a value may be written past the end of the buffer")
    for f in fns(P, R, "out", S + r"::outputString\("):
        key, w = "SQLSelectOutput::outputString", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            m = missing_of(T)
            W = lambda e: e[0] == "mul" and ("c", 8) in e[1:] and deref_col(e, "columnSizesDoubles_", col) or e[0] == "shl" and e[2] == ("c", 3) and deref_col(e, "columnSizesDoubles_", col)
            ln = lambda e: bare(e)[:2] == ("arg", 2)
            g = [s for s in T.steps if s.kind == "cond" and contains(s.val, lambda x: x == end)]
            ok = any(s.val[:3] == ("cmp", "ult", end) and not s.truth and s.val[3][0] == "idx" and deref_col(s.val[3][2], "columnSizesDoubles_", col) for s in g)
            bad = not g or all(s.val in (("cmp", "ult", pos, end), ("cmp", "ult", end, pos), ("cmp", "eq", pos, end)) or
                               s.val[:3] == ("cmp", "ult", end) and s.val[3][0] == "idx" and s.val[3][2][0] == "c" for s in g)
            tri(R, "O3", key + ":bound", w, True if ok else False if bad else None, "a string may be written past the end of the buffer")
            cp = [s for s in T.calls(r"^(llvm\.mem(cpy|move)|mem(cpy|move)|strncpy|std::copy)") if contains(s.arg(0), lambda x: x == pos)]
            zs = [s for s in T.calls(r"^(llvm\.memset|memset|std::fill)") if contains(s.arg(0), lambda x: x == pos)]
            if m is None:
                tri(R, "O3", key + ":missing", w, False if cp else None, "the missing flag is ignored")
                continue
            if any(s.q.startswith(("std::", "strn")) for s in cp + zs):
                tri(R, "O3", key + ":value", w, None, "")
                continue
            if m:
                tri(R, "O3", key + ":missing", w, not cp, "a missing string is not written as zeros")
            else:
                tri(R, "O3", key + ":value", w, len(cp) == 1 and cp[0].arg(0) == pos and cp[0].arg(1)[:2] == ("arg", 1) and ln(cp[0].arg(2)) if len(cp) == 1 else (False if not cp and not T.calls("copy") else None),
                    "the string written is not the one given")
            # lengths compared with the full width
            lt = [s for s in T.steps if s.kind == "cond" and s.val[:2] == ("cmp", "ult")]
            lenok = any(W(s.val[2]) and ln(s.val[3]) and not s.truth for s in lt) or any(ln(s.val[2]) and W(s.val[3]) and s.truth for s in lt)
            if cp:
                tri(R, "O3", key + ":length", w, True if lenok else False if any(W(s.val[2]) and ln(s.val[3]) and s.truth for s in lt) or not any(contains(s.val, lambda x: x[:2] == ("arg", 2)) for s in lt) else None, "a string longer than the column is copied")
            # zero fill
            start = ("c", 0) if m else None
            short_ = any(ln(s.val[2]) and W(s.val[3]) and s.truth for s in lt) or m and any(s.val[:2] == ("cmp", "eq") and W(s.val[2]) and not s.truth for s in T.steps if s.kind == "cond")
            fullw = any(ln(s.val[2]) and W(s.val[3]) and not s.truth for s in lt) or m and any(s.val[:2] == ("cmp", "eq") and W(s.val[2]) and s.truth for s in T.steps if s.kind == "cond")
            if not zs:
                tri(R, "O3", key + ":pad", w, True if fullw else False, "a string shorter than the column leaves the rest of its place as it was")
            else:
                d, n = zs[0].arg(0), zs[0].arg(2)
                at = ("c", 0) if d == pos else d[2] if d[0] == "idx" and d[1] == pos else None
                if cp and T.index(zs[0]) < T.index(cp[0]):
                    r = d == pos and W(n)
                elif at is None:
                    r = None
                else:
                    okat = at == ("c", 0) if m or not cp else ln(at)
                    r = okat and (n[0] == "sub" and W(n[1]) and n[2] == at or at == ("c", 0) and W(n))
                    if not r and at == ("c", 0) and cp and d == pos:
                        r = False
                    elif not r and not (n[0] == "sub" or W(n)):
                        # a length computed otherwise: not the rest of the place when it is reduced to a part of a word
                        r = False if contains(n, lambda x: x[0] == "urem" or x[0] == "and" and x[2][0] == "c" and 0 < x[2][1] < 64) and contains(n, W) else None
                tri(R, "O3", key + ":pad", w, r, "the rest of the column's place is not cleared")
                tri(R, "O3", key + ":zero", w, zs[0].arg(1) == ("c", 0), "strings are not padded with zeros")
            p = T.field("pos_")
            tri(R, "O3", key + ":advance", w, p is not None and p[0] == "idx" and p[1] == pos and deref_col(p[2], "columnSizesDoubles_", col) and p[2][0] == "ld" if p is None or p[0] == "idx" else None,
                "the next column would not start after the string's place")
    for f in fns(P, R, "out", S + r"::resetBuffer\("):
        key, w = "SQLSelectOutput::resetBuffer", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            o, p, e = T.field("out_"), T.field("pos_"), T.field("end_")
            tri(R, "O3", key + ":out", w, o is not None and o[:2] == ("arg", 1) and p is not None and p[:2] == ("arg", 1), "rows do not go to the caller's buffer")
            z = T.truth(lambda x: x[:2] == ("cmp", "eq") and x[2][:2] == ("arg", 2) and x[3] == ("c", 0))
            n = e[2] if e is not None and e[0] == "idx" and e[1][:2] == ("arg", 1) and e[3] == "double" else None
            if n is None:
                tri(R, "O3", key + ":end", w, False if e is None else None, "the end of the caller's buffer is not noted")
            else:
                ok = n == LD("requiredBufferSize_") or n[:2] == ("arg", 2) and not (z and z[0])
                tri(R, "O3", key + ":end", w, ok if n[0] in ("arg", "ld", "add", "mul", "c") else None, "the end of the caller's buffer is not its size")
            sm = [s for s in T.steps if s.kind == "cond" and s.val[0] == "cmp" and contains(s.val, lambda x: x == F("requiredBufferSize_"))]
            if n is not None and n[:2] == ("arg", 2):
                good = any(s.val[:2] == ("cmp", "ult") and s.val[2][:2] == ("arg", 2) and s.val[3] == LD("requiredBufferSize_") and not s.truth for s in sm)
                tri(R, "O3", key + ":small", w, True if good else False if not sm else None, "a buffer too small for a row is accepted")
    for f in fns(P, R, "out", S + r"::(data|dataOffset|rowDataSizeDoubles|metadata|isNewDataset)\("):
        n = re.search(r"::(\w+)\(", f.dem).group(1)
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            r = bare(T.ret)
            off = lambda e: e[0] == "ld" and deref_col(e, "offsets_", ("arg", 1, "i")) or contains(e, lambda x: x[0] == "call" and x[1].endswith("operator[]") and x[2] == F("offsets_") and bare(x[3])[:2] == ("arg", 1))
            if n == "data" and len(split_params(f.dem)) == 0:
                ok = r == LD("out_")
            elif n == "data":
                ok = r[0] == "idx" and r[1] == LD("out_") and off(r[2])
            elif n == "dataOffset":
                ok = off(r)
            elif n == "rowDataSizeDoubles":
                ok = r == LD("requiredBufferSize_")
            elif n == "metadata":
                ok = r == F("metaData_")
            else:
                ok = uncast(r) == LD("isNewDataset_")
            tri(R, "O3", "SQLSelectOutput::%s/%d" % (n, len(split_params(f.dem))), f.where(), True if ok else False if r[0] in ("ld", "fld", "c", "idx", "null") and not has(r, r".") or r[0] == "idx" else None, "%s does not report what was output" % n)


# ------------------------------------------------------------------------------------------------ W1
def writer_fns(P, R, name):
    for f in fns(P, R, "out", r"ODAOutput<.*>::%s\(" % name):
        m = re.search(r"ODAOutput<odc::(\w+)", f.dem)
        yield "ODAOutput<%s>::%s" % (m.group(1) if m else "?", name), f.where(), f


def of_result(e, ix):
    """e concerns result column ix (not the writer's column)"""
    return contains(e, lambda x: x[0] == "call" and x[1].endswith("operator[]") and bare(x[3]) == ix and not contains(x[2], lambda y: y[:1] == ("fld",) and y[1] == THIS))


def kind_of(T):
    """(type fixed on the path or None, set of excluded types)"""
    v, neg = None, set()
    for c, t in T.conds():
        if c[0] == "cmp" and c[1] == "eq" and c[3][0] == "c" and has(c[2], r"sqlToOdbType$"):
            if t:
                v = c[3][1]
            else:
                neg.add(c[3][1])
    return v, neg


def oda_types(P, R):
    for name in ("prepare", "updateTypes"):
        for key, w, f in writer_fns(P, R, name):
            for T in tr_(f) or []:
                if T.end == "ret":
                    tri(R, "W1", key, w, bool(T.calls(r"::initUpdateTypes$")) or (None if T.steps else False), "the frame is not set up for the result")
    for key, w, f in writer_fns(P, R, "initUpdateTypes"):
        ls = [L for L in loops(f)]
        init = upd = None
        for L in ls:
            cs = [i for i in f.insts() if i.blk in L.body and i.op in ("call", "invoke") and re.search(r"::setColumn$", f.cq(i) or "")]
            if cs:
                init = L
            elif any(i.blk in L.body for i in f.calls(r"sqlToOdbType$")):
                upd = L
        if not init:
            tri(R, "W1", key, w, None, "")
        else:
            init_types(R, f, key, init)
        if upd:
            update_types(R, f, key, upd)
        else:
            tri(R, "W1", key + ":update", w, None, "")
    for key, w, f in writer_fns(P, R, "cleanup"):
        for T in tr_(f) or []:
            if T.end == "ret":
                s = T.calls(r"SQLSelect::outputFiles$")
                a = s[0].arg(1) if s else None
                tri(R, "W1", key, w, True if s and (has(a, r"::outputFiles$") or T.calls(r"IteratorProxy::operator(\*|->)$")) else False if not s and not T.calls(r".") else None, "the files written are not reported to the query")


def init_types(R, f, key, L):
    w = f.where()
    c = counted(f, L)
    if not c:
        tri(R, "W1", key + ":init", w, None, "")
        return
    ix, cont, start, fl = c
    tri(R, "W1", key + ":init:all", w, start == 0 and fl, "not every result column is declared")
    try:
        its = body(f, L)
        pre = [T for T in traces(f, stop={L.header}) if T.end == "stop"]
    except TooMany:
        return
    own = lambda v: of_result(v, ix)
    for T in pre:
        n = T.calls(r"setNumberOfColumns$")
        b = T.calls(r"::begin$")
        tri(R, "W1", key + ":init:count", w, len(n) == 1 and has(n[0].arg(1), r"::size$") and not contains(n[0].arg(1), lambda x: x[0] in ("add", "sub")) if n else None, "the frame is not given the number of result columns")
        if n and b:
            tri(R, "W1", key + ":init:order", w, T.index(b[0]) < T.index(n[0]), "columns are declared before the writer was started")
        tri(R, "W1", key + ":init:flag", w, T.field("initted_") == ("c", 1) or None, "the output would be set up again")
        hd = T.calls(r"writeHeader$")
        tri(R, "W1", key + ":init:header-before", w, not hd, "the header is written before the columns are declared")
    for T in its:
        if T.end == "ret":
            hd = T.calls(r"::writeHeader$")
            tri(R, "W1", key + ":init:header", w, len(hd) == 1 or (False if not hd else None), "the header is not written once after the columns were declared")
        if T.end != "stop":
            continue
        v, neg = kind_of(T)
        sc, sb = T.calls(r"::setColumn$"), T.calls(r"::setBitfieldColumn$")
        ds = [s for s in T.calls(r"Column::dataSizeDoubles$") if len(s.args) > 1]
        if T.calls(r"writeHeader$"):
            tri(R, "W1", key + ":init:header", w, False, "the header is written for every column")
        d = sb if sb else sc
        if len(sb) + len(sc) != 1:
            tri(R, "W1", key + ":init:declare", w, False, "a result column is declared %d times" % (len(sb) + len(sc)))
            continue
        s = d[0]
        a = [s.arg(k) for k in range(len(s.args))]
        if v == 4 or sb:
            tri(R, "W1", key + ":init:bitfield", f.loc(s.i), bool(sb) and v == 4 if v is not None or 4 in neg else None, "a bitfield column is not declared with its bitfields, or another as a bitfield")
            if sb and len(a) > 4:
                tri(R, "W1", key + ":init:bits", f.loc(s.i), has(a[4], r"SQLExpression::bitfieldDef$") and own(a[4]) if has(a[4], r".") else None, "the bitfields declared are not the result column's")
        elif v is None and 4 not in neg:
            asks = any(has(s2.full(s2.val), r"sqlToOdbType$|SQLType::|SQLExpression::type") and not (s2.val[:2] == ("cmp", "eq") and s2.val[3][0] == "c") for s2 in T.steps if s2.kind == "cond")
            tri(R, "W1", key + ":init:bitfield", f.loc(s.i), None if asks else False, "a bitfield column is declared without its bitfields")
        tri(R, "W1", key + ":init:index", f.loc(s.i), bare(a[1]) == ix, "the result column is declared at another position")
        tri(R, "W1", key + ":init:name", f.loc(s.i), has(a[2], r"SQLExpression::title$") and own(a[2]) if has(a[2], r".") or a[2][0] == "str" else None, "the column is not declared under the result's title")
        tri(R, "W1", key + ":init:type", f.loc(s.i), has(a[3], r"sqlToOdbType$") and own(a[3]) if has(a[3], r".") or a[3][0] == "c" and v is None else (True if a[3] == ("c", v) else False if a[3][0] == "c" else None),
            "the column is not declared with the result's type")
        # string width
        wst = [x for x in T.stores() if x.addr[0] == "call" and x.addr[1].endswith("operator[]") and x.addr[2] == F("columnSizes_")]
        last = wst[-1] if wst else None
        sz = strip_ids(last.full(last.val)) if last else None
        if v == 3:
            tri(R, "W1", key + ":init:width", w, len(ds) == 1 and has(ds[0].arg(1), r"SQLType::size$") and own(ds[0].arg(1)) if ds else False, "a string column is not declared with its width")
            if len(ds) == 1:
                e = strip_ids(ds[0].arg(1))
                tri(R, "W1", key + ":init:width8", f.loc(ds[0].i), e[0] == "udiv" and e[2] == ("c", 8) or e[0] == "lshr" and e[2] == ("c", 3) if e[0] in ("udiv", "lshr", "call", "vcall", "mul", "shl") else None,
                    "a string column's width is not its size in doubles")
                col = ds[0].arg(0)
                tri(R, "W1", key + ":init:widthcol", f.loc(ds[0].i), contains(col, lambda x: x[0] == "call" and x[1].endswith("operator[]") and bare(x[3]) == ix) if contains(col, lambda x: x[0] == "call" and x[1].endswith("operator[]") and len(x) > 3) else None, "the width goes to another column")
                k = [s2 for s2 in d]
                tri(R, "W1", key + ":init:width-after", f.loc(ds[0].i), T.index(ds[0]) > T.index(s), "the width is set before the column is declared")
            if last:
                tri(R, "W1", key + ":init:size", f.loc(last.i), has(sz, r"SQLType::size$") and own(sz) and sz[0] in ("call", "vcall") if sz[0] in ("call", "vcall", "c", "udiv", "mul") else None, "a string column's size in bytes is not its type's")
            else:
                tri(R, "W1", key + ":init:size", w, None, "")
        elif 3 in neg or v is not None:
            if last:
                tri(R, "W1", key + ":init:size", f.loc(last.i), sz == ("c", 8) if sz[0] == "c" or has(sz, r"SQLType::size$") else None, "a numeric column's size is not 8 bytes")
            if ds:
                e = strip_ids(ds[-1].arg(1))
                tri(R, "W1", key + ":init:width", f.loc(ds[-1].i), e == ("c", 1) if e[0] in ("c", "udiv") else None, "a numeric column is declared wider than a double")
        ms = [x for x in T.stores() if x.addr[0] == "call" and x.addr[1].endswith("operator[]") and x.addr[2] == F("missingValues_")]
        if ms:
            e = ms[-1].full(ms[-1].val)
            tri(R, "W1", key + ":init:missing", f.loc(ms[-1].i), has(e, r"missingValue$", None) and any(bare(y) == ix for x in walk(e) if isinstance(x, tuple) and x[:1] == ("call",) and re.search(r"missingValue$", x[1]) for y in x[2:] if isinstance(y, tuple)) and T.index(ms[-1]) > T.index(s)
                if has(e, r"missingValue$") else (False if e[0] in ("c", "f") else None), "the column's missing value is not noted once it is declared")
            tri(R, "W1", key + ":init:missing-own", f.loc(ms[-1].i), bare(ms[-1].addr[3]) == ix, "the missing value is noted for another column")
        if last:
            tri(R, "W1", key + ":init:size-own", f.loc(last.i), bare(last.addr[3]) == ix, "the size is noted for another column")


def update_types(R, f, key, L):
    w = f.where()
    c = counted(f, L)
    if not c:
        tri(R, "W1", key + ":update", w, None, "")
        return
    ix, cont, start, fl = c
    tri(R, "W1", key + ":update:all", w, start == 0 and fl, "not every result column is compared with the frame")
    try:
        its = body(f, L)
    except TooMany:
        return
    for T in its:
        if T.end == "ret":
            emp = [s for s in T.steps if s.kind == "cond" and s.val[0] == "call" and re.search(r"map::empty$", s.val[1])]
            fl = T.calls(r"flushAndResetColumnSizes$")
            if emp:
                tri(R, "W1", key + ":update:flush", w, bool(fl) != emp[-1].truth, "wider string columns are %s" % ("never applied to the frame" if not fl else "flushed although nothing changed"))
                for s in fl:
                    tri(R, "W1", key + ":update:flush-what", f.loc(s.i), s.arg(1) == emp[-1].val[2] or bare(s.args[1]) == emp[-1].val[2] or None, "")
            else:
                none = not any(U.calls(r"flushAndResetColumnSizes$") for U in its) and not any(True for _ in f.calls(r"flushAndResetColumnSizes$"))
                tri(R, "W1", key + ":update:flush", w, True if fl else False if none else None, "wider string columns are never applied to the frame")
        if T.end != "stop":
            continue
        v, neg = kind_of(T)
        ty = [s for s in T.steps if s.kind == "cond" and s.val[:2] == ("cmp", "eq") and any(has(x, r"sqlToOdbType$") for x in s.val[2:]) and any(has(x, r"Column::type$") for x in s.val[2:])]
        nm = [s for s in T.steps if s.kind == "cond" and (has(s.full(s.val), r"SQLExpression::title$") or has(s.full(s.val), r"Column::name$"))]
        tri(R, "W1", key + ":update:type", w, any(s.truth for s in ty) if ty else False, "a result whose types changed is written into the old frame")
        tri(R, "W1", key + ":update:name", w, True if any(has(s.full(s.val), r"SQLExpression::title$") and has(s.full(s.val), r"Column::name$") for s in nm) else False if not nm else None, "a result whose columns changed is written into the old frame")
        sets = [s for s in T.stores() if s.addr[0] == "call" and s.addr[1].endswith("map::operator[]")]
        sets += T.calls(r"map::(insert|emplace|insert_or_assign)$")
        if v == 3:
            g = [s for s in T.steps if s.kind == "cond" and s.val[:2] == ("cmp", "ult") and has(s.val, r"dataSizeDoubles$")]
            wider = [s.truth if has(s.val[2], r"dataSizeDoubles$") else not s.truth for s in g]
            strict = [has(s.val[2], r"dataSizeDoubles$") for s in g]
            if not g:
                tri(R, "W1", key + ":update:wider", w, None if sets else False, "a wider string column is not noticed")
                continue
            for s in g:
                old = [x for x in find_all(s.val, lambda x: x[0] == "call" and re.search(r"dataSizeDoubles$", str(x[1])))]
                at = {bare(y[3]) for x in old for y in find_all(x, lambda y: y[0] == "call" and y[1].endswith("operator[]") and len(y) > 3 and contains(y[2], lambda z: z == F("it_")))}
                new = [x for x in find_all(s.full(s.val), lambda x: x[0] == "vcall" and x[1].endswith("SQLType::size"))]
                tri(R, "W1", key + ":update:wider-own", f.loc(s.i), at == {ix} if at else None, "a string column's width is compared with another column's")
                tri(R, "W1", key + ":update:wider-new", f.loc(s.i), all(of_result(x, ix) for x in new) if new else None, "another column's width is compared with the frame's")
            if wider[-1] and strict[-1]:
                tri(R, "W1", key + ":update:wider", w, bool(sets), "a wider string column is not applied to the frame")
                ws = [x for x in T.stores() if x.addr[0] == "call" and x.addr[1].endswith("operator[]") and x.addr[2] == F("columnSizes_")]
                e = strip_ids(ws[-1].full(ws[-1].val)) if ws else None
                tri(R, "W1", key + ":update:size", w, bool(ws) and has(e, r"SQLType::size$") and e[0] == "vcall" and bare(ws[-1].addr[3]) == ix if not ws or e[0] in ("vcall", "udiv", "c", "min", "max") or e[0] == "ld" and has(e, r"std::(min|max)$") or e[0] == "call" and re.search(r"std::(min|max)$", e[1]) else None, "the string column's size in bytes does not follow its width")
                for s in sets:
                    if s.kind == "store":
                        e = strip_ids(s.full(s.val))
                        tri(R, "W1", key + ":update:doubles", f.loc(s.i), e[0] == "udiv" and e[2] == ("c", 8) and has(e, r"SQLType::size$") or e[0] == "lshr" and e[2] == ("c", 3) if e[0] in ("udiv", "lshr", "call", "vcall", "c") else None, "the new width is not the type's size in doubles")
                        mp = next((x for x in T.calls(r"map::operator\[\]$") if x.i.id == s.addr[-1][1]), None) if s.addr[-1][:1] == ("#",) else (T.calls(r"map::operator\[\]$") or [None])[-1]
                        k = mp.arg(1) if mp else ("?",)
                        tri(R, "W1", key + ":update:which", f.loc(s.i), of_result(k, ix) and has(k, r"title$") if has(k, r".") else None, "the new width goes to another column")


# ------------------------------------------------------------------------------------------------ W2
def cell_of(e):
    return contains(e, lambda x: x[0] == "call" and x[1].endswith("operator[]") and contains(x[2], lambda y: y == F("it_")) and bare(x[3]) == LD("col_"))


def oda_rows(P, R):
    for key, w, f in writer_fns(P, R, "output"):
        L, c, its = row_loop(R, "W2", f, key)
        if not L:
            continue
        if c:
            # the member that says which column is set
            tri(R, "W2", key + ":col", w, c[0] == LD("col_") or None, "")
        for T in its:
            if T.end == "ret":
                adv = [s for s in T.calls(r"IteratorProxy::operator(\+\+|\+=)$") if s.arg(0) == F("it_")]
                tri(R, "W2", key + ":advance", w, len(adv) == 1, "the writer advances %d times per row" % len(adv))
                b = bump(T, "count_")
                tri(R, "W2", key + ":count", w, b if b is None else b == 1, "rows are not counted once")
                tri(R, "W2", key + ":ret", w, known(uncast(T.ret)), "a row that was stored is reported as not stored")
            elif T.end == "stop":
                adv = [s for s in T.calls(r"IteratorProxy::operator(\+\+|\+=)$") if s.arg(0) == F("it_")]
                tri(R, "W2", key + ":advance-in-row", w, not adv, "the writer advances within a row")
    forwards(P, R, "W2", r"ODAOutput<odc::Writer.*>", "ODAOutput<Writer>")
    forwards(P, R, "W2", r"ODAOutput<odc::DispatchingWriter>", "ODAOutput<DispatchingWriter>")
    for key, w, f in writer_fns(P, R, "outputNumber"):
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            st = [s for s in T.stores() if cell_of(s.addr)]
            m = missing_of(T)
            if len(st) != 1:
                tri(R, "W2", key, w, False if not T.stores() else None, "the value is not stored in the column's place")
                continue
            v = st[0].full(st[0].val)
            if m is None:
                tri(R, "W2", key + ":value", w, False if v[:2] == ("arg", 1) else None, "the missing flag is ignored")
            elif m:
                tri(R, "W2", key + ":value", w, deref_col(v, "missingValues_", LD("col_")) if v[0] in ("arg", "ld", "c", "f") else None, "a missing value is not stored as the column's missing value")
            else:
                tri(R, "W2", key + ":value", w, v[:2] == ("arg", 1) if v[0] in ("arg", "ld", "c", "f") else None, "the value stored is not the one given")
    for key, w, f in writer_fns(P, R, "outputString"):
        W = lambda e: e[0] == "ld" and deref_col(e, "columnSizes_", LD("col_"))
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            m = missing_of(T)
            zs = [s for s in T.calls(r"^(llvm\.memset|memset)") if cell_of(s.arg(0))]
            cp = [s for s in T.calls(r"^(strncpy|llvm\.mem(cpy|move)|mem(cpy|move)|strcpy)") if cell_of(s.arg(0))]
            other = T.calls(r"std::(copy|fill)")
            if other:
                tri(R, "W2", key, w, None, "")
                continue
            full_ = zs and zs[0].arg(0)[0] == "call" and W(zs[0].arg(2)) and zs[0].arg(1) == ("c", 0)
            if not zs:
                tri(R, "W2", key + ":clear", w, False, "the rest of the column's place is not cleared")
            else:
                n = zs[0].arg(2)
                tri(R, "W2", key + ":clear", w, True if full_ else False if n[0] in ("arg", "c") or n[0] == "udiv" or zs[0].arg(1) != ("c", 0) else None, "the column's place is not cleared to its full width")
                if cp:
                    tri(R, "W2", key + ":order", w, T.index(zs[0]) < T.index(cp[0]) if full_ else None, "the string is cleared after it was written")
            if m is None:
                tri(R, "W2", key + ":missing", w, False if cp else None, "the missing flag is ignored")
            elif m:
                tri(R, "W2", key + ":missing", w, not cp, "a missing string is not stored as zeros")
            else:
                tri(R, "W2", key + ":value", w, len(cp) == 1 and cp[0].arg(1)[:2] == ("arg", 1) and (len(cp[0].args) < 3 or cp[0].arg(2)[:2] == ("arg", 2)) if cp else False, "the string stored is not the one given")
            if cp:
                if cp[0].q == "strcpy":
                    tri(R, "W2", key + ":bound", w, False, "the string is copied without bound")
                else:
                    g = [s for s in T.steps if s.kind == "cond" and s.val[0] == "cmp" and contains(s.val, lambda x: x[:2] == ("arg", 2))]
                    ok = any(s.val[:2] == ("cmp", "ult") and W(s.val[2]) and s.val[3][:2] == ("arg", 2) and not s.truth or s.val[:2] == ("cmp", "ult") and s.val[2][:2] == ("arg", 2) and W(s.val[3]) and s.truth for s in g)
                    tri(R, "W2", key + ":bound", w, True if ok else False if not g else None, "a string longer than the column is stored")


# ------------------------------------------------------------------------------------------------ Y1
KINDS = {0: 2, 1: 1, 2: 3, 3: 4, 5: 5}


def types(P, R):
    for f in fns(P, R, "types", r"sqlToOdbType\("):
        key, w = "sqlToOdbType", f.where()
        for T in tr_(f) or []:
            v, neg = None, set()
            for c, t in T.conds():
                if c[:2] == ("cmp", "eq") and has(c[2], r"::getKind$") and c[3][0] == "c":
                    if t:
                        v = c[3][1]
                    else:
                        neg.add(c[3][1])
            if v is None:
                if T.end == "ret" and neg >= set(KINDS):
                    r = bare(T.ret)
                    tri(R, "Y1", key + ":other", w, False if r[0] == "c" else None, "an unsupported type is stored as type %s" % (r[1:],))
                continue
            if v not in KINDS:
                tri(R, "Y1", "%s:%d" % (key, v), w, T.end == "throw" or (False if bare(T.ret or ("?",))[0] == "c" else None), "an unsupported type is stored")
                continue
            r = bare(T.ret) if T.end == "ret" else None
            tri(R, "Y1", "%s:%d" % (key, v), w, (r == ("c", KINDS[v]) if r[0] == "c" else None) if r else False, "SQL type %d becomes frame type %s" % (v, r and r[1:]))


# ------------------------------------------------------------------------------------------------ B1
def str_tests(T, rx=None):
    """[(string literal, truth)] of string comparisons on a trace"""
    out = []
    for s in T.steps:
        if s.kind == "cond":
            t = s.truth
            e = s.val
            if e[:2] == ("cmp", "eq") and e[3] == ("c", 0) and has(e[2], r"compare$"):
                e = e[2]
            elif e[0] != "call" or not re.search(r"operator(==|!=)$", e[1]):
                continue
            else:
                t = t == e[1].endswith("==")
            lits = [x[1] for x in e[2:] if isinstance(x, tuple) and x[:1] == ("str",)]
            if lits:
                out.append((lits[0], t, e))
    return out


def build_output(P, R):
    for f in fns(P, R, "out", r"SQLOutputConfig::buildOutput\("):
        key, w = "buildOutput", f.where()
        for T in tr_(f) or []:
            ts = str_tests(T)
            d = [t for l, t, e in ts if l == "default"]
            eqs = {l for l, t, e in ts if t and l != "default"}
            nes = {l for l, t, e in ts if not t}
            emp = [s.truth for s in T.steps if s.kind == "cond" and has(s.val, r"PathName::asString$") and s.val[0] == "call" and s.val[1].endswith("::empty")]
            emp += [s.truth for s in T.steps if s.kind == "cond" and s.val[:2] == ("cmp", "eq") and s.val[3] == ("c", 0) and has(s.val[2], r"::(size|length)$") and has(s.val[2], r"asString$")]
            what = None
            if T.end == "ret":
                what = "text" if T.calls(r"SQLSimpleOutput::SQLSimpleOutput$") else "split" if T.calls(r"DispatchingWriter::DispatchingWriter$") else "file" if T.calls(r"odc::Writer::Writer$") else None
            # default: text without a file, frame file with one
            asg = [s for s in T.calls(r"basic_string::(operator=|basic_string|assign)$") if len(s.args) > 1]
            fmt = eqs & {"wide", "ascii", "odb"}
            sel = [x for s in asg for x in find_all(("x",) + tuple(s.arg(k) for k in range(len(s.args))), lambda x: x[0] == "select")]
            if d and d[0] and sel:
                for x in sel:
                    c, tr = atom(x[1])
                    a, b = x[2], x[3]
                    if a[0] == "str" and b[0] == "str" and c[0] == "call" and c[1].endswith("::empty") and has(c, r"asString$"):
                        no, yes = (a[1], b[1]) if tr else (b[1], a[1])
                        tri(R, "B1", key + ":default", w, no in ("ascii", "wide") and yes == "odb" if {no, yes} <= {"ascii", "wide", "odb"} else None,
                            "by default results go to %s without a file and to %s with one" % (no, yes))
                continue
            if d and d[0]:
                lits = {x[1] for s in asg for x in find_all(("x",) + tuple(s.args[1:]), lambda x: x[0] == "str")} & {"ascii", "wide", "odb"}
                if emp and len(lits) == 1:
                    tri(R, "B1", key + ":default", w, (lits != {"odb"}) == emp[0], "by default results go to %s %s a file" % ("".join(lits), "without" if emp[0] else "with"))
                    if not fmt and T.end == "ret":
                        continue
                    if fmt and fmt != lits:
                        continue    # a combination that cannot occur
            if len(fmt) != 1:
                continue
            k = fmt.pop()
            if T.end == "throw":
                if k != "odb" or emp and not emp[-1] and not T.calls(r"Assert$"):
                    tri(R, "B1", "%s:%s" % (key, k), w, False, "format %s is refused" % k)
                continue
            if what is None:
                tri(R, "B1", "%s:%s" % (key, k), w, None, "")
                continue
            if k in ("wide", "ascii"):
                tri(R, "B1", "%s:%s" % (key, k), w, what == "text", "format %s is written as a frame file" % k)
                continue
            if what == "text":
                tri(R, "B1", key + ":odb", w, False, "format odb is written as text")
                continue
            tp = [s.truth for s in T.steps if s.kind == "cond" and s.val[:2] == ("cmp", "eq") and s.val[3] == ("c", 0) and has(s.val[2], r"vector::size$", lambda x: contains(x, lambda y: y[0] == "alloca"))]
            tp += [s.truth for s in T.steps if s.kind == "cond" and s.val[0] == "call" and s.val[1].endswith("vector::empty")]
            off = [s for s in T.steps if s.kind == "cond" and s.val[:2] in (("cmp", "ult"), ("cmp", "eq")) and any(has(x, r"vector::size$", lambda y: contains(y, lambda z: z[0] == "alloca")) for x in s.val[2:])
                   and any(x[0] == "c" and x[1] > 0 for x in s.val[2:])]
            if off and not tp:
                tri(R, "B1", key + ":odb", w, False, "whether a name has template parameters is decided by another number than none")
                continue
            tri(R, "B1", key + ":odb", w, (what == "file") == tp[-1] if tp else None, "a name %s template parameters is written by the %s writer" % ("without" if tp and tp[-1] else "with", "plain" if what == "file" else "splitting"))
            ps = T.calls(r"TemplateParameters::parse$")
            if ps:
                tri(R, "B1", key + ":template", w, contains(ps[0].arg(0), lambda x: x[:2] == ("arg", 1)), "the template is not taken from the file's name")
            c = T.calls(r"(DispatchingWriter::DispatchingWriter|odc::Writer::Writer)$")
            tri(R, "B1", key + ":path", w, contains(c[0].arg(1), lambda x: x[:2] == ("arg", 1)), "results go to another file")


# ------------------------------------------------------------------------------------------------ X1
def select(P, R):
    for f in fns(P, R, "select", r"^odc::Select::Select\("):
        ps = split_params(f.dem)
        w, key = f.where(), "Select/" + re.sub(r"\W+", "_", re.sub(r"std::__cxx11::basic_string<.*?>>", "string", ",".join(ps)))[:40]
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            dl = [s for s in T.calls(r"Select::Select$")]
            if T.field("initted_") is not None:
                tri(R, "X1", key + ":initted", w, T.field("initted_") == ("c", 0), "begin() would not execute the query")
            st = [s for s in T.calls(r"basic_string::basic_string$") if s.arg(0) == FT(f, "selectStatement_")]
            if st:
                tri(R, "X1", key + ":statement", w, contains(st[-1].arg(1), lambda x: x[:2] == ("arg", 1)), "another statement is kept")
            src = len(ps) > 1 and re.search(r"DataHandle|PathName|char const", ps[1])
            if not src or dl and not T.calls(r"ODATable::ODATable$"):
                continue
            op = T.calls(r"::openForRead$")
            tb = T.calls(r"ODATable::ODATable$")
            ad = T.calls(r"::addImplicitTable$")
            tri(R, "X1", key + ":table", w, len(tb) == 1 and len(ad) == 1 if not T.calls(r"::addTable$|::addImplicitTables$") else None, "the input is not added as a table")
            if len(tb) == 1 and len(ad) == 1:
                tri(R, "X1", key + ":added", w, bare(ad[0].args[1]) == bare(tb[0].args[0]) or ad[0].arg(1) == tb[0].arg(0) or None, "")
                d = has(tb[0].arg(1), r"currentDatabase$")
                tri(R, "X1", key + ":db", w, True if d and ad[0].arg(0) == tb[0].arg(1) else None, "")
                tri(R, "X1", key + ":open", w, bool(op) and T.index(op[0]) < T.index(tb[0]) and op[0].arg(len(op[0].args) - 1) == tb[0].arg(2) if not op or tb[0].arg(2) == op[0].arg(len(op[0].args) - 1) else None,
                    "the input is not opened before it is added as a table")
                if "DataHandle" in ps[1]:
                    tri(R, "X1", key + ":handle", w, tb[0].arg(2)[:2] == ("arg", 2) or None, "")
                rs = [s for s in T.calls(r"unique_ptr::(reset|operator=)$") if has(s.arg(1), r"PathName::fileHandle$")]
                if rs:
                    tri(R, "X1", key + ":path", w, contains(rs[0].arg(1), lambda x: x[:2] == ("arg", 2)), "another file is opened")
    for f in fns(P, R, "select", r"^odc::Select::~Select\("):
        for T in tr_(f) or []:
            own = T.truth(lambda x: x[0] == "call" and x[1].endswith("operator bool") or x[:2] == ("cmp", "eq") and contains(x, lambda y: y == FT(f, "ownDH_")))
            if T.end == "ret" and own and T.calls(r"unique_ptr::operator bool$"):
                tri(R, "X1", "~Select:close", f.where(), bool(T.calls(r"DataHandle::close$")) == own[0], "the file the query opened is %s" % ("never closed" if own[0] else "closed though absent"))
    for f in fns(P, R, "select", r"^odc::Select::begin\("):
        key, w = "Select::begin", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            i = T.truth(lambda x: uncast(x) == LDT(f, "initted_"))
            ex = T.calls(r"SQLSelect::prepareExecute$|createSelectIterator$|SelectIterator::SelectIterator$")
            rows = T.calls(r"SQLSelect::processOneRow$|SelectIterator::next$")
            if not i:
                tri(R, "X1", key + ":memo", w, None if not ex else False, "every call of begin() executes the query again")
                continue
            tri(R, "X1", key + ":memo", w, (not ex and not rows) if i[0] else bool(ex), "the query is %s" % ("executed again by a further begin()" if i[0] else "not executed by begin()"))
            if not i[0]:
                tri(R, "X1", key + ":first", w, len(rows) == 1, "begin() reads %d rows" % len(rows))
                a = [s for s in T.calls(r"IteratorProxy::(operator=|IteratorProxy)$") if s.arg(0) == FT(f, "it_")]
                tri(R, "X1", key + ":keep", w, bool(a) and T.field("initted_") == ("c", 1), "the iterator is not kept for a further begin()")
                if T.calls(r"SQLParser::parseString$"):
                    tri(R, "X1", key + ":statement", w, any(contains(x.arg(k), lambda y: y == FT(f, "selectStatement_")) for x in T.calls(r"basic_string::basic_string$|parseString$|createSelectIterator$|SelectIterator::SelectIterator$") for k in range(1, len(x.args))), "another statement is executed")
            rr = [s for s in T.calls(r"IteratorProxy::IteratorProxy$") if bare(s.args[0])[:1] == ("arg",)]
            tri(R, "X1", key + ":ret", w, rr[-1].arg(1) == FT(f, "it_") or has(rr[-1].arg(1), r"IteratorProxy$") or None if rr else None, "")
    for f in fns(P, R, "select", r"^odc::Select::end\("):
        for T in tr_(f) or []:
            if T.end == "ret":
                c = T.calls(r"IteratorProxy::IteratorProxy$")
                tri(R, "X1", "Select::end", f.where(), c[-1].arg(1)[0] == "null" if c else None, "end() is not the end")
    for f in fns(P, R, "select", r"^odc::SelectIterator::parse\("):
        key, w = "SelectIterator::parse", f.where()
        for T in tr_(f) or []:
            nul = T.truth(lambda x: x[:2] == ("cmp", "eq") and has(x[2], r"__dynamic_cast$") and x[3][0] == "null")
            pe = T.calls(r"SQLSelect::prepareExecute$")
            if T.end != "ret":
                continue
            tri(R, "X1", key + ":select", w, nul == [False] if T.calls(r"__dynamic_cast$") else None, "a statement that is no SELECT is accepted")
            tri(R, "X1", key + ":prepare", w, len(pe) == 1, "the query is prepared %d times" % len(pe))
            ps = T.calls(r"SQLParser::parseString$")
            if ps:
                tri(R, "X1", key + ":text", w, any(contains(ps[0].arg(k), lambda y: y == F("select_")) for k in range(len(ps[0].args))), "another statement is parsed")
    for f in fns(P, R, "select", r"^odc::SelectIterator::next\("):
        key, w = "SelectIterator::next", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            n = T.truth(lambda x: uncast(x) == LD("noMore_"))
            rows, post = T.calls(r"SQLSelect::processOneRow$"), T.calls(r"SQLSelect::postExecute$")
            if not n:
                tri(R, "X1", key + ":sticky", w, False if rows else None, "the query goes on after it ended")
                continue
            v = truth_of(T, T.ret)
            if n[0]:
                tri(R, "X1", key + ":sticky", w, not rows and not post and v is False if v is not None else None, "the query goes on after it ended")
                nm = T.field("noMore_")
                if nm is not None and nm != ("c", 1):
                    tri(R, "X1", key + ":sticky", w, False, "the end of the query is forgotten")
                continue
            tri(R, "X1", key + ":once", w, len(rows) == 1, "next() reads %d rows" % len(rows))
            got = T.truth(lambda x: x[0] == "call" and x[1].endswith("processOneRow"))
            if not got:
                tri(R, "X1", key + ":end", w, False if T.field("noMore_") is None else None, "the end of the query is not noticed")
                continue
            if got[0]:
                tri(R, "X1", key + ":row", w, v if v is None else v and not post and T.field("noMore_") in (None, ("c", 0)), "a row is reported as the end")
            else:
                tri(R, "X1", key + ":end", w, v if v is None else (not v and T.field("noMore_") == ("c", 1)), "the end of the query is not kept")
                tri(R, "X1", key + ":post", w, len(post) == 1, "the query is finished %d times" % len(post))
    for f in fns(P, R, "select", r"^odc::SelectIterator::SelectIterator\("):
        key, w = "SelectIterator", f.where()
        for T in tr_(f) or []:
            if T.end == "ret":
                nm = T.field("noMore_")
                tri(R, "X1", key + ":start", w, None if nm is None else nm == ("c", 0), "a new iterator is already at its end")
                o = T.field("output_")
                tri(R, "X1", key + ":output", w, None if o is None else o[:2] == ("arg", 3), "rows are taken from another output")
                tri(R, "X1", key + ":prepare", w, len(T.calls(r"prepareExecute$|::parse$")) >= 1, "the query is not prepared")
    MAP = {"data": "data", "columns": "metadata", "isNewDataset": "isNewDataset", "dataOffset": "dataOffset", "rowDataSizeDoubles": "rowDataSizeDoubles", "setOutputRowBuffer": "resetBuffer"}
    for f in fns(P, R, "select", r"^odc::SelectIterator::(%s)\(" % "|".join(MAP)):
        n = re.search(r"::(\w+)\(", f.dem[5:]).group(1)
        forward(R, f, "SelectIterator::%s/%d" % (n, len(split_params(f.dem))), r"SQLSelectOutput::%s$" % MAP[n], "output_", r"SQLSelectOutput::")


def forward(R, f, key, target, member, family, rule="P1"):
    """f calls the function of that meaning on its member, with its own arguments, and returns the result"""
    n = len(split_params(f.dem))
    for T in tr_(f) or []:
        if T.end != "ret":
            continue
        cs = T.calls(target)
        if not cs:
            tri(R, rule, key, f.where(), False if T.calls(family) or not T.steps else None, "%s calls %s" % (key, T.calls(family)[0].q if T.calls(family) else "nothing"))
            continue
        s = cs[-1]
        a = [bare(x) for x in s.args]
        sret = a and a[0][:1] == ("arg",) and "result" in str(a[0])
        k = 1 if sret else 0
        own = contains(s.arg(k), lambda x: x[:1] == ("fld",) and x[2] == member) if member else True
        tri(R, rule, key + ":on", f.where(), own or None, "")
        given = [uncast(s.full(x)) for x in s.args[k + 1:]]
        given = [next((y for y in g[2:] if isinstance(y, tuple) and y[:1] == ("arg",)), g) if g[0] == "call" and re.search(r"(\w+)::\1$", g[1]) else g for g in given]
        order = [g[1] for g in given if g[:1] == ("arg",)]
        want = [j + (2 if sret else 1) for j in range(n)]
        tri(R, rule, key + ":args", f.where(), order == want[:len(order)] if len(order) == len(given) else (False if any(g[0] in ("c", "add", "sub") for g in given) and len(given) == n else None), "%s does not pass on its own arguments" % key)
        if T.ret is not None:
            r = uncast(full(T.mem, T.ret))
            if r[0] in ("c",):
                tri(R, rule, key + ":ret", f.where(), False, "%s does not return the result" % key)


# ------------------------------------------------------------------------------------------------ P1
ROW = {"data": "data", "integer": "data", "columns": "columns", "setNumberOfColumns": "setNumberOfColumns", "isNewDataset": "isNewDataset", "dataOffset": "dataOffset",
       "setColumn": "setColumn", "setBitfieldColumn": "setBitfieldColumn", "writeHeader": "writeHeader", "close": "close", "properties": "properties",
       "flushAndResetColumnSizes": "flushAndResetColumnSizes"}
COLUMN = {"dataSizeDoubles": "dataSizeDoubles", "hasMissing": "hasMissing"}
ITER = r"(SelectIterator|ReaderIterator|WriterBufferingIterator|WriterDispatchingIterator|ODAUpdatingIterator|TextReaderIterator|SQLSelectOutput)::"


def proxies(P, R):
    for f in fns(P, R, "row", r"^odc::Row_<"):
        m = re.search(r">::([\w\[\] ]+?)(\[abi:cxx11\])?\(", f.dem[f.dem.rindex(">::"):])
        if not m:
            continue
        n = m.group(1)
        it = re.match(r"odc::Row_<odc::(\w+)", f.dem).group(1)
        key = "Row<%s>::%s/%d" % (it, n, len(split_params(f.dem)))
        w = f.where()
        if n in ("operator[]", "integer"):
            forward(R, f, key, r"(%s|Row_::)data$" % ITER, None, ITER)
        elif n in ROW:
            forward(R, f, key, ITER + ROW[n] + "$", None, ITER)
        elif n == "missingValue" and len(split_params(f.dem)) == 2:
            forward(R, f, key, ITER + "missingValue$", None, ITER)
        elif n in COLUMN or n == "missingValue":
            what = COLUMN.get(n, "missingValue")
            for T in tr_(f) or []:
                if T.end != "ret":
                    continue
                cs = T.calls(r"Column::\w+$")
                ok = any(s.q.endswith("::" + what) for s in cs)
                tri(R, "P1", key, w, ok if cs else None, "%s reports something else" % key)
                tri(R, "P1", key + ":index", w, any(contains(s.arg(0), lambda x: x[0] == "call" and x[1].endswith("operator[]") and len(x) > 3 and uncast(bare(x[3]))[:2] == ("arg", 1)) for s in cs) if cs else None, "%s reports another column" % key)
        elif n == "isMissing":
            for T in tr_(f) or []:
                if T.end != "ret":
                    continue
                h = flags(T, r"Column::hasMissing$")
                v = truth_of(T, T.ret)
                r = bare(T.ret)
                if h and not h[0]:
                    tri(R, "P1", key + ":none", w, None if v is None else v is False, "a column without missing values reports one")
                elif h and h[0]:
                    cmp_ = find_all(("x", full(T.mem, T.ret)), lambda x: x[:2] in (("cmp", "eq"), ("fcmp", "oeq")) or x[:1] == ("fcmp",))
                    if v is not None:
                        tri(R, "P1", key + ":cmp", w, False if not any(s.kind == "cond" and has(s.val, r"Column::missingValue$") for s in T.steps) else None, "a value is not compared with the column's missing value")
                    elif cmp_:
                        c = cmp_[0]
                        tri(R, "P1", key + ":cmp", w, has(c, r"Column::missingValue$") and has(c, "(%s|Row_::)(data|operator\\[\\])$" % ITER) or None, "")
                        if c[1] in ("ne", "one", "une"):
                            tri(R, "P1", key + ":cmp", w, False, "present values are reported as missing")
        elif n == "string":
            for T in tr_(f) or []:
                if T.end != "ret":
                    continue
                s = T.calls(r"strnlen$")
                if s:
                    e = s[0].arg(1)
                    tri(R, "P1", key + ":bound", w, e[0] in ("mul", "shl") and has(e, r"dataSizeDoubles$") and (("c", 8) in e or e[0] == "shl" and e[2] == ("c", 3)) if e[0] in ("mul", "shl", "call", "c") else None, "a string is not read up to its column's width")
                elif T.calls(r"strlen$"):
                    tri(R, "P1", key + ":bound", w, False, "a string that fills its column is read past its end")
    for f in fns(P, R, "row", r"^odc::IteratorProxy<"):
        m = re.search(r">::(~?[\w=!+*>\-\[\] ]+?)\(", f.dem[f.dem.rindex(">::"):] if f.dem.count(">::") else f.dem)
        it = re.match(r"odc::IteratorProxy<odc::(\w+)", f.dem).group(1)
        n = f.qual.split("::")[-1]
        key, w = "IteratorProxy<%s>::%s" % (it, n), f.where()
        other = ("ld", ("fld", ("arg", 1, "other"), "iter_"))
        isother = lambda x: x[0] == "ld" and x[1][:1] == ("fld",) and x[1][2] == "iter_" and x[1][1][:2] == ("arg", 1)
        if n == "operator=":
            for T in tr_(f) or []:
                if T.end != "ret":
                    continue
                same = T.truth(lambda x: x[:2] == ("cmp", "eq") and {x[2] == LD("iter_"), x[3] == LD("iter_")} == {True, False} and (isother(x[2]) or isother(x[3])))
                if same and same[0]:
                    tri(R, "P1", key + ":same", w, not T.stores(), "assigning an iterator to itself changes it")
                    continue
                v = T.field("iter_")
                tri(R, "P1", key + ":iter", w, isother(v) if v is not None else None, "the assigned iterator is another")
                nn = T.truth(lambda x: x[:2] == ("cmp", "eq") and isother(x[2]) and x[3][0] == "null")
                inc = [s for s in T.stores("refCount_") if contains(s.addr, isother)]
                if inc:
                    tri(R, "P1", key + ":null", w, nn == [False] if nn is not None else False, "assigning an end iterator is not possible: it has nothing to count")
                    e = inc[-1].full(inc[-1].val)
                    tri(R, "P1", key + ":ref", w, e[0] == "add" and ("c", 1) in e[1:] if e[0] == "add" else None, "the assigned iterator is not counted")
                elif nn == [False] or not nn:
                    tri(R, "P1", key + ":ref", w, False if not T.calls(r".") else None, "the assigned iterator is not counted")
        elif n == "operator!=":
            for T in tr_(f) or []:
                if T.end != "ret":
                    continue
                nul = T.truth(lambda x: x[:2] == ("cmp", "eq") and x[2] == LD("iter_") and x[3][0] == "null")
                v = truth_of(T, T.ret)
                if nul and nul[0]:
                    tri(R, "P1", key + ":null", w, None if v is None else v is False, "an end iterator is not at its end")
                elif nul:
                    r = uncast(bare(T.ret))
                    t = False
                    while r[0] == "not":
                        r, t = uncast(bare(r[1])), not t
                    nm = lambda x: contains(x, lambda y: y[:1] == ("fld",) and y[2] == "noMore_")
                    q = T.truth(nm)
                    if q and v is not None:
                        tri(R, "P1", key, w, v == (not q[-1]), "an iterator is at its end while there are rows, or not at its end when there are none")
                    elif nm(r):
                        tri(R, "P1", key, w, t, "an iterator is at its end while there are rows, or not at its end when there are none")
        elif n == "operator++":
            for T in tr_(f) or []:
                if T.end == "ret":
                    cs = T.calls(r"Iterator::(next|operator\+\+|processOneRow)$|SQLSelect::processOneRow$")
                    tri(R, "P1", key, w, len(cs) == 1 or (None if T.steps and not cs and T.conds() else False), "incrementing an iterator reads %d rows" % len(cs))
