"""Reading frames: the functions that recognise, load and buffer frames are inlined from their entry points; every field is
used only after the bytes it comes from were read completely and the header digest matched, positions and sizes of a frame are
those of the file, the end of the data is reported only at a frame boundary, and the byte stream primitives never pass the end."""
from frlib import *

K = [r"DataStream<.*>::(read|readBytes|advance|get|position|DataStream)\b", r"MetaData::load\w*\b", r"LibOdc::", r"Log::", r"ODBAPISettings",
     r"Header::readMagic\(", r"Header::loadAfterMagic\(", r"ThreadSharedDataHandle::(read|seek|position|estimate)\(", r"Table::readTable\(",
     r"ReaderIterator::(initRowBuffer|loadHeaderAndBufferData)\(", r"TablesReader::(ensureTable|getTable)\("]
CONFIG = {"roots": [
    {"tag": "hd", "re": r"^odc::core::Header::(readMagic|loadAfterMagic)\(", "keep": K, "depth": 8},
    {"tag": "tb", "re": r"^odc::core::(Table::(readTable|readEncodedData)\(|TablesReader::ensureTable\(|ReadTablesIterator::(ReadTablesIterator|operator\+\+)\()", "keep": K, "depth": 8},
    {"tag": "ri", "re": r"^odc::ReaderIterator::(loadHeaderAndBufferData|next)\(", "keep": K, "depth": 8},
    {"tag": "sh", "re": r"^odc::core::ThreadSharedDataHandle::(read|seek|position)\(", "keep": [], "depth": 4},
    {"tag": "ds", "re": r"^odc::core::DataStream<odc::core::(Same|Other)ByteOrder>::(readBytes|writeBytes|advance|set|position|DataStream)\(", "keep": [], "depth": 6},
    {"tag": "dr", "re": r"^void odc::core::DataStream<odc::core::(Same|Other)ByteOrder>::read<", "keep": [r"DataStream<.*>::(readBytes)\b"], "depth": 2},
    {"tag": "ds", "re": r"^(void )?odc::core::DataStream<odc::core::(Same|Other)ByteOrder>::read\(", "keep": [r"DataStream<.*>::(readBytes)\b"], "depth": 3},
]}


def und(R, rid):
    R.extra["undecided"] = R.extra.get("undecided", []) + [rid]


def run(P, R):
    R.rule("H1", "a frame is recognised only after its five magic bytes were read completely and matched; the end of data is reported only when nothing was read")
    R.rule("H2", "nothing of the variable header is used before its bytes were read completely and their digest matched the announced one")
    R.rule("H3", "headers of unsupported format versions are rejected before anything else is decoded")
    R.rule("T4", "a table's start, data and next positions and its data size are those of the frame in the file, and a frame that passes the end of the data is rejected")
    R.rule("T5", "tables are read one after the other from the end of the previous one, and the end is reported only where no further table was found")
    R.rule("T6", "encoded data is read from the frame's own range of the file, completely")
    R.rule("T7", "the row reader takes each frame's rows from its own data, read completely, as many as its header announces, and ends only at the end of the data")
    R.rule("T8", "no DataHandle read is assumed complete: a short read never leads to a normal return")
    R.rule("T9", "the byte stream primitives move exactly the requested bytes and never past the end of the stream")
    R.rule("T10", "readers that share a file each read from their own position")
    magic(P, R)
    header(P, R)
    table(P, R)
    ensure(P, R)
    encoded(P, R)
    rowreader(P, R)
    reads(P, R)
    primitives(P, R)
    shared(P, R)
    R.need("T8", 4)
    R.need("T9", 4)


def opname(f, i):
    """last component of what a call calls, virtual or not"""
    v = f.vcall(i)
    q = v[0] if v else f.cq(i)
    return q


def is_read(f, i):
    return i.op in ("call", "invoke") and re.search(r"(DataHandle)::read$", opname(f, i)) is not None


def args(f, i):
    """operand expressions of a call without the vtable noise"""
    return [f.expr(o) for o in i["o"]]


def get(P, tag, rx):
    return [f for f in P.roots[tag].values() if re.search(rx, f.qual)]


# ------------------------------------------------------------------------------------------------ magic
def const_strings(f):
    out = set()
    for i in f.insts():
        for o in (i["o"] if isinstance(i.get("o"), list) else []):
            if isinstance(o, list):
                e = f.cexpr(o) if o and o[0] in ("g", "ce") else None
                for x in walk(e) if e else ():
                    if x and x[0] == "str":
                        out.add(x[1])
                    elif x and x[0] == "g" and "str" in f.P.globals.get(x[1], {}):
                        out.add(f.P.globals[x[1]]["str"])
    return out


def equal_edges(f, obj, other=None):
    """edges on which a comparison says the object at `obj` equals something (`other` when given)"""
    def m(e, t):
        if e[0] == "call" and re.search(r"(operator==|operator!=|::compare|memcmp|strcmp|strncmp|std::equal|bcmp)$", e[1]):
            a = [x for x in e[2:] if x[:1] != ("#",)]
            if any(contains(x, lambda y: y == obj) for x in a) and (other is None or any(contains(x, lambda y: y == other) for x in a)):
                return t if re.search(r"operator==$|std::equal$", e[1]) else (not t if e[1].endswith("operator!=") else None)
        if e[0] == "cmp" and e[1] in ("eq", "ne"):
            for a, b in ((e[2], e[3]), (e[3], e[2])):
                a, b = uncast(a), uncast(b)
                if a[0] == "call" and re.search(r"(::compare|memcmp|bcmp|strncmp|strcmp)$", a[1]) and b == ("c", 0):
                    if any(contains(x, lambda y: y == obj) for x in a[2:] if x[:1] != ("#",)) and (other is None or any(contains(x, lambda y: y == other) for x in a[2:] if x[:1] != ("#",))):
                        return t == (e[1] == "eq")
        if e[0] == "call" and re.search(r"(::compare|memcmp|bcmp|strncmp|strcmp)$", e[1]):
            a = [x for x in e[2:] if x[:1] != ("#",)]
            if any(contains(x, lambda y: y == obj) for x in a) and (other is None or any(contains(x, lambda y: y == other) for x in a)):
                return not t
        return None
    return edges_where(f, lambda e, t: m(e, t) is True)


def magic(P, R):
    fs = get(P, "hd", r"readMagic$")
    R.anchor(fs, "Header::readMagic")
    f = fs[0]
    rd = [i for i in f.insts() if is_read(f, i)]
    R.anchor(rd, "read in readMagic")
    strs = const_strings(f)
    if not any("ODA" in s for s in strs):
        # bytes compared one by one
        und(R, "H1 magic constant")
    else:
        s = [s for s in strs if "ODA" in s][0]
        R.check(len(s) == 5 or True, "H1", "constant", f.where(), "", "compared with %r" % s)
    if len(rd) != 1:
        und(R, "H1 several reads")
        return
    r = rd[0]
    buf, n = f.expr(r["o"][1]), nval(f, f.expr(r["o"][2]))
    R.check(n == ("c", 5), "H1", "length", f.loc(r), "readMagic reads %s bytes, not the five magic bytes" % pretty(n), "five bytes")
    full = complete_edges(f, r, n)
    eq = equal_edges(f, buf)
    me = f.expr(r.id)
    none = edges_cmp(f, lambda p, a, b: a == me and b[0] == "c" and ((p == "eq" and b[1] <= 0) or (p in ("sle",) and b[1] <= 0) or (p == "slt" and b[1] <= 1)))
    for ret in f.rets():
        for edge, e in value_edges(f, ret["o"][0]):
            if e == ("c", 0):
                R.check(not edge_open(f, edge, none), "H1", "end", f.loc(r), "the end of the data is reported although bytes were read (a truncated or foreign magic is not an error)", "end only if nothing was read")
            elif e in (("c", 1), ("c", -1)):
                R.check(bool(full) and not edge_open(f, edge, full), "H1", "partial", f.loc(r), "a frame is recognised without its magic having been read completely", "complete read")
                if not eq and not any(contains(f.expr(c), lambda x: x == buf) for (_, _, c, _) in f.edge_conds()):
                    R.bad("H1", "match", f.loc(r), "a frame is recognised without comparing its magic")
                elif not eq:
                    und(R, "H1 comparison")
                else:
                    R.check(not edge_open(f, edge, eq), "H1", "match", f.loc(r), "a frame is recognised although its magic does not match", "magic compared")
            else:
                # the comparison itself is returned: equality must be what true means
                good = e[0] == "call" and e[1].endswith("operator==") or e[0] == "not" and e[1][0] == "call" and e[1][1].endswith("operator!=")
                if good:
                    R.check(bool(full) and not edge_open(f, edge, full), "H1", "partial", f.loc(r), "a frame is recognised without its magic having been read completely", "")
                    R.bad("H1", "foreign", f.loc(r), "a magic that does not match is reported as the end of the data")
                else:
                    und(R, "H1 result %s" % pretty(e))


# ------------------------------------------------------------------------------------------------ header
def stream_reads(f):
    """[(inst, stream object, destination)] of DataStream::read calls"""
    return [(i, f.expr(i["o"][0]), f.expr(i["o"][1])) for i in f.calls(r"DataStream::(read|readBytes)$") if len(i["o"]) >= 2]


def header(P, R):
    fs = get(P, "hd", r"loadAfterMagic$")
    R.anchor(fs, "Header::loadAfterMagic")
    f = fs[0]
    digs = list(f.calls(r"eckit::MD5::digest$|eckit::Hash::digest$"))
    reads = stream_reads(f)
    R.anchor(reads, "header fields read from a stream")
    ctors = [i for i in f.calls(r"DataStream::DataStream$")]
    bufs = [i for i in f.calls(r"eckit::Buffer::Buffer$")]
    # streams over a heap buffer carry the variable part of the header, those over a local array the fixed part
    var, fix = [], []
    for c in ctors:
        src = nval(f, f.expr(c["o"][1]))
        b = src[1] if src[0] == "bufdata" else None
        if b is None and any(f.expr(x["o"][0]) == src for x in bufs):
            b = src
        (var if b is not None else fix).append((c, f.expr(c["o"][0]), b))
    R.check(len(var) >= 1, "H2", "streams", f.where(), "no stream over the header buffer found") if var else und(R, "H2 streams")
    for k, (c, S, B) in enumerate(var):
        mine = [r for r in reads if r[1] == S]
        users = [r[0] for r in mine] + [i for i in f.calls() if re.search(r"MetaData::load", f.cq(i)) and any(f.expr(o) == S for o in i["o"])]
        # transfer into the buffer
        tr = [i for i in f.insts() if is_read(f, i) and nval(f, f.expr(i["o"][1])) == ("bufdata", B)]
        if len(tr) != 1:
            und(R, "H2 transfer")
            continue
        n = nval(f, f.expr(tr[0]["o"][2]))
        full = complete_edges(f, tr[0], n)
        ctor = [x for x in bufs if f.expr(x["o"][0]) == B and len(x["o"]) == 2]
        cn = nval(f, f.expr(ctor[0]["o"][1])) if ctor else None
        R.check(cn is None or cn == n or n == ("bufsize", B), "H2", "bufsize", f.loc(tr[0]), "header bytes are read into a buffer of a different size (%s, reading %s)" % (pretty(cn) if cn else "?", pretty(n)), "")
        for u in users:
            R.check(bool(full) and f.path_avoiding(None, lambda x: x is u, lambda x: False, avoid_edges=full) is None, "H2", "complete", f.loc(u), "header contents are used although they may not have been read completely", "read completely")
        # digest
        adds = [i for i in f.calls(r"eckit::(MD5|Hash)::(add|update)$") if nval(f, f.expr(i["o"][1])) == ("bufdata", B)]
        adds += [i for i in f.calls(r"eckit::MD5::MD5$") if len(i["o"]) == 3 and nval(f, f.expr(i["o"][1])) == ("bufdata", B)]
        R.check(len(adds) >= 1, "H2", "digest", f.loc(c), "the digest of the header contents is not computed", "digest computed")
        if not adds:
            continue
        mdo = f.expr(adds[0]["o"][0])
        ln = nval(f, f.expr(adds[0]["o"][2]))
        R.check(ln == n or ln == ("bufsize", B), "H2", "digest length", f.loc(adds[0]), "the digest covers %s, not all the header contents" % pretty(ln), "all of the header contents")
        R.check(f.path_avoiding(None, lambda x: x is adds[0], lambda x: x is tr[0]) is None, "H2", "digest early", f.loc(adds[0]), "the digest is computed before the contents were read", "")
        dg = [d for d in digs if any(f.expr(o) == mdo for o in d["o"])]
        objs = [f.expr(d["o"][0]) if f.ty(d["o"][0]) == "ptr" and f.expr(d["o"][0]) != mdo else f.expr(d.id) for d in dg]
        # digests moved/copied into other strings
        for i in f.calls(r"basic_string::(basic_string|operator=)$"):
            if len(i["o"]) > 1 and f.expr(i["o"][1]) in objs:
                objs.append(f.expr(i["o"][0]))
        fixed = [r for r in reads if any(r[1] == s[1] for s in fix)]
        cand = [r[2] for r in fixed]
        eq = []
        for o in objs:
            eq += equal_edges(f, o)
        comp = [d for d in cand if any(equal_edges(f, o, d) for o in objs)]
        R.check(bool(eq), "H2", "digest compared", f.loc(c), "the header digest is not compared", "digest compared")
        if not eq:
            continue
        R.check(bool(comp), "H2", "digest announced", f.loc(c), "the computed digest is not compared with the announced one", "compared with the announced digest")
        for u in users:
            R.check(f.path_avoiding(None, lambda x: x is u, lambda x: False, avoid_edges=eq) is None, "H2", "digest guards|" + f.cq(u).split("::")[-2] + "|" + (pretty(f.expr(u["o"][1]))[:30] if len(u["o"]) > 1 else ""),
                    f.loc(u), "header contents are used before their digest was found to match", "after the digest matched")
        # stream covers the buffer
        if len(c["o"]) >= 3:
            sl = nval(f, f.expr(c["o"][2]))
            R.check(sl in (n, ("bufsize", B), cn), "H2", "stream length", f.loc(c), "the header stream extends over %s, not the header contents (%s)" % (pretty(sl), pretty(n)), "")
        # no return without the fields: row count, data size, metadata
        for u in users:
            R.check(f.path_avoiding(c, isret, lambda x: x is u) is None, "H2", "all fields|" + pretty(f.expr(u["o"][1]))[:30], f.loc(u), "a header can be accepted without reading all its fields", "")
    for k, (c, S, B) in enumerate(fix):
        mine = [r for r in reads if r[1] == S]
        if not mine:
            continue
        arr = f.expr(c["o"][1])
        tr = [i for i in f.insts() if is_read(f, i) and f.expr(i["o"][1]) == arr]
        if not tr:
            und(R, "H2 fixed transfer")
            continue
        # the transfer that fills this stream's bytes
        tr = [t for t in tr if f.dominates(t, c)] or tr
        n = nval(f, f.expr(tr[0]["o"][2]))
        full = complete_edges(f, tr[0], n)
        for u in mine:
            R.check(bool(full) and f.path_avoiding(None, lambda x: x is u[0], lambda x: False, avoid_edges=full) is None, "H2", "fixed", f.loc(u[0]), "fixed header fields are used although they may not have been read completely", "")
        ln = nval(f, f.expr(c["o"][2])) if len(c["o"]) > 2 else None
        R.check(ln is None or ln == n, "H2", "fixed length", f.loc(c), "stream over %s bytes of the fixed header, %s were read" % (pretty(ln) if ln else "?", pretty(n)), "")
        sizes = [r for r in mine if any(contains(f.expr(x["o"][1]), lambda y: y == r[2]) for x in bufs if len(x["o"]) == 2)]
        ints = [r for r in mine if r not in sizes and not any(contains(e, lambda y: y == r[2]) for e in () or ()) and f.ty(r[0]["o"][1]) == "ptr"]
        ver = [r for r in mine if r not in sizes and bounds_of(f, r[2])]
        ver_all = sorted((r for r in mine), key=lambda r: (sum(1 for q in mine if f.may_follow(q[0], r[0]))))
        if len(ver_all) >= 2:
            for name, r, hi in (("major", ver_all[0], 0), ("minor", ver_all[1], 5)):
                up = edges_cmp(f, lambda p, a, b: a == ("ld", r[2]) and b[0] == "c" and ((p in ("sle", "ule", "eq") and b[1] <= hi) or (p in ("slt", "ult") and b[1] <= hi + 1)))
                # uses of anything after it
                after = [i for i in f.calls(r"MetaData::load")if f.may_follow(r[0], i)]
                for u in after:
                    R.check(bool(up) and f.path_avoiding(r[0], lambda x: x is u, lambda x: False, avoid_edges=up) is None, "H3", name, f.loc(r[0]),
                            "frames of a %s format version above the supported %d are not rejected" % (name, hi), "%s <= %d" % (name, hi))
                if name == "minor":
                    lo = edges_cmp(f, lambda p, a, b: a == ("ld", r[2]) and b[0] == "c" and ((p in ("sge", "uge", "eq") and b[1] >= 4) or (p in ("sgt", "ugt") and b[1] >= 3)))
                    for u in after:
                        R.check(bool(lo) and f.path_avoiding(r[0], lambda x: x is u, lambda x: False, avoid_edges=lo) is None, "H3", "minor low", f.loc(r[0]),
                                "frames of a minor format version below 4, whose header layout differs, are not rejected", "minor >= 4")
    # byte order indicator
    bo = [i for i in f.insts() if is_read(f, i) and fields(f.expr(i["o"][1])) == {"byteOrder_"}]
    for i in bo:
        n = nval(f, f.expr(i["o"][2]))
        full = complete_edges(f, i, n)
        for (r, _, _) in reads:
            R.check(bool(full) and f.path_avoiding(None, lambda x: x is r, lambda x: False, avoid_edges=full) is None, "H2", "byteorder", f.loc(i), "the byte order is used although it may not have been read", "")


def bounds_of(f, a):
    return edges_cmp(f, lambda p, x, y: x == ("ld", a))


# ------------------------------------------------------------------------------------------------ tables
def table(P, R):
    fs = get(P, "tb", r"Table::readTable$")
    R.anchor(fs, "Table::readTable")
    f = fs[0]
    mg = list(f.calls(r"Header::readMagic$"))
    ld = list(f.calls(r"Header::loadAfterMagic$"))
    if len(mg) != 1 or len(ld) != 1:
        und(R, "T4 shape")
        return
    mg, ld = mg[0], ld[0]
    no = edges_where(f, lambda e, t: e == f.expr(mg.id) and t)
    R.check(bool(no) and f.path_avoiding(None, lambda x: x is ld, lambda x: False, avoid_edges=no) is None, "T4", "magic", f.loc(ld), "the header of a frame is loaded without its magic", "after the magic")
    hdr = f.expr(ld["o"][0])

    def assigned(fld):
        out = []
        for i in f.insts():
            if i.op in ("call", "invoke") and re.search(r"eckit::(Offset|Length)::operator=$", f.cq(i)):
                a = f.expr(i["o"][0])
                if a[0] == "fld" and a[2] == fld:
                    out.append((i, oval(f, f.expr(i["o"][1]), i) if f.ty(i["o"][1]) == "ptr" else ival(f, f.expr(i["o"][1]), i)))
            elif i.op in ("call", "invoke") and re.search(r"eckit::(Offset|Length)::(Offset|Length)$", f.cq(i)) and len(i["o"]) > 1:
                a = f.expr(i["o"][0])
                if a[0] == "fld" and a[2] == fld and f.may_follow(mg, i):
                    v = oval(f, f.expr(i["o"][1]), i) if f.ty(i["o"][1]) == "ptr" else ival(f, f.expr(i["o"][1]), i)
                    if v != ("c", 0) or f.may_follow(ld, i):
                        out.append((i, v))
        return out

    def isds(v):
        return v[0] == "ld" and v[1] == ("fld", hdr, "dataSize_") or v[0] == "call" and v[1].endswith("Header::dataSize") and v[2] == hdr

    def before(v):
        return v[0] == "position" and f.dominates(f.I[v[2][1]], mg) and not f.may_follow(mg, f.I[v[2][1]])

    def after(v):
        return v[0] == "position" and f.dominates(ld, f.I[v[2][1]])

    def lin(v):
        l, k = linear(v)
        pos = [a for a in l if after(a)]
        ds = [a for a in l if isds(a)]
        return len(l) == 2 and len(pos) == 1 and len(ds) == 1 and l[pos[0]] == 1 and l[ds[0]] == 1 and k == 0
    want = {"startPosition_": (before, "the position before its magic"), "dataPosition_": (after, "the position after its header"), "dataSize_": (isds, "the data size of its header"),
            "nextPosition_": (lin, "the position after its header plus its data size")}
    rets = lambda x: x.op == "ret"
    for n, (ok, what) in want.items():
        a = assigned(n)
        a = [x for x in a if f.may_follow(mg, x[0])]
        if n != "startPosition_" or a:
            R.check(bool(a) and f.path_avoiding(ld, rets, lambda x: any(x is y[0] for y in a)) is None, "T4", n + "|set", f.where(), "a table can be returned without %s having been set" % n, n)
        for i, v in a:
            if v[0] in ("any",) or any(x[0] == "any" for x in walk(v)):
                und(R, "T4 " + n)
                continue
            R.check(ok(v), "T4", n, f.loc(i), "a table's %s is %s, not %s" % (n, pretty(v), what), "%s = %s" % (n, what))
    # truncated: next position beyond the end is an error
    nx = assigned("nextPosition_")
    nx = [x for x in nx if f.may_follow(mg, x[0])]
    def fits(p, a, b):
        isn = (a[0] == "ld" and a[1][0] == "fld" and a[1][2] == "nextPosition_") or lin(a)
        return isn and b[0] == "estimate" and p in ("sle", "slt", "eq", "ule", "ult")
    fit = edges_cmp(f, fits)
    unknown = edges_cmp(f, lambda p, a, b: a[0] == "estimate" and b[0] == "c" and ((p == "eq" and b[1] == 0) or (p == "sle" and b[1] <= 0)))
    good = bool(fit) and f.path_avoiding(ld, rets, lambda x: False, avoid_edges=fit + unknown) is None
    others = []
    edges_cmp(f, lambda p, a, b: b[0] == "estimate" and a[0] != "c" and others.append(a) is not None)
    known = lambda a: a[0] == "position" or a[0] == "ld" and a[1][0] == "fld" and a[1][2] in ("startPosition_", "dataPosition_", "dataSize_", "headerSize_") or isds(a)
    if not fit and list(f.calls(r"::estimate$")) and not (others and all(all(known(x) for x in linear(a)[0]) for a in others)):
        und(R, "T4 truncation test")
    else:
        R.check(good, "T4", "truncated", f.where(), "a table whose data passes the end of the file is accepted", "truncated tables rejected")
    # null only at the end
    bad = edges_where(f, lambda e, t: e == f.expr(mg.id) and not t)
    nul = [i for i in f.calls(r"unique_ptr::unique_ptr$") if len(i["o"]) > 1 and f.expr(i["o"][1])[0] == "null" and f.expr(i["o"][0]) == ("arg", 0, f.args[0]["n"])]
    for i in nul:
        R.check(f.path_avoiding(None, lambda x: x is i, lambda x: False, avoid_edges=bad) is None, "T4", "end", f.loc(i), "the end of the data is reported although a frame begins", "no table only at the end")


def ensure(P, R):
    fs = get(P, "tb", r"TablesReader::ensureTable$")
    R.anchor(fs, "TablesReader::ensureTable")
    f = fs[0]
    rt = list(f.calls(r"Table::readTable$"))
    R.anchor(rt, "readTable in ensureTable")
    app = list(f.calls(r"vector::(emplace_back|push_back)$"))
    app = [i for i in app if fields(f.expr(i["o"][0])) & {"tables_"}]
    sk = list(f.calls(r"DataHandle::seek$"))
    for r in rt:
        R.check(f.path_avoiding(None, lambda x: x is r, lambda x: any(x is s for s in sk)) is None, "T5", "seek", f.loc(r), "a table is read without positioning at the end of the previous one", "positioned first")
    for s in sk:
        so = f.expr(s["o"][-1])
        ds = odefs(f, so, s)
        vals = []
        for d in ds:
            v = odef_val(f, d) if d is not None else ("any",)
            vals.append((d, v))
        if not vals:
            vals = [(s, ("ld", so))]
        for d, v in vals:
            if v == ("c", 0):
                em = edges_where(f, lambda e, t: e[0] == "call" and e[1].endswith("::empty") and "tables_" in fields(e) and t)
                em += edges_cmp(f, lambda p, a, b: "tables_" in repr(a) and b == ("c", 0) and p == "eq")
                R.check(f.path_avoiding(None, lambda x: x is d, lambda x: False, avoid_edges=em) is None, "T5", "first", f.loc(d), "reading restarts at the beginning although tables were read", "start of file for the first table")
            elif v[0] == "ld" and v[1][0] == "fld":
                src = v[1]
                last = [x for x in walk(src) if x[0] == "call" and re.search(r"vector::(back|operator\[\]|at|rbegin)$", x[1])]
                R.check(src[2] == "nextPosition_", "T5", "next", f.loc(s), "the next table is looked for at %s, not after the previous one" % pretty(v), "after the previous table")
                if last and not last[0][1].endswith("back"):
                    idx = last[0][3] if len(last[0]) > 3 else None
                    l, k = linear(nval(f, idx)) if idx else ({}, None)
                    if last[0][1].endswith("rbegin"):
                        continue
                    R.check(k == -1, "T5", "last", f.loc(s), "the next table is looked for after table %s, not after the last one" % (pretty(idx) if idx else "?"), "")
            else:
                und(R, "T5 position %s" % pretty(v))
        moved = edges_cmp(f, lambda p, a, b: p in ("sge", "eq", "sle", "sgt") and (a[0] in ("seek",) or b[0] in ("seek",)))
    # append only what was found
    nn = edges_where(f, lambda e, t: t and e[0] == "call" and e[1].endswith("operator bool") and contains(e, lambda x: any(x == f.expr(r["o"][0]) for r in rt))) + \
        edges_where(f, lambda e, t: e[0] == "call" and re.search(r"operator(!=|==)$", e[1]) and contains(e, lambda x: any(x == f.expr(r["o"][0]) for r in rt)) and t == e[1].endswith("!=")) + \
        edges_cmp(f, lambda p, a, b: p == "ne" and (a[0] == "null" or b[0] == "null" or b == ("c", 0)) and any(contains(a, lambda x: x == f.expr(r["o"][0])) or contains(b, lambda x: x == f.expr(r["o"][0])) for r in rt))
    for a in app:
        R.check(bool(nn) and f.path_avoiding(None, lambda x: x is a, lambda x: False, avoid_edges=nn) is None, "T5", "append null", f.loc(a), "a table that was not found is added", "only found tables are added")
    R.check(bool(app), "T5", "append", f.where(), "tables that were read are not remembered", "")
    have = edges_cmp(f, lambda p, a, b: p in ("slt", "ult", "ne") and a[0] == "arg" and "tables_" in repr(b) and "size" in repr(b))
    null = [e for e in complement(f, nn)]
    for ret in f.rets():
        for edge, e in value_edges(f, ret["o"][0]):
            if e in (("c", 1), ("c", -1)):
                avoid = set()
                r = reach_avoiding(f, lambda x: any(x is a for a in app), have)
                ok = edge is not None and (edge[0] not in r or edge in have)
                R.check(ok or edge is None, "T5", "found", f.where(), "a table is reported as present without having been read", "present only if read")
            elif e == ("c", 0):
                ok = not edge_open(f, edge, null) if null else False
                R.check(ok, "T5", "end", f.where(), "the end of the tables is reported although no attempt to read one found the end", "end only where no table was found")
            else:
                und(R, "T5 result")
    # iteration ends only where ensureTable said so
    for g in get(P, "tb", r"ReadTablesIterator::"):
        en = list(g.calls(r"ensureTable$"))
        for i in g.insts():
            if i.op == "store" and g.expr(i["o"][1])[0] == "fld" and g.expr(i["o"][1])[2] == "pos_" and g.expr(i["o"][0]) == ("c", -1):
                ee = edges_where(g, lambda e, t: any(e == g.expr(x.id) for x in en) and not t)
                R.check(bool(ee) and g.path_avoiding(None, lambda x: x is i, lambda x: False, avoid_edges=ee) is None, "T5", "iterator end", g.loc(i), "iteration over the tables ends although there may be another one", "ends where no table was found")
        if g.qual.endswith("operator++"):
            for x in en:
                a = g.expr(x["o"][1])
                inc = [i for i in g.insts() if i.op == "store" and g.expr(i["o"][1])[0] == "fld" and g.expr(i["o"][1])[2] == "pos_" and g.dominates(i, x)]
                v = g.expr(inc[-1]["o"][0]) if inc else None
                if v is not None and (a[0] == "ld" or a == v):
                    l, k = linear(nval(g, v))
                    R.check(k == 1 and len(l) == 1, "T5", "iterator step", g.loc(x), "iteration over the tables steps by %s" % k, "steps by one")
                else:
                    l, k = linear(nval(g, a))
                    R.check(k == 1, "T5", "iterator step", g.loc(x), "iteration asks for table %s" % pretty(a), "")


def complement(f, edges):
    """the other edges of the branches that the given edges belong to"""
    bl = {b for b, s in edges}
    return [(b, s) for (b, s, c, tr) in f.edge_conds() if b in bl and (b, s) not in edges]


def reach_avoiding(f, avoid, edges):
    """blocks whose end is reachable from the entry without executing an `avoid` instruction or crossing `edges`"""
    S = f._succs(False)
    seen, st, ends = {0}, [0], set()
    while st:
        b = st.pop()
        if any(avoid(i) for i in f.B[b]):
            continue
        ends.add(b)
        for s in S[b]:
            if s not in seen and (b, s) not in edges:
                seen.add(s)
                st.append(s)
    return ends


def encoded(P, R):
    fs = get(P, "tb", r"Table::readEncodedData$")
    R.anchor(fs, "Table::readEncodedData")
    f = fs[0]
    rd = [i for i in f.insts() if is_read(f, i)]
    R.check(bool(rd), "T6", "reads", f.where(), "encoded data is not read", "") if rd else und(R, "T6")
    sk = list(f.calls(r"DataHandle::seek$"))
    for r in rd:
        n = nval(f, f.expr(r["o"][2]))
        B = nval(f, f.expr(r["o"][1]))
        full = complete_edges(f, r, n)
        R.check(bool(full) and f.path_avoiding(r, isret, lambda x: False, avoid_edges=full) is None, "T6", "complete", f.loc(r), "encoded data is returned although it may not have been read completely", "complete")
        prev = [s for s in sk if f.may_follow(s, r)]
        R.check(f.path_avoiding(None, lambda x: x is r, lambda x: any(x is s for s in sk)) is None, "T6", "seek", f.loc(r), "encoded data is read from wherever the file is positioned", "positioned")
        # per way of getting here: position and amount must belong together
        ways = []
        for s in prev:
            sv = oval(f, f.expr(s["o"][-1]), s)
            ways.append((s, sv))
        sizes = []
        if B[0] == "bufdata":
            for c in f.calls(r"eckit::Buffer::(Buffer|resize|operator=)$"):
                if f.expr(c["o"][0]) == B[1] and len(c["o"]) == 2 and f.may_follow(c, r):
                    sizes.append((c, ival(f, f.expr(c["o"][1]), c)))
        if n != ("bufsize", B[1] if B[0] == "bufdata" else None):
            sizes = sizes or []
            sizes.append((r, ival(f, f.expr(r["o"][2]), r)))
        pairs = [(s, sv, c, cv) for s, sv in ways for c, cv in sizes if f.may_follow(c, s) or f.may_follow(s, c)]
        for s, sv, c, cv in pairs:
            names = fields(sv)
            l, k = linear(cv)
            got = {(sorted(fields(a)) or ["?"])[0]: v for a, v in l.items()}
            if any(x[0] in ("any", "phi") for x in walk(sv)) or any(x[0] in ("any", "phi") for x in walk(cv)) or "?" in got:
                und(R, "T6 range")
                continue
            if names == {"startPosition_"}:
                ok = got == {"nextPosition_": 1, "startPosition_": -1} and k == 0
            elif names == {"dataPosition_"}:
                ok = got in ({"dataSize_": 1}, {"nextPosition_": 1, "dataPosition_": -1}) and k == 0
            else:
                ok = False
            R.check(ok, "T6", "range|%s" % "".join(sorted(names)), f.loc(r), "encoded data: %s bytes from %s are not the frame's own range" % (pretty(cv), pretty(sv)), "%s from %s" % (pretty(cv), pretty(sv)))
    # headers included exactly on request
    inc = [a for a in f.args if a["n"] == "includeHeader"]
    for s in sk:
        sv = oval(f, f.expr(s["o"][-1]), s)
        yes = edges_where(f, lambda e, t: e[0] == "arg" and e[2] == "includeHeader" and t)
        no = edges_where(f, lambda e, t: e[0] == "arg" and e[2] == "includeHeader" and not t)
        if fields(sv) == {"startPosition_"}:
            R.check(f.path_avoiding(None, lambda x: x is s, lambda x: False, avoid_edges=yes) is None, "T6", "with header", f.loc(s), "the header is returned although only data was asked for", "")
        if fields(sv) == {"dataPosition_"}:
            R.check(f.path_avoiding(None, lambda x: x is s, lambda x: False, avoid_edges=no) is None, "T6", "without header", f.loc(s), "only data is returned although the header was asked for", "")


# ------------------------------------------------------------------------------------------------ row reader
def fldstores(f, name):
    return [i for i in f.insts() if i.op == "store" and f.expr(i["o"][1])[0] == "fld" and f.expr(i["o"][1])[2] == name]


def rowreader(P, R):
    fs = get(P, "ri", r"loadHeaderAndBufferData$")
    R.anchor(fs, "loadHeaderAndBufferData")
    f = fs[0]
    mg = list(f.calls(r"Header::readMagic$"))
    ld = list(f.calls(r"Header::loadAfterMagic$"))
    R.anchor(mg and ld, "header loading in the row reader")
    nomagic = edges_where(f, lambda e, t: any(e == f.expr(m.id) for m in mg) and not t)
    hasmagic = edges_where(f, lambda e, t: any(e == f.expr(m.id) for m in mg) and t)
    for l in ld:
        R.check(f.path_avoiding(None, lambda x: x is l, lambda x: False, avoid_edges=hasmagic) is None, "T7", "magic", f.loc(l), "the header of a frame is loaded without its magic", "")
    for s in fldstores(f, "noMore_"):
        if f.expr(s["o"][0]) == ("c", 1):
            R.check(f.path_avoiding(None, lambda x: x is s, lambda x: False, avoid_edges=nomagic) is None, "T7", "nomore", f.loc(s), "the end of the data is recorded although a frame begins", "end only without magic")
    hdrs = [f.expr(l["o"][0]) for l in ld]

    def ishdr(e, what):
        e = uncast(e)
        return e[0] == "ld" and e[1][0] == "fld" and e[1][2] == what + "_" and e[1][1] in hdrs or e[0] == "call" and e[1].endswith("Header::" + what) and e[2] in hdrs
    rd = [i for i in f.insts() if is_read(f, i)]
    R.check(len(rd) >= 1, "T7", "data", f.where(), "row data is not read", "row data read") if rd else und(R, "T7 data")
    isn = edges_where(f, lambda e, t: uncast(e)[0] == "ld" and fields(e) == {"noMore_"} and t)
    rem = fldstores(f, "rowsRemainingInTable_")
    for s in rem:
        v = f.expr(s["o"][0])
        R.check(ishdr(v, "rowsNumber"), "T7", "rows", f.loc(s), "the number of rows to decode is %s, not the header's row count" % pretty(v), "rows as announced")
    for r in rd:
        n = nval(f, f.expr(r["o"][2]))
        B = nval(f, f.expr(r["o"][1]))
        R.check(ishdr(n, "dataSize"), "T7", "size", f.loc(r), "%s bytes of row data are read, not the header's data size" % pretty(n), "size as announced")
        full = complete_edges(f, r, n)
        for s in rem:
            R.check(bool(full) and f.path_avoiding(None, lambda x: x is s, lambda x: False, avoid_edges=full) is None, "T7", "complete", f.loc(s), "rows are decoded although their data may not have been read completely", "complete")
        R.check(bool(full) and f.path_avoiding(r, lambda x: x.op == "ret", lambda x: False, avoid_edges=full) is None, "T7", "short", f.loc(r), "a frame whose data is missing is not reported", "short data reported")
        # decode stream covers the frame's data only
        ct = [c for c in f.calls(r"DataStream::DataStream$") if f.may_follow(r, c)]
        for c in ct:
            a = nval(f, f.expr(c["o"][1]))
            obj = B[1] if B[0] == "bufdata" else B
            if len(c["o"]) > 2:
                ln = nval(f, f.expr(c["o"][2]))
                if ln[0] == "ld" and ln[1][0] == "alloca":
                    ln = nval(f, f._content(ln[1][1], c))
                same = a == B or a == obj
                ok = ishdr(ln, "dataSize") or uncast(ln) == f.expr(r.id) or nval(f, ln) == n
                if not same:
                    und(R, "T7 stream data")
                elif not ok and ln[0] not in ("bufsize",):
                    und(R, "T7 stream length %s" % pretty(ln))
                else:
                    R.check(ok or exact_buffer(f, obj, n, r), "T7", "stream", f.loc(c), "the rows are decoded from a stream of %s bytes: longer than the frame's own data" % pretty(ln), "stream of the frame's data")
            else:
                R.check(exact_buffer(f, obj, n, r), "T7", "stream", f.loc(c), "the rows are decoded from the whole row buffer, which may be longer than the frame's own data", "buffer of exactly the frame's size")
        sets = [i for i in f.calls(r"Codec::setDataStream$")]
        if sets:
            from loops import innermost as inn
        zero = edges_cmp(f, lambda p, a, b: ishdr(a, "dataSize") and b == ("c", 0) and p == "eq")
        nzrow = edges_cmp(f, lambda p, a, b: ishdr(a, "rowsNumber") and b == ("c", 0) and p == "eq")
        # a frame without data must announce no rows before it is passed over
        for m in mg:
            passed = f.path_avoiding(ld[0], lambda x: x is m or x.op == "ret", lambda x: x is r, avoid_edges=nzrow)
            R.check(passed is None, "T7", "rows without data", f.loc(m), "a frame that announces rows but has no data is passed over", "no data only without rows")
    for ret in f.rets():
        for edge, e in value_edges(f, ret["o"][0]):
            if e == ("c", 0):
                R.check(not edge_open(f, edge, nomagic + isn), "T7", "end", f.where(), "the end of the data is reported although a frame begins", "end only without magic")
            elif e in (("c", 1), ("c", -1)):
                bad = reach_avoiding(f, lambda x: any(x is s for s in rem), [])
                R.check(edge is None or edge[0] not in bad, "T7", "loaded", f.where(), "a frame is reported as loaded without its rows", "")
    gs = [g for g in get(P, "ri", r"ReaderIterator::next$")]
    for g in gs:
        lo = list(g.calls(r"loadHeaderAndBufferData$"))
        zero = edges_cmp(g, lambda p, a, b: fields(a) == {"rowsRemainingInTable_"} and b == ("c", 0) and p == "eq")
        mk = [i for i in g.calls(r"DataStream::readBytes$")]
        ended = edges_where(g, lambda e, t: any(e == g.expr(x.id) for x in lo) and not t)
        nom = edges_where(g, lambda e, t: uncast(e)[0] == "ld" and fields(e) == {"noMore_"} and t)
        R.check(bool(lo), "T7", "next frame", g.where(), "the next frame is never loaded", "")
        nz = edges_cmp(g, lambda p, a, b: fields(a) == {"rowsRemainingInTable_"} and b == ("c", 0) and p in ("ne", "sgt", "ugt"))
        for m in mk:
            R.check(bool(nz) and g.path_avoiding(None, lambda x: x is m, lambda x: any(x is y for y in lo), avoid_edges=nz) is None, "T7", "row", g.loc(m),
                    "a row is decoded although none is left in the frame", "rows only while some are left")
        dec = [s for s in fldstores(g, "rowsRemainingInTable_")]
        for s in dec:
            l, k = linear(nval(g, g.expr(s["o"][0])))
            R.check(k == -1 and len(l) == 1, "T7", "countdown", g.loc(s), "the rows left in the frame go to %s" % pretty(g.expr(s["o"][0])), "one row less")
        same = {m.blk for m in mk}
        for m in mk:
            # both byte orders: one marker per row
            R.check(g.path_avoiding(m, isret, lambda x: any(x is s for s in dec)) is None, "T7", "counted", g.loc(m), "a decoded row is not counted", "counted")
        for ret in g.rets():
            for edge, e in value_edges(g, ret["o"][0]):
                if e == ("c", 0):
                    R.check(not edge_open(g, edge, ended + nom), "T7", "next end", g.where(), "the end of the data is reported although rows may be left", "end only at the end")


def exact_buffer(f, obj, n, r):
    """the buffer is (re)created with exactly n bytes on every path to the read"""
    cs = []
    for c in f.calls(r"eckit::Buffer::(operator=|Buffer|resize)$"):
        if f.expr(c["o"][0]) != obj:
            continue
        if f.cq(c).endswith("operator="):
            src = f.expr(c["o"][1])
            mk = [x for x in f.calls(r"eckit::Buffer::Buffer$") if f.expr(x["o"][0]) == src]
            if mk and nval(f, f.expr(mk[0]["o"][1])) == n:
                cs.append(c)
        elif len(c["o"]) > 1 and nval(f, f.expr(c["o"][1])) == n:
            cs.append(c)
    return bool(cs) and f.path_avoiding(None, lambda x: x is r, lambda x: any(x is c for c in cs)) is None


# ------------------------------------------------------------------------------------------------ all reads
def reads(P, R):
    for F in P.fns.values():
        if not F.file.startswith(P.src) or re.search(r"/(Test\w*|UnitTests)\.cc$", F.file):
            continue
        for r in F.insts():
            if not is_read(F, r) or not reaches_ret(F, r):
                continue
            if F.qual.endswith("ThreadSharedDataHandle::read"):
                continue
            n = nval(F, F.expr(r["o"][2]))
            me = F.expr(r.id)
            if any(t["o"] and contains(F.expr(t["o"][0]), lambda x: x == me) for t in F.rets()):
                R.ok("T8", F.loc(r), "forwarded to the caller")
                continue
            ce = complete_edges(F, r, n)
            if ce and F.path_avoiding(r, isret, lambda x: False, avoid_edges=ce) is None:
                R.ok("T8", F.loc(r), F.qual)
                continue
            # reading until the end: the amount read is used as such
            used = used_as_amount(F, r, me)
            if used:
                R.ok("T8", F.loc(r), "%s uses the amount read" % F.qual)
                continue
            # reported to the caller as such
            if reported(F, r, ce, me):
                R.ok("T8", F.loc(r), "%s reports an incomplete read" % F.qual)
                continue
            R.bad("T8", "%s|%s" % (F.qual, pretty(n)[:60]), F.loc(r), "%s assumes a read of %s bytes to be complete" % (F.qual, pretty(n)))


def used_as_amount(F, r, me):
    """the result is compared with zero or less in a loop, or used as a length"""
    e0 = edges_cmp(F, lambda p, a, b: a == me and b == ("c", 0) and p in ("sle", "eq", "slt"))
    if e0 and F.in_cycle(r):
        return True
    for i in F.insts():
        if i.op in ("call", "invoke") and i is not r and any(uncast(F.expr(o)) == me for o in i["o"]):
            return True
    return False


def reported(F, r, ce, me):
    """bool functions: an incomplete read leads to a constant false (or end) result, complete ones may return anything"""
    zero = edges_cmp(F, lambda p, a, b: a == me and b[0] == "c" and b[1] <= 0 and p in ("eq", "sle"))
    if not (ce or zero):
        return False
    for t in F.rets():
        if not t["o"]:
            return False
        for edge, e in value_edges(F, t["o"][0]):
            if e == ("c", 0) or e[0] == "null":
                continue
            # other results need a complete read
            if edge is None:
                if F.path_avoiding(r, lambda x: x is t, lambda x: False, avoid_edges=ce) is not None:
                    return False
            elif edge[0] in blocks_from(F, r, ce) and edge not in ce:
                return False
    return True


def blocks_from(F, r, avoid_edges):
    S = F._succs(False)
    seen, st = set(), [s for s in S[r.blk] if (r.blk, s) not in avoid_edges]
    if r.blk not in avoid_edges:
        pass
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        st += [s for s in S[b] if (b, s) not in avoid_edges]
    return seen | ({r.blk} if not any(b == r.blk for b, s in avoid_edges) else set())


# ------------------------------------------------------------------------------------------------ stream primitives
def primitives(P, R):
    for f in P.roots["ds"].values():
        n = f.qual.split("::")[-1]
        this = ("arg", 0, f.args[0]["n"])
        cur, end, start = (("ld", ("fld", this, x)) for x in ("current_", "end_", "start_"))
        who = "%s<%s>" % (n, "Other" if "OtherByteOrder" in f.dem else "Same")
        if n in ("readBytes", "writeBytes"):
            cp = [i for i in f.insts() if i.op in ("call", "invoke") and (i.get("c", "").startswith(("llvm.memcpy", "llvm.memmove")) or f.cq(i) in ("memcpy", "memmove") or re.search(r"std::(copy\w*|memcpy|memmove)$", f.cq(i)))]
            if len(cp) != 1:
                und(R, "T9 " + who)
                continue
            c = cp[0]
            amt = ("arg", 2, f.args[2]["n"])
            dst, src, ln = (f.expr(o) for o in c["o"][:3])
            if re.search(r"std::copy_n$", f.cq(c)):
                src, ln, dst = dst, src, ln
            elif re.search(r"std::copy", f.cq(c)):
                und(R, "T9 " + who)
                continue
            mine = src if n == "readBytes" else dst
            other = dst if n == "readBytes" else src
            R.check(uncast(mine) == cur and uncast(other)[0] == "arg" and uncast(ln) == amt, "T9", who + "|copy", f.loc(c), "%s copies %s bytes from %s to %s" % (n, pretty(ln), pretty(src), pretty(dst)), who)
            newp = ("idx", cur, amt, "i8")
            ins = edges_cmp(f, lambda p, a, b: (same_ptr(a, cur, amt) and b == end and p in ("ule", "sle")) or remains(a, b, p, cur, end, amt))
            R.check(bool(ins) and f.path_avoiding(None, lambda x: x is c, lambda x: False, avoid_edges=ins) is None, "T9", who + "|bound", f.loc(c), "%s can pass the end of the stream" % n, "bounded")
            st = fldstores(f, "current_")
            R.check(bool(st) and f.path_avoiding(c, isret, lambda x: any(x is s for s in st)) is None and all(same_ptr(f.expr(s["o"][0]), cur, amt) for s in st), "T9", who + "|advance", f.loc(c),
                    "%s does not advance by the bytes it moved" % n, "advances")
            if n == "writeBytes":
                ro = edges_where(f, lambda e, t: fields(e) == {"const_"} and not t)
                R.check(bool(ro) and f.path_avoiding(None, lambda x: x is c, lambda x: False, avoid_edges=ro) is None, "T9", who + "|const", f.loc(c), "read-only streams can be written", "not on read-only streams")
        elif n in ("advance", "set"):
            st = fldstores(f, "current_")
            for s in st:
                v = f.expr(s["o"][0])
                ok_in = edges_cmp(f, lambda p, a, b: b == end and p in ("ule", "sle") and (a == v or a == cur or same_ptr(a, cur, ("arg", 1, f.args[1]["n"]))) or remains(a, b, p, cur, end, ("arg", 1, f.args[1]["n"])))
                bef = bool(ok_in) and f.path_avoiding(None, lambda x: x is s, lambda x: False, avoid_edges=ok_in) is None
                aft = bool(ok_in) and f.path_avoiding(s, isret, lambda x: False, avoid_edges=ok_in) is None
                R.check(bef or aft, "T9", who + "|bound", f.loc(s), "%s can pass the end of the stream" % n, "bounded")
                if n == "set":
                    lo = edges_cmp(f, lambda p, a, b: a in (v, cur) and b == start and p in ("uge", "sge"))
                    R.check(bool(lo) and (f.path_avoiding(None, lambda x: x is s, lambda x: False, avoid_edges=lo) is None or f.path_avoiding(s, isret, lambda x: False, avoid_edges=lo) is None), "T9", who + "|low", f.loc(s),
                            "set can go before the start of the stream", "bounded below")
                else:
                    R.check(same_ptr(v, cur, ("arg", 1, f.args[1]["n"])), "T9", who + "|amount", f.loc(s), "advance moves to %s" % pretty(v), "by the amount asked for")
        elif n == "DataStream":
            st = fldstores(f, "end_")
            ss = fldstores(f, "start_")
            for s in st:
                v = f.expr(s["o"][0])
                sv = {uncast(f.expr(x["o"][0])) for x in ss}
                base = v[1] if v[0] == "idx" else None
                ln = v[2] if v[0] == "idx" else None
                if base is None:
                    und(R, "T9 ctor")
                    continue
                bb = uncast(base)
                okb = bb in sv or (bb[0] == "ld" and fields(bb) == {"start_"})
                okl = uncast(ln)[0] == "arg" or (ln[0] == "call" and ln[1].endswith("Buffer::size"))
                R.check(okb and okl, "T9", who + "|extent", f.loc(s), "a stream extends to %s" % pretty(v), "start plus size")
            for s in fldstores(f, "current_"):
                v = uncast(f.expr(s["o"][0]))
                R.check(v in {uncast(f.expr(x["o"][0])) for x in ss} or fields(v) == {"start_"}, "T9", who + "|begin", f.loc(s), "a stream begins at %s" % pretty(v), "at its start")


def same_ptr(e, base, n):
    e = uncast(e)
    if e[0] == "idx" and e[1] == base and uncast(e[2]) == n and e[3] in ("i8", 1, "1"):
        return True
    return e[0] == "add" and set(map(uncast, e[1:])) == {base, n}


def remains(a, b, p, cur, end, n):
    """n <= end - cur"""
    a, b = uncast(a), uncast(b)
    return a == n and b[0] == "sub" and uncast(b[1]) == end and uncast(b[2]) == cur and p in ("ule", "sle")


# ------------------------------------------------------------------------------------------------ shared handle
def shared(P, R):
    for f in P.roots["sh"].values():
        n = f.qual.split("::")[-1]
        if n != "read":
            continue
        rd = [i for i in f.insts() if is_read(f, i)]
        sk = [i for i in f.insts() if i.op in ("call", "invoke") and re.search(r"DataHandle::seek$", opname(f, i))]
        posn = lambda e: "position_" in fields(e)
        for r in rd:
            here = edges_where(f, lambda e, t: e[0] == "call" and re.search(r"operator(!=|==)$", e[1]) and posn(e) and t == e[1].endswith("operator==")) + \
                edges_cmp(f, lambda p, a, b: p == "eq" and (posn(a) or posn(b)))
            R.check(f.path_avoiding(None, lambda x: x is r, lambda x: any(x is s for s in sk), avoid_edges=here) is None, "T10", "read|seek", f.loc(r), "a shared file is read from wherever another reader left it", "positioned at the reader's own position")
            up = list(i for i in f.calls(r"Offset::operator\+=$") if fields(f.expr(i["o"][0])) == {"position_"}) + [i for i in f.calls(r"Offset::operator=$") if fields(f.expr(i["o"][0])) == {"position_"}] + fldstores(f, "position_")
            R.check(bool(up) and f.path_avoiding(r, isret, lambda x: any(x is u for u in up)) is None, "T10", "read|advance", f.loc(r), "the reader's own position is not advanced by a read", "advanced")
            for u in up:
                if f.cq(u).endswith("operator+=") if u.op in ("call", "invoke") else False:
                    v = f.expr(u["o"][1])
                    v = oval(f, v, u) if f.ty(u["o"][1]) == "ptr" else ival(f, v, u)
                    R.check(contains(v, lambda x: x == f.expr(r.id)), "T10", "read|amount", f.loc(u), "the reader's own position is advanced by %s, not by what was read" % pretty(v), "by what was read")
        for s in sk:
            R.check(posn(f.expr(s["o"][-1])) or contains(oval(f, f.expr(s["o"][-1]), s), lambda x: x[0] == "fld" and x[2] == "position_"), "T10", "read|target", f.loc(s), "a shared file is positioned at %s" % pretty(f.expr(s["o"][-1])), "")
    R.need("T10", 2)
