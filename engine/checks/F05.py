"""Row markers: in every writer and reader of rows, inlined from their entry points: the two-byte marker is the index of the first
column that differs from the previous row, the columns from there on are encoded/decoded in order, one value each, and the
columns before it keep the value of the previous row (initially the column's missing value)."""
from frlib import *

K = [r"DataStream<.*>::(read|write|advance|readBytes|writeBytes|set|get|position)\b", r"Header::serializeHeader", r"CodecOptimizer::",
     r"MetaData::resetCodecs", r"MetaData::resetStats", r"ODBAPISettings", r"LibOdc::", r"CodecFactory", r"readEncodedData", r"columnLookup",
     r"simpleColumnLookup", r"StridedDataT<.*>::fill\(", r"ReaderIterator::(loadHeaderAndBufferData|initRowBuffer|readBuffer)", r"ColumnValues", r"Span::", r"Codec::missingValue",
     r"Header::"]
CONFIG = {"roots": [
    {"tag": "rm", "re": r"^odc::(core::Table::(decode|decodeSpan)\(|ReaderIterator::(next|initRowBuffer|loadHeaderAndBufferData)\(|WriterBufferingIterator::(doWriteRow|allocBuffers)\(|core::encodeFrame\()", "keep": K, "depth": 8},
    {"tag": "sd", "re": r"^odc::api::StridedDataT<.*>::(fill|isNewValue)\(", "keep": [r"StridedDataT<.*>::get", r"StridedDataT<.*>::operator\[\]"], "depth": 6},
    {"tag": "get", "re": r"^odc::api::StridedDataT<.*>::(get|operator\[\])\(", "keep": [], "depth": 6}]}


def tri(R, rid, key, where, verdict, bad, ok=None):
    if verdict is None:
        R.extra["undecided"] = R.extra.get("undecided", []) + ["%s %s" % (rid, key)]
    else:
        R.check(verdict, rid, key, where, bad, ok or key)


def run(P, R):
    R.rule("M1", "the marker written is, high byte first, the column the row's encoding starts at; one marker of two raw bytes per row")
    R.rule("M2", "that column is 0 for the first row of an encoded table, otherwise the first whose whole value differs from the previous row's")
    R.rule("M3", "the row-buffering writer remembers every value it encoded, and starts from the columns' missing values")
    R.rule("M4", "every reader takes one two-byte marker per row before its values and starts at 256 * first + second byte")
    R.rule("M5", "every reader runs over all columns from there on, in order, decoding or skipping each exactly once into its own column and row")
    R.rule("M6", "a marker beyond the last column is rejected before a column is selected with it")
    R.rule("M7", "columns before the marker keep the previous row's value: missing value first, values repeated into the rows they cover")
    R.rule("M8", "repeating a value covers exactly the rows after the source up to the last one, with the full value size")
    R.rule("M9", "the reader's row buffer is set up anew, with the missing values, for every frame header, before rows are read")
    F = {}
    for f in P.roots["rm"].values():
        F[f.qual.split("::")[-1]] = f
    for n in ("decode", "decodeSpan", "next", "initRowBuffer", "loadHeaderAndBufferData", "doWriteRow", "allocBuffers", "encodeFrame"):
        R.anchor(n in F, n)
    for n in ("doWriteRow", "encodeFrame"):
        writer(P, R, F[n], n)
    for n in ("allocBuffers", "initRowBuffer"):
        layout(P, R, F[n], n)
    for n in ("decode", "decodeSpan", "next"):
        reader(P, R, F[n], n)
    fresh(P, R, F["loadHeaderAndBufferData"])
    strided(P, R)
    R.need("M5", 4)


# ------------------------------------------------------------------------------------------------ expressions
def strip(e):
    """deep removal of integer casts"""
    if not isinstance(e, tuple) or not e:
        return e
    e = uncast(e)
    if e[:1] == ("#",):
        return ("#",)
    if e[0] == "shl" and e[2][0] == "c":
        return ("mul",) + tuple(sorted((strip(e[1]), ("c", 1 << e[2][1])), key=repr))
    if e[0] == "or":                                   # bytes put together: no carries
        return ("add",) + tuple(sorted((strip(x) for x in e[1:]), key=repr))
    r = tuple(strip(x) if isinstance(x, tuple) else x for x in e if x != ("#",) and not (isinstance(x, tuple) and x[:1] == ("#",)))
    return (r[0],) + tuple(sorted(r[1:], key=repr)) if r[0] in ("add", "mul") else r


def at_off(e):
    """(base alloca id, byte offset) of an address into a local"""
    if e[0] == "alloca":
        return e[1], 0
    if e[0] in ("sub", "idx") and e[1][0] == "alloca" and e[2][0] == "c":
        return e[1][1], e[2][1]
    return None


def marker_value(e):
    """local holding the two bytes when e is 256*m[0] + m[1]; False when it is another function of such bytes; None"""
    at, k = linear(strip(e))
    m, other = {}, False
    for a, c in at.items():
        o = at_off(a[1]) if a[0] == "ld" else None
        if o is None:
            return None
        m.setdefault(o[0], {})[o[1]] = c
    if len(m) != 1:
        return None
    ((b, d),) = m.items()
    return b if d == {0: 256, 1: 1} and k == 0 else False


def byte_of(e):
    """(value, byte number) when e is one byte of a value"""
    e = strip(e)
    while e[0] in ("srem", "urem", "and"):
        a = [x for x in e[1:] if x[0] != "c"]
        c = [x for x in e[1:] if x[0] == "c"]
        if len(a) == 1 and len(c) == 1 and ((e[0] == "and" and c[0][1] == 255) or (e[0] != "and" and e[2] == ("c", 256))):
            e = a[0]
        else:
            break
    if e[0] in ("sdiv", "udiv") and e[2] == ("c", 256):
        return e[1], 1
    if e[0] in ("lshr", "ashr") and e[2] == ("c", 8):
        return e[1], 1
    return e, 0


def elem(e):
    """(container, index) of a vector element or array element address, or None"""
    if e[0] == "call" and re.search(r"std::vector::(operator\[\]|at)$", e[1]):
        return e[2], e[3]
    if e[0] == "idx":
        return e[1], e[2]
    return None


def indexed(e, phi):
    """containers indexed by exactly phi inside e; and whether some container is indexed by another function of phi"""
    good, off = [], []
    for x in walk(e):
        el = elem(x)
        if el is None:
            continue
        i = strip(el[1])
        if i == phi:
            good.append(el[0])
        elif contains(i, lambda y: y == phi) and linear(i)[0].get(phi):
            off.append(x)
    return good, off


def ncols(e):
    """True: the number of columns; False: something computed from it; None: unknown"""
    at, k = linear(strip(e))
    if len(at) == 1:
        ((a, c),) = at.items()
        if a[0] == "call" and a[1] == "std::vector::size":
            b = a[2]
            if any(x in ("metadata_", "columns_", "columns", "md", "metadata", "data", "codecs_", "decoders", "coders", "facades", "visitColumn") for y in walk(b) if isinstance(y, tuple) for x in y if isinstance(x, str)):
                return c == 1 and k == 0
    return None


def branches(f, L=None):
    return f


def calls_to(f, rx):
    out = []
    for i in f.insts():
        if i.op in ("call", "invoke") and re.search(rx, (f.vcall(i) or (f.cq(i),))[0]) and reaches_ret(f, i):
            out.append(i)
    return out


def col_loop(f, calls):
    """(loop, column phi) of the innermost loop around calls whose counter indexes their codec"""
    L = innermost(f, calls[0])
    if L is None:
        return None, None
    for h in header_phis(L):
        p = ("phi", h.id)
        g, o = indexed(f.expr(calls[0]["o"][0]), p)
        if g or o:
            return L, p
    return L, None


def step1(f, L, p):
    c = counter(L, f.I[p[1]])
    return c


def each_iteration(f, L, S, exclusive=True):
    """every iteration of L runs exactly one of S; None when the iterations cannot be followed"""
    ids = {s.id for s in S}
    ins = lambda x: x.id in ids
    blocks = {s.blk for s in S}
    if any(b not in L.body for b in blocks):
        return None
    succ = f._succs(False)
    # some iteration without: header -> latch avoiding
    if L.header not in blocks:
        seen, st = {L.header}, [L.header]
        while st:
            b = st.pop()
            for s in succ[b]:
                if s == L.header:
                    return False
                if s in L.body and s not in blocks and s not in seen:
                    seen.add(s)
                    st.append(s)
    for a in S:
        if f.path_avoiding(a, lambda x: ins(x), lambda x: x.blk == L.header and x is not a and x.pos == 0) is not None:
            return False
    return True


# ------------------------------------------------------------------------------------------------ writers
def writer(P, R, f, n):
    enc = calls_to(f, r"Codec::encode$")
    mk = [i for i in calls_to(f, r"DataStream::(write|writeBytes)$")]
    if len(enc) != 1:
        tri(R, "M1", n, f.where(), None, "")
        return
    CL, col = col_loop(f, enc)
    if col is None:
        tri(R, "M1", n, f.where(), None, "")
        return
    c = counter(CL, f.I[col[1]])
    if c is None:
        # entered with several values: each must be the one the marker holds
        init, nxt = phi_parts(CL, f.I[col[1]])
        inits = {strip(e): fa for fa, e in init}
        whole = [x for x in inits if x[0] == "phi"]
        atoms = {a for x in inits for a in linear(x)[0]}
        verdict = None
        if len(inits) > 1 and len(atoms) == 1:
            a = next(iter(atoms))
            verdict = all(x == a or same_under(fa, x, a) for x, fa in inits.items())
        tri(R, "M1", n + "|columns", f.loc(enc[0]), verdict, "%s: encoding starts at one of %s" % (n, [pretty(x) for x in inits]))
        return
    start, st = c
    R.check(st == 1, "M1", n + "|step", f.loc(enc[0]), "%s: columns are encoded in steps of %s" % (n, st), n)
    start = strip(start)
    tri(R, "M1", n + "|one", f.where(), len(mk) == 1 and f.cq(mk[0]).endswith("writeBytes") and f.expr(mk[0]["o"][2]) == ("c", 2),
        "%s: the marker is not written as exactly two raw bytes" % n)
    if len(mk) != 1:
        return
    buf = at_off(f.expr(mk[0]["o"][1]))
    if buf is None:
        tri(R, "M1", n + "|bytes", f.loc(mk[0]), None, "")
    else:
        for off in (0, 1):
            stores = [s for s in f.insts() if s.op == "store" and at_off(f.expr(s["o"][1])) == (buf[0], buf[1] + off) and f.may_follow(s, mk[0])]
            if len(stores) != 1 or not f.dominates(stores[0], mk[0]):
                tri(R, "M1", n + "|byte%d" % off, f.loc(mk[0]), None, "")
                continue
            v, b = byte_of(f.expr(stores[0]["o"][0]))
            same = strip(v) == start or value_same(f, v, start)
            R.check(same and b == 1 - off, "M1", n + "|byte%d" % off, f.loc(stores[0]),
                    "%s: byte %d of the marker is %s, not the %s byte of the first encoded column %s" % (n, off, pretty(f.expr(stores[0]["o"][0])), ("high", "low")[off], pretty(start)), n)
    first_difference(P, R, f, n, enc[0], CL, col, start)


def value_same(f, a, b):
    return strip(a) == strip(b)


def phi_alts(f, e, stop=(), seen=frozenset()):
    """values merged into e, not looking through the phis in stop"""
    e = strip(e)
    if e[0] == "phi" and e not in stop and e[1] in f.I and f.I[e[1]].op == "phi":
        out = set()
        for v, b in f.I[e[1]]["o"]:
            if b in f.live() and e not in seen:
                out |= phi_alts(f, f.expr(v), stop, seen | {e})
        return out
    return {e}


def first_difference(P, R, f, n, enc, CL, col, start):
    mc = [i for i in f.insts() if i.op in ("call", "invoke") and f.csym(i) in ("memcmp", "bcmp") and reaches_ret(f, i)]
    if len(mc) != 1:
        tri(R, "M2", n + "|compare", f.where(), None, "")
        return
    m = mc[0]
    KL = innermost(f, m)
    k = None
    for h in header_phis(KL) if KL is not None else []:
        p = ("phi", h.id)
        if indexed(f.expr(m["o"][0]), p)[0] or indexed(f.expr(m["o"][0]), p)[1]:
            k = p
    if k is None:
        tri(R, "M2", n + "|loop", f.loc(m), None, "")
        return
    kp = f.I[k[1]]
    c = None
    init, nxt = phi_parts(KL, kp)
    c = counter(KL, kp)
    if c is None:
        tri(R, "M2", n + "|counter", f.loc(m), None, "")
    else:
        R.check(c == (("c", 0), 1), "M2", n + "|counter", f.loc(m), "%s: the search for the first changed column starts at %s and steps %s" % (n, pretty(c[0]), c[1]), n)
    # exits: all columns equal, or a difference
    for (b, s), fs in exit_facts(KL):
        ok = None
        for e, t in fs:
            if e[0] != "cmp":
                continue
            p, x, y = e[1], strip(e[2]), strip(e[3])
            if not t:
                p = INVERSE.get(p)
            if x == k and p in ("uge", "sge", "eq") and ncols(y) is not None:
                ok = ok or ncols(y)
            elif y == k and p in ("ule", "sle", "eq") and ncols(x) is not None:
                ok = ok or ncols(x)
            elif strip(f.expr(m.id)) in (x, y) and ("c", 0) in (x, y):
                ok = ok or p == "ne"
        tri(R, "M2", n + "|exit", f.where(), ok, "%s: the search for the first changed column can stop before a difference was found" % n)
    # nothing else between the comparison and the start column
    vals = phi_alts(f, start, {k})
    if k in vals or start == k:
        other = vals - {k, ("c", 0)}
        for o in other:
            at, cc = linear(o)
            tri(R, "M2", n + "|value", f.loc(enc), False if set(at) <= {k} else None, "%s: encoding starts at %s, not at the first changed column" % (n, pretty(o)))
        if not other:
            tri(R, "M2", n + "|value", f.loc(enc), True, "")
    elif contains(start, lambda y: y == k):
        tri(R, "M2", n + "|value", f.loc(enc), False, "%s: encoding starts at %s, not at the first changed column %s" % (n, pretty(start), pretty(k)))
    else:
        tri(R, "M2", n + "|value", f.loc(enc), None, "")
    a, b, size = (strip(f.expr(o)) for o in m["o"][:3])
    for x in (a, b, size):
        g, o = indexed(x, k)
        tri(R, "M2", n + "|column", f.loc(m), bool(g) and not o if (g or o) else None, "%s: compares an element of another column (%s)" % (n, pretty(x)))
    if n == "encodeFrame":
        rows_compared(P, R, f, n, m, enc, k, col, a, b, size)
    else:
        fl = [sorted(fields(x)) for x in (a, b)]
        args = [x for x in (a, b) if contains(x, lambda y: y[:1] == ("arg",) and y[1] == 2)]
        last = [x for x in (a, b) if "lastValues_" in fields(x)]
        good = len(args) == 1 and len(last) == 1 and args[0] is not last[0]
        tri(R, "M2", n + "|operands", f.loc(m), good and all("columnOffsets_" in fields(x) for x in (a, b)), "%s: the row is compared as %s with %s" % (n, pretty(a), pretty(b)))
        sf = fields(size)
        tri(R, "M2", n + "|size", f.loc(m), None if not sf and size[0] != "c" else sf == {"columnByteSizes_"} and linear(size)[1] == 0 and list(linear(size)[0].values()) == [1],
            "%s: compares %s bytes, not the column's size" % (n, pretty(size)))
        remember(P, R, f, n, enc, CL, col)


def rows_compared(P, R, f, n, m, enc, k, col, a, b, size):
    L = None
    e = enclosing(f, enc)
    L = e[1] if len(e) > 1 else None
    if L is None:
        tri(R, "M2", n + "|rows", f.where(), None, "")
        return
    rp = [("phi", h.id) for h in header_phis(L)]

    def row(x, op):
        for y in walk(x):
            if isinstance(y, tuple) and y[:1] == ("mul",):
                for z in y[1:]:
                    at, c = linear(z)
                    for p in rp:
                        if at.get(p) == 1 and len(at) == 1:
                            return p, c, strip([w for w in y[1:] if w is not z][0])
        return None
    ra, rb = row(a, 0), row(b, 1)
    v = f.expr(enc["o"][2])
    if v[0] == "alloca":
        v = f._content(enc["o"][2], enc)
    re_ = row(strip(v), 2)
    if None in (ra, rb, re_) or len({x[0] for x in (ra, rb, re_)}) != 1:
        tri(R, "M2", n + "|rows", f.loc(m), None, "")
        return
    direct = f.path_avoiding(m, lambda x: x is enc, lambda x: x.blk == L.header and x.pos == 0) is not None
    want = re_[1] + (0 if direct else 1)
    R.check({ra[1], rb[1]} == {want, want - 1}, "M2", n + "|rows", f.loc(m), "%s: row %+d is compared with row %+d, not the row to be encoded with the one before" % (n, ra[1], rb[1]), n)
    # never for the first row
    ph = f.I[ra[0][1]]
    ci = counter(L, ph)
    lo = min(ra[1], rb[1])
    if ci is None or ci[0][0] != "c":
        tri(R, "M2", n + "|first", f.loc(m), None, "")
    else:
        okfirst = ci[0][1] + lo >= 0
        if not okfirst:
            okfirst = any(e[0] == "cmp" and strip(e[2] if e[3][0] == "c" else e[3])[0] == "phi" and ra[0] in (strip(e[2]), strip(e[3])) and
                          ((e[1] == "eq" and not t) or (e[1] == "ne" and t) or (e[1] in ("ugt", "sgt") and t)) for e, t in f.facts_at(m))
        R.check(okfirst, "M2", n + "|first", f.loc(m), "%s: the first row is compared with a row before it" % n, n)
    sf = fields(size)
    at, c = linear(size)
    tri(R, "M2", n + "|size", f.loc(m), None if not sf and size[0] != "c" else sf & {"dataSize_"} == {"dataSize_"} and c == 0 and list(at.values()) == [1], "%s: compares %s bytes, not the element size" % (n, pretty(size)))
    for x in (a, b):
        strd = row(x, 0)[2]
        tri(R, "M2", n + "|stride", f.loc(m), "stride_" in fields(strd) if fields(strd) else None, "%s: rows are %s apart" % (n, pretty(strd)))


def copied(f, i):
    """(dst, src, size) of a memory copy"""
    if i.op in ("call", "invoke") and ((i.get("c") or "").startswith(("llvm.memcpy", "llvm.memmove")) or f.csym(i) in ("memcpy", "memmove")):
        return tuple(strip(f.expr(o)) for o in i["o"][:3])
    return None


def remember(P, R, f, n, enc, CL, col):
    cps = [(i, copied(f, i)) for i in f.insts() if copied(f, i) and i.blk in CL.body]
    cps = [(i, c) for i, c in cps if "lastValues_" in fields(c[0])]
    if not cps:
        whole = [i for i in f.insts() if copied(f, i) and "lastValues_" in fields(copied(f, i)[0])]
        st = [i for i in f.insts() if i.op == "store" and "lastValues_" in fields(f.expr(i["o"][1]))]
        tri(R, "M3", n + "|remember", f.loc(enc), None if whole or st else False, "%s: the encoded values are not remembered for the next row" % n)
        return
    R.check(each_iteration(f, CL, [i for i, _ in cps]) is not False, "M3", n + "|each", f.loc(cps[0][0]), "%s: an encoded value is not always remembered" % n, n)
    for i, (d, s, z) in cps:
        for x, nm in ((d, "lastValues_"), (s, None)):
            g, o = indexed(x, col)
            ok = bool(g) and not o and "columnOffsets_" in fields(x)
            R.check(ok, "M3", n + "|offset", f.loc(i), "%s: remembers at %s" % (n, pretty(x)), n)
        R.check(contains(s, lambda y: y[:1] == ("arg",)), "M3", n + "|source", f.loc(i), "%s: remembers %s instead of the row's value" % (n, pretty(s)), n)
        g, o = indexed(z, col)
        ok = fields(z) == {"columnByteSizes_"} and bool(g) and not o and linear(z)[1] == 0
        tri(R, "M3", n + "|size", f.loc(i), ok if fields(z) or z[0] == "c" else None, "%s: remembers %s bytes, not the column's size" % (n, pretty(z)))


# ------------------------------------------------------------------------------------------------ per-column layout
def layout(P, R, f, n):
    mv = calls_to(f, r"Codec::missingValue$")
    ini = None
    for s in f.insts():
        if s.op == "store" and "lastValues_" in fields(f.expr(s["o"][1])) and f.expr(s["o"][1])[0] == "idx":
            v = strip(f.expr(s["o"][0]))
            if v[0] in ("vcall", "call") and v[1].endswith("missingValue"):
                ini = s
    rule = "M3" if n == "allocBuffers" else "M9"
    L = innermost(f, ini) if ini is not None else None
    if ini is None or L is None:
        sts = [s for s in f.insts() if s.op == "store" and "lastValues_" in fields(f.expr(s["o"][1])) and f.expr(s["o"][1])[0] == "idx"]
        tri(R, rule, n + "|initial", f.where(), False if not mv else None, "%s: the row buffer is not initialised with the columns' missing values" % n)
        return
    R.check(once_per_iteration(L, ini), rule, n + "|each", f.loc(ini), "%s: not every column's missing value is stored" % n, n)
    a = strip(f.expr(ini["o"][1]))
    off = a[2]
    col = None
    v = strip(f.expr(ini["o"][0]))
    for h in header_phis(L):
        p = ("phi", h.id)
        g, o = indexed(v, p)
        if g or o:
            col = p
    if col is None:
        tri(R, rule, n + "|columns", f.loc(ini), None, "")
        return
    R.check(not indexed(v, col)[1], rule, n + "|codec", f.loc(ini), "%s: initial value of another column (%s)" % (n, pretty(v)), n)
    c = counter(L, f.I[col[1]])
    tri(R, rule, n + "|range", f.loc(ini), None if c is None else c == (("c", 0), 1), "%s: columns from %s step %s" % ((n, pretty(c[0]), c[1]) if c else (n, "", "")))
    for edge, b in bound(L, col):
        tri(R, rule, n + "|bound", f.loc(ini), None if b is None else ncols(b), "%s: covers columns up to %s" % (n, pretty(b) if b else ""))
    # offsets
    sts = {}
    for s in f.insts():
        if s.op == "store" and s.blk in L.body:
            d = strip(f.expr(s["o"][1]))
            if d[0] == "idx":
                for nm in ("columnOffsets_", "columnByteSizes_"):
                    if fields(d[1]) == {nm}:
                        sts[nm] = (s, d, strip(f.expr(s["o"][0])))
    o = sts.get("columnOffsets_")
    if o is not None and off == ("ld", o[1]) and f.dominates(o[0], ini):
        off = o[2]
    if o is None:
        tri(R, rule, n + "|offsets", f.loc(ini), None, "")
    else:
        R.check(once_per_iteration(L, o[0]) and strip(o[1][2]) == col and o[2] == off, rule, n + "|offsets", f.loc(o[0]),
                "%s: offset %s is recorded for column %s, but its value is at %s" % (n, pretty(o[2]), pretty(o[1][2]), pretty(off)), n)
    # offset advances by the column's size
    if off[0] == "phi" and off[1] in f.I:
        init, nxt = phi_parts(L, f.I[off[1]])
        R.check({strip(e) for _, e in init} == {("c", 0)}, rule, n + "|from", f.loc(ini), "%s: the first column's values are not at offset 0" % n, n)
        for _, e in nxt:
            at, k = linear(strip(e))
            rest = {x: c for x, c in at.items() if x != off}
            szs = [x for x in rest if x[0] in ("vcall", "call") and x[1].endswith("dataSizeDoubles")]
            if len(rest) == 1 and len(szs) == 1:
                g, bad = indexed(szs[0], col)
                R.check(at.get(off) == 1 and rest[szs[0]] == 1 and k == 0 and bool(g) and not bad, rule, n + "|advance", f.loc(ini), "%s: the next column's values are at %s" % (n, pretty(e)), n)
            else:
                tri(R, rule, n + "|advance", f.loc(ini), False if not rest else None, "%s: the next column's values are at %s" % (n, pretty(e)))
    else:
        tri(R, rule, n + "|advance", f.loc(ini), None, "")
    z = sts.get("columnByteSizes_")
    if z is not None:
        at, k = linear(z[2])
        szs = [x for x in at if x[0] in ("vcall", "call") and x[1].endswith("dataSizeDoubles")]
        ok = len(at) == 1 and len(szs) == 1 and at[szs[0]] == 8 and k == 0 and bool(indexed(szs[0], col)[0]) and not indexed(szs[0], col)[1] and strip(z[1][2]) == col
        tri(R, rule, n + "|bytes", f.loc(z[0]), ok if at else False, "%s: byte size %s recorded for column %s" % (n, pretty(z[2]), pretty(z[1][2])))


# ------------------------------------------------------------------------------------------------ readers
def reader(P, R, f, n):
    dec = calls_to(f, r"Codec::decode$")
    skp = calls_to(f, r"Codec::skip$")
    rd = calls_to(f, r"DataStream::(readBytes|read)$")
    if not dec:
        tri(R, "M5", n, f.where(), None, "")
        return
    CL, col = col_loop(f, dec)
    if col is None:
        tri(R, "M5", n + "|loop", f.where(), None, "")
        return
    e = enclosing(f, dec[0])
    L = e[1] if len(e) > 1 else None
    if n != "next" and L is None:
        tri(R, "M5", n + "|rows", f.where(), None, "")
        return
    c = counter(CL, f.I[col[1]])
    if c is None:
        tri(R, "M5", n + "|counter", f.where(), None, "")
        return
    R.check(c[1] == 1, "M5", n + "|step", f.loc(dec[0]), "%s: columns are decoded in steps of %s" % (n, c[1]), n)
    # M4
    start = strip(c[0])
    mv = marker_value(start)
    if mv is None and start[0] == "phi":
        ms = {False if x[0] == "c" else marker_value(x) for x in phi_alts(f, start)}
        if False in ms:
            ms = {False}
        mv = next(iter(ms)) if len(ms) == 1 else None
    if mv is None:
        lin = linear(start)
        tri(R, "M4", n + "|start", f.loc(dec[0]), False if start[0] == "c" else None, "%s: decoding starts at column %s, not at the row's marker" % (n, pretty(start)))
        return
    R.check(mv is not False, "M4", n + "|start", f.loc(dec[0]), "%s: the marker is interpreted as %s" % (n, pretty(start)), n)
    if mv is False:
        return
    reads = [i for i in rd if at_off(f.expr(i["o"][1])) is not None and at_off(f.expr(i["o"][1]))[0] == mv]
    R.check(bool(reads) and all(f.cq(i).endswith("readBytes") and at_off(f.expr(i["o"][1]))[1] == 0 and f.expr(i["o"][2]) == ("c", 2) for i in reads), "M4", n + "|bytes", f.loc(dec[0]),
            "%s: the marker is not read as two raw bytes" % n, n)
    ids = {i.id for i in reads}
    inrd = lambda x: x.id in ids
    rowstart = (lambda x: x.blk == L.header and x.pos == 0) if L is not None else (lambda x: False)
    if L is not None:
        one = each_iteration(f, L, reads)
        R.check(one is not False and all(i.blk in L.body for i in reads), "M4", n + "|once", f.loc(reads[0]) if reads else f.where(), "%s: not exactly one marker is read per row" % n, n)
        for r in reads:
            R.check(f.path_avoiding(r, lambda x: rowstart(x) or isret(x), lambda x: x.blk == CL.header) is None, "M5", n + "|columns", f.loc(r),
                    "%s: a row can be passed without decoding its columns" % n, n)
    else:
        for r in reads:
            R.check(f.path_avoiding(r, inrd, lambda x: False) is None, "M4", n + "|once", f.loc(r), "%s: a second marker is read for a row" % n, n)
            R.check(f.path_avoiding(r, isret, lambda x: x.blk == CL.header) is None, "M5", n + "|columns", f.loc(r), "%s: a row can be passed without decoding its columns" % n, n)
        ent = f.B[0][0]
        R.check(f.path_avoiding(ent, lambda x: x.id == dec[0].id, inrd) is None, "M4", n + "|before", f.loc(dec[0]), "%s: values are decoded without reading a marker" % n, n)
    for r in reads:
        for d in dec + skp:
            R.check(f.path_avoiding(d, inrd, rowstart) is None, "M4", n + "|first", f.loc(d), "%s: the marker is read after values of its row" % n, n)
    # M5
    bs = bound(CL, col, None)
    for edge, b in bs:
        tri(R, "M5", n + "|bound", f.loc(dec[0]), None if b is None else ncols(b), "%s: columns are decoded up to %s" % (n, pretty(b) if b else ""))
    both = dec + skp
    one = each_iteration(f, CL, both)
    tri(R, "M5", n + "|each", f.loc(dec[0]), one, "%s: a column is not decoded or skipped exactly once" % n)
    if skp:
        tri(R, "M5", n + "|wanted", f.loc(skp[0]), guarded_once(f, CL, dec, col), "%s: a requested column can be skipped" % n)
    for d in both:
        g, o = indexed(strip(f.expr(d["o"][0])), col)
        tri(R, "M5", n + "|codec", f.loc(d), bool(g) and not o if (g or o) else None, "%s: column %s is decoded with the codec of %s" % (n, pretty(col), pretty(f.expr(d["o"][0]))))
    rowphi = None
    if n == "next":
        for d in dec:
            a = strip(f.expr(d["o"][1]))
            g, o = indexed(a, col)
            ok = a[0] == "idx" and fields(a[1]) == {"lastValues_"} and "columnOffsets_" in fields(a[2]) and linear(a[2])[1] == 0
            tri(R, "M5", n + "|target", f.loc(d), (bool(g) and not o and ok) if (g or o) else None, "%s: column %s is decoded into %s" % (n, pretty(col), pretty(a)))
    elif n == "decode":
        for d in dec:
            a = strip(f.expr(d["o"][1]))
            g, o = indexed(a, col)
            tri(R, "M5", n + "|target", f.loc(d), bool(g) and not o if (g or o) else None, "%s: column %s is decoded into %s" % (n, pretty(col), pretty(a)))
            rows = set()
            for y in walk(a):
                if isinstance(y, tuple) and y[:1] == ("mul",):
                    for z in y[1:]:
                        at, k = linear(z)
                        for h in header_phis(L):
                            if at.get(("phi", h.id)) == 1:
                                rows.add((("phi", h.id), k, len(at)))
            if len(rows) == 1:
                (rowphi, k, na), = rows
                rc = counter(L, f.I[rowphi[1]])
                if rc is None or rc[0][0] != "c":
                    tri(R, "M5", n + "|row", f.loc(d), None, "")
                else:
                    R.check(rc[1] == 1 and rc[0][1] + k == 0 and na == 1, "M5", n + "|row", f.loc(d), "%s: rows are stored from %s in steps of %s" % (n, rc[0][1] + k, rc[1]), n)
            else:
                tri(R, "M5", n + "|row", f.loc(d), None, "")
    else:
        values(P, R, f, n, L, CL, col, dec)
    # M6
    over = edges_cmp(f, lambda p, a, b: p in ("sle", "ule", "slt", "ult") and marker_value(a) == mv and ncols(b) is not None and
                     (lambda k: k <= (0 if p in ("sle", "ule") else 1))(linear(strip(b))[1]))
    for r in reads:
        users = [h for h in loops(f) if h is not L and h.blocks_use(start)] if False else None
        R.check(f.path_avoiding(r, lambda x: isret(x) or rowstart(x) or x.id in {d.id for d in both}, lambda x: False, avoid_edges=over) is None, "M6", n + "|reject", f.loc(r),
                "%s: a row whose marker lies beyond the last column is accepted" % n, n)
    if n == "decode":
        repeat(P, R, f, n, L, CL, col, start, mv, dec, reads, rowphi)
    elif n == "decodeSpan":
        implicit(P, R, f, n, L, mv, reads)


def unvisited(f, fs, idx):
    """facts saying that the flag (or pointer) of element idx is not set"""
    for e, t in fs:
        x = e
        if e[0] == "cmp":
            s = {strip(e[2]), strip(e[3])}
            z = {("c", 0), ("null",)} & s
            if not z:
                continue
            v = next(iter(s - z), None)
            zero = (e[1] == "eq" and t) or (e[1] == "ne" and not t)
        else:
            v, zero = strip(e), not t
        if v and zero and any(elem(y) and strip(elem(y)[1]) == idx for y in walk(v)):
            return True
    return False


def guarded_once(f, L, S, idx, extra=lambda fs: False):
    """every iteration of L runs one of S unless the element idx is not asked for"""
    blocks = {s.blk for s in S}
    if any(b not in L.body for b in blocks):
        return None
    if L.header in blocks:
        return True
    succ = f._succs(False)
    seen, st = {L.header}, [L.header]
    while st:
        b = st.pop()
        for s in succ[b]:
            fs = f.edge_facts(b, s)
            if unvisited(f, [x for x in fs if x not in f.facts(b)], idx) or unvisited(f, fs, idx) or extra(fs):
                continue
            if s == L.header:
                return False
            if s in L.body and s not in blocks and s not in seen:
                seen.add(s)
                st.append(s)
    return True


def values(P, R, f, n, L, CL, col, dec):
    add = [i for i in calls_to(f, r"ColumnValuesBase::addValue$") if i.blk in CL.body]
    if not add:
        tri(R, "M5", n + "|value", f.loc(dec[0]), False if not calls_to(f, r"addValue$") else None, "%s: decoded values are not collected" % n)
        return
    ids = {i.id for i in add}
    hdr = lambda x: x.blk == CL.header and x.pos == 0
    for d in dec:
        R.check(f.path_avoiding(d, lambda x: hdr(x) or isret(x), lambda x: x.id in ids) is None, "M5", n + "|value", f.loc(d), "%s: a decoded value is not collected" % n, n)
        for a in add:
            g, o = indexed(strip(f.expr(a["o"][0])), col)
            tri(R, "M5", n + "|values of", f.loc(a), bool(g) and not o if (g or o) else None, "%s: column %s is collected into %s" % (n, pretty(col), pretty(f.expr(a["o"][0]))))
            R.check(strip(f.expr(a["o"][1])) == strip(f.expr(d["o"][1])), "M5", n + "|buffer", f.loc(a), "%s: collects %s after decoding into %s" % (n, pretty(f.expr(a["o"][1])), pretty(f.expr(d["o"][1]))), n)
            R.check(f.path_avoiding(f.B[CL.header][0], lambda x: x is a, lambda x: x.id in {y.id for y in dec}) is None, "M5", n + "|order", f.loc(a), "%s: collects a value before decoding it" % n, n)


def implicit(P, R, f, n, L, mv, reads):
    """columns before the first row's marker contribute their missing value"""
    for i in calls_to(f, r"Codec::missingValue$"):
        IL = innermost(f, i)
        if IL is None or IL.header not in L.body or IL is L:
            continue
        for h in header_phis(IL):
            p = ("phi", h.id)
            g, o = indexed(strip(f.expr(i["o"][0])), p)
            if not (g or o):
                continue
            R.check(not o, "M7", n + "|codec", f.loc(i), "%s: missing value of another column" % n, n)
            c = counter(IL, h)
            tri(R, "M7", n + "|from", f.loc(i), None if c is None else c == (("c", 0), 1), "%s: implicit values from column %s" % (n, pretty(c[0]) if c else ""))
            for edge, b in bound(IL, p):
                tri(R, "M7", n + "|to", f.loc(i), None if b is None else (marker_value(b) == mv if marker_value(b) is not None else None), "%s: implicit values up to %s" % (n, pretty(b) if b else ""))
            add = [a for a in calls_to(f, r"ColumnValuesBase::addValue$") if a.blk in IL.body]
            tri(R, "M7", n + "|collect", f.loc(i), guarded_once(f, IL, add, p) if add else None, "%s: an implicit missing value is not collected" % n)
            # skipped only when the row is not the first
            hits = lambda x: x.blk == IL.header
            notfirst = edges_where(f, lambda e, t: e[0] == "cmp" and ("c", 0) in (e[2], e[3]) and any(strip(x) == ("phi", q.id) for q in header_phis(L) for x in (e[2], e[3])) and
                                   ((e[1] == "eq" and not t) or (e[1] == "ne" and t) or (e[1] in ("ugt", "sgt") and t)))
            dec = {d.id for d in calls_to(f, r"Codec::(decode|skip)$")}
            for r in reads:
                R.check(f.path_avoiding(r, lambda x: x.id in dec or isret(x), hits, avoid_edges=notfirst) is None, "M7", n + "|first row", f.loc(r),
                        "%s: the columns before the first row's marker are left out" % n, n)
            return
    pre = [i for i in calls_to(f, r"Codec::missingValue$")]
    tri(R, "M7", n + "|implicit", f.where(), False if not pre else None, "%s: the columns before the first row's marker are left out" % n)


def lin_eq(e, d, k):
    at, c = linear(strip(e))
    return at == d and c == k


def repeat(P, R, f, n, L, CL, col, start, mv, dec, reads, rowphi):
    rowstart = lambda x: x.blk == L.header and x.pos == 0
    # initial missing value
    init = []
    for s in f.insts():
        if s.op == "store":
            v = strip(f.expr(s["o"][0]))
            if v[0] in ("vcall", "call") and v[1].endswith("missingValue"):
                init.append((s, v))
    if not init:
        tri(R, "M7", n + "|initial", f.where(), False if not calls_to(f, r"missingValue$") else None, "%s: columns before the first row's marker do not start as missing" % n)
    for s, v in init:
        IL = innermost(f, s)
        if IL is None or IL is L or s.blk in L.body:
            tri(R, "M7", n + "|initial", f.loc(s), None, "")
            continue
        done = False
        for h in header_phis(IL):
            p = ("phi", h.id)
            g, o = indexed(v, p)
            ga, oa = indexed(strip(f.expr(s["o"][1])), p)
            if not (g or o):
                continue
            done = True
            R.check(not o and bool(ga) and not oa, "M7", n + "|initial", f.loc(s), "%s: the missing value of one column initialises another (%s)" % (n, pretty(f.expr(s["o"][1]))), n)
            c = counter(IL, h)
            tri(R, "M7", n + "|initial from", f.loc(s), None if c is None else c == (("c", 0), 1), "%s: initial values from column %s" % (n, pretty(c[0]) if c else ""))
            for edge, b in bound(IL, p):
                tri(R, "M7", n + "|initial to", f.loc(s), None if b is None else ncols(b), "%s: initial values up to column %s" % (n, pretty(b) if b else ""))
            tri(R, "M7", n + "|initial each", f.loc(s), guarded_once(f, IL, [s], p), "%s: a requested column is not initialised" % n)
            # the first row: no row offset, or row 0
            a = strip(f.expr(s["o"][1]))
            R.check(not any(isinstance(y, tuple) and y[:1] == ("mul",) for y in walk(a)), "M7", n + "|initial row", f.loc(s), "%s: the initial value is stored at %s" % (n, pretty(a)), n)
        if not done:
            tri(R, "M7", n + "|initial", f.loc(s), None, "")
    for r in reads:
        for s, v in init:
            R.check(not f.may_follow(r, s), "M7", n + "|initial order", f.loc(s), "%s: initial values overwrite decoded ones" % n, n)
    # fills
    fl = calls_to(f, r"StridedDataT(<.*>)?::fill$")
    inl = [x for x in fl if x.blk in L.body]
    fin = [x for x in fl if x.blk not in L.body]
    if not fl:
        tri(R, "M7", n + "|fill", f.where(), None, "")
        return
    R.check(bool(inl), "M7", n + "|fill back", f.where(), "%s: rows skipped before a marker went back are not filled" % n, n)
    R.check(bool(fin), "M7", n + "|fill end", f.where(), "%s: rows after the last decoded value of a column are not filled" % n, n)
    last = None
    for x in inl:
        FL = innermost(f, x)
        p = None
        for h in header_phis(FL):
            q = ("phi", h.id)
            g, o = indexed(strip(f.expr(x["o"][0])), q)
            if g or o:
                p = q
                R.check(not o, "M7", n + "|fill column", f.loc(x), "%s: fills %s" % (n, pretty(f.expr(x["o"][0]))), n)
        if p is None or FL is L:
            tri(R, "M7", n + "|fill loop", f.loc(x), None, "")
            continue
        c = counter(FL, f.I[p[1]])
        tri(R, "M7", n + "|fill from", f.loc(x), None if c is None else marker_value(c[0]) == mv and c[1] == 1 if c and marker_value(c[0]) is not None else (False if c and c[0][0] == "c" and c[0][1] > 0 else None),
            "%s: back-filling starts at column %s" % (n, pretty(c[0]) if c else ""))
        ends = []
        for edge, b in bound(FL, p):
            b = strip(b) if b is not None else None
            if b is None:
                tri(R, "M7", n + "|fill to", f.loc(x), None, "")
            elif b[0] == "phi" and b[1] in {h.id for h in header_phis(L)}:
                last = b
            elif b[0] == "ld" and b[1][0] == "alloca":
                for s in f.insts():
                    if s.op == "store" and strip(f.expr(s["o"][1])) == b[1]:
                        v = f.expr(s["o"][0])
                        R.check(marker_value(v) == mv if s.blk in L.body else v == ("c", 0), "M7", n + "|last start", f.loc(s),
                                "%s: the previous row's marker is not what the next row is compared with (%s)" % (n, pretty(v)), n)
            else:
                at, k = linear(b)
                isp = len(at) == 1 and next(iter(at))[0] == "phi" and next(iter(at))[1] in {h.id for h in header_phis(L)}
                tri(R, "M7", n + "|fill to", f.loc(x), False if isp and k != 0 else None, "%s: back-filling stops at column %s" % (n, pretty(b)))
        tri(R, "M7", n + "|fill each", f.loc(x), guarded_once(f, FL, [x], p), "%s: back-filling leaves a requested column out" % n)
        src, fi = strip(f.expr(x["o"][1])), strip(f.expr(x["o"][2]))
        if rowphi is not None:
            at, k = linear(fi)
            tri(R, "M7", n + "|fill rows", f.loc(x), at == {rowphi: 1} and k == -1 if rowphi in at else None, "%s: back-filling ends at row %s" % (n, pretty(fi)))
        g, o = indexed(src, p)
        tri(R, "M7", n + "|fill source", f.loc(x), bool(g) and not o and linear(src)[1] == 0 if (g or o) else None, "%s: back-filling starts from %s" % (n, pretty(src)))
        for d in dec:
            R.check(f.path_avoiding(d, lambda y: y is x, rowstart) is None, "M7", n + "|fill before", f.loc(x), "%s: rows are filled after the row was decoded" % n, n)
        if last is not None:
            le = edges_cmp(f, lambda pr, a, b: ((strip(a) == last and marker_value(b) == mv) and pr in ("sle", "ule", "slt", "ult", "eq")))
            for r in reads:
                R.check(f.path_avoiding(r, lambda y: y.id in {d.id for d in dec} or rowstart(y), lambda y: y.blk == FL.header, avoid_edges=le) is None, "M7", n + "|fill when", f.loc(x),
                        "%s: rows can stay unfilled when the marker goes back" % n, n)
            init_, nxt = phi_parts(L, f.I[last[1]])
            # (a constant start that is no column of the row is harmless only when 0)
            R.check(all(strip(e) == ("c", 0) for _, e in init_) and all(marker_value(e) == mv or (marker_value(e) is None and strip(e) == last and False) for _, e in nxt), "M7", n + "|last start", f.loc(x),
                    "%s: the previous row's marker is not what the next row is compared with (%s)" % (n, [pretty(e) for _, e in nxt]), n)
    # lastDecoded
    cont = None
    for x in fl:
        for y in walk(strip(f.expr(x["o"][1]))):
            el = elem(y)
            if el and el[0][0] == "alloca":
                cont = el[0]
    if cont is None:
        tri(R, "M7", n + "|last decoded", f.where(), None, "")
    else:
        st = []
        for s in f.insts():
            if s.op == "store":
                el = elem(f.expr(s["o"][1]))
                if el and el[0] == cont:
                    st.append(s)
        incl = [s for s in st if s.blk in CL.body]
        tri(R, "M7", n + "|last decoded", f.where(), bool(incl) if incl or not st else None, "%s: the row of the last decoded value is not remembered" % n)
        ids = {s.id for s in incl}
        for s in incl:
            el = elem(f.expr(s["o"][1]))
            v = strip(f.expr(s["o"][0]))
            R.check(strip(el[1]) == col and (rowphi is None or lin_eq(v, {rowphi: 1}, 0)), "M7", n + "|last decoded value", f.loc(s), "%s: remembers row %s for column %s" % (n, pretty(v), pretty(el[1])), n)
        if incl:
            for d in dec:
                before = any(f.dominates(s, d) and s.blk in CL.body for s in incl)
                R.check(before or f.path_avoiding(d, lambda y: (y.blk == CL.header and y.pos == 0) or isret(y), lambda y: y.id in ids) is None, "M7", n + "|last decoded each", f.loc(d),
                        "%s: a decoded value is not remembered as the last one" % n, n)
    for x in fin:
        FL = innermost(f, x)
        if FL is None:
            tri(R, "M7", n + "|end loop", f.loc(x), None, "")
            continue
        p = None
        for h in header_phis(FL):
            q = ("phi", h.id)
            g, o = indexed(strip(f.expr(x["o"][0])), q)
            if g or o:
                p = q
                R.check(not o, "M7", n + "|end column", f.loc(x), "%s: fills %s" % (n, pretty(f.expr(x["o"][0]))), n)
        if p is None:
            tri(R, "M7", n + "|end loop", f.loc(x), None, "")
            continue
        c = counter(FL, f.I[p[1]])
        tri(R, "M7", n + "|end from", f.loc(x), None if c is None else c == (("c", 0), 1), "%s: final filling starts at column %s" % (n, pretty(c[0]) if c else ""))
        src, fi = strip(f.expr(x["o"][1])), strip(f.expr(x["o"][2]))
        complete = lambda fs: any(done_fact(e, t, src, fi) for e, t in fs)
        for (b, s), fs in exit_facts(FL):
            ok = None
            for e, t in fs:
                if e[0] == "cmp":
                    pr = e[1] if t else INVERSE.get(e[1])
                    a, d = strip(e[2]), strip(e[3])
                    if a == p and pr in ("uge", "sge", "eq") and ncols(d) is not None:
                        ok = ok or ncols(d)
                    elif d == p and pr in ("ule", "sle", "eq") and ncols(a) is not None:
                        ok = ok or ncols(a)
            if ok is None and complete(fs):
                ok = True
            if ok is None and unvisited(f, fs, p):
                ok = False
            tri(R, "M7", n + "|end to", f.loc(x), ok, "%s: final filling can stop before the last incomplete column" % n)
        tri(R, "M7", n + "|end each", f.loc(x), guarded_once(f, FL, [x], p, complete), "%s: final filling leaves an incomplete column out" % n)
        at, k = linear(fi)
        nr = [a for a in at if "rowsNumber_" in fields(a) or contains(a, lambda y: isinstance(y, tuple) and len(y) > 1 and y[1] == "odc::core::MetaData::rowsNumber")]
        tri(R, "M7", n + "|end rows", f.loc(x), len(at) == 1 and at[nr[0]] == 1 and k == -1 if nr else None, "%s: final filling ends at row %s" % (n, pretty(fi)))
        g, o = indexed(src, p)
        tri(R, "M7", n + "|end source", f.loc(x), bool(g) and not o and linear(src)[1] == 0 if (g or o) else None, "%s: final filling starts from %s" % (n, pretty(src)))


def done_fact(e, t, src, fi):
    """the fact says that src has reached fi"""
    if e[0] != "cmp":
        return False
    p = e[1] if t else INVERSE.get(e[1])
    a, b = strip(e[2]), strip(e[3])
    if a == src and b == fi and p in ("uge", "sge", "eq"):
        return True
    if b == src and a == fi and p in ("ule", "sle", "eq"):
        return True
    # src + 1 >= fi + 1
    la, lb = linear(a), linear(b)
    ls, lf = linear(src), linear(fi)
    if la[0] == ls[0] and lb[0] == lf[0] and la[1] - ls[1] == lb[1] - lf[1] and p in ("uge", "sge", "eq"):
        return True
    return False


# ------------------------------------------------------------------------------------------------ frames
def fresh(P, R, f):
    ini = calls_to(f, r"ReaderIterator::initRowBuffer$")
    hd = calls_to(f, r"Header::loadAfterMagic$")
    if not ini:
        tri(R, "M9", "loadHeaderAndBufferData", f.where(), False if not calls_to(f, r"initRowBuffer") else None, "the row buffer is not set up for a new frame header")
        return
    if not hd:
        tri(R, "M9", "loadHeaderAndBufferData", f.where(), None, "")
        return
    ids = {i.id for i in ini}
    rb = {i.id for i in calls_to(f, r"ReaderIterator::readBuffer$")}
    for h in hd:
        R.check(f.path_avoiding(h, lambda x: x.id in rb or (isret(x)), lambda x: x.id in ids) is None, "M9", "each header", f.loc(h), "rows of a frame can be read with the previous frame's row buffer", "each header")
        for i in ini:
            R.check(f.path_avoiding(f.B[0][0], lambda x: x is i, lambda x: x.id in {y.id for y in hd}) is None, "M9", "after header", f.loc(i), "the row buffer is set up before the header was read", "after header")
            sz = [s for s in f.insts() if s.op == "store" and fields(f.expr(s["o"][1])) == {"rowDataSizeDoubles_"}]
            if sz:
                R.check(f.path_avoiding(h, lambda x: x is i, lambda x: x in sz) is None, "M9", "sized", f.loc(i), "the row buffer is allocated with the previous frame's row size", "sized")


# ------------------------------------------------------------------------------------------------ strided data
def strided(P, R):
    for f in sorted(P.roots["sd"].values(), key=lambda f: f.dem):
        nm = f.qual.split("::")[-1] + ("<const>" if "char const" in f.dem.split("(")[0] else "")
        if f.qual.endswith("isNewValue"):
            is_new(P, R, f, nm)
        else:
            fill(P, R, f, nm)
    for f in sorted(P.roots["get"].values(), key=lambda f: f.dem):
        nm = f.dem.split("::")[-1][:30]
        for r in f.rets():
            e = strip(f.expr(r["o"][0]))
            a = None
            if e[0] == "idx" and (fields(e[1]) == {"data_"} or e[1] == ("ld", ("arg", 0, "this"))):
                at, k = linear(e[2])
                m = [x for x in at if x[0] == "mul"]
                a = k == 0 and len(at) == 1 and len(m) == 1 and at[m[0]] == 1 and "stride_" in fields(m[0]) and any(x[:1] == ("arg",) and x[1] == 1 for x in m[0][1:])
            elif e[0] == "call":
                a = None if not e[1].endswith("::get") else any(x[:2] == ("arg", 1) for x in e[3:])
            tri(R, "M8", "element " + nm, f.where(), a, "%s: address of an element is %s" % (nm, pretty(e)))


def row_index(f, e):
    """linear form of the row argument of an element address"""
    e = strip(e)
    if e[0] == "call" and re.search(r"::(get|operator\[\])$", e[1]) and len(e) >= 4:
        return linear(e[3])
    return None


def is_new(P, R, f, nm):
    mc = [i for i in f.insts() if i.op in ("call", "invoke") and f.csym(i) in ("memcmp", "bcmp")]
    row = ("arg", 1, f.args[1]["n"])
    if len(mc) != 1:
        tri(R, "M2", nm, f.where(), None, "")
        return
    m = mc[0]
    a, b = row_index(f, f.expr(m["o"][0])), row_index(f, f.expr(m["o"][1]))
    if a is None or b is None:
        tri(R, "M2", nm + "|rows", f.loc(m), None, "")
    else:
        ks = {a[1], b[1]}
        R.check(a[0] == b[0] == {row: 1} and ks == {0, -1}, "M2", nm + "|rows", f.loc(m), "%s: compares rows %+d and %+d" % (nm, a[1], b[1]), nm)
    z = strip(f.expr(m["o"][2]))
    R.check(z[0] == "ld" and fields(z) == {"dataSize_"}, "M2", nm + "|size", f.loc(m), "%s: compares %s bytes" % (nm, pretty(z)), nm)
    zero = any(e[0] == "cmp" and row in (strip(e[2]), strip(e[3])) and ("c", 0) in (e[2], e[3]) and ((e[1] == "eq" and not t) or (e[1] in ("ne", "ugt", "sgt") and t)) for e, t in f.facts_at(m))
    R.check(zero, "M2", nm + "|first", f.loc(m), "%s: the first row is compared with a row before it" % nm, nm)
    me = strip(f.expr(m.id))
    for r in f.rets():
        for edge, v in value_edges(f, r["o"][0]):
            v = strip(v)
            if v[0] == "cmp" and me in (strip(v[2]), strip(v[3])):
                ok = v[1] == "ne" and ("c", 0) in (v[2], v[3])
            elif v[0] == "c":
                # a constant answer: true for the first row; after the comparison according to it
                fs = f.edge_facts(*edge) if edge else f.facts_at(r)
                first = any(e[0] == "cmp" and row in (strip(e[2]), strip(e[3])) and ("c", 0) in (e[2], e[3]) and ((e[1] == "eq" and t) or (e[1] == "ne" and not t)) for e, t in fs)
                diff = [((e[1] == "ne") == t) for e, t in fs if e[0] == "cmp" and e[1] in ("eq", "ne") and me in (strip(e[2]), strip(e[3]))]
                ok = (v[1] != 0) if first else ((v[1] != 0) == diff[0] if diff else None)
            else:
                ok = None
            tri(R, "M2", nm + "|answer", f.loc(r), ok, "%s: answers %s" % (nm, pretty(v)))


def fill(P, R, f, nm):
    src, fin = ("arg", 1, f.args[1]["n"]), ("arg", 2, f.args[2]["n"])
    n = 0
    for i in f.insts():
        if i.op not in ("call", "invoke") or not reaches_ret(f, i):
            continue
        if f.cq(i) == "std::fill":
            a, b = row_index(f, f.expr(i["o"][0])), row_index(f, f.expr(i["o"][1]))
            n += 1
            if a and b:
                R.check(a == ({src: 1}, 1) and b == ({fin: 1}, 1), "M8", nm + "|contiguous", f.loc(i), "%s: fills from row source%+d to before row final%+d" % (nm, a[1], b[1]), nm)
            else:
                tri(R, "M8", nm + "|contiguous", f.loc(i), None, "")
            sizes = facts_sizes(f, i)
            R.check(sizes.get("dataSize_") == 8 and sizes.get("stride_") == 8, "M8", nm + "|contiguous size", f.loc(i), "%s: values are filled as contiguous 8-byte elements although they are not" % nm, nm)
            v = f._content(i["o"][2], i)
            row_src(R, f, nm + "|contiguous value", i, v, src)
        elif copied(f, i):
            d, s, z = copied(f, i)
            n += 1
            L = innermost(f, i)
            rd = row_index(f, d)
            if L is None or rd is None:
                tri(R, "M8", nm + "|general", f.loc(i), None, "")
                continue
            R.check(fields(z) == {"dataSize_"} and z[0] == "ld", "M8", nm + "|general size", f.loc(i), "%s: copies %s bytes" % (nm, pretty(z)), nm)
            p = next((("phi", h.id) for h in header_phis(L) if ("phi", h.id) in rd[0]), None)
            if p is None or not once_per_iteration(L, i):
                tri(R, "M8", nm + "|general", f.loc(i), None if p is None else False, "%s: a row is not filled" % nm)
                continue
            c = counter(L, f.I[p[1]])
            if c is None:
                tri(R, "M8", nm + "|general", f.loc(i), None, "")
            else:
                at, k = linear(strip(c[0]))
                R.check(at == {src: 1} and k + rd[1] == 1 and c[1] == 1, "M8", nm + "|general from", f.loc(i), "%s: fills from row source%+d in steps of %s" % (nm, k + rd[1], c[1]), nm)
            last_row(R, f, nm + "|general", L, p, fin, i, rd[1])
            row_src(R, f, nm + "|general value", i, ("ld", f.expr(i["o"][1])), src)
    for s in f.insts():
        if s.op == "store":
            a = f.expr(s["o"][1])
            L = innermost(f, s)
            if a[0] == "phi" and L is not None and a[1] in {h.id for h in header_phis(L)}:
                n += 1
                w = pointer_walk(L, f.I[a[1]])
                if w is None:
                    tri(R, "M8", nm + "|strided", f.loc(s), None, "")
                    continue
                r0 = row_index(f, w[0])
                tri(R, "M8", nm + "|strided from", f.loc(s), None if r0 is None else r0 == ({src: 1}, 1), "%s: fills from row source%+d" % (nm, r0[1] if r0 else 0))
                st = strip(w[1])
                R.check(fields(st) == {"stride_"} and st[0] == "ld" and w[2] == "i8", "M8", nm + "|strided step", f.loc(s), "%s: rows are %s * %s apart" % (nm, pretty(st), w[2]), nm)
                R.check(once_per_iteration(L, s), "M8", nm + "|strided each", f.loc(s), "%s: a row is not filled" % nm, nm)
                R.check(facts_sizes(f, s).get("dataSize_") == 8, "M8", nm + "|strided size", f.loc(s), "%s: values are filled as 8-byte elements although they are not" % nm, nm)
                for (b, t_), fs in exit_facts(L):
                    ok = None
                    for e, t in fs:
                        if e[0] == "cmp" and a in (e[2], e[3]):
                            o = e[3] if e[2] == a else e[2]
                            pr = e[1] if e[2] == a else SWAP.get(e[1])
                            pr = pr if t else INVERSE.get(pr)
                            ro = row_index(f, o)
                            if ro:
                                ok = ro[0] == {fin: 1} and ((pr in ("ugt", "sgt") and ro[1] == 0) or (pr in ("uge", "sge", "eq") and ro[1] == 1))
                    tri(R, "M8", nm + "|strided to", f.loc(s), ok, "%s: filling does not end at the final row" % nm)
                row_src(R, f, nm + "|strided value", s, f.expr(s["o"][0]), src)
    if n < 1:
        tri(R, "M8", nm, f.where(), None, "")


def row_src(R, f, key, i, v, src):
    v = strip(v)
    r = row_index(f, v[1]) if v[0] == "ld" else None
    tri(R, "M8", key, f.loc(i), None if r is None else r == ({src: 1}, 0), "%s: the repeated value is that of row source%+d" % (key, r[1] if r else 0))


def facts_sizes(f, i):
    out = {}
    for e, t in f.facts_at(i):
        if e[0] == "cmp" and ((e[1] == "eq" and t) or (e[1] == "ne" and not t)):
            for a, b in ((e[2], e[3]), (e[3], e[2])):
                if b[0] == "c" and a[0] == "ld":
                    for x in fields(a):
                        out[x] = b[1]
    return out


def last_row(R, f, key, L, p, fin, i, off):
    for (b, s), fs in exit_facts(L):
        ok = None
        for e, t in fs:
            if e[0] != "cmp":
                continue
            for x, y, pr in ((strip(e[2]), strip(e[3]), e[1]), (strip(e[3]), strip(e[2]), SWAP.get(e[1]))):
                la, lb = linear(x), linear(y)
                if la[0] == {p: 1} and lb[0] == {fin: 1}:
                    pr = pr if t else INVERSE.get(pr)
                    # row = p + off not filled any more; p + a (pr) fin + b
                    k = la[1] - off - lb[1]            # (row + k) pr fin
                    ok = (pr in ("sgt", "ugt") and k == 0) or (pr in ("sge", "uge", "eq") and k == -1)
        tri(R, "M8", key + " to", f.loc(i), ok, "%s: filling does not end at the final row" % key)
