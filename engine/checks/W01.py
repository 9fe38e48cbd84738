"""Writing frames: in the frame writers (column encoder, row-buffering writer, metadata rewriter), inlined from their entry
points: the header's row count is the number of encoded rows, its data size the number of bytes encoded, header and data are
each written once, in that order, from the buffers that were filled, every transfer is checked to be complete, buffered rows
are flushed on close/destruction/full, the staging buffers are large enough, and the per-frame state is reset."""
from frlib import *

SER = r"odc::core::Header::serializeHeader(OtherByteOrder)?$"
K = [r"DataStream<.*>::(read|write|advance|readBytes|writeBytes|set|get|position)\b", r"Header::serializeHeader", r"CodecOptimizer::",
     r"MetaData::resetCodecs", r"MetaData::resetStats", r"Column::coder\b", r"ODBAPISettings", r"LibOdc::", r"CodecFactory"]
CONFIG = {"roots": [
    {"tag": "wr", "re": r"^odc::(WriterBufferingIterator::(flush|close|writeRow|~WriterBufferingIterator|flushAndReset\w*)\(|core::encodeFrame\(|tool::MDSetTool::run\()", "keep": K + [r"WriterBufferingIterator::flush", r"StringTool::", r"TablesReader", r"ReadTablesIterator", r"core::Table::"], "depth": 8}]}


def one(fs, what):
    if len(fs) != 1:
        raise AnalysisBroken("%d functions match %s" % (len(fs), what))
    return fs[0]


def und(R, rid):
    R.extra["undecided"] = R.extra.get("undecided", []) + [rid]


def run(P, R):
    R.rule("N1", "the row count given to the header is the number of rows encoded into the data that follows")
    R.rule("N2", "the data size given to the header is the number of bytes written as data, taken after the last row was encoded")
    R.rule("N3", "each header is written exactly once, completely, then its data, from the buffers that were filled")
    R.rule("N4", "the staging buffer is large enough for the worst case: the row data plus a two-byte marker per row")
    R.rule("N5", "buffered rows are flushed when the buffer is full, on close, on destruction and before the layout changes; nothing else discards them")
    R.rule("N6", "each row encodes its columns in order, each with its own codec and its own value, at the position the previous one ended")
    R.rule("N7", "after a frame was written the row buffer, the codecs and the remembered last row are reset")
    R.rule("N8", "no DataHandle write is ignored: a short write never leads to a normal return")
    R.rule("N9", "statistics are gathered for every value of every column before codecs are chosen, and codecs are chosen before encoding")
    F = P.roots["wr"]
    g = {f.qual.split("::")[-1]: f for f in F.values()}
    for n in ("flush", "close", "writeRow", "~WriterBufferingIterator", "encodeFrame", "run"):
        R.anchor(n in g, n)
    for n in ("flush", "encodeFrame"):
        rows(P, R, g[n], n)
    for n in ("flush", "encodeFrame", "run"):
        header_data(P, R, g[n], n)
    flushes(P, R, g)
    reset(P, R, g["flush"])
    capacity(P, R, g)
    stats(P, R, g)
    writes(P, R)
    R.need("N8", 5)


# ------------------------------------------------------------------------------------------------ rows
def row_loop(f):
    """(loop, marker write) : the loop each iteration of which writes one row marker"""
    enc = [i for i in f.insts() if i.op in ("call", "invoke") and (f.vcall(i) or ("",))[0].endswith("Codec::encode")]
    if not enc:
        return None, None, []
    e = enclosing(f, enc[0])
    if len(e) < 2:
        return None, None, enc
    L = e[1]
    mk = [i for i in f.calls(r"DataStream::(write|writeBytes)$") if i.blk in L.body and innermost(f, i) is L]
    return L, (mk[0] if len(mk) == 1 else None), enc


def rows(P, R, f, n):
    L, mk, enc = row_loop(f)
    if L is None or len(enc) != 1:
        und(R, "N1 " + n)
        return
    R.check(mk is not None and once_per_iteration(L, mk), "N1", n + "|marker", f.where(), "%s: not exactly one marker per row" % n, n + " one marker per row")
    # every row: the column loop is reached once
    E = enc[0]
    CL = innermost(f, E)
    hdr0 = f.B[CL.header][0]
    R.check(mk is not None and f.path_avoiding(mk, lambda x: x.blk == L.header or x.op == "ret", lambda x: x.blk == CL.header) is None, "N1", n + "|columns", f.loc(E),
            "%s: a row can be counted without encoding its columns" % n, n)
    phis = {("phi", p.id): p for p in header_phis(L)}
    hdrs = list(f.calls(SER))
    cnt = {}
    for ph, p in phis.items():
        c = counter(L, p)
        if c:
            cnt[ph] = c
        w = pointer_walk(L, p)
        if w:
            cnt[ph] = (w[0], ("ptr", w[1]))
    bounds = []
    for ph in cnt:
        bounds.append((ph, bound(L, ph, f.B[CL.header][0])))
    ok_bounds = [(ph, {h for _, h in bs if h is not None}, all(h is not None for _, h in bs)) for ph, bs in bounds]
    for H in hdrs:
        r = uncast(f.expr(H["o"][2])) if f.ty(H["o"][0]) == "ptr" and len(H["o"]) == 5 else uncast(f.expr(H["o"][1]))
        rn = nval(f, r)
        good, why = None, ""
        if r in cnt:
            init, st = cnt[r]
            good = init == ("c", 0) and st == 1
            why = "counter starts at %s, steps %s" % (pretty(init), st)
        else:
            for ph, ns, allx in ok_bounds:
                for b in ns:
                    if nval(f, b) == rn and allx:
                        good = cnt[ph][0] == ("c", 0) and cnt[ph][1] == 1
                        why = "rows run from %s to %s step %s" % (pretty(cnt[ph][0]), pretty(b), cnt[ph][1])
            if good is None:
                lin, k = linear(rn)
                atoms = {nval(f, b) for _, ns, _ in ok_bounds for b in ns} | set(cnt)
                # a value computed from the counter or its bound, but different from it, or a constant
                # or the bound of some other loop
                for L2 in loops(f):
                    if L2 is not L:
                        for h in header_phis(L2):
                            atoms |= {nval(f, b) for _, b in bound(L2, ("phi", h.id)) if b is not None}
                if (lin and set(lin) <= atoms) or not lin:
                    good, why = False, "value %s" % pretty(r)
        if good is None:
            und(R, "N1 %s %s" % (n, pretty(r)))
        else:
            R.check(good, "N1", n + "|count", f.loc(H), "%s: header row count is not the number of encoded rows (%s)" % (n, why), "%s %s" % (n, why))
        R.check(f.path_avoiding(H, lambda x: x is mk, lambda x: False) is None if mk else True, "N1", n + "|after", f.loc(H), "%s: rows encoded after the header was built" % n, n)
    # the loop covers all rows: pointer form must end at the fill position, counter form at nelem
    for ph, ns, allx in ok_bounds:
        init, st = cnt[ph]
        if isinstance(st, tuple):
            i0 = nval(f, init)
            w = st[1]
            R.check(i0 == ("bufdata", nobj(f, i0[1])) and i0[0] == "bufdata" and fields(i0) == {"rowsBuffer_"} and any(fields(b) == {"nextRowInBuffer_"} for b in ns) and fields(w) == {"rowByteSize_"},
                    "N1", n + "|range", f.loc(E), "%s: rows are taken from %s up to %s in steps of %s, not from the start of the row buffer to its fill position by one row" %
                    (n, pretty(init), [pretty(b) for b in ns], pretty(w)), n)
    encode_threading(P, R, f, n, L, CL, E, mk, cnt)


def phis_in(e):
    return {x for x in walk(e) if x[0] == "phi"}


def encode_threading(P, R, f, n, L, CL, E, mk, cnt):
    codec, p, v = (f.expr(x) for x in E["o"][:3])
    if v[0] == "alloca":
        v = f._content(E["o"][2], E)
    pos = None
    if p[0] == "phi" and any(p == ("phi", h.id) for h in header_phis(CL)):
        init, nxt = phi_parts(CL, f.I[p[1]])
        okn = {e for _, e in nxt} == {f.expr(E.id)}
        oki = all(e[0] == "call" and e[1].endswith("DataStream::get") for _, e in init)
        gets = [i for i in f.calls(r"DataStream::get$") if i.blk in L.body]
        okg = mk is not None and all(f.dominates(mk, g) for g in gets)
        sets = [i for i in f.calls(r"DataStream::set$") if i.blk in L.body and uncast(f.expr(i["o"][1])) == p]
        oks = bool(sets) and f.path_avoiding(E, lambda x: x.blk == L.header, lambda x: any(x is s for s in sets)) is None
        R.check(okn and oki and okg and oks, "N6", n + "|position", f.loc(E),
                "%s: columns of a row are not appended one after the other to the output (start ok %s, step ok %s, after marker %s, stored back %s)" % (n, oki, okn, okg, oks), n)
    else:
        und(R, "N6 position " + n)
    # column counter
    cols = [x for x in phis_in(codec) if any(x == ("phi", h.id) for h in header_phis(CL))]
    if len(cols) == 1:
        col = cols[0]
        c = counter(CL, f.I[col[1]])
        bs = bound(CL, col)
        hit = [h for _, h in bs]
        R.check(c is not None and c[1] == 1 and all(h is not None for h in hit), "N6", n + "|columns", f.loc(E),
                "%s: columns are not visited one by one up to the last" % n, n)
        for h in hit:
            if h is not None:
                hn = nval(f, h)
                good = hn[0] == "call" and hn[1].endswith("::size")
                lin, k = linear(hn)
                R.check(good or k == 0, "N6", n + "|lastcol", f.loc(E), "%s: column loop ends at %s" % (n, pretty(h)), n)
        cp, vp = phis_in(codec), phis_in(v)
        R.check(cp <= vp, "N6", n + "|index", f.loc(E), "%s: the codec of one column is given the value of another (codec %s, value %s)" % (n, pretty(codec), pretty(v)), n)
        # the row operand is the row loop's position
        rest = vp - cp
        ok = False
        for x in rest:
            if x in cnt:
                ok = True
            for fa, y in deref_phi(f, x):
                for ph in cnt:
                    if same_under(fa, y, ph):
                        ok = True
        R.check(ok and len(rest) == 1, "N6", n + "|row", f.loc(E), "%s: the value encoded does not belong to the current row (%s)" % (n, pretty(v)), n)
    else:
        und(R, "N6 columns " + n)


# ------------------------------------------------------------------------------------------------ header + data
def header_data(P, R, f, n):
    hdrs, ws = list(f.calls(SER)), handle_writes(f)
    R.anchor(hdrs, "serializeHeader in " + n)
    isret = lambda x: x.op == "ret"
    hw, dw = [], []
    for w in ws:
        d = nval(f, f.expr(w["o"][1]))
        L = nval(f, f.expr(w["o"][2]))
        src = d[1] if d[0] == "bufdata" else None
        hit = None
        for H in hdrs:
            ho = f.expr(H["o"][0])
            if src == ho or (src and src[0] == "alloca" and src == ho):
                hit = H
        (hw if hit is not None else dw).append((w, src, L, hit))
    for H in hdrs:
        ho = f.expr(H["o"][0])
        mine = [x for x in hw if x[3] is H]
        k = "%s|%s" % (n, "Other" if "Other" in f.cq(H) else "Same")
        R.check(len(mine) == 1, "N3", k + "|hdr", f.loc(H), "%s: the header is written %d times" % (n, len(mine)), k)
        if len(mine) != 1:
            continue
        w = mine[0]
        R.check(w[2] == ("ld", ("fld", ho, "second")), "N3", k + "|len", f.loc(w[0]), "%s: header write length is %s" % (n, pretty(w[2])), k)
        tgt = dw
        R.check(bool(dw) and f.path_avoiding(H, lambda x: any(x is d[0] for d in tgt) or isret(x), lambda x: x is w[0]) is None, "N3", k + "|order", f.loc(H),
                "%s: a path writes the data (or returns) without writing its header first" % n, k)
        R.check(f.path_avoiding(w[0], lambda x: isret(x) or any(x is h for h in hdrs), lambda x: any(x is d[0] for d in tgt)) is None, "N3", k + "|data", f.loc(w[0]),
                "%s: a path continues without writing the data after the header" % n, k)
        dsz = nval(f, f.expr(H["o"][1]))
        for d in tgt:
            R.check(d[2] == dsz, "N2", k + "|size", f.loc(d[0]), "%s: header announces %s bytes but %s bytes of data are written" % (n, pretty(dsz), pretty(d[2])), "%s %s" % (k, pretty(dsz)))
        # position taken after the last byte was added
        if dsz[0] == "pos":
            S = dsz[1]
            muts = [i for i in f.calls(r"DataStream::(write|writeBytes|set|advance)$") if nobj(f, f.expr(i["o"][0])) == S]
            h0 = f.I.get(f.expr(H["o"][1])[-1][1]) if f.expr(H["o"][1])[0] == "call" else H
            h0 = h0 or H
            tp = tmp_def(f, f.expr(H["o"][1])[2][1], h0) if f.expr(H["o"][1])[0] == "call" and f.expr(H["o"][1])[2][0] == "alloca" else h0
            R.check(not any(f.may_follow(tp or h0, m) for m in muts), "N2", k + "|late", f.loc(H), "%s: data is appended after its size was taken" % n, k)
            # data comes from the buffer behind that stream
            st = [i for i in f.insts() if i.op == "store" and f.expr(i["o"][1]) == ("fld", S, "start_")]
            buf = {nval(f, f.expr(i["o"][0])) for i in st}
            for d in tgt:
                R.check(not buf or buf == {("bufdata", d[1])}, "N3", k + "|buffer", f.loc(d[0]), "%s: the data written is not the encoded buffer" % n, k)
    for d in dw:
        R.check(f.path_avoiding(d[0], lambda x: any(x is e[0] for e in dw), lambda x: any(x is h for h in hdrs)) is None, "N3", n + "|twice", f.loc(d[0]), "%s: data is written twice for one header" % n, n)
        if hdrs:
            R.check(f.path_avoiding(None, lambda x: x is d[0], lambda x: any(x is h[0] for h in hw)) is None, "N3", n + "|nohdr", f.loc(d[0]), "%s: data is written without a header" % n, n)


# ------------------------------------------------------------------------------------------------ flush triggers
def empty_edges(f):
    """edges on which there is nothing buffered"""
    out = []
    for (b, s, c, tr) in f.edge_conds():
        for e, t in f.implied(c, tr):
            if uncast(e)[0] == "ld" and fields(e) == {"initialisedColumns_"} and not t:
                out.append((b, s))
            if e[0] == "cmp":
                x, y = nval(f, e[2]), nval(f, e[3])
                eq = (e[1] == "eq" and t) or (e[1] == "ne" and not t)
                if eq and {x[0], y[0]} == {"ld", "bufdata"} and fields(x) | fields(y) == {"nextRowInBuffer_", "rowsBuffer_"}:
                    out.append((b, s))
                if eq and x[0] == "bufsize" and y == ("c", 0) and fields(x) == {"rowsBuffer_"}:
                    out.append((b, s))
                if eq and y[0] in ("null", "c") and x[0] == "ld" and fields(x) == {"nextRowInBuffer_"}:
                    out.append((b, s))
    return out


def is_flush(f):
    return lambda x: x.op in ("call", "invoke") and f.cq(x).endswith("WriterBufferingIterator::flush")


def isret(x):
    return x.op == "ret"


def flushes(P, R, g):
    f = g["flush"]
    hdrs = list(f.calls(SER))
    r = f.path_avoiding(None, isret, lambda x: any(x is h for h in hdrs), avoid_edges=empty_edges(f))
    R.check(r is None, "N5", "flush|skips", f.where(), "flush can return without writing although rows are buffered", "flush writes unless nothing is buffered")
    for n in ("close", "~WriterBufferingIterator") + tuple(k for k in g if k.startswith("flushAndReset")):
        f = g[n]
        r = f.path_avoiding(None, isret, is_flush(f), avoid_edges=empty_edges(f))
        R.check(r is None, "N5", n, f.where(), "%s can complete without flushing the buffered rows" % n, n)
    # the flush precedes any layout change
    for k in g:
        if k.startswith("flushAndReset"):
            f = g[k]
            fl = [i for i in f.insts() if is_flush(f)(i)]
            ch = [i for i in f.insts() if i.op in ("call", "invoke") and (f.vcall(i) or ("",))[0].endswith("Codec::dataSizeDoubles") and len(i["o"]) == 2]
            for c in ch:
                R.check(any(f.dominates(x, c) for x in fl), "N5", k + "|order", f.loc(c), "%s changes the column sizes before the buffered rows are flushed" % k, k)
    f = g["~WriterBufferingIterator"]
    # writeRow
    f = g["writeRow"]
    cps = [i for i in f.insts() if i.op in ("call", "invoke") and re.match(r"std::copy(_n)?$|llvm\.mem(cpy|move)|memcpy$", f.cq(i)) and
           any(fields(nval(f, f.expr(o))) & {"nextRowInBuffer_"} and f.expr(o)[0] == "ld" for o in i["o"])]
    if len(cps) != 1:
        und(R, "N5 writeRow copy")
        return
    cp = cps[0]
    full = []
    for (b, s, c, tr) in f.edge_conds():
        for e, t in f.implied(c, tr):
            if e[0] == "cmp":
                x, y = nval(f, e[2]), nval(f, e[3])
                for a, d, p in ((x, y, e[1]), (y, x, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(e[1], e[1]))):
                    if fields(a) == {"nextRowInBuffer_"} and fields(d) == {"rowsBuffer_"} and end_of_buffer(d):
                        if (p == "eq" and not t) or (p == "ne" and t) or (p in ("ult",) and t) or (p == "uge" and not t):
                            full.append((b, s))
    r = f.path_avoiding(cp, isret, is_flush(f), avoid_edges=full)
    R.check(r is None, "N5", "writeRow|full", f.loc(cp), "writeRow can return with a full buffer that was not flushed (the next row would be written past its end)", "writeRow flushes when full")
    st = [i for i in f.insts() if i.op == "store" and fields(f.expr(i["o"][1])) == {"nextRowInBuffer_"} and f.may_follow(cp, i)]
    adv = [i for i in st if (lambda e: e[0] == "idx" and fields(e[1]) == {"nextRowInBuffer_"})(f.expr(i["o"][0]))]
    R.check(len(adv) == 1 and f.path_avoiding(cp, isret, lambda x: x is adv[0]) is None and f.path_avoiding(None, lambda x: x is adv[0], lambda x: x is cp) is None, "N5", "writeRow|advance", f.loc(cp),
            "a row is stored without advancing the fill position (or the reverse)", "advance with the copy")
    if adv:
        e = f.expr(adv[0]["o"][0])
        R.check(fields(e[2]) == {"rowByteSize_"} and e[3] == "i8", "N5", "writeRow|step", f.loc(adv[0]), "the fill position advances by %s, not by one row" % pretty(e[2]), "step")
    # copied amount = row size
    q = f.cq(cp)
    if q == "std::copy":
        a, b2, d = (f.expr(o) for o in cp["o"][:3])
        n = b2[2] if b2[0] == "idx" and b2[1] == a else ("?",)
        R.check(fields(n) == {"rowDataSizeDoubles_"} and a[:2] == ("arg", 1), "N5", "writeRow|copy", f.loc(cp), "writeRow copies %s doubles from %s" % (pretty(n), pretty(a)), "copy whole row")
    for i in f.insts():
        if i.op == "store" and fields(f.expr(i["o"][1])) == {"rowByteSize_"}:
            lin, k = linear(nval(f, f.expr(i["o"][0])))
            R.check(k == 0 and len(lin) == 1 and list(lin.values()) == [8] and fields(next(iter(lin))) <= {"rowDataSizeDoubles_"} or k == 0 and list(lin.values()) == [8], "N5", "rowByteSize", f.loc(i), "row size in bytes is %s" % pretty(f.expr(i["o"][0])), "8 bytes per double")


def end_of_buffer(d):
    return d[0] == "idx" and d[1][0] == "bufdata" and d[2][0] == "bufsize" and d[1][1] == d[2][1]


# ------------------------------------------------------------------------------------------------ reset
def reset(P, R, f):
    dws = [w for w in handle_writes(f)]
    last = [w for w in dws if not any(f.may_follow(w, x) for x in dws if x is not w)]
    for w in last:
        r = f.path_avoiding(w, isret, lambda x: x.op == "store" and fields(f.expr(x["o"][1])) == {"nextRowInBuffer_"} and nval(f, f.expr(x["o"][0]))[0] == "bufdata" and fields(nval(f, f.expr(x["o"][0]))) == {"rowsBuffer_"})
        R.check(r is None, "N7", "flush|position", f.loc(w), "after a frame was written the row buffer is not rewound: its rows would be written again", "rewound")
    L, mk, enc = row_loop(f)
    sc = list(f.calls(r"MetaData::resetCodecs$"))
    for e in enc[:1]:
        r = f.path_avoiding(e, isret, lambda x: any(x is s for s in sc))
        R.check(r is None, "N7", "flush|codecs", f.loc(e), "after a frame was written the codecs are not reset: the next frame would be encoded with codecs chosen for this one", "codecs reset")
        hs = list(f.calls(SER))
        R.check(not any(f.path_avoiding(s, lambda x: any(x is h for h in hs), lambda x: False) is not None for s in sc), "N7", "flush|codecs early", f.loc(e), "codecs are reset before the header that describes them is built", "")
        # remembered last row
        def remembers(x):
            if x.op != "store":
                return False
            a = f.expr(x["o"][1])
            return a[0] == "fld" and a[2] == "lastValues_"
        x2 = [x for x in f.insts() if remembers(x) and f.may_follow(e, x) and (L is None or x.blk not in L.body)]
        R.check(bool(x2) and f.path_avoiding(e, isret, lambda x: any(x is y for y in x2)) is None, "N7", "flush|lastrow", f.loc(e),
                "after a frame was written the remembered last row is kept: the first row of the next frame would omit columns equal to it", "last row reset")


# ------------------------------------------------------------------------------------------------ capacity
def capacity(P, R, g):
    f = g["flush"]
    L, mk, enc = row_loop(f)
    for i in f.calls(r"eckit::Buffer::Buffer$"):
        if not (f.ty(i["o"][1]).startswith("i") if len(i["o"]) == 2 else False):
            continue
        if not (L and f.dominates(i, f.B[L.header][0])):
            continue
        o = f.expr(i["o"][0])
        if not any(x.op == "store" and f.expr(x["o"][1])[0] == "fld" and f.expr(x["o"][1])[2] == "start_" and nval(f, f.expr(x["o"][0])) == ("bufdata", o) for x in f.insts()):
            continue
        lin, k = linear(nval(f, f.expr(i["o"][1])))
        rb = [a for a in lin if a[0] == "bufsize" and fields(a) == {"rowsBuffer_"}]
        rs = [a for a in lin if a[0] == "ld" and fields(a) == {"rowsBufferSize_"}]
        other = [a for a in lin if a not in rb + rs]
        good = bool(rb) and lin[rb[0]] >= 1 and bool(rs) and lin[rs[0]] >= 2 and k >= 0 and all(lin[a] >= 0 for a in other)
        # terms that cannot grow with the number of rows do not make up for a missing one
        norows = all(not any(x[0] in ("phi", "sdiv", "udiv", "select") for x in walk(a)) and fields(a) <= {"columns_", "rowDataSizeDoubles_", "properties_"} and fields(a) for a in other)
        if not good and other and not norows:
            und(R, "N4 flush")
            continue
        R.check(good or bool(rb) and lin[rb[0]] >= 1 and bool(rs) and lin[rs[0]] >= 2 and k >= 0, "N4", "flush", f.loc(i), "flush encodes into a buffer of %s bytes: not enough for a marker per row in the worst case" % pretty(f.expr(i["o"][1])), "flush buffer")
    f = g["encodeFrame"]
    L, mk, enc = row_loop(f)
    for i in f.calls(r"eckit::Buffer::Buffer$"):
        if len(i["o"]) != 2 or not f.ty(i["o"][1]).startswith("i") or not (L and f.dominates(i, f.B[L.header][0])):
            continue
        e = nval(f, f.expr(i["o"][1]))
        if e[0] != "mul":
            und(R, "N4 encodeFrame")
            continue
        ph = [x for x in e[1:] if x[0] == "phi"]
        rn = [x for x in e[1:] if x[0] != "phi"]
        if len(ph) != 1:
            und(R, "N4 encodeFrame")
            continue
        p = f.I[ph[0][1]]
        CLs = [x for x in loops(f) if x.header == p.blk]
        if not CLs:
            und(R, "N4 encodeFrame")
            continue
        init, nxt = phi_parts(CLs[0], p)
        inits = [linear(nval(f, x)) for _, x in init]
        okI = all(not l and k >= 2 for l, k in inits)
        okN = True
        for _, x in nxt:
            l, k = linear(nval(f, x))
            own = l.pop(ph[0], 0)
            okN = okN and own == 1 and k >= 0 and any("dataSize_" in fields(a) or "decodedSize" in fields(a) or "dataSizeDoubles" in repr(a) for a in l)
        R.check(okI, "N4", "encodeFrame|marker", f.loc(i), "encodeFrame's row size does not include the two-byte marker", "")
        R.check(okN, "N4", "encodeFrame|sum", f.loc(i), "encodeFrame's row size does not add every column's data size", "")
        c = [counter(CLs[0], h) for h in header_phis(CLs[0]) if h is not p]
        c = [x for x in c if x]
        if c:
            R.check(any(x[0] == ("c", 0) and x[1] == 1 for x in c), "N4", "encodeFrame|cols", f.loc(i), "encodeFrame's row size omits columns", "")


# ------------------------------------------------------------------------------------------------ statistics
def stats(P, R, g):
    f = g["encodeFrame"]
    gs = [i for i in f.insts() if i.op in ("call", "invoke") and (f.vcall(i) or ("",))[0].endswith("Codec::gatherStats")]
    opt = list(f.calls(r"CodecOptimizer::setOptimalCodecs$"))
    L, mk, enc = row_loop(f)
    for nme, f in (("encodeFrame", g["encodeFrame"]), ("writeRow", g["writeRow"])):
        gs = [i for i in f.insts() if i.op in ("call", "invoke") and (f.vcall(i) or ("",))[0].endswith("Codec::gatherStats")]
        R.check(bool(gs), "N9", nme + "|none", f.where(), "%s gathers no statistics" % nme, "")
        for i in gs:
            LS = enclosing(f, i)
            if not LS:
                R.bad("N9", nme + "|loop", f.loc(i), "%s gathers statistics for one column only" % nme)
                continue
            outer = LS[-1] if nme == "encodeFrame" else LS[0]
            codec, val = f.expr(i["o"][0]), f.expr(i["o"][1])
            if val[0] == "alloca":
                val = f._content(i["o"][1], i)
            cols = [x for x in phis_in(codec) if x[1] in f.I and f.I[x[1]].blk == outer.header]
            if len(cols) != 1:
                und(R, "N9 " + nme)
                continue
            c = counter(outer, f.I[cols[0][1]])
            bs = bound(outer, cols[0])
            R.check(c is not None and c[0] == ("c", 0) and c[1] == 1 and all(h is not None and linear(nval(f, h))[1] == 0 for _, h in bs), "N9", nme + "|all", f.loc(i),
                    "%s does not gather statistics for every column (%s)" % (nme, [pretty(h) if h else "other exit" for _, h in bs]), nme)
            R.check(f.path_avoiding(None, isret, lambda x: x.blk == outer.header) is None, "N9", nme + "|skip", f.loc(i), "%s can skip the statistics" % nme, nme)
            if nme == "writeRow":
                R.check(cols[0] in phis_in(val), "N9", nme + "|index", f.loc(i), "statistics of one column are gathered from another column's value", nme)
                fl = [x for x in f.insts() if is_flush(f)(x)]
                R.check(all(not f.may_follow(x, i) for x in fl), "N9", nme + "|order", f.loc(i), "statistics of a row are gathered after the frame holding it was flushed", nme)
            else:
                # value pointer walks the column's data from its start
                vp = [x for x in phis_in(val) if x not in cols]
                src = val
                if val[0] == "ld":
                    src = val[1]
                inits = []
                for x in vp:
                    if x[1] in f.I:
                        Lx = [l for l in loops(f) if l.header == f.I[x[1]].blk]
                        if Lx:
                            inits += [e for _, e in phi_parts(Lx[0], f.I[x[1]])[0]]
                R.check(cols[0] in phis_in(val) or any(cols[0] in phis_in(e) for e in inits), "N9", nme + "|index", f.loc(i), "statistics of one column are gathered from another column's data", nme)
                if len(LS) > 1:
                    R.check(once_per_iteration(LS[0], i), "N9", nme + "|cond", f.loc(i), "statistics are gathered for some values only", nme)
        if nme == "writeRow":
            for i in gs:
                LS = enclosing(f, i)
                if LS:
                    R.check(once_per_iteration(LS[0], i), "N9", nme + "|cond", f.loc(i), "statistics are gathered for some columns only", nme)
    for nme in ("flush", "encodeFrame"):
        f = g[nme]
        opt = list(f.calls(r"CodecOptimizer::setOptimalCodecs$"))
        L, mk, enc = row_loop(f)
        for e in enc[:1]:
            R.check(f.path_avoiding(None, lambda x: x is e, lambda x: any(x is o for o in opt)) is None, "N9", nme + "|optimise", f.loc(e), "%s encodes with codecs that were not chosen for this data" % nme, nme)
            R.check(not any(f.path_avoiding(e, lambda x: x is o, lambda x: False) is not None for o in opt), "N9", nme + "|again", f.loc(e), "%s changes codecs after rows were encoded" % nme, nme)
            if nme == "encodeFrame":
                gsx = [i for i in f.insts() if i.op in ("call", "invoke") and (f.vcall(i) or ("",))[0].endswith("Codec::gatherStats")]
                R.check(not any(f.path_avoiding(o, lambda x: any(x is y for y in gsx), lambda x: False) is not None for o in opt), "N9", nme + "|before", f.loc(e), "codecs are chosen before all statistics were gathered", nme)


# ------------------------------------------------------------------------------------------------ short writes
EXEMPT = {"gdb": "debugging aid of the odc executable: writes a gdb script, not ODB data"}


def writes(P, R):
    for F in P.fns.values():
        if not F.file.startswith(P.src) or re.search(r"/(Test\w*|UnitTests)\.cc$", F.file):
            continue
        for w in handle_writes(F):
            if F.qual in EXEMPT:
                continue
            n = nval(F, F.expr(w["o"][2]))
            me = F.expr(w.id)
            if any(r["o"] and contains(F.expr(r["o"][0]), lambda x: x == me) for r in F.rets()):
                R.ok("N8", F.loc(w), "forwarded to the caller")
                continue
            ce = complete_edges(F, w, n)
            r = F.path_avoiding(w, isret, lambda x: False, avoid_edges=ce)
            # looped writing of several frames: reaching the next write unchecked is as bad
            R.check(bool(ce) and r is None, "N8", "%s|%s" % (F.qual, pretty(n)[:60]), F.loc(w), "%s ignores a short write (%s bytes requested)" % (F.qual, pretty(n)), F.qual)
