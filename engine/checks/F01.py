"""Frame header: the field sequence (type, width, order, conditional fields, repeated groups, role of each value) emitted by
the serialiser must equal the one consumed by the loader, for both byte orders and for every codec class's own header block.
Both sides are inlined from their entry points and turned into automata over stream operations; the languages are compared,
and the values at matching positions must play the same role (row count, data size, column name, codec name, ...)."""
from codeclib import *

CONFIG = {"roots": [
    {"tag": "hdr", "re": r"^odc::core::Header::(loadAfterMagic|readMagic|serializeHeader\(|serializeHeaderOtherByteOrder\()", "keep": KEEP, "depth": 14},
    ROOT,
    {"tag": "ds", "re": r"^(void )?odc::core::DataStream<.*>::(read|write)\b", "keep": [r"DataStream<.*>::(read|write|readBytes|writeBytes)\b"], "depth": 6}]}


def order_of(f, i):
    return "Other" if "OtherByteOrder" in (f.callee(i) or "").split("DataStream<")[-1][:40] or "OtherByteOrder" in (f.callee(i) or "") else "Same"


def dest_roles(f, i, o):
    """roles of the variable a read fills"""
    e = f.expr(o[3])
    fs = fields(e)
    if fs:
        r = [x for x in ("first", "second") if e[0] == "fld" and e[2] == x]
        last = e[2] if e[0] == "fld" else next(iter(fs))
        if "bitfieldDef_" in fs:
            return {"bitfield" + ("sizes" if last == "second" else "names")}
        return {"." + last}
    out = set()
    if e[0] != "alloca":
        return out
    val = ("ld", e)
    for x in f.insts():
        if x.op == "store":
            if uncast(f.expr(x["o"][0])) == val:
                out |= {"." + k for k in [f.expr(x["o"][1])[2:3] and f.expr(x["o"][1])[-1]] if isinstance(k, str)}
        elif x.op in ("call", "invoke") and x is not i:
            q = f.cq(x)
            args = [uncast(f.expr(a)) for a in x["o"]]
            if val in args or e in args:
                if re.search(r"vector::(resize|reserve)$", q):
                    out.add("count")
                elif re.search(r"vector::(operator\[\]|at)$", q):
                    out.add("index")
                elif re.search(r"map::(find|at|operator\[\]|count)$|unordered_map::(find|at)$", q):
                    out.add("codecname")
                elif re.search(r"Codec(Factory|Builder)", q):
                    out.add("codecname")
                elif re.search(r"basic_string::(operator=|assign)$|vector::push_back$", q):
                    if "strings_" in set().union(*[fields(f.expr(a)) for a in x["o"]]) and val not in args:
                        out.add("string")
                elif q == "eckit::Buffer::Buffer":
                    out.add("variable size")
                elif q in ("std::operator!=", "std::operator==", "eckit::operator!=") or q.endswith("basic_string::compare"):
                    for a in x["o"]:
                        for u in walk(f.expr(a)):
                            if u[0] == "alloca" and u != e and any(y.op in ("call", "invoke") and "digest" in f.cq(y) and f.expr(y["o"][0]) == u for y in f.insts()):
                                out.add("digest")
    for b, s, c, tr in f.edge_conds():
        ce = f.expr(c)
        if ce[0] == "cmp":
            for a, bb in ((ce[2], ce[3]), (ce[3], ce[2])):
                if uncast(a) == val and bb[0] == "c":
                    out.add("checked against a constant")
    return out


def src_role(f, i, o):
    """role of a written value"""
    e = f.expr(o[3])
    v = uncast(f._content(o[3], i)) if e[0] == "alloca" and o[2][0] != "T" else e
    fs = fields(v)
    if "bitfieldDef_" in fs:
        return "bitfield" + ("sizes" if "second" in fs else "names")
    if v[0] == "arg":
        return v[2]
    if v[0] == "c":
        return ("const", v[1])
    if v[0] == "call" and v[1].endswith("vector::size"):
        return "count"
    if v[0] == "call" and re.search(r"vector::(operator\[\]|at)$", v[1]) and fs == {"strings_"}:
        return "string"
    if "name_" in fs and ("coder_" in fs):
        return "codecname"
    if v[0] in ("fld",) or (v[0] == "ld" and v[1][0] == "fld"):
        return "." + (v[2] if v[0] == "fld" else v[1][2])
    if v[0] == "alloca" and o[2] == ("T", "string"):
        if any(y.op in ("call", "invoke") and "digest" in f.cq(y) and f.expr(y["o"][0]) == v for y in f.insts()):
            return "digest"
    if v[0] == "phi":
        return "index"
    return None


def guards(f, i):
    g = set()
    for c, t in f.facts_at(i):
        if c[0] == "cmp":
            a, b = uncast(c[2]), uncast(c[3])
            for x, y, fl in ((a, b, 0), (b, a, 1)):
                if x[0] == "ld" and x[1][0] == "fld" and x[1][2] == "type_" and y[0] == "c":
                    p = c[1]
                    if p == "ne":
                        p, t2 = "eq", not t
                    else:
                        t2 = t
                    if (p, t2) == ("eq", True):
                        g.add(("type", y[1]))
                    else:
                        g.add(("type", p, y[1], t2))
        elif c[0] == "switch":
            e = uncast(c[1])
            if e[0] == "ld" and e[1][0] == "fld" and e[1][2] == "type_" and c[2] == "case":
                g.add(("type",) + tuple(c[3]))
    return tuple(sorted(g, key=repr))


def codec_call(f, i, meth):
    v = f.vcall(i) if i.op in ("call", "invoke") else None
    if v and v[0].endswith("Codec::" + meth):
        return i["o"][1]
    return None


def streams(f, kind, order=None):
    """stream operand -> 'variable'|'fixed' grouping"""
    g = {}
    for i in f.insts():
        o = ds_op(f, i)
        if o and (order is None or order_of(f, i) == order):
            e = f.expr(o[4])
            g.setdefault(e, "fixed")
            if o[2][0] == "T" and "map<" in o[2][1]:
                g[e] = "variable"
    return g


def lab(f, group, which, meth, kind, with_guard=True):
    def label(i):
        o = ds_op(f, i)
        if o and o[0] in ("read", "write", "advance"):
            if group.get(f.expr(o[4])) != which:
                return None
            if o[0] != kind:
                return ("?", o[0])
            return (o[2], o[1], guards(f, i) if with_guard else ())
        s = codec_call(f, i, meth)
        if s is not None and group.get(f.expr(s)) == which:
            return ("codec", "codec block", ())
        return None
    return label


def describe(d):
    w, (la, aa), (lb, ab) = d
    return "after %d common fields (…%s): writer continues with %s, reader with %s" % (
        len(w), ", ".join(show(x) for x in w[-2:]), la or ("end" if aa else "-"), lb or ("end" if ab else "-"))


def show(x):
    if x[0] == "codec":
        return "codec block"
    t = x[0]
    return ("%d bytes" % t[1] if t[0] == "c" else t[1]) + (" if %s" % (x[2],) if x[2] else "")


def sequence(f, label, role):
    """ordered list of (label, role, inst) along a longest simple word: every labelled instruction in dominance order"""
    L = [(label(i), i) for i in f.insts()]
    L = [(l, i) for l, i in L if l is not None]
    L.sort(key=lambda x: sum(1 for y in L if y[1] is not x[1] and f.dominates(y[1], x[1]) or f.may_follow(y[1], x[1]) and not f.may_follow(x[1], y[1])))
    out = []
    for l, i in L:
        o = ds_op(f, i)
        out.append((l, role(f, i, o) if o else None, i))
    return out


MATCH = {  # writer role -> acceptable reader role
    "dataSize": ".dataSize_", "rowsNumber": ".rowsNumber_", "count": "count", "codecname": "codecname",
    "string": "string", "index": "index", "bitfieldnames": "bitfieldnames", "bitfieldsizes": "bitfieldsizes", "digest": "digest", "properties": ".props_"}


def roles_agree(R, rid, key, fw, fr, ws, rs):
    for (wl, wr, wi), (rl, rr, ri) in zip(ws, rs):
        if wr is None or rr is None:
            continue
        want = MATCH.get(wr) if isinstance(wr, str) else None
        if want is None and isinstance(wr, str) and wr.startswith("."):
            want = wr
        if want is None:
            # constant: the reader must not interpret it as one of the meaningful quantities
            badr = rr & {".dataSize_", ".rowsNumber_", "count", "index", "codecname", "string", "digest"}
            R.check(not badr, rid, "%s:%s" % (key, wr), fr.loc(ri), "constant field written at %s is read as %s" % (fw.loc(wi), sorted(badr)), str(wr))
            continue
        R.check(want in rr, rid, "%s:%s" % (key, wr), fr.loc(ri),
                "field written as %s at %s is read into %s" % (wr, fw.loc(wi), sorted(rr) or "nothing"), "%s <-> %s" % (wr, sorted(rr)))


def run(P, R):
    R.rule("H1", "variable header part: language of fields written == language of fields read (types, widths, order, guards, repetition)")
    R.rule("H2", "fixed header part: magic, byte-order word, versions, digest, size written exactly as read back")
    R.rule("H3", "values at matching header positions play the same role on both sides")
    R.rule("K1", "each codec class writes the same header block it reads, member by member")
    R.rule("K2", "byte swaps applied to a codec member around reading and writing its header cancel")
    R.rule("C1", "containers (strings, vectors, maps) are written as count + elements and read back the same way")
    hdr = P.roots["hdr"]
    rd = [f for f in hdr.values() if f.qual.endswith("::loadAfterMagic")]
    mg = [f for f in hdr.values() if f.qual.endswith("::readMagic")]
    wr = {("Other" if "OtherByteOrder" in f.qual else "Same"): f for f in hdr.values() if "serializeHeader" in f.qual}
    R.anchor(len(rd) == 1 and len(mg) == 1 and len(wr) == 2, "Header::loadAfterMagic/readMagic/serializeHeader*")
    rd, mg = rd[0], mg[0]
    for order, w in sorted(wr.items()):
        orders = {order_of(w, i) for i in w.insts() if ds_op(w, i)}
        R.check(orders == {order}, "H1", order + ":order", w.where(), "%s writes with byte order %s" % (w.qual, sorted(orders)), "byte order")
        gw, gr = streams(w, "write"), streams(rd, "read", order)
        R.anchor("variable" in gw.values() and "variable" in gr.values(), "header property map written and read")
        for part in ("variable", "fixed"):
            lw, lr = lab(w, gw, part, "save", "write"), lab(rd, gr, part, "load", "read")
            nw, nr = w.language(lw), rd.language(lr)
            if part == "variable":
                nr = drop_empty(nr)
                nw = drop_empty(nw)
                d = lang_diff(nw, nr)
                R.check(d is None, "H1", order + ":variable", rd.where(), "" if d is None else "%s byte order header: %s" % (order.lower(), describe(d)),
                        "%s order, %d writer and %d reader stream operations" % (order, nw.count(), nr.count()))
                if d is None:
                    roles_agree(R, "H3", order, w, rd, sequence(w, lw, src_role), sequence(rd, lr, dest_roles))
            else:
                fixed(P, R, order, w, rd, mg, sequence(w, lw, src_role), sequence(rd, lr, dest_roles), nw)
    # codec blocks
    n = 0
    for c in codec_classes(P):
        k = c.order.lower()
        S, L = root(P, c.slots["save:" + k]), root(P, c.slots["load:" + k])
        codec_block(P, R, c, S, L)
        n += 1
    containers(P, R)
    R.need("H1", 4)
    R.need("H2", 10)
    R.need("H3", 14)
    R.need("K1", 40)
    R.need("C1", 6)
    R.extra["codec_classes"] = n


def drop_empty(n):
    """require at least one label"""
    t = defaultdict(set)
    for x, ts in n.trans.items():
        for l, y in ts:
            t[(0, x)].add((l, (0 if l is None else 1, y)))
            t[(1, x)].add((l, (1, y)))
    return NFA((0, n.start), t, {(1, a) for a in n.accepts})


def fixed(P, R, order, w, rd, mg, ws, rs, nw):
    key = order
    words = [x for x in nw.words(limit=4) if x]
    R.check(len(words) == 1, "H2", key + ":path", w.where(), "the fixed header part is not written by exactly one path (%d variants)" % len(words), "one path")
    consts = []
    k = 0
    # leading constants form the magic and the byte-order word
    data = b""
    for l, r, i in ws:
        if isinstance(r, tuple) and r[0] == "const" and l[0][0] == "c":
            consts.append((l[0][1], r[1], i))
        else:
            break
    raw = [(i, i["o"]) for f in (mg,) for i in f.insts() if i.op in ("call", "invoke") and (f.vcall(i) or ("",))[0].endswith("DataHandle::read")]
    R.anchor(len(raw) >= 1, "readMagic reads from the handle")
    msz = mg.expr(raw[0][1][2])
    # bytes of the magic as written
    total = 0
    bts = b""
    idx = 0
    for sz, v, i in consts:
        if total >= (msz[1] if msz[0] == "c" else 5):
            break
        bts += (v & ((1 << (8 * sz)) - 1)).to_bytes(sz, "little")
        total += sz
        idx += 1
    exp = b"\xff\xffODA"
    R.check(bts == exp, "H2", key + ":magic", w.where(), "magic written is %r, the format's is %r" % (bts, exp), "magic %r" % bts)
    R.check(msz == ("c", len(exp)), "H2", key + ":magicsize", mg.where(), "loader reads %s magic bytes" % pretty(msz), "5 bytes")
    lits = magic_literals(P, mg)
    R.check(exp in lits, "H2", key + ":magiccmp", mg.where(), "loader compares the magic with %s" % sorted(lits), "compared with magic")
    # byte order word
    rest = ws[idx:]
    braw = [i for i in rd.insts() if i.op in ("call", "invoke") and (rd.vcall(i) or ("",))[0].endswith("DataHandle::read")]
    bo = [i for i in braw if "byteOrder_" in fields(rd.expr(i["o"][1]))]
    okbo = len(bo) >= 1 and rest and rest[0][0][0] == ("c", 4) and isinstance(rest[0][1], tuple) and all(rd.expr(i["o"][2]) == ("c", 4) for i in bo)
    cmpk = {y[1] for _, _, c, _ in rd.edge_conds() for ce in [rd.expr(c)] if ce[0] == "cmp" for x, y in ((ce[2], ce[3]), (ce[3], ce[2]))
            if uncast(x)[0] == "ld" and uncast(x)[1][0] == "fld" and uncast(x)[1][2] == "byteOrder_" and y[0] == "c"}
    R.check(bool(okbo) and cmpk == {rest[0][1][1]}, "H2", key + ":byteorder", rd.where(),
            "byte-order word written as %s but compared with %s" % (rest[0][1] if rest else None, sorted(cmpk)), "byte order word %s" % cmpk)
    # which loader is selected for which word value
    for i in rd.insts():
        o = ds_op(rd, i)
        if o and o[0] == "read":
            eq = None
            for c, t in rd.facts_at(i):
                if c[0] == "cmp" and c[1] in ("eq", "ne") and any(uncast(x)[0] == "ld" and uncast(x)[1][0] == "fld" and uncast(x)[1][2] == "byteOrder_" for x in c[2:4]):
                    eq = t if c[1] == "eq" else not t
            R.check(eq is (order_of(rd, i) == "Same"), "H2", "select:" + order_of(rd, i), rd.loc(i),
                    "a frame whose byte-order word %s is loaded with %s byte order" % ("matches" if eq else "differs", order_of(rd, i)), "selected by byte-order word")
    rest = rest[1:]
    ok = len(rest) == len(rs) and all(a[0][0] == b[0][0] and a[0][1] == b[0][1] for a, b in zip(rest, rs))
    R.check(ok, "H2", key + ":fields", rd.where(), "fixed part written as %s, read as %s" % ([show(a[0]) for a in rest], [show(b[0]) for b in rs]),
            "%s" % [show(a[0]) for a in rest])
    if not ok:
        return
    # versions written are accepted, digest and size roles
    for (a, b) in zip(rest, rs):
        if isinstance(a[1], tuple):
            val = ("ld", rd.expr(ds_op(rd, b[2])[3]))
            bounds = [(ce[1], (ce[3] if uncast(ce[2]) == val else ce[2])) for _, _, c, tr in rd.edge_conds() for ce, t2 in rd.implied(c, tr) if t2 and ce[0] == "cmp" and val in (uncast(ce[2]), uncast(ce[3]))
                      if True]
            for p, kx in bounds:
                if kx[0] == "c":
                    acc = {"sle": a[1][1] <= kx[1], "slt": a[1][1] < kx[1], "sgt": a[1][1] > kx[1], "sge": a[1][1] >= kx[1], "eq": a[1][1] == kx[1], "ne": a[1][1] != kx[1]}.get(p)
                    if acc is None:
                        continue
                    # only conditions the loader requires
                    R.check(acc or not required(rd, b[2], val, p, kx), "H2", "%s:version%s" % (key, a[1][1]), rd.loc(b[2]),
                            "the version written (%d) is refused by the loader (requires %s %s)" % (a[1][1], p, kx[1]), "version %d %s %d" % (a[1][1], p, kx[1]))
        elif a[1] == "digest":
            R.check("digest" in b[1], "H2", key + ":digest", rd.loc(b[2]), "digest written but read into a value that is not compared with the digest of the data", "digest")
        else:
            R.check("variable size" in b[1], "H2", key + ":size", rd.loc(b[2]), "size of the variable part is not what sizes the loader's buffer", "size")
    basic = sum((x[0][0][1] if x[0][0][0] == "c" else 4 + 32) for x in rs)
    szs = {pretty(rd.expr(i["o"][2])) for i in braw if rd.expr(i["o"][2])[0] == "c" and i not in bo}
    R.check(szs == {str(basic)}, "H2", key + ":basicsize", rd.where(), "loader reads %s bytes for a fixed part of %d" % (sorted(szs), basic), "%d bytes" % basic)
    off = basic + 4 + len(exp)
    tot = sum((x[0][0][1] if x[0][0][0] == "c" else 4 + 32) for x in ws)
    sts = {x[1] for i in w.calls(r"DataStream::DataStream$") for a in i["o"] for x in walk(w.expr(a)) if x[0] == "c" and x[1] > 8}
    vstart = set()
    for i in w.insts():
        if i.op == "getelementptr" and "fld" not in i:
            e = w.expr(i.id)
            if e[0] == "idx" and e[2][0] == "c" and contains(e[1], lambda x: x[0] == "call" and "Buffer::operator" in x[1] or x[0] == "call" and x[1] == "eckit::Buffer::data"):
                vstart.add(e[2][1])
    R.check(tot == off and (not vstart or vstart == {off}), "H2", key + ":offset", w.where(),
            "fixed part occupies %d bytes, loader expects %d, variable part placed at %s" % (tot, off, sorted(vstart)), "variable part at %d" % off)


def required(f, i, val, p, kx):
    """does every path from i to the first variable-part read satisfy the comparison?"""
    later = [x for x in f.insts() if ds_op(f, x) and ds_op(f, x)[2][0] == "T" and "map<" in ds_op(f, x)[2][1] and f.may_follow(i, x)]
    return bool(later) and all(any(t and c[0] == "cmp" and c[1] == p and val in (uncast(c[2]), uncast(c[3])) and kx in (c[2], c[3]) for c, t in f.facts_at(x)) for x in later)


def magic_literals(P, f):
    out = set()
    for i in f.insts():
        for o in (i.get("o") or []):
            if isinstance(o, list) and o and o[0] == "g":
                g = P.globals.get(o[1], {})
                if "strx" in g:
                    out.add(bytes.fromhex(g["strx"]).rstrip(b"\0"))
                elif "str" in g:
                    s = g["str"]
                    out.add(s.encode("utf-8", "surrogateescape") if "\ufffd" not in s else s.encode("utf-8").replace(b"\xef\xbf\xbd", b"\xff"))
    return out


def codec_block(P, R, c, S, L):
    def lw(i):
        o = ds_op(S, i)
        return (o[2], o[1], ()) if o and o[0] == "write" else None

    def lr(i):
        o = ds_op(L, i)
        return (o[2], o[1], ()) if o and o[0] == "read" else None
    d = lang_diff(S.language(lw), L.language(lr))
    if not R.check(d is None, "K1", c.name, L.where(), "" if d is None else "%s header block: %s" % (c.short, describe(d)), c.short):
        return
    ws, rs = sequence(S, lw, src_role), sequence(L, lr, dest_roles)
    for (wl, wrole, wi), (rl, rr, ri) in zip(ws, rs):
        if isinstance(wrole, str) and wrole.startswith("."):
            R.check(wrole in rr, "K1", "%s%s" % (c.name, wrole), L.loc(ri), "%s: %s is written where %s is read" % (c.short, wrole, sorted(rr)), wrole)
        elif isinstance(wrole, str) and rr:
            R.check(MATCH.get(wrole, wrole) in rr or not (rr & {"count", "index", "string"}), "K1", "%s:%s" % (c.name, wrole), L.loc(ri),
                    "%s: %s is written where %s is read" % (c.short, wrole, sorted(rr)), wrole)
        elif wrole is None and wl[0] == ("T", "string"):
            pass
        elif isinstance(wrole, tuple):
            R.check(not (rr & {"index", "count"}) or c.name == "chars", "K1", "%s:const" % c.name, L.loc(ri), "%s: constant is written where %s is read" % (c.short, sorted(rr)), "unused")
    # swaps of members
    for m in ("min_", "max_", "missingValue_", "hasMissing_"):
        def ev(f, kind):
            def label(i):
                o = ds_op(f, i)
                if o and o[0] == kind and fields(f.expr(o[3])) == {m}:
                    return "X"
                if i.op in ("call", "invoke") and "ByteOrder::swap" in f.cq(i) and fields(f.expr(i["o"][0])) == {m}:
                    return "s"
            return label
        sw = S.language(ev(S, "write")).words(limit=8, maxlen=8)
        lw2 = L.language(ev(L, "read")).words(limit=8, maxlen=8)
        a = {(w.index("X"), len(w) - 1 - w.index("X")) for w in sw if w.count("X") == 1}
        b = {(w.index("X"), len(w) - 1 - w.index("X")) for w in lw2 if w.count("X") == 1}
        if not a or not b:
            continue
        good = len(a) == 1 and len(b) == 1
        if good:
            (p1, q1), (p2, q2) = next(iter(a)), next(iter(b))
            good = p1 % 2 == q2 % 2 and (p1 + q1) % 2 == 0
        R.check(good, "K2", "%s:%s" % (c.name, m), S.where(), "%s: %s is byte-swapped %s around writing and %s around reading" % (c.short, m, sorted(a), sorted(b)), "%s %s" % (c.short, m))


def containers(P, R):
    pool = defaultdict(dict)
    for f in P.roots["ds"].values():
        q = f.qual.split("::")[-1]
        ps = split_params(f.dem)
        if len(f.args) == 2 and len(ps) == 1 and not ctype_size(ps[0]):
            t = re.sub(r"\s*(const)?&$", "", ps[0]).replace(" const", "").strip()
            bo = "Other" if "OtherByteOrder" in f.dem.split("DataStream<")[1][:40] else "Same"
            pool[(t, bo)][q] = f
    for (t, bo), d in sorted(pool.items()):
        if set(d) != {"read", "write"}:
            continue
        W, Rd = d["write"], d["read"]

        def l(f, kind):
            def label(i):
                o = ds_op(f, i)
                if o and o[0] == kind:
                    w = o[2]
                    if w[0] == "c":
                        return (w, o[1], ())
                    if w[0] == "T":
                        return (w, True, ())
                    return (("c", "len"), o[1], ())
            return label
        dd = lang_diff(W.language(l(W, "write")), Rd.language(l(Rd, "read")))
        short = re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string", t)[:60]
        R.check(dd is None, "C1", short + ":" + bo, Rd.where(), "" if dd is None else "%s: %s" % (short, describe(dd)), short)
        # count written is the size; count read bounds the elements
        ws = sequence(W, l(W, "write"), src_role)
        if ws:
            o = ds_op(W, ws[0][2])
            v = uncast(W._content(o[3], ws[0][2]))
            R.check(v[0] == "call" and re.search(r"::(size|length)$", v[1]) is not None and v[2][:2] == ("arg", 1), "C1", short + ":count", W.where(),
                    "%s: the count written is %s" % (short, pretty(v)), "count = size")
