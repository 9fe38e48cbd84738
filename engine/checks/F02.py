"""Row encoding: for every codec class the library can instantiate (enumerated from the emitted vtables, both byte orders,
both integer representations), encode, decode and skip are summarised from the inlined IR (bytes consumed, byte swaps,
guarded value mapping) and must agree: same width on every path, same byte order treatment, decode's mapping the inverse of
encode's, the same missing marker under the same guards."""
from codeclib import *

CONFIG = {"roots": [ROOT, {"tag": "ds", "re": r"^(void )?odc::core::(SameByteOrder::swap|OtherByteOrder::swap|DataStream<.*>::(read|write|readBytes|writeBytes|advance|set))\b", "keep": [r"ByteOrder::swap", r"DataStream<.*>::(read|write|readBytes|writeBytes)\b"], "depth": 6}]}


def lin_width(f, e):
    """canonical width: int bytes, ('n', field) for 8*field, ('deleg', field)"""
    if e[0] == "c":
        return e[1]
    if e[0] == "mul" and len(e) == 3:
        cs = [x for x in e[1:] if x[0] == "c"]
        vs = [x for x in e[1:] if x[0] != "c"]
        if len(cs) == 1 and len(vs) == 1 and vs[0][0] == "ld" and vs[0][1][0] == "fld":
            return (cs[0][1], vs[0][1][2])
    if e[0] == "shl" and e[2][0] == "c":
        return lin_width(f, ("mul", e[1], ("c", 1 << e[2][1])))
    return ("?", pretty(e))


def deleg(f, i, meth):
    v = f.vcall(i) if i.op in ("call", "invoke") else None
    if v and v[0].endswith("Codec::" + meth):
        o = f.expr(v[3])
        return ("deleg", next(iter(fields(o)), "?"))
    return None


def words(f, label):
    n = f.language(label)
    return set(n.words(limit=16, maxlen=12))


def encode_summary(f):
    """widths appended to the output pointer, writes through it, guarded values"""
    res = {"widths": set(), "swaps": None, "alts": [], "w": None, "bad": []}
    for r in f.rets():
        for facts, e in f.alternatives(r["o"][0]):
            if e == ("arg", 1, f.args[1]["n"]):
                res["widths"].add(0)
            elif e[0] in ("vcall",) and e[1].endswith("Codec::encode"):
                res["widths"].add(("deleg", next(iter(fields(e[2])), "?")))
                if e[3] != ("arg", 1, f.args[1]["n"]):
                    res["bad"].append("delegated encode does not continue at the caller's position")
            elif e[0] == "idx" and e[1][0] == "arg" and e[1][1] == 1 and e[3] == "i8":
                res["widths"].add(lin_width(f, e[2]))
            else:
                res["widths"].add(("?", pretty(e)))
    # writes through p
    for i in f.insts():
        if i.op in ("call", "invoke") and re.match(r"llvm\.memcpy|memcpy$|memmove$|std::copy", f.cq(i) or ""):
            dst, src, n = i["o"][:3]
            if f.expr(dst) == ("arg", 1, f.args[1]["n"]):
                res["w"] = lin_width(f, f.expr(n))
                se = f.expr(src)
                res["src"] = se
                res["at"] = i
                if se[0] == "alloca":
                    collect(f, se[1], i, res)
                else:
                    res["alts"].append(([], ("ld", se)))
                    res["swaps"] = 0
        elif i.op == "store":
            d = f.expr(i["o"][1])
            if d[0] == "arg" and d[1] == 1 or (d[0] == "idx" and d[1][:2] == ("arg", 1)):
                res["w"] = WIDTH.get(i["vt"])
                res["alts"].append((f.facts_at(i), f.expr(i["o"][0])))
                res["swaps"] = 0
    return res


def collect(f, aid, at, res):
    """values reaching `at` in local aid, looking through byte swaps of the whole local"""
    nsw, seen, work = set(), set(), [(at, 0)]
    while work:
        x, k = work.pop()
        ds = f.mem_defs(aid, x)
        for d in ds:
            if d is None:
                res["bad"].append("an uninitialised value may be written")
            elif d.op == "store":
                nsw.add(k)
                for facts, e in f.alternatives(d["o"][0]):
                    res["alts"].append((f.path_facts(d, x, ds) + facts, e))
            elif "ByteOrder::swap" in f.cq(d) and (d.id, k) not in seen and k < 4:
                seen.add((d.id, k))
                res.setdefault("swapfns", set()).add(f.cq(d))
                work.append((d, k + 1))
            else:
                res["bad"].append("value modified by %s before being written" % f.cq(d))
    res["swaps"] = next(iter(nsw)) if len(nsw) == 1 else ("varies", tuple(sorted(nsw)))


def same(a, b):
    if a == b:
        return True
    return a[0] == "f" and b[0] == "f" and float(a[1]) == float(b[1])


def classify(f, e, is_in, w):
    """mode of a value expression: ('missing',) ('const',K) ('offset',field) ('direct',) or ('?',text); plus cast chain"""
    casts = []
    while e[0] in CASTS:
        casts.append((e[0], e[1], e[2]))
        e = e[3]
    if e[0] in ("c", "f"):
        return ("const", e), casts
    if e[0] == "ld" and e[1][0] == "fld":
        return ("member", e[1][2]), casts
    if is_in(e):
        return ("direct",), casts
    if e[0] in ("sub", "fsub", "add", "fadd"):
        a, b = e[1], e[2]
        inner = []

        def strip(x):
            while x[0] in CASTS:
                inner.append((x[0], x[1], x[2]))
                x = x[3]
            return x
        a, b = strip(a), strip(b)
        op = e[0][-3:]
        if op == "add" and is_in(b):
            a, b = b, a
        if is_in(a) and b[0] == "ld" and b[1][0] == "fld":
            return (op, b[1][2]), casts + inner
        if is_in(a) and b[0] in ("c", "f"):
            return (op, b), casts + inner
    return ("?", pretty(e)), casts


def guard(facts, is_in, pred):
    """truth of the dominating equality test (in == something satisfying pred), or None"""
    for c, t in facts:
        if c[0] == "cmp" and c[1] in ("eq", "oeq", "ueq", "ne", "une", "one"):
            a, b = uncast(c[2]), uncast(c[3])
            eq = t if "eq" in c[1] else not t
            for x, y in ((a, b), (b, a)):
                if is_in(x) and pred(y):
                    return eq
    return None


def run(P, R):
    R.rule("W1", "bytes appended by encode == bytes consumed by decode == bytes skipped, on every path of each codec class")
    R.rule("W2", "encode's output advance equals the number of bytes it stored")
    R.rule("B1", "encode swaps bytes (whole value, once, with its class's byte order) exactly when decode's stream read swaps")
    R.rule("M1", "decode maps the stored value by the inverse of encode's mapping (same member added as was subtracted, or both direct)")
    R.rule("M2", "the value that encode stores for a missing input is the value decode turns back into the missing value, under complementary tests")
    R.rule("M3", "signedness and width of the stored type are the same on both sides; no intermediate conversion narrower than the stored type")
    R.rule("Z1", "a codec that stores nothing per row reproduces the value from members its header load restores")
    R.rule("T1", "table-index codecs: row value is the index the string table was searched with, decoded through the same table")
    R.rule("S1", "the two byte-order helpers: one leaves bytes unchanged, the other reverses exactly the object's bytes")
    R.rule("S2", "stream primitives: swapping read/write move and reverse the same bytes; raw read/write move exactly the requested bytes; position advances by them")
    cls = [c for c in codec_classes(P) if c.name]
    for c in cls:
        one(P, R, c)
    primitives(P, R)
    R.need("W1", 40)
    R.need("M1", 24)
    R.need("M2", 12)
    R.need("S2", 8)
    R.extra["codec_classes"] = [c.short for c in cls]


def one(P, R, c):
    E, D, S = (root(P, c.slots[k]) for k in ("encode", "decode", "skip"))
    es = encode_summary(E)
    for b in es["bad"]:
        R.bad("M1", "%s:%s" % (c.name, b[:40]), E.where(), "%s encode: %s" % (c.short, b))

    def dl(i):
        d = deleg(D, i, "decode")
        if d:
            return d
        o = ds_op(D, i)
        if o and o[0] in ("read", "advance"):
            return lin_width(D, o[2])

    def sl(i):
        d = deleg(S, i, "skip")
        if d:
            return d
        o = ds_op(S, i)
        if o and o[0] in ("read", "advance"):
            return lin_width(S, o[2])
    dw = {w if w else (0,) for w in words(D, dl)}
    sw = {w if w else (0,) for w in words(S, sl)}
    ew = {(w,) for w in es["widths"]}
    fold = lambda ws: {(sum(w),) if all(isinstance(x, int) for x in w) else w for w in ws}
    dw, sw, ew = fold(dw), fold(sw), fold(ew)
    R.check(len(ew) == 1 and ew == dw == sw, "W1", c.name, E.where(),
            "%s: encode appends %s, decode consumes %s (%s), skip advances %s (%s)" % (c.short, fmt(ew), fmt(dw), D.where(), fmt(sw), S.where()),
            "%s: %s bytes" % (c.short, fmt(ew)))
    ws = next(iter(ew))[0] if len(ew) == 1 else None
    if isinstance(ws, tuple) and ws[0] == "deleg":
        table(P, R, c, E, D)
        return
    if ws == 0:
        zero(P, R, c, D)
        return
    R.check(es["w"] is not None and ew == {(es["w"],)}, "W2", c.name, E.where(),
            "%s encode stores %s bytes but advances %s" % (c.short, es["w"], fmt(ew)), "%s" % (es["w"],))
    # stream read of decode
    ops = [(i, ds_op(D, i)) for i in D.insts() if ds_op(D, i) and ds_op(D, i)[0] == "read"]
    dsw = {o[1] for _, o in ops}
    okfn = all(("Other" in x) == (c.order == "Other") for x in es.get("swapfns", ()))
    R.check(len(dsw) == 1 and es["swaps"] in (0, 1) and bool(es["swaps"]) == next(iter(dsw)) and okfn, "B1", c.name, E.where(),
            "%s: encode applies %s byte swap(s) %s, decode reads %s" % (c.short, es["swaps"], sorted(es.get("swapfns", ())), ["swapped" if x else "raw" for x in dsw]),
            "%s swap=%s" % (c.short, es["swaps"]))
    if not isinstance(ws, int):
        # block codec: raw bytes in, raw bytes out
        src = es.get("src")
        R.check(src is not None and src[:2] == ("arg", 2) and len(ops) == 1 and D.expr(ops[0][1][3])[:2] == ("arg", 1), "M1", c.name, E.where(),
                "%s: the block is not copied verbatim from the input (%s) to the output" % (c.short, pretty(src or ("?",))), c.short + " verbatim block")
        return
    # encode modes
    ein = lambda e: e[0] == "ld" and e[1][:2] == ("arg", 2)
    miss = lambda y: y[0] == "ld" and y[1][0] == "fld" and "issing" in y[1][2]
    emodes, stored = {}, None
    for facts, e in es["alts"]:
        m, casts = classify(E, e, ein, ws)
        g = guard(facts, ein, miss)
        emodes.setdefault(m if m[0] != "const" else ("const",), []).append((m, casts, g))
    # decode modes
    outs = []
    i0, o0 = ops[0] if ops else (None, None)
    dst = D.expr(o0[3]) if o0 else None
    rawty = None
    if dst is not None and dst[:2] == ("arg", 1):
        outs.append(([], ("RAW",)))
        israw = lambda e: e == ("RAW",)
    else:
        israw = lambda e: e[0] == "ld" and e[1] == dst
        for i in D.insts():
            if i.op == "store" and D.expr(i["o"][1])[:2] == ("arg", 1):
                for facts, e in D.alternatives(i["o"][0]):
                    outs.append((D.facts_at(i) + facts, e))
    dmodes = {}
    ks = [m[0][1] for m in emodes.get(("const",), [])]
    for facts, e in outs:
        m, casts = classify(D, e, israw, ws)
        g = None
        gk = None
        for c2, t in facts:
            if c2[0] == "cmp":
                a, b = uncast(c2[2]), uncast(c2[3])
                for x, y in ((a, b), (b, a)):
                    if israw(x) and y[0] in ("c", "f"):
                        eq = t if "eq" in c2[1] else (not t if "ne" in c2[1] else None)
                        g, gk = eq, y
        dmodes.setdefault(m, []).append((casts, g, gk))
    inv = {("direct",): ("direct",)}
    for m in emodes:
        if m[0] == "sub":
            inv[m] = ("add",) + m[1:]
        if m[0] == "add":
            inv[m] = ("sub",) + m[1:]
    evals = [m for m in emodes if m != ("const",)]
    dvals = [m for m in dmodes if not (m[0] == "member" and "issing" in m[1])]
    R.check(len(evals) == 1 and len(dvals) == 1 and inv.get(evals[0]) == dvals[0], "M1", c.name, D.where(),
            "%s: encode stores %s but decode yields %s" % (c.short, evals, dvals), "%s %s <-> %s" % (c.short, evals, dvals))
    if len(evals) != 1 or len(dvals) != 1:
        return
    # missing marker
    dm = [m for m in dmodes if m[0] == "member" and "issing" in m[1]]
    if ks or dm:
        mask = (1 << (8 * ws)) - 1

        def norm(k):
            return ("c", k[1] & mask) if k and k[0] == "c" else (("f", float(k[1])) if k else None)
        ek = {norm(k) for k in ks}
        eg = {g for _, _, g in emodes.get(("const",), [])}
        evg = {g for _, _, g in emodes[evals[0]]}
        dk = {norm(gk) for m in dm for _, _, gk in dmodes[m]}
        dg = {g for m in dm for _, g, _ in dmodes[m]}
        dvk = {(g, norm(gk)) for _, g, gk in dmodes[dvals[0]]}
        good = len(ek) == 1 and ek == dk and eg == {True} and evg == {False} and dg == {True} and dvk == {(False, next(iter(ek)))}
        R.check(good, "M2", c.name, E.where(),
                "%s: missing input stored as %s (test %s, others %s); decode restores missing for %s (test %s, others %s)" %
                (c.short, sorted(map(str, ek)), sorted(map(str, eg)), sorted(map(str, evg)), sorted(map(str, dk)), sorted(map(str, dg)), sorted(map(str, dvk))),
                "%s marker %s" % (c.short, sorted(map(str, ek))))
        # the stored non-missing value is never the marker itself
        ok = any(x.op in ("call", "invoke") and E.cq(x).startswith("eckit::Assert") for x in E.insts())
        chk = any(cnd[0] == "cmp" and (uncast(cnd[2])[0] in ("c", "f") or uncast(cnd[3])[0] in ("c", "f")) and norm(next(y for y in (uncast(cnd[2]), uncast(cnd[3])) if y[0] in ("c", "f"))) in ek
                  for (b, s, cc, tr) in E.edge_conds() for cnd, _ in E.implied(cc, True))
        R.check(ok and chk, "M2", c.name + ":collision", E.where(), "%s: encode does not reject a real value that collides with the missing marker" % c.short, c.short + " collision rejected")
    # types
    bad = []
    isint = not any("double" == t or "float" == t for m in emodes.values() for _, cs, _ in m for (k, a, t) in cs[:1]) if ws < 8 else True
    flt = {4: "float", 8: "double"}
    for m in (evals[0],):
        for _, cs, _ in emodes[m]:
            for k, a, t in cs:
                if t in WIDTH and WIDTH[t] < ws:
                    bad.append("encode narrows through %s" % t)
                if t == "float" and not (ws == 4 and cs and cs[0][2] == "float"):
                    bad.append("encode passes through single precision")
    estore_float = any(cs and cs[0][0] == "fptrunc" for _, cs, _ in emodes[evals[0]]) and ws == 4
    for casts, g, gk in dmodes[dvals[0]]:
        ext = [k for k, a, t in casts if k in ("zext", "sext", "uitofp", "sitofp", "fpext")]
        first = casts[-1] if casts else None
        # innermost conversion applied to the raw value
        raws = [(k, a) for k, a, t in casts if a in WIDTH and WIDTH[a] == ws]
        if ws < 8:
            if estore_float:
                if not any(k == "fpext" for k, _ in raws):
                    bad.append("decode does not read the stored single-precision value as such (%s)" % (casts,))
            elif evals[0][0] == "sub":
                if not any(k in ("zext", "uitofp") for k, _ in raws):
                    bad.append("stored offsets are unsigned but decode extends them as signed")
            else:
                if not any(k in ("sext", "sitofp") for k, _ in raws):
                    bad.append("stored values are signed but decode extends them as unsigned")
        for k, a, t in casts:
            if t in WIDTH and WIDTH[t] < ws or (t == "float"):
                bad.append("decode narrows through %s" % t)
    R.check(not bad, "M3", c.name, D.where(), "%s: %s" % (c.short, "; ".join(sorted(set(bad)))), "%s %d-byte" % (c.short, ws))


def fmt(ws):
    return "/".join("+".join(map(str, w)) for w in sorted(ws, key=repr)) or "nothing"


def zero(P, R, c, D):
    """constant codecs"""
    srcs = set()
    for i in D.insts():
        if i.op == "store" and D.expr(i["o"][1])[:2] == ("arg", 1):
            for _, e in D.alternatives(i["o"][0]):
                srcs |= fields(e) or {"?" + pretty(e)}
        elif i.op in ("call", "invoke") and re.match(r"llvm\.mem(cpy|move)|memcpy", D.cq(i)) and D.expr(i["o"][0])[:2] == ("arg", 1):
            srcs |= fields(D.expr(i["o"][1]))
    L = root(P, c.slots["load:other" if c.order == "Other" else "load:same"])
    loaded = set()
    for i in L.insts():
        o = ds_op(L, i)
        if o and o[0] == "read" and o[3] is not None:
            e = L.expr(o[3])
            loaded |= fields(e)
            if e[0] == "alloca":
                for u in L.uses(e[1]):
                    if u.op in ("call", "invoke"):
                        for a in u["o"]:
                            loaded |= fields(L.expr(a))
    R.check(bool(srcs) and srcs <= loaded, "Z1", c.name, D.where(),
            "%s: decode reproduces the value from %s but load restores only %s" % (c.short, sorted(srcs), sorted(loaded)),
            "%s from %s" % (c.short, sorted(srcs)))


def table(P, R, c, E, D):
    enc = [i for i in E.insts() if deleg(E, i, "encode")]
    dec = [i for i in D.insts() if deleg(D, i, "decode")]
    ok, why = True, []
    if len(enc) != 1 or len(dec) != 1:
        ok = False
        why.append("not exactly one delegated call")
    else:
        # value handed over: content of the third argument = table entry found for the input string
        v = E._content(enc[0]["o"][2], enc[0])
        if not contains(v, lambda x: x[0] in ("call",) and x[1].endswith(("_Rb_tree_iterator::operator->", "_Rb_tree_const_iterator::operator->", "map::at", "map::operator[]", "unordered_map::at"))) or \
                not (contains(v, lambda x: x[0] == "fld" and x[2] == "second") or contains(v, lambda x: x[0] == "call" and "map::" in x[1])):
            ok = False
            why.append("encoded index is %s, not the entry found in the table" % pretty(v))
        finds = [i for i in E.calls(r"map::(find|at|operator\[\])$")]
        keys = {next(iter(fields(E.expr(i["o"][0]))), "?") for i in finds}
        if not finds or keys != {"stringLookup_"}:
            ok = False
            why.append("table searched: %s" % keys)
        # the searched key is built from the input
        strs = [i for i in E.calls(r"basic_string::basic_string$")]
        if not any(contains(E.expr(a), lambda x: x[:2] == ("arg", 2)) for i in strs for a in i["o"][1:]):
            ok = False
            why.append("the searched string is not built from the input value")
        # decode: index used to subscript the table is what the inner codec produced
        idxa = D.expr(dec[0]["o"][1])
        subs = [i for i in D.calls(r"vector::(operator\[\]|at)$")]
        if not subs or not all(uncast(D.expr(i["o"][1])) == ("ld", idxa) and "strings_" in fields(D.expr(i["o"][0])) for i in subs):
            ok = False
            why.append("decoded index does not subscript the string table")
        cp = [i for i in D.insts() if i.op in ("call", "invoke") and re.match(r"llvm\.mem(cpy|move)|memcpy|strncpy", D.cq(i)) and D.expr(i["o"][0])[:2] == ("arg", 1)]
        if not cp:
            ok = False
            why.append("decoded string is not copied to the output")
        for i in cp:
            se = D.expr(i["o"][1])
            if not contains(se, lambda x: x[0] == "call" and re.search(r"vector::(operator\[\]|at)$", x[1])):
                ok = False
                why.append("copied bytes are not the table entry")
    R.check(ok, "T1", c.name, E.where(), "%s: %s" % (c.short, "; ".join(why)), c.short)


def primitives(P, R):
    fs = list(P.roots["ds"].values())
    for f in fs:
        m = re.search(r"(Same|Other)ByteOrder::swap", f.qual)
        if m:
            revs = list(f.calls(r"std::reverse$"))
            stores = [i for i in f.insts() if i.op == "store"]
            if m.group(1) == "Same":
                R.check(not revs and not stores and not list(f.calls()), "S1", f.qual + str(len(f.args)), f.where(), "%s changes the bytes" % f.dem, f.dem)
            else:
                ok = len(revs) == 1 and not stores
                if ok:
                    a, b = (f.expr(x) for x in revs[0]["o"][:2])
                    t = split_params(f.dem)
                    if len(f.args) == 1:
                        ok = a[:2] == ("arg", 0) and b[0] == "idx" and b[1] == a and b[2] == ("c", ctype_size(t[0]) or -1)
                    else:
                        ok = a[:2] == ("arg", 0) and b[0] == "idx" and b[1] == a and uncast(b[2])[:2] == ("arg", 1)
                R.check(ok, "S1", f.qual + str(len(f.args)), f.where(), "%s does not reverse exactly the object's bytes" % f.dem, f.dem)
            continue
        q = f.qual.split("::")[-1]
        bo = "Other" if "OtherByteOrder" in f.dem.split("DataStream<")[1][:40] else "Same"
        cps = [i for i in f.insts() if i.op in ("call", "invoke") and re.match(r"llvm\.mem(cpy|move)|memcpy$|memmove$", f.cq(i))]
        if q in ("readBytes", "writeBytes"):
            k = 0 if q == "readBytes" else 1
            ok = len(cps) == 1
            why = "no single copy"
            if ok:
                cur, usr, n = f.expr(cps[0]["o"][1 - k]), f.expr(cps[0]["o"][k]), uncast(f.expr(cps[0]["o"][2]))
                ok = fields(cur) == {"current_"} and usr[:2] == ("arg", 1) and n[:2] == ("arg", 2)
                why = "copies %s bytes from/to %s and %s" % (pretty(n), pretty(cur), pretty(usr))
                st = [i for i in f.insts() if i.op == "store" and f.expr(i["o"][1])[0] == "fld" and f.expr(i["o"][1])[2] == "current_"]
                good = len(st) == 1 and all(f.path_avoiding(cps[0], lambda x: x.op == "ret", lambda x: x is st[0]) is None for _ in [0])
                if good:
                    e = f.expr(st[0]["o"][0])
                    good = e[0] == "idx" and fields(e[1]) == {"current_"} and uncast(e[2])[:2] == ("arg", 2) and e[3] == "i8"
                if not good:
                    ok = False
                    why += "; position does not advance by the bytes moved"
            R.check(ok, "S2", q + ":" + bo, f.where(), "%s: %s" % (f.dem, why), f.dem)
        elif q in ("read", "write") and len(f.args) == 3 and split_params(f.dem)[-1] == "unsigned long":
            raw = [i for i in f.calls(r"DataStream::%sBytes$" % q)]
            sw = [i for i in f.calls(r"ByteOrder::swap$")]
            ok = len(raw) == 1 and len(sw) == 1 and f.dominates(raw[0], sw[0])
            why = "raw transfers %d, swaps %d" % (len(raw), len(sw))
            if ok:
                ok = f.expr(raw[0]["o"][1])[:2] == ("arg", 1) and f.expr(raw[0]["o"][2])[:2] == ("arg", 2)
                ok = ok and (bo in f.cq(sw[0])) and f.expr(sw[0]["o"][1])[:2] == ("arg", 2)
                a = f.expr(sw[0]["o"][0])
                if q == "read":
                    ok = ok and a[:2] == ("arg", 1)
                else:
                    neg = a[2] if a[0] == "idx" else ("?",)
                    ok = ok and a[0] == "idx" and fields(a[1]) == {"current_"} and neg[0] == "sub" and neg[1] == ("c", 0) and neg[2][:2] == ("arg", 2)
                why += "; swapped range %s" % pretty(a)
            R.check(ok, "S2", q + ":" + bo, f.where(), "%s: %s" % (f.dem, why), f.dem)
        elif q in ("read", "write") and len(f.args) == 2:
            t = split_params(f.dem)[0]
            sz = ctype_size(t)
            if sz:
                cs = [i for i in f.calls(r"DataStream::%s$" % q)]
                ok = len(cs) == 1 and f.expr(cs[0]["o"][1])[:2] == ("arg", 1) and f.expr(cs[0]["o"][2]) == ("c", sz)
                R.check(ok, "S2", "%s<%s>:%s" % (q, t, bo), f.where(), "%s does not transfer exactly the element's bytes in stream byte order" % f.dem, f.dem)
