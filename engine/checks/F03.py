"""Codec choice: the names assigned on each path of the codec optimiser are justified by the conditions of that path (value range,
missing values, number of strings, marker collisions); statistics cover every value and survive the change of codec."""
from frlib import *
import codeclib
from checks.F05 import tri, strip

CONFIG = {"roots": [
    {"tag": "opt", "re": r"^(int |void )?odc::codec::CodecOptimizer::(setOptimalCodecs|CodecOptimizer)\b", "keep": [r"CodecFactory::", r"basic_string", r"std::map"], "depth": 8},
    codeclib.ROOT,
    {"tag": "mk", "re": r"^odc::core::(Integer)?CodecBuilder<.*>::(make|(Integer)?CodecBuilder)\(|^void odc::core::Column::(type|resetCodec)<",
     "keep": [r"odc::codec::\w+<.*>::Codec\w+\(", r"ODBAPISettings", r"CodecFactory::", r"CodecBuilderBase::"], "depth": 8}]}

INT, STR, BIT, REAL, DBL = "INTEGER", "STRING", "BITFIELD", "REAL", "DOUBLE"
# name: (column types it may serve, strict upper limit of the value range or None, stores missing values, limit on the number of strings)
CODECS = {
    "constant": ((INT, BIT, REAL, DBL), 0, False, None), "constant_or_missing": ((INT, BIT, REAL, DBL), 0, True, None),
    "real_constant_or_missing": ((REAL, DBL), 0, True, None),
    "int8": ((INT, BIT), 256, False, None), "int16": ((INT, BIT), 65536, False, None),
    "int8_missing": ((INT, BIT), 255, True, None), "int16_missing": ((INT, BIT), 65535, True, None),
    "int32": ((INT, BIT), None, True, None),
    "short_real": ((REAL,), None, True, None), "short_real2": ((REAL,), None, True, None), "long_real": ((REAL, DBL), None, True, None),
    "constant_string": ((STR,), None, True, 1), "long_constant_string": ((STR,), None, True, 1),
    "int8_string": ((STR,), None, True, 256), "int16_string": ((STR,), None, True, 65536)}


def run(P, R):
    R.rule("V1", "each codec is chosen only for the column type, value range, missing values and number of strings it can represent")
    R.rule("V2", "missing flag, missing value, minimum and maximum gathered before are restored in the codec installed, the missing value first")
    R.rule("V3", "a string codec receives the width and the string table of the codec it replaces before it is installed")
    R.rule("V4", "every value gathered ends up in [min, max] or sets the missing flag; a NaN leaves no column constant")
    R.rule("V5", "each codec gathers its statistics from the value as that codec types it")
    R.rule("V6", "collisions with internal markers are looked for at the precision and with the marker of the codecs they guard")
    R.rule("V7", "every distinct string is entered once in the table, with the index of its place in the list, compared over the full width")
    R.rule("V8", "integers are stored directly only after a check that the stored type can hold them")
    R.rule("V9", "every codec name is registered by a builder of that codec; builders honour byte order, column type and integersAsDoubles")
    R.rule("V10", "a column's first codec can gather any value of its type; resetting it keeps the data size")
    types = {v: k for k, v in P.enum("odc::api::ColumnType").items()}
    choice(P, R, types)
    stats(P, R)
    narrowing(P, R)
    builders(P, R, types)
    columns(P, R, types)
    R.need("V1", 8)
    R.need("V4", 2)


# ------------------------------------------------------------------------------------------------ strings
def is_str(q):
    return re.search(r"basic_string::(basic_string|operator=|assign)$", q)


def has_id(e, n):
    return any(isinstance(x, tuple) and x[:1] == ("#",) and x[1] == n for x in walk(e))


def strvals(f, op, at, depth=6):
    """[(facts, literal | ('map', key) | None)] of the std::string at an address when `at` executes"""
    e = f.expr(op)
    if e[0] == "call" and e[1] in ("std::map::operator[]", "std::map::at"):
        i = f.I.get(e[-1][1])
        return [([], ("map", e[2], f._content(i["o"][1], i) if i is not None else e[3]))]
    if e[0] == "fld" and e[2] == "second":
        # the value an iterator returned by map::find points at
        its = [x for x in walk(e) if isinstance(x, tuple) and x[:1] == ("alloca",)]
        found = [i for i in f.calls(r"^std::map::find$") if any(s.op == "store" and has_id(f.expr(s["o"][0]), i.id) and any(y == its[0] for y in walk(f.expr(s["o"][1]))) for s in f.insts())] if its else []
        if len(found) == 1:
            i = found[0]
            return [([], ("map", f.expr(i["o"][0]), f._content(i["o"][1], i)))]
    if e[0] == "call" and re.search(r"std::(move|forward)$", e[1]):
        return strvals(f, f.I[e[-1][1]]["o"][0], at, depth)
    if e[0] != "alloca" or depth <= 0:
        return [([], None)]
    ds = [d for d in f.mem_defs(e[1], at)]
    out = []
    for d in ds:
        if d is None:
            continue                                    # before construction: infeasible
        if d.op == "store" or not is_str(f.cq(d)) or d["o"][0] != e[1]:
            if re.search(r"~basic_string", f.cq(d)):
                continue
            out.append(([], None))
            continue
        for pf in arrivals(f, d, f.path_facts(d, at, kills=ds)):
            out += one_def(f, d, pf, depth)
    return out


def arrivals(f, d, pf, depth=3):
    """pf completed with the conditions of each way into the block of d"""
    b, ways = d.blk, [[]]
    for _ in range(depth):
        ps = [p for p in f.preds(False)[b] if p in f.live() and p != b]
        if len(ps) > 1:
            ways = [f.edge_facts(p, b) for p in ps]
            break
        if not ps:
            break
        b = ps[0]
    return [pf + w for w in ways]


def one_def(f, d, pf, depth):
    out = []
    if len(d["o"]) < 2:
        return [(pf, "")]
    ps = split_params(f.callee(d) or "") or []
    if ps and "basic_string" not in ps[0] and "char" in ps[0]:
        for fa, x in f.alternatives(d["o"][1]):
            out.append((pf + fa, x[1] if x[0] == "str" else None))
        return out
    for fa, x in strvals(f, d["o"][1], d, depth - 1):
        out.append((pf + fa, x))
    return out


# ------------------------------------------------------------------------------------------------ facts
def leaf(e):
    """name of the member an expression loads"""
    e = uncast(e)
    return e[1][2] if e[0] == "ld" and isinstance(e[1], tuple) and e[1][0] == "fld" else None


def numeric(e):
    e = uncast(e) if e[0] != "f" else e
    if e[0] == "c":
        return float(e[1])
    if e[0] == "f":
        try:
            return float(e[1])
        except ValueError:
            return float(int(e[1], 16)) if e[1].startswith("0x") and len(e[1]) < 10 else None
    return None


def is_range(e):
    """max - min; second: converted to an integer on the way"""
    conv = False
    while isinstance(e, tuple) and e and e[0] in ("fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "sext", "zext", "trunc"):
        conv |= e[0] in ("fptosi", "fptoui")
        e = e[3]
    return e[0] == "fsub" and leaf(e[1]) == "max_" and leaf(e[2]) == "min_", conv, e


PRED = {"olt": "lt", "ole": "le", "oeq": "eq", "ogt": "gt", "oge": "ge", "ult": "lt", "ule": "le", "slt": "lt", "sle": "le", "eq": "eq", "ugt": "gt",
        "uge": "ge", "sgt": "gt", "sge": "ge", "ne": "ne", "une": "ne"}
PINV = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}
PSW = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}


def comparisons(facts):
    """(predicate that holds, left, right) in both orientations; unordered float comparisons excluded"""
    for c, t in facts:
        if c[0] == "switch" and c[2] == "case":
            for v in c[3]:
                if len(c[3]) == 1:
                    yield "eq", c[1], ("c", v), False
            continue
        if c[0] != "cmp" or c[1] not in PRED:
            continue
        fl = c[1] in ("olt", "ole", "oeq", "ogt", "oge", "une") or (c[1] in ("ult", "ule", "ugt", "uge") and (c[2][0] in ("fsub", "f") or c[3][0] == "f"))
        p = PRED[c[1]]
        if fl:
            # an ordered predicate that fails, or an unordered one that holds, may be due to a NaN
            if (c[1][0] == "o") != t:
                if not (c[1] in ("ult", "ule", "ugt", "uge") and not t) and c[1] != "une":
                    continue
                if c[1] == "une" and t:
                    continue
        if not t:
            p = PINV[p]
        yield p, c[2], c[3], fl
        yield PSW[p], c[3], c[2], fl


def range_below(f, facts, depth=3):
    """least known U with max - min < U (0: equal), whether some bound is unusable because the conversion may overflow, opaque"""
    best, unsafe = None, False

    def take(u):
        nonlocal best
        best = u if best is None or u < best else best
    for p, a, b, fl in comparisons(facts):
        if p == "eq" and leaf(a) == "max_" and leaf(b) == "min_":
            take(0)
        k = numeric(b)
        if k is None or p not in ("lt", "le", "eq"):
            continue
        ok, conv, core = is_range(a)
        alts = None
        if not ok and core[0] == "phi" and core[1] in f.I and depth > 0:
            alts = f.alternatives(core[1])
        elif not ok and core[0] == "select":
            alts = [(f.implied_expr(core[1], True) if hasattr(f, "implied_expr") else [(core[1], True)], core[2]), ([(core[1], False)], core[3])]
        for fa, x in (alts if alts is not None else [([], a)] if ok else []):
            ok2, conv2, _ = is_range(x)
            n = numeric(x)
            if n is not None:
                if (p == "lt" and n < k) or (p == "le" and n <= k) or (p == "eq" and n == k):
                    break                               # the clamp value satisfies it too: nothing follows
                continue
            if not ok2:
                break
            cv = conv or conv2
            if cv:
                u0, _ = range_below(f, fa, depth - 1) if fa else (None, False)
                if u0 is None:
                    unsafe = True
                    break
        else:
            if (alts is None and ok) or alts:
                cv = conv or any(is_range(x)[1] for _, x in (alts or []))
                if p == "eq":
                    take(k + 1 if cv else (0 if k == 0 else k + 0.5))
                else:
                    take(k if p == "lt" else (k + 1 if cv else k + 0.5))
    return best, unsafe


def missing_known(facts, want):
    for c, t in facts:
        if leaf(c) == "hasMissing_" or (c[0] in ("trunc",) and leaf(c) == "hasMissing_"):
            if t == want:
                return True
    for p, a, b, fl in comparisons(facts):
        if leaf(a) == "hasMissing_" and numeric(b) == 0 and p == ("ne" if want else "eq"):
            return True
    return False


def flag_false(facts, name):
    return any(leaf(c) == name and not t for c, t in facts) or \
        any(leaf(a) == name and numeric(b) == 0 and p == "eq" for p, a, b, fl in comparisons(facts))


def strings_at_most(facts):
    best = None
    for p, a, b, fl in comparisons(facts):
        a = uncast(a)
        k = numeric(b)
        if a[0] in ("vcall", "call") and a[1].endswith("::numStrings") and k is not None and p in ("lt", "le", "eq"):
            u = k - 1 if p == "lt" else k
            best = u if best is None else min(u, best)
    return best


def one_double(facts):
    return any(uncast(a)[0] in ("vcall", "call") and uncast(a)[1].endswith("::dataSizeDoubles") and p in ("eq", "le", "lt") and numeric(b) in ((1.0,) if p != "lt" else (2.0,))
               for p, a, b, fl in comparisons(facts))


def opaque(f, facts):
    """a condition of the path that cannot be interpreted"""
    for c, t in facts:
        if c[0] == "phi":
            return True
        if c[0] == "cmp":
            for x in (c[2], c[3]):
                _, _, core = is_range(x)
                if core[0] == "phi" and core[1] in f.I and f.I[core[1]].op == "phi" and not any(h.id == core[1] for L in loops(f) for h in header_phis(L)):
                    if not all(numeric(v) is not None or is_range(v)[0] for _, v in f.alternatives(core[1])):
                        return True
        if c[0] in ("call", "vcall") and not re.search(r"^std::|getenv|operator", c[1]):
            return True
    return False


def contradictory(facts):
    vals, excl = {}, {}
    S = set()
    for c, t in facts:
        if c[0] == "switch":
            v = uncast(c[1])
            if c[2] == "case":
                s = set(c[3])
                vals[v] = vals[v] & s if v in vals else s
            else:
                excl.setdefault(v, set()).update(c[3])
            continue
        if (c, not t) in S:
            return True
        S.add((c, t))
    return any(not (s - excl.get(v, set())) for v, s in vals.items())


def type_cases(facts, types):
    """column types a path is restricted to (None: unknown)"""
    cur = None
    for c, t in facts:
        s = None
        if c[0] == "switch" and leaf(c[1]) == "type_" and c[2] == "case":
            s = {types.get(v) for v in c[3]}
        elif c[0] == "cmp" and c[1] in ("eq", "ne") and leaf(c[2]) == "type_" and c[3][0] == "c" and (c[1] == "eq") == t:
            s = {types.get(c[3][1])}
        if s is not None:
            cur = s if cur is None else cur & s
    if cur is None:
        # only known not to be some of the types
        out = {types.get(c[3][1]) for c, t in facts if c[0] == "cmp" and c[1] in ("eq", "ne") and leaf(c[2]) == "type_" and c[3][0] == "c" and (c[1] == "eq") != t}
        if out:
            cur = ({"INTEGER", "REAL", "STRING", "BITFIELD", "DOUBLE"} & set(types.values())) - out
    return cur


# ------------------------------------------------------------------------------------------------ V1 - V3
def defaults(P, types):
    """column type -> codec name entered in the optimiser's table of defaults"""
    out = {}
    for f in P.roots["opt"].values():
        if not f.qual.endswith("CodecOptimizer::CodecOptimizer"):
            continue
        for i in f.insts():
            if i.op in ("call", "invoke") and is_str(f.cq(i)) and len(i["o"]) > 1:
                d, s = f.expr(i["o"][0]), f.expr(i["o"][1])
                if d[0] == "call" and d[1] == "std::map::operator[]" and s[0] == "str":
                    m = f.I.get(d[-1][1])
                    k = f._content(m["o"][1], m)
                    if k[0] == "c" and k[1] in types:
                        out.setdefault(types[k[1]], set()).add(s[1])
    return out


def is_install(f, i):
    """the instruction makes another codec the column's"""
    if i.op not in ("call", "invoke"):
        return False
    q = f.cq(i)
    if re.search(r"^std::(swap|unique_ptr::(operator=|swap|reset))$|Column::coder$", q):
        return any(x[0] == "fld" and x[2] == "coder_" for x in (f.expr(o) for o in i["o"])) and len(i["o"]) > 1
    return False


def loads_of(f, op, seen=()):
    """instructions that load the member values an operand was computed from"""
    if not isinstance(op, int) or op not in f.I or op in seen:
        return []
    i = f.I[op]
    if i.op == "load":
        e = f.expr(i["o"][0])
        if e[0] == "alloca":
            out = []
            for d in f.mem_defs(e[1], i):
                if d is not None and d.op == "store":
                    out += loads_of(f, d["o"][0], seen + (op,))
            return out
        return [i]
    if i.op == "phi":
        return [x for v, b in i["o"] for x in loads_of(f, v, seen + (op,))]
    if i.op in ("call", "invoke"):
        return [i]
    return [x for o in i["o"] if isinstance(o, int) for x in loads_of(f, o, seen + (op,))]


def choice(P, R, types):
    fs = [f for f in P.roots["opt"].values() if "setOptimalCodecs" in f.dem]
    R.anchor(fs, "CodecOptimizer::setOptimalCodecs")
    dflt = defaults(P, types)
    R.extra["default_codecs"] = {k: sorted(v) for k, v in dflt.items()}
    for f in fs:
        bs = [i for i in f.insts() if i.op in ("call", "invoke") and f.cq(i).endswith("CodecFactory::build")]
        R.anchor(bs, "codec construction in the optimiser")
        for b in bs:
            so = next((o for o, p in zip(b["o"][-2:], ("name", "type"))), None)
            vals = strvals(f, so, b)
            for fa, v in vals:
                fa = fa + [x for x in f.facts_at(b) if x not in fa]
                if contradictory(fa):
                    continue
                tc = type_cases(fa, types)
                names = []
                if isinstance(v, tuple):
                    for t in (tc or ()):
                        names += [(t, n) for n in dflt.get(t, ())]
                        if t not in dflt:
                            R.bad("V1", "no default codec for %s" % t, f.where(), "no default codec is entered for column type %s" % t)
                elif v is None:
                    tri(R, "V1", "codec name at line %s" % b.loc, f.loc(b), None, "")
                    continue
                else:
                    names = [(t, v) for t in (tc or (None,))]
                for t, n in names:
                    justified(R, f, b, t, n, fa)
            strings(R, f, b, so)
        installs = [i for i in f.insts() if is_install(f, i)]
        if not installs:
            tri(R, "V2", "installation of the codec chosen", f.where(), None, "")
        for i in installs:
            restored(R, f, i)


def justified(R, f, b, t, n, fa):
    key = "%s for %s columns" % (n, t)
    where = f.loc(b)
    if n not in CODECS:
        tri(R, "V1", key, where, False if n == "chars" else None, "codec %s cannot be read back from a frame (its string table is not stored)" % n)
        return
    ts, lim, miss, nstr = CODECS[n]
    if t is not None and t not in ts:
        R.bad("V1", key, where, "codec %s is chosen for %s columns, which it cannot represent" % (n, t))
        return
    op = opaque(f, fa)
    fails = []
    if lim is not None:
        u, unsafe = range_below(f, fa)
        need = 1 if lim == 0 and t in (INT, BIT) else lim
        if u is None or u > need:
            fails.append("max - min is %s" % ("converted to an integer it may not fit" if u is None and unsafe else "not known to be below %s" % lim if lim else "not known to be 0") +
                         (" (only below %g)" % u if u is not None else ""))
    if not miss and not missing_known(fa, False):
        fails.append("the column may contain missing values")
    if nstr is not None:
        u = strings_at_most(fa)
        if u is None or u > nstr:
            fails.append("the number of strings is not known to be at most %d" % nstr)
    if n == "constant_string" and not one_double(fa):
        fails.append("the strings may be wider than 8 bytes")
    if n == "short_real" and not flag_false(fa, "hasShortRealInternalMissing_"):
        fails.append("a value may equal the marker of short_real")
    if n == "short_real2" and not flag_false(fa, "hasShortReal2InternalMissing_"):
        fails.append("a value may equal the marker of short_real2")
    tri(R, "V1", key, where, (None if op else False) if fails else True, "%s is chosen although %s" % (n, " and ".join(fails)))


def strings(R, f, b, so):
    """V3 for the construction call b of a string codec"""
    fa = f.facts_at(b)
    if not any(leaf(x) == "type_" for c, t in fa for x in (c[1:3] if c[0] == "cmp" else c[1:2] if c[0] == "switch" else ()) if isinstance(x, tuple)):
        return
    tc = [c for c, t in fa if c[0] == "switch" and leaf(c[1]) == "type_" and c[2] == "case" and 3 in c[3] or (c[0] == "cmp" and c[1] == "eq" and t and leaf(c[2]) == "type_" and c[3] == ("c", 3))]
    if not tc:
        return
    inst = [i for i in f.insts() if is_install(f, i) and f.path_avoiding(b, lambda x: x is i, lambda x: False) is not None and f.dominates(b, i)]
    if not inst:
        tri(R, "V3", "string codec", f.loc(b), None, "")
        return
    i = inst[0]
    skip = []
    unknown = False
    for (x, s, c, tr) in f.edge_conds():
        if isinstance(tr, tuple):
            continue
        for ce, t in f.implied(c, tr):
            if ce[0] == "call" and ce[1] == "std::operator==" and t and any(isinstance(y, tuple) and y == ("str", "constant_string") for y in ce):
                skip.append((x, s))
            if ce[0] == "call" and ce[1] == "std::operator!=" and not t and any(isinstance(y, tuple) and y == ("str", "constant_string") for y in ce):
                skip.append((x, s))
            if ce[0] == "phi" or (ce[0] == "ld" and ce[1][0] == "alloca"):
                unknown = True
    for what, rx, n in (("the width", r"::dataSizeDoubles$", 2), ("the string table", r"::copyStrings$", 2)):
        cs = []
        for x in f.insts():
            if x.op in ("call", "invoke"):
                v = f.vcall(x)
                q = v[0] if v else f.cq(x)
                if re.search(rx, q) and len(x["o"]) == n and f.path_avoiding(b, lambda y: y is x, lambda y: y is i) is not None:
                    src = f.expr(x["o"][1])
                    dst = f.expr(x["o"][0])
                    if contains(src, lambda y: y[:1] == ("fld",) and y[2] == "coder_") and not contains(dst, lambda y: y[:1] == ("fld",) and y[2] == "coder_"):
                        cs.append(x)
        p = f.path_avoiding(b, lambda y: y is i, lambda y: any(y is c for c in cs), avoid_edges=tuple(skip))
        tri(R, "V3", "%s of a string column" % what, f.loc(b), True if p is None and cs else (None if unknown and cs else False),
            "a string codec is installed without %s of the codec it replaces" % what)


def restored(R, f, i):
    L = innermost(f, i)
    end = lambda x: x.op == "ret" or (L is not None and x.blk == L.header and x.pos == 0)
    st = {}
    for x in f.insts():
        if x.op == "store":
            a = f.expr(x["o"][1])
            if a[0] == "fld" and a[2] in ("hasMissing_", "min_", "max_") and contains(a, lambda y: y[:1] == ("fld",) and y[2] == "coder_"):
                st.setdefault(a[2], []).append((x, x["o"][0]))
        elif x.op in ("call", "invoke"):
            v = f.vcall(x)
            q = v[0] if v else f.cq(x)
            if q.endswith("Codec::missingValue") and len(x["o"]) == 2:
                st.setdefault("missingValue_", []).append((x, x["o"][1]))
    for n, what in (("hasMissing_", "missing flag"), ("missingValue_", "missing value"), ("min_", "minimum"), ("max_", "maximum")):
        S = [(x, o) for x, o in st.get(n, []) if f.path_avoiding(i, lambda y: y is x, end) is not None]
        key = "%s after the codec chosen at line %s" % (what, i.loc)
        if f.path_avoiding(i, end, lambda y: any(y is x for x, _ in S)) is not None:
            R.bad("V2", key, f.loc(i), "a codec is installed without restoring the column's %s" % what)
            continue
        ok = True
        for x, o in S:
            ls = loads_of(f, o)
            if not ls:
                ok = None if ok else ok
                continue
            for l in ls:
                if l.op != "load":
                    ok = None if ok else ok
                    continue
                m = leaf(f.expr(l.id))
                if m != n:
                    ok = False
                elif not f.dominates(l, i):
                    ok = False                          # read from the new codec
        tri(R, "V2", key, f.loc(i), ok, "the column's %s is restored from another quantity or read only after the codec was replaced" % what)
    if st.get("missingValue_"):
        late = [x for n in ("min_", "max_") for x, _ in st.get(n, []) if any(f.path_avoiding(x, lambda y: y is m, end) is not None for m, _ in st["missingValue_"])]
        R.check(not late, "V2", "order after the codec chosen at line %s" % i.loc, f.loc(i), "setting the missing value resets the minimum or maximum restored before it")


# ------------------------------------------------------------------------------------------------ V4 - V7
def stats(P, R):
    cl = codeclib.codec_classes(P)
    seen = set()
    markers = {}
    for c in cl:
        enc = P.roots["codec"].get(c.slots.get("encode"))
        if c.base in ("CodecShortReal", "CodecShortReal2") and enc is not None:
            for x in enc.insts():
                if x.op == "store" and any(leaf(d) == "missingValue_" for cc, t in enc.facts_at(x) if cc[0] == "cmp" and t for d in cc[2:4]):
                    v = enc.expr(x["o"][0])
                    if v[0] == "f":
                        markers.setdefault(c.base, set()).add(v[1])
                if x.op == "phi":
                    for fa, v in enc.alternatives(x.id):
                        if v[0] == "f":
                            markers.setdefault(c.base, set()).add(v[1])
    R.extra["real_markers"] = {k: sorted(v) for k, v in markers.items()}
    for c in cl:
        sym = c.slots.get("gatherStats")
        if not sym or sym in seen:
            continue
        seen.add(sym)
        f = P.roots["codec"].get(sym)
        if f is None:
            continue
        q = strip_templates(f.dem)
        if "CodecChars::" in q:
            table(R, f)
            continue
        covered(R, f)
        typed(R, f)
        if "CodecLongReal" in q:
            sentinels(R, f, markers)


def vload(f, e):
    """the value the function was given"""
    e = uncast(e)
    return e[0] == "ld" and e[1][0] == "arg" and e[1][1] == 1


def covered(R, f):
    name = f.dem.split("(")[0].split("odc::")[-1]
    rng = {}
    hm = [x.blk for x in f.insts() if x.op == "store" and leaf(("ld", f.expr(x["o"][1]))) == "hasMissing_" and numeric(f.expr(x["o"][0])) not in (0, None)]
    for m in ("min_", "max_"):
        rng[m] = [x for x in f.insts() if x.op == "store" and leaf(("ld", f.expr(x["o"][1]))) == m]
    unk = [x for m in rng for x in rng[m] if not contains(f.expr(x["o"][0]), lambda y: y[:1] == ("ld",) and y[1][:1] == ("arg",) and y[1][1] == 1)]
    R.check(not unk, "V4", name + " stores", f.where(), "the minimum or maximum is set to something that is not the value gathered")

    def edges(pred):
        return edges_where(f, pred)

    miss = edges(lambda e, t: e[0] == "cmp" and e[1] == "oeq" and t and any(vload(f, x) for x in e[2:4]) and any(leaf(x) == "missingValue_" for x in e[2:4]) or
                 (e[0] == "cmp" and e[1] == "une" and not t and any(vload(f, x) for x in e[2:4]) and any(leaf(x) == "missingValue_" for x in e[2:4])))
    R.check(bool(miss) and all(f_after(f, ed, hm) for ed in miss), "V4", name + " missing", f.where(), "a missing value does not set the missing flag")
    nan = edges(lambda e, t: e[0] == "cmp" and e[1] in ("une", "uno") and t and vload(f, e[2]) and vload(f, e[3]) or
                (e[0] == "cmp" and e[1] in ("oeq", "ord") and not t and vload(f, e[2]) and vload(f, e[3])) or
                (e[0] == "call" and e[1].endswith("isnan") and t))
    num = edges(lambda e, t: e[0] == "cmp" and e[1] in ("une", "uno") and not t and vload(f, e[2]) and vload(f, e[3]) or
                (e[0] == "cmp" and e[1] in ("oeq", "ord") and t and vload(f, e[2]) and vload(f, e[3])) or
                (e[0] == "call" and e[1].endswith("isnan") and not t))
    for m, lo in (("min_", True), ("max_", False)):
        blk = [x.blk for x in rng[m]]
        inside = edges(lambda e, t: outside_false(f, e, t, m, lo))
        notfirst = edges(lambda e, t: e[0] == "cmp" and ((e[1] == "oeq" and not t) or (e[1] == "une" and t)) and {leaf(e[2]), leaf(e[3])} == {m, "missingValue_"} and
                         any(leaf(x) == m for x in e[2:4]))
        r = f.reach(0, avoid_blocks=blk, avoid_edges=miss + inside + nan)
        R.check(not any(i.blk in r for i in f.rets()) and 0 not in blk, "V4", "%s %s" % (name, m), f.where(), "a value beyond the %s gathered so far does not replace it" % ("minimum" if lo else "maximum"))
        r = f.reach(0, avoid_blocks=blk, avoid_edges=miss + notfirst + nan)
        R.check(not any(i.blk in r for i in f.rets()), "V4", "%s first %s" % (name, m), f.where(), "the first value gathered does not replace the initial %s" % ("minimum" if lo else "maximum"))
    # a NaN: no return with an equal minimum and maximum and no change
    differ = edges(lambda e, t: e[0] == "cmp" and ((e[1] in ("oeq", "eq") and not t) or (e[1] == "une" and t)) and {leaf(e[2]), leaf(e[3])} == {"min_", "max_"})
    if typed_long(f):
        return
    blks = {x.blk for m in rng for x in rng[m]}
    # with a NaN every ordered comparison of the value fails
    never = edges(lambda e, t: e[0] == "cmp" and any(vload(f, x) for x in e[2:4]) and not (vload(f, e[2]) and vload(f, e[3])) and e[1][0] == "o" and t)
    r = f.reach(0, avoid_blocks=list(blks), avoid_edges=never + num + differ)
    R.check(not any(i.blk in r for i in f.rets()), "V4", name + " NaN", f.where(), "a NaN leaves the range unchanged: the column may be stored as constant")


def outside_false(f, e, t, m, lo):
    """value known not to be below the minimum / above the maximum (numbers only)"""
    if e[0] != "cmp":
        return False
    p, a, b = e[1], e[2], e[3]
    if leaf(a) == m and vload(f, b):
        p, a, b = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p[1:], "?"), b, a
        p = e[1][0] + p
    if not (vload(f, a) and leaf(b) == m):
        return False
    k = p[1:]
    bad = ("lt", "le") if lo else ("gt", "ge")
    good = ("ge", "gt") if lo else ("le", "lt")
    return (k in bad and not t) or (k in good and t) or (p == "oeq" and t)


def f_after(f, edge, blocks):
    """every path from the edge to a return runs one of blocks"""
    if edge[1] in blocks:
        return True
    S, seen, st = f._succs(False), {edge[1]}, [edge[1]]
    rb = {i.blk for i in f.rets()}
    while st:
        b = st.pop()
        if b in rb:
            return False
        for s in S[b]:
            if s not in seen and s not in blocks:
                seen.add(s)
                st.append(s)
    return True


def typed_long(f):
    m = re.match(r"odc::codec::\w+<[^>]*, (\w+)", f.dem)
    return bool(m) and m.group(1) == "long"


def typed(R, f):
    want = "i64" if typed_long(f) else "double"
    ts = {f.ty(i.id) for i in f.insts() if i.op == "load" and f.expr(i["o"][0])[:2] == ("arg", 1)}
    R.check(ts == {want}, "V5", f.dem.split("(")[0].split("odc::")[-1], f.where(), "values are gathered as %s, the codec stores %s" % ("/".join(sorted(ts)) or "nothing", want))


def sentinels(R, f, markers):
    for fl, cd in (("hasShortRealInternalMissing_", "CodecShortReal"), ("hasShortReal2InternalMissing_", "CodecShortReal2")):
        st = [x for x in f.insts() if x.op == "store" and leaf(("ld", f.expr(x["o"][1]))) == fl and numeric(f.expr(x["o"][0])) != 0]
        if not markers.get(cd) or not st:
            tri(R, "V6", "%s %s" % (f.dem.split("(")[0].split("::")[-2], fl), f.where(), None if not markers.get(cd) else False, "values equal to the marker of %s are not looked for" % cd)
            continue
        good = bad = False
        for x in st:
            for c, t in f.facts_at(x):
                if c[0] == "cmp" and ((c[1] == "oeq" and t) or (c[1] == "une" and not t)):
                    v = [y for y in c[2:4] if y[0] == "f"]
                    if v and any(contains(y, lambda z: z[:1] == ("ld",) and z[1][:1] == ("arg",)) for y in c[2:4]):
                        if {v[0][1]} == markers[cd] and any(y[0] == "fptrunc" for y in c[2:4]):
                            good = True
                        else:
                            bad = True
        # the test itself must be reached for every value
        tests = [i.blk for i in f.insts() if i.op == "fcmp" and i.get("ct") == "float"]
        tri(R, "V6", "%s %s" % (f.dem.split("(")[0].split("odc::")[-1], fl), f.where(), True if good else (False if bad else None),
            "values are compared with another number, or at another precision, than the marker %s tests" % cd)


def table(R, f):
    name = f.dem.split("(")[0].split("odc::")[-1]
    finds = [i for i in f.insts() if i.op in ("call", "invoke") and re.search(r"std::map::(find|count)$", f.cq(i))]
    push = [i for i in f.insts() if i.op in ("call", "invoke") and re.search(r"std::vector::(push_back|emplace_back)$", f.cq(i)) and leaf(("ld", f.expr(i["o"][0]))) == "strings_"]
    R.check(bool(push), "V7", name + " list", f.where(), "a new string is not appended to the list of strings")
    for i in push:
        fa = f.facts_at(i)
        new = [1 for c, t in fa if (c[0] == "call" and re.search(r"operator==$", c[1]) and t) or (c[0] == "call" and re.search(r"operator!=$", c[1]) and not t) or
               (c[0] == "cmp" and any(x[0] == "call" and x[1].endswith("::count") for x in c[2:4]) and t == (c[1] == "eq"))]
        ins = [x for x in f.insts() if x.op in ("call", "invoke") and re.search(r"std::map::(emplace|insert)", f.cq(x))]
        tri(R, "V7", name + " once", f.loc(i), True if new else (None if ins or not finds else False), "a string is appended although it may already be in the table")
    sts = [i for i in f.insts() if i.op == "store" and f.expr(i["o"][1])[0] == "call" and f.expr(i["o"][1])[1] == "std::map::operator[]"]
    for i in sts:
        at, k = linear(strip(f.expr(i["o"][0])))
        sizes = [x for x in f.insts() if x.op in ("call", "invoke") and f.cq(x) == "std::vector::size" and leaf(("ld", f.expr(x["o"][0]))) == "strings_"]
        src = loads_of(f, i["o"][0])
        ok = None
        if len(at) == 1 and list(at)[0][:2] == ("call", "std::vector::size") and len(src) == 1 and len(push) == 1:
            before = f.dominates(src[0], push[0])
            after = f.dominates(push[0], src[0])
            ok = (k == 0 and before) or (k == -1 and after) if (before or after) else None
        tri(R, "V7", name + " index", f.loc(i), ok, "the index entered for a string is not its place in the list")
    for i in f.insts():
        if i.op in ("call", "invoke") and f.cq(i) == "strnlen":
            at, k = linear(strip(f.expr(i["o"][1])))
            ok = k == 0 and len(at) == 1 and list(at.values()) == [8] and leaf(list(at)[0]) == "decodedSizeDoubles_"
            R.check(ok, "V7", name + " width", f.loc(i), "strings are compared over another length than the column's width")


# ------------------------------------------------------------------------------------------------ V8
def narrowing(P, R):
    seen = set()
    for c in codeclib.codec_classes(P):
        sym = c.slots.get("encode")
        f = P.roots["codec"].get(sym)
        if f is None or sym in seen or "IntegerDirect" not in f.dem and c.name != "int32":
            continue
        seen.add(sym)
        name = f.dem.split("(")[0].split("odc::codec::")[-1]
        for i in f.insts():
            if i.op not in ("trunc", "fptosi") or i["t"] not in ("i8", "i16", "i32"):
                continue
            src = f.expr(i["o"][0])
            if not (src[0] == "ld" and src[1][0] == "arg"):
                continue
            w = int(i["t"][1:])
            lo = hi = False
            for p, a, b, fl in comparisons(f.facts_at(i)):
                if uncast(a) != src:
                    continue
                b0 = uncast(b)
                k = numeric(b)
                if p in ("ge", "gt") and (b0[0] == "call" and b0[1] == "std::numeric_limits::min" or k is not None and k >= -2.0 ** (w - 1) - (p == "gt")):
                    lo = True
                if p in ("le", "lt") and (b0[0] == "call" and b0[1] == "std::numeric_limits::max" or k is not None and k <= 2.0 ** (w - 1) - (p == "le")):
                    hi = True
            # cast and back compared with the original
            for p, a, b, fl in comparisons(f.facts_at(i)):
                if p == "eq" and uncast(a) == src and uncast(b) == src and (a != src or b != src):
                    lo = hi = True
            R.check(lo and hi, "V8", name, f.loc(i), "an integer is stored in %d bits without a check that it fits: another value is read back" % w)


# ------------------------------------------------------------------------------------------------ V9, V10
def builders(P, R, types):
    names = {c.base: c.name for c in codeclib.codec_classes(P) if c.name}
    reg = {}
    for f in P.roots["mk"].values():
        m = re.match(r"odc::core::(Integer)?CodecBuilder<odc::codec::(\w+)>::(\w+)\(", f.dem)
        if not m:
            continue
        base = m.group(2)
        if m.group(3) != "make":
            for i in f.insts():
                if i.op in ("call", "invoke") and f.cq(i).endswith("CodecBuilderBase::CodecBuilderBase"):
                    vs = strvals(f, i["o"][1], i)
                    for _, v in vs:
                        if v is None:
                            tri(R, "V9", "name of " + base, f.where(), None, "")
                        else:
                            reg[v] = base
                            R.check(names.get(base) in (None, v), "V9", "name of " + base, f.where(), "codec %s is registered as %s" % (names.get(base), v))
            continue
        order = "OtherByteOrder" if "OtherByteOrder" in f.dem.split("::make(")[1] else "SameByteOrder"
        for i in f.insts():
            if i.op not in ("call", "invoke"):
                continue
            d = f.callee(i) or ""
            mm = re.match(r"odc::codec::(\w+)<(odc::core::\w+)(?:, (\w+))?>::\1\(", d)
            if not mm:
                continue
            R.check(mm.group(1) == base and mm.group(2) == "odc::core::" + order, "V9", "%s %s" % (base, order), f.loc(i),
                    "the builder of %s for %s makes a %s for %s" % (base, order, mm.group(1), mm.group(2).split("::")[-1]))
            if m.group(1):
                fa = f.facts_at(i)
                asd = [t for c, t in fa if c[0] == "call" and c[1].endswith("integersAsDoubles")]
                if mm.group(3) == "long":
                    # reached only for integer types without integersAsDoubles
                    e = edges_where(f, lambda e, t: e[0] == "cmp" and e[1] == "eq" and t and uncast(e[2])[:1] == ("arg",) and e[3][0] == "c" and types.get(e[3][1]) in (INT, BIT))
                    sw = [(b, s) for (b, s, c, tr) in f.edge_conds() if isinstance(tr, tuple) and tr[0] == "case" and {types.get(v) for v in tr[1]} <= {INT, BIT}]
                    r = i.blk not in f.reach(0, avoid_edges=e + sw)
                    tri(R, "V9", "%s %s integers" % (base, order), f.loc(i), (False in asd) and r, "the 64-bit integer variant of %s is made for other columns than integers, or although integers are to be doubles" % base)
                else:
                    # never for integer types unless integersAsDoubles
                    yes = edges_where(f, lambda e, t: e[0] == "call" and e[1].endswith("integersAsDoubles") and t)
                    for tn in (INT, BIT):
                        code = next((k for k, v in types.items() if v == tn), None)
                        dead = edges_where(f, lambda e, t: e[0] == "cmp" and uncast(e[2])[:1] == ("arg",) and e[3][0] == "c" and
                                           ((e[1] == "eq" and t and e[3][1] != code) or (e[1] == "eq" and not t and e[3][1] == code) or
                                            (e[1] == "ne" and not t and e[3][1] != code) or (e[1] == "ne" and t and e[3][1] == code)))
                        dead += [(b, s) for (b, s, c, tr) in f.edge_conds() if isinstance(tr, tuple) and ((tr[0] == "case" and code not in tr[1]) or (tr[0] == "notcase" and code in tr[1]))]
                        R.check(i.blk not in f.reach(0, avoid_edges=yes + dead), "V9", "%s %s doubles for %s" % (base, order, tn), f.loc(i),
                                "the floating point variant of %s is made for %s columns although integers are not to be doubles" % (base, tn))
    used = set(CODECS)
    for n in sorted(used):
        R.check(n in reg, "V9", "registration of " + n, "src/odc/codec", "no builder registers the codec name %s" % n)


FIRST = {INT: {"int32"}, BIT: {"int32"}, REAL: {"long_real"}, DBL: {"long_real"}, STR: {"chars"}}


def columns(P, R, types):
    for f in P.roots["mk"].values():
        if "Column::" not in f.dem:
            continue
        name = f.dem.split("(")[0].split("::")[-1] if "resetCodec" in f.dem else "Column::type"
        for b in f.insts():
            if b.op not in ("call", "invoke") or not f.cq(b).endswith("CodecFactory::build"):
                continue
            for fa, v in strvals(f, b["o"][-2], b):
                if contradictory(fa):
                    continue
                tc = type_cases2(f, fa, types)
                if v == "" or v is None or isinstance(v, tuple):
                    if v != "":
                        tri(R, "V10", "first codec in " + name, f.loc(b), None, "")
                    continue
                for t in (tc or ()):
                    R.check(v in FIRST.get(t, ()), "V10", "%s columns start with %s" % (t, v), f.loc(b), "%s columns start with codec %s, which cannot gather what the choice of the final codec needs" % (t, v))
        if "resetCodec" in f.dem:
            inst = [i for i in f.insts() if is_install(f, i)]
            get = [i for i in f.insts() if i.op in ("call", "invoke") and (f.vcall(i) or (f.cq(i),))[0].endswith("Codec::dataSizeDoubles") and len(i["o"]) == 1]
            put = [i for i in f.insts() if i.op in ("call", "invoke") and (f.vcall(i) or (f.cq(i),))[0].endswith("Codec::dataSizeDoubles") and len(i["o"]) == 2]
            for i in inst:
                ok = f.path_avoiding(i, isret, lambda x: any(x is p for p in put)) is None and \
                    all(contains(f.expr(p["o"][1]), lambda y: y[:1] == ("vcall",) and any(("#", g.id) in y and f.dominates(g, i) for g in get)) for p in put)
                R.check(bool(put) and ok, "V10", "data size kept by resetCodec", f.loc(i), "resetting a column's codec does not keep its data size")


def type_cases2(f, facts, types):
    cur = None
    for c, t in facts:
        s = None
        if c[0] == "switch" and c[2] == "case" and (leaf(c[1]) == "type_" or uncast(c[1])[0] == "arg"):
            s = {types.get(v) for v in c[3]}
        elif c[0] == "cmp" and c[1] in ("eq", "ne") and (leaf(c[2]) == "type_" or uncast(c[2])[0] == "arg") and c[3][0] == "c" and (c[1] == "eq") == t:
            s = {types.get(c[3][1])}
        if s is not None:
            cur = s if cur is None else cur & s
    return cur
