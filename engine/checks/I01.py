"""CSV import: the text reader (src/odc/csv), odbFromCSV and the import tool."""
from ir import *
from loops import *
from frlib import linear
from rangelib import *
from trace import *
from A03 import tri, find_all
from S01 import tr_, has, strip_ids, loop_with, str_tests, THIS, F, LD, all_

CONFIG = {"roots": [
    {"tag": "csv", "re": r"^odc::(TextReaderIterator|TextReader)::|^odc::api::odbFromCSV|^odc::tool::ImportTool::(run|importFile|filterAndImportFile)\(|^odc::sql::ODBCSVTable::",
     "keep": [r"core::Column::", r"core::MetaData::", r"IteratorProxy<", r"TextReaderIterator::(initRowBuffer|parseHeader|parseBitfields|next|TextReaderIterator|close)\(", r"TextReader::TextReader",
              r"odc::Writer<.*>::", r"WriterBufferingIterator::", r"odc::api::odbFromCSV", r"LibOdc::instance", r"TODATable<.*>::", r"ODBCSVTable::ODBCSVTable",
              r"ImportTool::(importFile|filterAndImportFile)", r"tool::Tool::", r"CommandLineParser::", r"SQLOutputConfig::", r"ImportTool::usage"], "depth": 4}]}
MD = ("idx", THIS, ("c", 8), "i8")
MD2 = ("idx", F("columns_"), ("c", 8), "i8")
COLS = (MD, MD2, F("columns_"))
STRQ = r"std::(__cxx11::)?basic_string"


def run(P, R):
    R.rule("H1", "Each name:type of the header line becomes one column, in order, under its own trimmed name with its own type; BITFIELD types with the members parsed from their own text; fewer than two parts are refused; the row buffer is laid out afterwards")
    R.rule("H2", "Every member of a bitfield definition is one name:size pair kept in order; other shapes, repeated names, sizes of zero or less and more than 31 bits are refused")
    R.rule("B1", "The row buffer gives column i the sum of the widths before it, is as long as the sum of all widths, and starts with every column's missing value")
    R.rule("L1", "Every line with text is one row and lines without text are none; the end is reported exactly when no line is left, and then always")
    R.rule("L2", "A line has exactly one value per column, each parsed from its own text by its column's type into its column's place; NULL is the column's missing value; anything else is refused")
    R.rule("L3", "A string is copied whole and zero-padded to its column's width, which grows first when the string is longer, keeping the values already read and telling the reader of the row that the layout changed")
    R.rule("F1", "odbFromCSV reads the given input with the given delimiter through one reader and returns the number of rows written")
    R.rule("T1", "odc import passes files, delimiter and query on, whichever way it runs, maps TAB and SPACE, and refuses a wrong number of parameters")
    R.rule("R1", "A text reader opens the file it is asked for or refuses it, reads header and first row once, hands every caller that one cursor, and deletes only a stream it opened, once")
    for fn in (header, bitfields, buffer, lines, values, api, tool, reader):
        fn(P, R)
    for r, n in (("H1", 1), ("L2", 1), ("B1", 1)):
        R.need(r, n)


# ------------------------------------------------------------------------------------------------ text provenance
def text_of(env, e, r=None, d=8):
    """(source, transformations) of a text value: source 'elem' (the loop's element), ('part', k, source, transformations) or a key of env"""
    e = bare(e)
    if d <= 0:
        return None
    if r is not None and r.elem(e):
        return ("elem", ())
    if e in env:
        return env[e]
    if e[0] == "call" and len(e) > 2:
        if re.search(STRQ + r"::(c_str|data)$", e[1]):
            return text_of(env, e[2], r, d - 1)
        if re.search(STRQ + r"::(operator\[\]|at|begin|front)$", e[1]) and (len(e) == 3 or e[3] == ("c", 0)):
            return text_of(env, e[2], r, d - 1)
        if re.search(r"vector::(operator\[\]|at)$", e[1]) and e[3][0] == "c":
            v = text_of(env, e[2], r, d - 1)
            if v and v[1] and v[1][-1][0] == "split":
                return (v[0], v[1] + (("part", e[3][1]),))
            if v is None and r is not None and bare(e[2]) == bare(r.cont):
                return ("other element", ())
        if re.search(r"vector::front$", e[1]):
            v = text_of(env, e[2], r, d - 1)
            if v and v[1] and v[1][-1][0] == "split":
                return (v[0], v[1] + (("part", 0),))
        if IDENT.search(e[1]):
            return text_of(env, e[2], r, d - 1)
    return None


def literal(env, e):
    e = bare(e)
    if e[0] == "str":
        return e[1]
    v = env.get(e)
    return v[0][1] if v and v[0][0] == "lit" else None


def flow(T, r=None, env=None):
    """after each step: what the text objects hold.  [(step, env before it)]"""
    env = dict(env or {})
    out = []
    for s in T.steps:
        out.append((s, dict(env)))
        if s.kind != "call" or not s.args:
            continue
        a = [bare(x) for x in s.args]
        dst = a[0]
        if re.search(r"eckit::StringTools::(trim|upper|lower|unQuote|front_trim|back_trim)$", s.q) and len(a) > 1:
            env.pop(dst, None)
            v = text_of(out[-1][1], s.args[1], r)
            if v and len(a) == 2:
                env[dst] = (v[0], v[1] + ((s.q.split("::")[-1],),))
        elif re.search(r"eckit::StringTools::split$", s.q) and len(a) > 2:
            env.pop(dst, None)
            v = text_of(out[-1][1], s.args[2], r)
            if v:
                env[dst] = (v[0], v[1] + (("split", literal(out[-1][1], a[1]) or a[1]),))
        elif re.search(r"eckit::StringTools::join$", s.q) and len(a) > 2:
            env.pop(dst, None)
            v = text_of(out[-1][1], s.args[2], r)
            if v:
                env[dst] = (v[0], v[1] + (("join", literal(out[-1][1], a[1]) or a[1]),))
        elif re.search(STRQ + r"::(basic_string|operator=|assign)$", s.q) and len(a) > 1:
            env.pop(dst, None)
            if a[1][0] == "str":
                env[dst] = (("lit", a[1][1]), ())
            else:
                v = text_of(out[-1][1], s.args[1], r)
                if v:
                    env[dst] = v
        elif re.search(r"vector::vector$", s.q) and len(a) > 1:
            env.pop(dst, None)
            if len(a) == 2:
                v = text_of(out[-1][1], s.args[1], r)
                if v:
                    env[dst] = v
            else:
                x, y = s.arg(1), s.arg(2)
                v = iters(T, s, out[-1][1], r)
                if v:
                    env[dst] = v
        elif re.search(STRQ + r"::substr$", s.q) and len(a) > 2:
            env.pop(dst, None)
            v = text_of(out[-1][1], s.args[1], r)
            if v:
                env[dst] = (v[0], v[1] + (("substr", s.arg(2), s.arg(3) if len(a) > 3 else None),))
        elif re.search(r"getline$", s.q) and len(a) > 1:
            env[a[1]] = (("line", s.arg(0)), ())
        elif re.search(r"TextReaderIterator::parseBitfields$", s.q) and len(a) > 1:
            v = text_of(out[-1][1], s.args[1], r)
            env.pop(dst, None)
            if v:
                env[dst] = (v[0], v[1] + (("bitfields",),))
        elif dst[0] == "alloca" and (dst in env) and not re.search(r"::(~|size|length|empty|begin|end|cbegin|cend|operator\[\]|at|c_str|data|find\w*|compare|front|back)", s.q) and not const_arg(T.f, s.i, 0) \
                and not re.search(r"(operator(==|!=|\+)|std::find|StringTools::startsWith)$", s.q):
            env.pop(dst, None)
    return out


def iters(T, s, env, r):
    """a vector made of a range of another: only 'from element k on to the end'"""
    def pos(e, which):
        e = bare(e)
        n = 0
        for _ in range(6):
            if e[0] == "ld":
                e = e[1]
            if e[0] in ("alloca", "fld", "sub"):
                # the call that gave it its value
                c = [t for t in T.steps[:T.index(s)] if t.kind == "store" and root(t.addr) == root(e)]
                if c:
                    e = bare(c[-1].val)
                    continue
                return None
            if e[0] == "call" and re.search(r"operator\+$|std::next$", e[1]):
                n += e[3][1] if len(e) > 3 and e[3][0] == "c" else 1
                e = bare(e[2])
                continue
            if e[0] == "call" and re.search(r"::c?%s$" % which, e[1]):
                v = text_of(env, e[2], r)
                return (v, n) if v else None
            return None
        return None
    a, b = pos(s.args[1], "begin"), pos(s.args[2], "end")
    if a and b and a[0] == b[0] and b[1] == 0 and a[0][1] and a[0][1][-1][0] == "split":
        return (a[0][0], a[0][1] + (("from", a[1]),))
    return None


def size_facts(T, f, obj):
    """decisions on the number of elements of obj"""
    out = []
    for s in T.steps:
        if s.kind == "cond" and s.val[0] == "cmp":
            p, a, b = s.val[1:4]
            for x, y, sw in ((a, b, False), (b, a, True)):
                if x[0] == "call" and re.search(r"::size$", x[1]) and obj(x[2]) and y[0] == "c":
                    out.append((p, sw, y[1], s.truth))
        elif s.kind == "cond" and s.val[0] == "call" and s.val[1].endswith("::empty") and obj(s.val[2]):
            out.append(("eq", False, 0, s.truth))
    return out


def allows(facts, n):
    for p, sw, k, t in facts:
        a, b = (k, n) if sw else (n, k)
        v = {"eq": a == b, "ult": a < b, "slt": a < b}.get(p)
        if v is not None and v != t:
            return False
    return True


# ------------------------------------------------------------------------------------------------ H1
def header(P, R):
    for f in P.find(r"TextReaderIterator::parseHeader\(", "csv"):
        key, w = "parseHeader", f.where()
        L, c, its = loop_with(f, r"MetaData::(addColumn|addBitfield)$")
        if not L or its is None:
            tri(R, "H1", key, w, None if any(True for _ in f.calls(r"addColumn|push_back|emplace")) else False, "no column is declared")
            continue
        rs = [r for r in ranges(f) if r.L is L]
        r = rs[0] if rs else None
        tri(R, "H1", key + ":all", w, (r.start == 0 and r.full and not r.breaks) if r else None, "not every column of the header line is declared")
        whole = tr_(f, stop={L.header})
        for T in whole or []:
            if T.end != "stop" or not r:
                continue
            fl = flow(T)
            env = fl[-1][1] if fl else {}
            v = env.get(r.cont)
            if v is None:
                tri(R, "H1", key + ":line", w, None, "")
                continue
            src, tf = v
            ok = src == ("line", LD("in_")) and [x for x in tf if x[0] not in ("trim", "back_trim", "front_trim")] == [("split", F("delimiter_"))]
            tri(R, "H1", key + ":line", w, ok, "the columns are not the parts of the first line between delimiters")
            tri(R, "H1", key + ":once", w, len(T.calls(r"getline$")) == 1, "more than the first line is taken for the header")
        for T in its:
            if T.end != "stop" or not r:
                continue
            fl = flow(T, r)
            adds = [(s, e) for s, e in fl if s.kind == "call" and re.search(r"MetaData::(addColumn|addBitfield)$", s.q)]
            if len(adds) != 1:
                tri(R, "H1", key + ":once", w, False if not T.calls(r"push_back|emplace") else None, "a column of the header is declared %d times" % len(adds))
                continue
            s, env = adds[0]
            bf = s.q.endswith("addBitfield")
            name, typ = text_of(env, s.args[1], r), text_of(env, s.args[2], r)
            loc = f.loc(s.i)
            tri(R, "H1", key + ":columns", loc, bare(s.args[0]) == F("columns_") if bare(s.args[0])[0] in ("fld", "alloca") else None, "the column is declared elsewhere")
            ntf = [x[0] if x[0] != "part" else x for x in name[1]] if name else None
            tri(R, "H1", key + ":name", loc, None if name is None else name[0] == "elem" and ("split", ":") in name[1] and ("part", 0) in name[1] and not {"upper", "lower", "unQuote"} & set(ntf),
                "the column is not declared under its own name")
            tri(R, "H1", key + ":trim", loc, None if name is None else any("trim" in x for x in ntf if isinstance(x, str)), "spaces around the column's name are kept")
            if bf:
                tri(R, "H1", key + ":members", loc, None if typ is None else typ[0] == "elem" and [x[0] for x in typ[1]][-1:] == ["bitfields"] and not any(x[0] in ("upper", "lower") for x in typ[1]),
                    "the members of a bitfield are not those of its own text")
            else:
                tri(R, "H1", key + ":type", loc, None if typ is None else own_type(typ), "the column is not declared with its own type")
            # dispatch
            sw = [(s2, e2) for s2, e2 in fl if s2.kind == "call" and s2.q.endswith("StringTools::startsWith")]
            tr = [s2.truth for s2 in T.steps if s2.kind == "cond" and s2.val[0] == "call" and s2.val[1].endswith("StringTools::startsWith")]
            if len(sw) == 1 and len(tr) == 1:
                s2, e2 = sw[0]
                lit, t2 = literal(e2, s2.args[1]), text_of(e2, s2.args[0], r)
                tri(R, "H1", key + ":kind", f.loc(s2.i), None if lit is None or t2 is None else lit == "BITFIELD" and own_type(t2) and tr[0] == bf,
                    "a column is taken for a bitfield by something other than its type starting with BITFIELD")
            else:
                tri(R, "H1", key + ":kind", w, None, "")
            fs = size_facts(T, f, lambda x: splitted(fl, x, r))
            tri(R, "H1", key + ":parts", w, not allows(fs, 1) and not allows(fs, 0), "a column without a type is accepted")
            if fs:
                tri(R, "H1", key + ":parts-ok", w, None if not (name and bf) else allows(fs, 3), "a bitfield column is refused for its members")
        # afterwards
        for T in tr_(f, unroll=0) or []:
            if T.end != "ret":
                continue
            n = T.calls(r"::initRowBuffer$")
            tri(R, "H1", key + ":buffer", w, len(n) >= 1 if n or not T.calls(r"operator new\[\]$") else None, "the row buffer is not laid out for the columns")
        for i in f.calls(r"::initRowBuffer$"):
            tri(R, "H1", key + ":buffer-late", f.loc(i), True if not any(f.may_follow(i, j) for j in f.calls(r"MetaData::(addColumn|addBitfield)$")) else (None if i.blk in L.body else False),
                "the row buffer is laid out before the columns are known")


def own_type(v):
    src, tf = v
    if src != "elem":
        return False
    names = [x[0] for x in tf]
    if "upper" not in names or ("split", ":") not in tf:
        return False
    if ("part", 1) in tf:
        return True
    return ("from", 1) in tf and ("join", ":") in tf


def splitted(fl, x, r):
    """x holds the parts of the loop's element"""
    x = bare(x)
    for s, env in reversed(fl):
        v = env.get(x)
        if v:
            return v[0] == "elem" and v[1] and v[1][-1] == ("split", ":")
    return False


# ------------------------------------------------------------------------------------------------ H2
def bitfields(P, R):
    for f in P.find(r"TextReaderIterator::parseBitfields\(", "csv"):
        key, w = "parseBitfields", f.where()
        L, c, its = loop_with(f, r"vector::(push_back|emplace_back)$")
        rs = [r for r in ranges(f) if r.L is L] if L else []
        if not rs or its is None:
            tri(R, "H2", key, w, None, "")
            continue
        r = rs[0]
        brk = [b for b in r.breaks]
        tri(R, "H2", key + ":all", w, r.start == 0 and r.full, "not every member of the definition is taken")
        for T in tr_(f, stop={L.header}) or []:
            if T.end != "stop":
                continue
            fl = flow(T, env={("arg", 1, f.argname(1)) if hasattr(f, "argname") else None: ("text", ())})
            env = fl[-1][1] if fl else {}
            v = env.get(r.cont)
            if v is None:
                # find by the split call
                v = next((e.get(bare(s.args[0])) for s, e in reversed(fl) if s.kind == "call"), None)
            facts = {}
            for s in T.steps:
                if s.kind == "cond" and s.val[:2] == ("cmp", "eq") and s.val[3] == ("c", -1) or s.kind == "cond" and s.val[:2] == ("cmp", "eq") and s.val[3][0] == "c" and s.val[3][1] in (2 ** 64 - 1,):
                    x = s.val[2]
                    if x[0] == "call" and re.search(r"::(find|find_first_of|rfind)$", x[1]):
                        ch = x[3][1] if len(x) > 3 and x[3][0] == "c" else None
                        facts[ch] = s.truth
            fnd = T.calls(STRQ + r"::(find|find_first_of|rfind|find_last_of)$")
            if fnd:
                tri(R, "H2", key + ":brackets", w, facts.get(ord("[")) is False and facts.get(ord("]")) is False if facts or not T.calls(r"startsWith|back$|front$") else None,
                    "a definition without brackets is accepted")
            for s in T.calls(STRQ + r"::substr$"):
                a, n = s.arg(2), s.arg(3) if len(s.args) > 3 else None
                if n is None:
                    continue
                la, lk = linear(strip_ids(a))
                na, nk = linear(strip_ids(n))
                op = [x for x in la if has(x, r"::find") and contains(x, lambda y: y == ("c", ord("[")))]
                cl = [x for x in na if has(x, r"::find") and contains(x, lambda y: y == ("c", ord("]")))]
                ok = len(la) == 1 and op and la[op[0]] == 1 and lk == 1 and cl and na[cl[0]] == 1 and na.get(op[0]) == -1 and nk == -1 and len(na) == 2
                tri(R, "H2", key + ":inside", f.loc(s.i), bool(ok) if op or cl else None, "the members are not the text between the brackets")
        total = None
        for T in its:
            if T.end != "stop":
                continue
            fl = flow(T, r)
            push = [(s, e) for s, e in fl if s.kind == "call" and re.search(r"vector::(push_back|emplace_back)$", s.q)]
            nm = [(s, e) for s, e in push if text_of(e, s.args[1], r) is not None]
            sz = [(s, e) for s, e in push if s.kind == "call" and text_of(e, s.args[1], r) is None]
            if len(nm) != 1 or len(sz) != 1:
                tri(R, "H2", key + ":once", w, False if len(push) != 2 else None, "a member is taken %d times" % len(nm))
                continue
            s, e = nm[0]
            v = text_of(e, s.args[1], r)
            tri(R, "H2", key + ":name", f.loc(s.i), v[0] == "elem" and ("split", ":") in v[1] and ("part", 0) in v[1], "a member's name is not the text before its colon")
            s2, e2 = sz[0]
            val = s2.arg(1)
            conv = [t for t, en in fl if t.kind == "call" and re.search(r"^(atoi|atol|strtol\w*|std::sto\w+)$|Translator::operator\(\)$", t.q)]
            if conv:
                ct = conv[-1]
                ev = next(en for t, en in fl if t is ct)
                src = text_of(ev, ct.args[1 if "Translator" in ct.q else 0], r)
                tri(R, "H2", key + ":size", f.loc(s2.i), None if src is None else src[0] == "elem" and ("part", 1) in src[1] and contains(val, lambda x: x[:2] == ("call", ct.q)) and not arith(val),
                    "a member's size is not the number after its colon")
                num = lambda x: x[0] == "call" and x[1] == ct.q
                lo = [(c, t) for c, t in T.conds() if c[0] == "cmp" and any(num(uncast(y)) for y in c[2:4])]
                tri(R, "H2", key + ":positive", w, not possible(lo, num, 0) and not possible(lo, num, -1) and not possible(lo, num, -2 ** 20), "a size of zero or less is accepted")
                tri(R, "H2", key + ":small", w, all(possible(lo, num, k) for k in (1, 2, 16, 30, 31)), "a size of 1 to 31 is refused")
            else:
                tri(R, "H2", key + ":size", w, None, "")
            fs = size_facts(T, f, lambda x: splitted(fl, x, r))
            tri(R, "H2", key + ":pair", w, not any(allows(fs, k) for k in (0, 1, 3, 4)), "a member that is not a name and a size is accepted")
            dup = [s3 for s3 in T.calls(r"^std::(find|count)$")]
            if dup:
                d = [s3 for s3 in T.steps if s3.kind == "cond" and s3.val[0] == "call" and re.search(r"operator(==|!=)$", s3.val[1])]
                k = T.index(dup[-1])
                d = [s3 for s3 in d if T.index(s3) > k]
                vdup = [(s3.truth == s3.val[1].endswith("==")) for s3 in d]
                dv = next((text_of(en, t.args[2], r) for t, en in fl if t is dup[-1]), None)
                tri(R, "H2", key + ":unique", w, None if dv is None or not vdup or dup[-1].q.endswith("count") else vdup[0] is True and dv == v, "a repeated name is accepted")
            else:
                tri(R, "H2", key + ":unique", w, False if not T.calls(r"(set|map)::(insert|emplace|find|count)|any_of|none_of") and not inner_loop(f, L) else None, "a repeated name is accepted")
            # the running total
            for ph in header_phis(L):
                nx = next_phi(T, L, ph.id)
                if nx is None or ("phi", ph.id) == r.it:
                    continue
                at, k = linear(strip_ids(nx))
                if ("phi", ph.id) in at and len(at) == 2 and k == 0:
                    total = ("phi", ph.id)
                    other = [x for x in at if x != total]
                    tri(R, "H2", key + ":total", w, at[total] == 1 and at[other[0]] == 1 and (has(("x", other[0]), r"ato|sto|Translator|strtol") or None), "the total number of bits does not count every member's size")
        ends = [T for T in its if T.end == "ret"]
        if total is None:
            # the number the limit is put on
            lims = {uncast(y) for T in ends for c, t in T.conds() if c[0] == "cmp" and any(z[0] == "c" and 2 < z[1] < 65 for z in c[2:4]) for y in c[2:4]}
            lims = {y for y in lims if y[0] == "phi" and y != r.it and any(h.id == y[1] for h in header_phis(L))}
            if len(lims) == 1:
                y = lims.pop()
                vs = [strip_ids(next_phi(T, L, y[1])) for T in its if T.end == "stop"]
                tri(R, "H2", key + ":total", w, False if any(has(("x", v), r"ato|sto|Translator|strtol") or v == y or v[0] == "c" for v in vs) else None, "the total number of bits does not count every member's size")
        late = []
        for T in its:
            if T.end == "stop" and total is not None:
                nx = linear(strip_ids(next_phi(T, L, total[1])))
                nm = lambda x, nx=nx: linear(strip_ids(x)) == nx
                late.append(([(c, t) for c, t in T.conds() if c[0] == "cmp" and any(nm(uncast(y)) for y in c[2:4])], nm))
        for T in ends:
            lim = [(c, t) for c, t in T.conds() if c[0] == "cmp" and (total is not None and any(uncast(y) == total for y in c[2:4]))]
            if total is None:
                tri(R, "H2", key + ":limit", w, None, "")
                continue
            num = lambda x: x == total
            # or never more on the way
            early = all(not possible(cs, nm, 32) and not possible(cs, nm, 64) for cs, nm in late)
            tri(R, "H2", key + ":limit", w, late != [] and early or not possible(lim, num, 32) and not possible(lim, num, 64), "more than 31 bits are accepted")
            tri(R, "H2", key + ":limit-ok", w, possible(lim, num, 31) and possible(lim, num, 1), "31 bits are refused")
            mk = T.calls(r"std::(make_pair|pair::pair)$")
            if len(mk) == 1:
                names = {root(bare(s.args[0])) for U in its for s, e in flow(U, r) if s.kind == "call" and re.search(r"vector::(push_back|emplace_back)$", s.q) and text_of(e, s.args[1], r) is not None}
                a = [root(bare(x)) for x in mk[0].args]
                a = a[-2:]
                tri(R, "H2", key + ":result", f.loc(mk[0].i), (a[0] in names and a[1] not in names) if len(names) == 1 else None, "the definition is not made of the names and the sizes")


def inner_loop(f, L):
    return any(M is not L and M.body < L.body for M in loops(f))


def arith(e):
    return contains(e, lambda x: x[0] in ("add", "sub", "mul", "udiv", "sdiv", "shl", "lshr", "and", "or", "xor", "srem", "urem"))


def possible(conds, num, n):
    """the decisions allow the number to be n"""
    for c, t in conds:
        a, b = uncast(c[2]), uncast(c[3])
        x, y = (n if num(a) else a[1] if a[0] == "c" else None), (n if num(b) else b[1] if b[0] == "c" else None)
        if x is None or y is None:
            continue
        m = 2 ** 64 - 1
        v = {"eq": x == y, "slt": x < y, "ult": (x & m) < (y & m)}.get(c[1])
        if v is not None and v != t:
            return False
    return True


# ------------------------------------------------------------------------------------------------ B1
def ofcol(e, q, ix):
    """e is q() of column ix"""
    e = bare(e)
    return e[0] in ("call", "vcall") and re.search(r"Column::%s$" % q, e[1]) is not None and colat(e[2], ix)


def colat(e, ix):
    e = bare(e)
    if e[0] == "ld":
        e = bare(e[1])
    if e[0] == "call" and re.search(r"(vector|MetaData)::(operator\[\]|at)$", e[1]):
        return e[2] in COLS and bare(e[3]) == ix
    if e[0] == "call" and IDENT.search(e[1]) and len(e) > 2:
        return colat(e[2], ix)
    return False


def place(e, ix):
    """address of column ix's values in the row buffer"""
    e = bare(e)
    if e[0] == "idx" and bare(e[1]) == LD("lastValues_") and e[3] == "double":
        return bare(e[2]) == ("ld", ("idx", LD("columnOffsets_"), ix, "i64"))
    return False


def in_row(e):
    return contains(e, lambda x: x == LD("lastValues_"))


def buffer(P, R):
    for f in P.find(r"TextReaderIterator::initRowBuffer\(", "csv"):
        key, w = "initRowBuffer", f.where()
        news = list(f.calls(r"operator new\[\]$"))
        off = ini = None
        for L in loops(f):
            c = counted(f, L)
            try:
                its = [T for T in body(f, L) if T.end == "stop"]
            except TooMany:
                continue
            for T in its:
                for s in T.stores():
                    a = s.addr
                    if a[0] == "idx" and bare(a[1]) == LD("columnOffsets_"):
                        off = (L, c, its)
                    if a[0] == "idx" and in_row(a):
                        ini = (L, c, its)
        iscols = lambda c: c is not None and (c[1] in COLS or c[1][:1] == ("count",) and c[1][1][:1] == ("call",) and c[1][1][1].endswith("::size") and c[1][1][2] in COLS)
        if off is None:
            tri(R, "B1", key + ":offsets", w, None, "")
        else:
            L, c, its = off
            tri(R, "B1", key + ":offsets-all", w, (c[2] == 0 and c[3]) if iscols(c) else None, "not every column is given a place")
            for T in its:
                if not c:
                    continue
                ix = c[0]
                st = [s for s in T.stores() if s.addr[0] == "idx" and bare(s.addr[1]) == LD("columnOffsets_")]
                if len(st) != 1:
                    tri(R, "B1", key + ":offsets", w, False, "a column is given %d places" % len(st))
                    continue
                v = strip_ids(st[0].full(st[0].val))
                tri(R, "B1", key + ":own", f.loc(st[0].i), bare(st[0].addr[2]) == ix, "the place is recorded for another column")
                if v == LD("rowDataSizeDoubles_"):
                    nx = T.field("rowDataSizeDoubles_")
                elif v[0] == "phi":
                    nx = next_phi(T, L, v[1])
                    nx = strip_ids(nx) if nx is not None else None
                else:
                    # the place after this column?
                    tri(R, "B1", key + ":offset", f.loc(st[0].i), False if v[0] in ("add", "call", "c") else None, "a column's place is not the sum of the widths before it")
                    continue
                if nx is None:
                    tri(R, "B1", key + ":advance", w, False, "all columns share one place")
                    continue
                at, k = linear(strip_ids(nx))
                rest = [x for x in at if x != v]
                if len(rest) == 1:
                    tri(R, "B1", key + ":advance", w, at.get(v) == 1 and k == 0 and at[rest[0]] == 1 and ofcol(rest[0], "dataSizeDoubles", ix) if has(("x", rest[0]), r"dataSizeDoubles$") else None,
                        "the next column's place is not after this column's width")
                else:
                    tri(R, "B1", key + ":advance", w, False if not rest else None, "the next column's place is not after this column's width")
            for T in tr_(f, stop={L.header}) or []:
                if T.end == "stop":
                    z = T.field("rowDataSizeDoubles_")
                    if z is None:
                        zs = [strip_ids(e) for h in header_phis(L) for _, e in phi_parts(L, h)[0] if ("phi", h.id) != c[0]] if c else []
                        if not zs and v == LD("rowDataSizeDoubles_"):
                            tri(R, "B1", key + ":from0", w, False, "the first column's place is where the previous layout ended")
                            continue
                        tri(R, "B1", key + ":from0", w, None if not zs else ("c", 0) in zs, "the first column's place is not the start of the row")
                    else:
                        tri(R, "B1", key + ":from0", w, z == ("c", 0), "the first column's place is not the start of the row")
            dn = [i for i in news if contains(strip_ids(f.expr(i["o"][0])), lambda x: x == LD("rowDataSizeDoubles_") or x[0] == "phi")]
            for i in dn:
                tri(R, "B1", key + ":length", f.loc(i), not f.may_follow(i, f.B[L.header][0]), "the row buffer is allocated before its length is known")
                e = strip_ids(f.expr(i["o"][0]))
                xs = find_all(e, lambda x: x[0] in ("add", "sub", "udiv", "lshr"))
                tri(R, "B1", key + ":size", f.loc(i), False if any(x[0] in ("sub", "udiv", "lshr") for x in xs) else True if not xs else None, "the row buffer is shorter than a row")
            if not dn and news:
                mine = [strip_ids(f.expr(s["o"][0])) for s in f.insts() if s.op == "store" and f.expr(s["o"][1]) == F("lastValues_")]
                mine = [e for e in mine if e[0] == "call" and e[1].endswith("operator new[]")]
                fixed = [e for e in mine if not has(("x", e), r"dataSizeDoubles|accumulate") and (has(("x", e), r"::size$") or e[2][0] == "c")]
                tri(R, "B1", key + ":size", w, False if fixed else None, "the row buffer does not have the length of a row")
        if ini is None:
            tri(R, "B1", key + ":initial", w, None if any(True for _ in f.calls(r"missingValue$")) else False, "the row does not start with the columns' missing values")
        else:
            L, c, its = ini
            tri(R, "B1", key + ":initial-all", w, (c[2] == 0 and c[3]) if iscols(c) else None, "not every column starts with its missing value")
            for T in its:
                if not c:
                    continue
                st = [s for s in T.stores() if s.addr[0] == "idx" and in_row(s.addr)]
                ok = len(st) == 1 and place(st[0].addr, c[0])
                tri(R, "B1", key + ":initial-place", w, ok if len(st) == 1 else False, "a missing value goes to another place than its column's")
                if len(st) == 1:
                    tri(R, "B1", key + ":initial", f.loc(st[0].i), ofcol(st[0].full(st[0].val), "missingValue", c[0]), "a column does not start with its own missing value")
        # the old buffers are released before being forgotten
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            for nm in ("lastValues_", "columnOffsets_"):
                st = [s for s in T.stores(nm)]
                if not st:
                    continue
                gone = [s for s in T.calls(r"operator delete(\[\])?$") if s.arg(0) == LD(nm)]
                isnull = any(c == ("cmp", "eq", LD(nm), ("null",)) and t for c, t in T.conds())
                tri(R, "B1", "%s:%s:freed" % (key, nm), w, len(gone) == 1 and T.index(gone[0]) < T.index(st[0]) if gone else (True if isnull else None), "the previous buffer is freed after it was replaced")


# ------------------------------------------------------------------------------------------------ L1
def got_line(s, T):
    """truth of 'a line was read' of a decision, or None"""
    e, t = s.val, s.truth
    e, t = uncast(e), t
    if not (e[0] == "call" and has(e, r"getline$")):
        return None
    if re.search(r"::(operator!|fail|eof|bad)$", e[1]):
        return not t
    if re.search(r"::(operator bool|good|operator void\*)$", e[1]):
        return t
    return None


def col_loop(f):
    for L in loops(f):
        if any(i.blk in L.body for i in f.calls(r"Column::type$")):
            return L
    return None


def outer_col_loop(f):
    Ls = [L for L in loops(f) if any(i.blk in L.body for i in f.calls(r"Column::type$")) and not any(i.blk in L.body for i in f.calls(r"getline$"))]
    Ls.sort(key=lambda L: -len(L.body))
    return Ls[0] if Ls else None


def lines(P, R):
    for f in P.find(r"TextReaderIterator::next\(", "csv"):
        key, w = "next", f.where()
        L = outer_col_loop(f)
        if L is None:
            tri(R, "L1", key, w, None, "")
            continue
        G = [M for M in loops(f) if any(i.blk in M.body for i in f.calls(r"getline$"))]
        paths = []
        pre = tr_(f, stop={L.header})
        for T in pre or []:
            paths.append(T)
        for M in G:
            try:
                paths += [T for T in traces(f, start=M.header, stop={M.header, L.header})]
            except TooMany:
                pass
        skips = False
        for T in paths:
            gl = [s for s in T.steps if s.kind == "cond" and got_line(s, T) is not None]
            took = [got_line(s, T) for s in gl]
            calls = T.calls(r"getline$")
            fl = flow(T)
            blank = []
            for s in T.steps:
                if s.kind != "cond":
                    continue
                e, t = s.val, s.truth
                if e[0] == "call" and re.search(STRQ + r"::empty$", e[1]):
                    blank.append((s, e[2], t))
                elif e[:2] == ("cmp", "eq") and e[3] == ("c", 0) and e[2][0] == "call" and re.search(STRQ + r"::(size|length)$", e[2][1]):
                    blank.append((s, e[2][2], t))
                elif e[0] == "call" and re.search(r"operator==$", e[1]) and any(x == ("str", "") for x in e[2:]):
                    blank.append((s, e[2], t))
            back = T.end == "stop" and T.at in {M.header for M in G} and T.at != L.header
            done = [s.truth for s in T.steps if s.kind == "cond" and uncast(s.val) in (LD("noMore_"), ("trunc", "i8", "i1", LD("noMore_")))]
            if back and calls:
                skips = True
                others = [s for s in T.steps if s.kind == "cond" and s not in gl and not any(s is b[0] for b in blank) and uncast(s.val) not in (LD("noMore_"),)]
                isb = any(t for _, _, t in blank)
                tri(R, "L1", key + ":skip", w, isb if not others or isb else False, "a line with text is skipped")
                tri(R, "L1", key + ":skip-read", w, took[-1] if took else None, "the end of the input is taken for a blank line")
                for s, x, t in blank:
                    e2 = next((en for q, en in fl if q is s), {})
                    v = text_of(e2, x)
                    if v is not None and t:
                        tri(R, "L1", key + ":blank", f.loc(s.i), any("trim" in y[0] for y in v[1]) or None, "")
            if T.end == "stop" and T.at == L.header:
                tri(R, "L1", key + ":row", w, bool(calls) if T in (pre or []) or calls else None, "a row is made without a line")
                if calls:
                    tri(R, "L1", key + ":read", w, took[-1] if took else None if T.calls(r"::(good|eof|fail|operator bool|operator!)") else False, "a row is made although no line is left")
                    if len(calls) > 1:
                        # every line but the last was blank
                        tri(R, "L1", key + ":each", w, None if len([b for b in blank if b[2]]) >= len(calls) - 1 else False, "a line is read over")
                tri(R, "L1", key + ":flag", w, T.field("newDataset_") == ("c", 0) if T in (pre or []) else None, "the row before's change of layout is reported again")
            if T.end == "ret":
                v = bare(T.ret)
                val = known(uncast(v)) if v[0] in ("c", "cmp") else None
                if val is None and v[:2] == ("cmp", "ne"):
                    val = known(v)
                if took and not took[-1]:
                    tri(R, "L1", key + ":end", w, None if val is None else not val, "the end of the input is not reported")
                    nm = T.field("noMore_")
                    tri(R, "L1", key + ":stay", w, nm == ("c", 1) if nm is not None else False, "the end of the input is not remembered")
                elif done and done[0] and not calls:
                    tri(R, "L1", key + ":ended", w, None if val is None else not val, "a row is reported after the end")
                elif calls and (took and took[-1]):
                    ncols = any(c[:2] == ("cmp", "eq") and c[3] == ("c", 0) and t and has(("x", c[2]), r"::size$") for c, t in T.conds())
                    if not ncols:
                        tri(R, "L1", key + ":more", w, None if val is None and not blank else not any(t for _, _, t in blank) and val is not False, "the rows after a line without text are dropped")
                elif not calls and not done:
                    tri(R, "L1", key + ":end", w, None, "")
        if pre:
            for T in pre:
                if T.end == "stop" or T.calls(r"getline$"):
                    done = [s for s in T.steps if s.kind == "cond" and uncast(s.val) in (LD("noMore_"),)]
                    g = T.calls(r"getline$")
                    ok = bool(done) and not done[0].truth and (not g or T.index(done[0]) < T.index(g[0]))
                    tri(R, "L1", key + ":noMore", w, ok, "lines are read after the end was reported")
        if not skips:
            tri(R, "L1", key + ":blank-lines", w, None, "")
        # a completed row is reported as a row
        try:
            for T in body(f, L):
                if T.end == "ret":
                    v = bare(T.ret)
                    k = known(v)
                    tri(R, "L1", key + ":reported", w, None if k is None else k, "a row is reported as the end")
                    if k is None:
                        ok = v[0] == "cmp" and v[1] == "ne" and v[3] == ("c", 0) and has(("x", v[2]), r"::size$")
                        tri(R, "L1", key + ":reported", w, True if ok else None, "")
        except TooMany:
            pass
    # end test of the cursor is by next(): operator!= is not used for it; nothing else may set noMore_ back
    for f in P.find(r"TextReaderIterator::", "csv"):
        for s in f.insts():
            if s.op == "store":
                a = f.expr(s["o"][1])
                if a == F("noMore_"):
                    v = f.expr(s["o"][0])
                    ctor = "TextReaderIterator::TextReaderIterator" in f.qual
                    tri(R, "L1", "noMore:" + f.qual.split("::")[-1], f.loc(s), ctor or v == ("c", 1) if v[0] == "c" else None, "the end of the input is forgotten")


# ------------------------------------------------------------------------------------------------ L2 / L3
INTS = ("long", "long long")


def trans(f, s):
    """target type of a translation from text: Translator<string, X>, std::stoX, strtoX"""
    sym = f.csym(s.i)
    d = f.P.dem(sym) if sym else ""
    m = re.search(r"eckit::Translator<.*basic_string<.*>\s*(?:>)?, ([\w ]+)>::operator\(\)", d)
    if m:
        return m.group(1), 1
    m = re.search(r"^std::(__cxx11::)?sto(\w+)\(", d)
    if m:
        return {"d": "double", "f": "float", "l": "long", "ll": "long long", "i": "int", "ld": "long double", "ul": "unsigned long", "ull": "unsigned long long"}.get(m.group(2)), 0
    m = re.search(r"^(strtod|atof|strtof|strtol|strtoll|atoi|atol|atoll|strtold)$", s.q)
    if m:
        return {"strtod": "double", "atof": "double", "strtof": "float", "strtol": "long", "strtoll": "long long", "atoi": "int", "atol": "long", "atoll": "long long", "strtold": "long double"}[m.group(1)], 0
    return None, None


ACCEPT = {2: ("float", "double"), 5: ("double", "long double"), 1: INTS, 4: INTS}
TNAME = {1: "integer", 2: "real", 3: "string", 4: "bitfield", 5: "double"}


def col_type(T, ix):
    """(type of column ix fixed on the path or None, types excluded, a decision on another column's type)"""
    v, neg, other = None, set(), False
    for c, t in T.conds():
        if c[0] == "cmp" and c[1] == "eq" and c[3][0] == "c" and c[2][0] == "call" and c[2][1].endswith("Column::type"):
            if not ofcol(c[2], "type", ix):
                other = True
                continue
            if t:
                v = c[3][1]
            else:
                neg.add(c[3][1])
    return v, neg, other


def values(P, R):
    for f in P.find(r"TextReaderIterator::next\(", "csv"):
        key, w = "next", f.where()
        L = outer_col_loop(f)
        rs = [r for r in ranges(f) if r.L is L] if L else []
        if not rs or rs[0].kind != "ix":
            tri(R, "L2", key, w, None, "")
            continue
        r = rs[0]
        tri(R, "L2", key + ":all", w, r.start == 0 and r.full and not r.breaks, "not every column of the row is given its value")
        pre = [T for T in tr_(f, stop={L.header}) or [] if T.end == "stop" and T.at == L.header]
        for M in loops(f):
            if any(i.blk in M.body for i in f.calls(r"getline$")):
                try:
                    pre += [T for T in traces(f, start=M.header, stop={M.header, L.header}) if T.end == "stop" and T.at == L.header]
                except TooMany:
                    pass
        vobj = None
        for T in pre:
            sp = T.calls(r"StringTools::split$")
            if len(sp) != 1:
                tri(R, "L2", key + ":split", w, None, "")
                continue
            fl = flow(T)
            v = next(text_of(e, s.args[2]) for s, e in fl if s is sp[0])
            vobj = bare(sp[0].args[0])
            tri(R, "L2", key + ":split", f.loc(sp[0].i), None if v is None else v[0] == ("line", LD("in_")) and bare(sp[0].args[1]) == F("delimiter_") and not any(x[0] in ("upper", "lower", "unQuote", "substr") for x in v[1]),
                "the values are not the parts of the line between delimiters")
            k = T.index(sp[0])
            rel = []
            for s in T.steps[k:]:
                if s.kind == "cond" and s.val[0] == "cmp":
                    x, y = [z[2] if z[0] == "call" and z[1].endswith("::size") else None for z in s.val[2:4]]
                    if {x in (vobj,), y in (vobj,)} == {True, False} and (x in COLS or y in COLS):
                        rel.append((s.val[1], x in COLS, s.truth))
            okp = ("eq", True, True) in rel or ("eq", False, True) in rel or {("ult", True, False), ("ult", False, False)} <= set(rel)
            tri(R, "L2", key + ":count", w, okp, "a line with fewer or more values than columns is accepted")
        if vobj is None:
            continue
        if r.cont != vobj:
            # the loop runs over the columns; elements are still indexed by it
            if r.cont not in COLS and not (r.cont[:1] == ("count",)):
                tri(R, "L2", key, w, None, "")
                continue
            r = Range(r.L, r.kind, r.it, vobj, r.start, r.full, r.breaks)
        ix = r.it
        try:
            its = body(f, L)
        except TooMany:
            tri(R, "L2", key, w, None, "")
            continue
        for T in its:
            fl = flow(T, r)
            null = is_null(R, f, key, T, fl, r)
            typ, neg, other = col_type(T, ix)
            if other:
                tri(R, "L2", key + ":type-own", w, False, "a value is parsed by another column's type")
                continue
            if T.end == "throw":
                # a refusal by a throw statement, not by a callee
                if T.calls(r"__cxa_throw$") and typ in TNAME and null is False:
                    tri(R, "L2", "%s:%s" % (key, TNAME[typ]), f.loc(T.at), False, "values of %s columns are refused" % TNAME[typ])
                elif T.calls(r"__cxa_throw$") and null is True:
                    tri(R, "L2", key + ":null", f.loc(T.at), False, "NULL is refused")
                elif typ is None and null is False and T.calls(r"__cxa_throw$"):
                    for t in sorted(set(TNAME) - neg):
                        tri(R, "L2", "%s:%s" % (key, TNAME[t]), f.loc(T.at), False, "values of %s columns are refused" % TNAME[t])
                continue
            if T.end != "stop":
                continue
            st = [s for s in T.stores() if s.addr[0] == "idx" and in_row(s.addr)]
            cp = [s for s in T.calls(r"^(llvm\.memcpy|llvm\.memmove|llvm\.memset|memcpy|memset|memmove|strncpy|strcpy|std::(copy|copy_n|fill|fill_n))") if in_row(s.arg(0))]
            if null:
                tri(R, "L2", key + ":null-once", w, len(st) == 1 if not cp or len(st) != 1 else True, "NULL sets the column %d times" % len(st))
                for s in st[:1]:
                    tri(R, "L2", key + ":null", f.loc(s.i), place(s.addr, ix) and ofcol(s.full(s.val), "missingValue", ix), "NULL is not the column's missing value in the column's place")
                continue
            if null is None:
                # no distinction: everything is parsed
                continue
            kinds = [typ] if typ is not None else sorted(set(range(0, 6)) - neg)
            for t in kinds:
                if t not in TNAME:
                    if typ is None and (st or cp):
                        tri(R, "L2", key + ":unknown", w, None, "")
                    continue
                if t == 3:
                    string(R, f, key, T, fl, r, st, cp, ix)
                else:
                    number(R, f, key, T, fl, r, st, cp, ix, t)


def is_null(R, f, key, T, fl, r):
    """truth of 'the value is NULL' on the path"""
    for s in T.steps:
        if s.kind == "cond" and s.val[0] == "call" and re.search(r"operator(==|!=)$|::compare$", s.val[1]) or s.kind == "cond" and s.val[:2] == ("cmp", "eq") and s.val[2][0] == "call" and s.val[2][1].endswith("compare"):
            e = s.val if s.val[0] == "call" else s.val[2]
            t = s.truth == (s.val[0] != "call" or s.val[1].endswith("=="))
            c = next((x for x in T.steps[:T.index(s)][::-1] if x.kind == "call" and x.q == e[1]), None)
            if c is None:
                continue
            env = next(en for q, en in fl if q is c)
            lits = [literal(env, x) for x in c.args]
            lit = next((x for x in lits if x is not None), None)
            v = next((text_of(env, x, r) for x in c.args if text_of(env, x, r) is not None and literal(env, x) is None), None)
            if lit is None or v is None:
                continue
            ok = v[0] == "elem"
            if any(x[0] == "unQuote" for x in v[1]):
                ok = False
            tri(R, "L2", key + ":NULL", f.loc(c.i), ok and lit == ("NULL" if any(x[0] == "upper" for x in v[1]) else "null" if any(x[0] == "lower" for x in v[1]) else None),
                "missing values are not recognised by the word NULL in any case")
            tri(R, "L2", key + ":NULL-trim", f.loc(c.i), any("trim" in x[0] for x in v[1]), "NULL with spaces around it is not recognised")
            return t
    return None


def number(R, f, key, T, fl, r, st, cp, ix, t):
    k = "%s:%s" % (key, TNAME[t])
    w = f.where()
    if len(st) != 1 or cp:
        tri(R, "L2", k + ":once", w, False if not cp else None, "the value of a column of type %s is stored %d times" % (TNAME[t], len(st)))
        return
    s = st[0]
    tri(R, "L2", k + ":place", f.loc(s.i), place(s.addr, ix), "the value goes to another column's place")
    cs = [(c, en) for c, en in fl if c.kind == "call" and trans(f, c)[0]]
    v = s.full(s.val)
    cs = [(c, en) for c, en in cs if contains(s.val, lambda x: x == c.val) or contains(v, lambda x: x[0] == "call" and x[1] == c.q)]
    if len(cs) != 1:
        tri(R, "L2", k + ":parse", f.loc(s.i), False if v[0] in ("c", "f") or not has(("x", v), r".") else None, "the value is not parsed from the text")
        return
    c, en = cs[0]
    ty, pos = trans(f, c)
    tri(R, "L2", k + ":parse", f.loc(c.i), ty in ACCEPT[t], "a value of type %s is parsed as %s" % (TNAME[t], ty))
    src = text_of(en, c.args[pos], r)
    tri(R, "L2", k + ":text", f.loc(c.i), None if src is None else src[0] == "elem" and all("trim" in x[0] for x in src[1]), "the value is parsed from another text than its own")
    narrow = []
    e = s.val
    while e[0] in ("fptrunc", "fpext", "sitofp", "uitofp", "fptosi", "fptoui", "trunc", "zext", "sext", "bitcast"):
        narrow.append(e[0])
        e = e[-1]
    bad = {"trunc", "fptosi", "fptoui", "zext", "uitofp"} | ({"fptrunc"} if t != 2 else set())
    tri(R, "L2", k + ":exact", f.loc(s.i), False if bad & set(narrow) else (True if e == c.val or bare(e) == bare(c.val) else False if arith(e) or e[0] in ("fadd", "fmul", "fsub", "fdiv", "fneg") else None), "the value parsed is changed before it is stored")


def ev(e, env):
    """value of an expression on numbers, or None"""
    e = bare(e)
    if e in env:
        return env[e]
    o = e[0]
    if o == "c":
        return e[1]
    if o in ("zext", "sext", "trunc"):
        return ev(e[-1], env)
    if o in ("add", "sub", "mul", "udiv", "sdiv", "shl", "lshr", "and", "or", "urem", "min", "max") and len(e) == 3:
        a, b = ev(e[1], env), ev(e[2], env)
        if a is None or b is None:
            return None
        try:
            return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "udiv": lambda: a // b, "sdiv": lambda: a // b, "shl": lambda: a << b, "lshr": lambda: a >> b,
                    "and": lambda: a & b, "or": lambda: a | b, "urem": lambda: a % b, "min": lambda: min(a, b), "max": lambda: max(a, b)}[o]()
        except (ZeroDivisionError, ValueError):
            return None
    if o == "select":
        c = ev(e[1], env)
        return None if c is None else ev(e[2] if c else e[3], env)
    if o == "cmp":
        a, b = ev(e[2], env), ev(e[3], env)
        if a is None or b is None:
            return None
        return {"eq": a == b, "ne": a != b, "ult": a < b, "slt": a < b, "ule": a <= b, "sle": a <= b, "ugt": a > b, "sgt": a > b, "uge": a >= b, "sge": a >= b}.get(e[1])
    if o == "not":
        v = ev(e[1], env)
        return None if v is None else not v
    return None


def string(R, f, key, T, fl, r, st, cp, ix):
    k, w = key + ":string", f.where()
    if not cp:
        tri(R, "L3", k, w, False if not st and not T.calls(r"copy|fill|assign") else None, "a string's text is not stored")
        return
    prim = [s for s in cp if re.search(r"^(llvm\.)?mem(cpy|move|set)", s.q)]
    if len(prim) != len(cp) or st:
        tri(R, "L3", k, w, None, "")
        return
    length = None      # the expression for the text's length
    txt = None
    for s, en in fl:
        if s.kind == "call" and re.search(STRQ + r"::(length|size)$", s.q):
            v = text_of(en, s.args[0], r)
            if v and v[0] == "elem" and any(x[0] == "unQuote" for x in v[1]):
                length, txt = s.val, v
    init = T.calls(r"::initRowBuffer$")
    grew = bool(init)
    body_cp = [s for s in prim if re.search(r"mem(cpy|move)", s.q)]
    keep = [s for s in body_cp if bare(s.args[0]) == LD("lastValues_") and in_row(s.arg(1))] if grew else []
    text = [s for s in body_cp if s not in keep]
    zero = [s for s in prim if "memset" in s.q]
    if len(text) != 1:
        tri(R, "L3", k + ":once", w, False if not text else None, "the text is copied %d times" % len(text))
        return
    s = text[0]
    en = next(e for q, e in fl if q is s)
    src = text_of(en, s.args[1], r)
    tri(R, "L3", k + ":place", f.loc(s.i), place(s.args[0], ix) if bare(s.args[0])[0] == "idx" else None, "the text goes to another column's place")
    tri(R, "L3", k + ":text", f.loc(s.i), None if src is None else src[0] == "elem" and any(x[0] == "unQuote" for x in src[1]) and not any(x[0] in ("upper", "lower", "substr") for x in src[1]),
        "the text stored is not the column's own, without its quotes")
    n = strip_ids(s.args[2])
    LEN = strip_ids(length) if length is not None else None
    if LEN is None:
        tri(R, "L3", k + ":length", f.loc(s.i), None, "")
        return
    tri(R, "L3", k + ":length", f.loc(s.i), n == LEN if n == LEN or n[0] in ("c", "add", "sub", "mul", "min") else None, "not the whole text is stored")
    # zero padding
    wd = lambda e: ofcol(e, "dataSizeDoubles", ix)
    if not zero:
        tri(R, "L3", k + ":padding", w, False, "the rest of the column keeps the previous row's text")
    else:
        z = zero[-1]
        a, val, cnt = bare(z.args[0]), z.arg(1), strip_ids(z.args[2])
        at, c0 = linear(cnt)
        wid = [x for x in at if wd(x)]
        tri(R, "L3", k + ":padding-zero", f.loc(z.i), val == ("c", 0), "the rest of the column is not filled with zeros")
        if T.index(z) > T.index(s):
            tail = a[0] == "idx" and a[3] == "i8" and place(a[1], ix) and strip_ids(a[2]) == LEN
            good = tail and len(wid) == 1 and at[wid[0]] == 8 and at.get(LEN) == -1 and c0 == 0 and len(at) == 2
            ws = list({bare(x): x for x in find_all(cnt, wd)})
            if tail and not good and len(ws) <= 1:
                # by value
                got = [(ev(cnt, dict([(bare(LEN), n)] + [(x, m) for x in ws])), 8 * m - n) for m in range(1, 9) for n in range(0, 8 * m + 1)]
                good = None if any(a is None for a, b in got) else all(a == b for a, b in got)
            tri(R, "L3", k + ":padding", f.loc(z.i), good if good is not False or ws or wid or cnt[0] == "c" else None, "the column is not cleared from the end of the text to the end of its width")
        else:
            good = place(a, ix) and len(wid) == 1 and at[wid[0]] == 8 and c0 == 0 and len(at) == 1
            tri(R, "L3", k + ":padding", f.loc(z.i), good if wid else None, "the column is not cleared to the end of its width")
        for x in find_all(cnt, lambda x: x[0] == "call" and x[1].endswith("Column::dataSizeDoubles")):
            if not wd(x):
                tri(R, "L3", k + ":padding-own", f.loc(z.i), False, "the column is cleared to another column's width")
        if grew:
            # the width the padding uses is read after it was set
            setw = [q for q in T.calls(r"Column::dataSizeDoubles$") if len(q.args) > 1]
            rd = [q for q in T.calls(r"Column::dataSizeDoubles$") if len(q.args) == 1]
            if setw and rd:
                tri(R, "L3", k + ":padding-new", w, T.index(rd[-1]) > T.index(setw[-1]), "the column is cleared to its old width")
    # room
    wexp = [x for c, t in T.conds() for x in find_all(c, lambda x: x[0] == "call" and x[1].endswith("Column::dataSizeDoubles") and len([y for y in x[2:] if y[:1] != ("#",)]) == 1)]
    if any(not wd(x) for x in wexp):
        tri(R, "L3", k + ":room-own", w, False, "the room needed is compared with another column's width")
        return
    W = wexp[0] if wexp else None
    setw = [q for q in T.calls(r"Column::dataSizeDoubles$") if len(q.args) > 1]
    lenk = [x for c, t in T.conds() for x in find_all(c, lambda x: x[0] == "call" and re.search(STRQ + r"::(length|size)$", x[1]))]
    newexp = strip_ids(setw[-1].args[1]) if setw else None
    ok, undec = True, False
    for n in range(0, 70):
        for wdt in range(1, 9):
            env = {}
            for x in lenk:
                env[bare(x)] = n
            env[bare(LEN)] = n
            if W is not None:
                env[bare(W)] = wdt
            hold = True
            for c, t in T.conds():
                v = ev(c, env)
                if v is None:
                    continue
                if bool(v) != t:
                    hold = False
            if not hold:
                continue
            if not grew:
                if n > 8 * wdt:
                    ok = False
            else:
                if newexp is None:
                    undec = True
                else:
                    nv = ev(newexp, env)
                    if nv is None:
                        undec = True
                    elif n > 8 * nv or nv < wdt:
                        ok = False
    tri(R, "L3", k + (":room-new" if grew else ":room"), w, None if undec and ok else ok, "a text longer than its column's width is stored past the end of the column" if not grew else "the width a column grows to is less than its text needs")
    if not grew:
        tri(R, "L3", k + ":quiet", w, T.field("newDataset_") is None or T.field("newDataset_") == ("c", 0), "a change of layout is reported although there is none")
        if setw:
            tri(R, "L3", k + ":relayout", w, False, "a column's width changes but the row is not laid out anew")
        return
    tri(R, "L3", k + ":told", w, T.field("newDataset_") == ("c", 1), "the change of layout is not reported")
    if not setw:
        tri(R, "L3", k + ":grow", w, False, "the row is laid out anew without the column having grown")
        return
    tri(R, "L3", k + ":grow", f.loc(setw[-1].i), colat(setw[-1].args[0], ix) and T.index(setw[-1]) < T.index(init[0]), "the column's width is not set before the row is laid out anew")
    lay = T.index(init[0])
    lost = [q for q in T.stores("lastValues_") if T.index(q) < lay]
    safe = bool(lost) and lost[-1].full(lost[-1].val)[0] == "null"
    if not keep:
        tri(R, "L3", k + ":kept", w, False, "the values already read from the line are lost when a column grows")
        return
    c = keep[0]
    tri(R, "L3", k + ":old", f.loc(c.i), safe, "the values are copied from a buffer that was freed")
    cnt = strip_ids(c.args[2])
    offs = ("ld", ("idx", LD("columnOffsets_"), ix, "i64"))
    at, c0 = linear(cnt)
    tri(R, "L3", k + ":kept", f.loc(c.i), (at.get(offs) == 8 and len(at) == 1 and c0 == 0) if offs in at or set(at) <= {ix} else None, "not all the values already read from the line are kept when a column grows")
    tri(R, "L3", k + ":kept-late", f.loc(c.i), T.index(c) > lay, "the values are copied before the new row exists")
    # direction: destination read after the new layout, source before
    I = f.I
    def when(o):
        i = I.get(o)
        n = 0
        while i is not None and i.op in ("bitcast", "getelementptr") and n < 5:
            i, n = I.get(i["o"][0]), n + 1
        return None if i is None or i.op != "load" else f.dominates(init[0].i, i)
    d, sr = when(c.i["o"][0]), when(c.i["o"][1])
    tri(R, "L3", k + ":direction", f.loc(c.i), None if d is None or sr is None else d and not sr, "the values already read are overwritten with the new row's missing values")
    dl = [q for q in T.calls(r"operator delete(\[\])?$") if bare(q.args[0]) == LD("lastValues_")]
    tri(R, "L3", k + ":freed", w, len(dl) == 1 and T.index(dl[0]) > T.index(c) if dl else False, "the previous row buffer is freed before it is copied, or never")


# ------------------------------------------------------------------------------------------------ F1
def api(P, R):
    for f in P.find(r"^odc::api::odbFromCSV\(", "csv"):
        ps = split_params(f.dem) or []
        key, w = "odbFromCSV(%s)" % (re.sub(r".*::|[&<>\s].*| const.*", "", ps[0].replace("std::__cxx11::basic_string", "string")) if ps else ""), f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            nest = T.calls(r"odc::api::odbFromCSV$")
            if nest:
                s = nest[-1]
                a = [s.arg(j) for j in range(len(s.args))]
                raw = [bare(x) for x in s.args]
                tri(R, "F1", key + ":delimiter", f.loc(s.i), a[2][:2] == ("arg", 2) if a[2][0] in ("arg", "str", "alloca") or has(("x", a[2]), STRQ) else None, "the delimiter is not passed on")
                tri(R, "F1", key + ":out", f.loc(s.i), raw[1][:2] == ("arg", 1), "the rows go elsewhere")
                # the input object is made from the caller's
                o = root(raw[0])
                made = feeds(T, o, ("arg", 0))
                tri(R, "F1", key + ":in", f.loc(s.i), True if made or raw[0][:2] == ("arg", 0) else None, "")
                tri(R, "F1", key + ":count", w, bare(T.ret) == bare(s.val) if bare(T.ret)[0] in ("call", "c") else None, "the number of rows is not returned")
                continue
            rd = T.calls(r"TextReader::TextReader$")
            wr = T.calls(r"odc::Writer::Writer$")
            ps_ = T.calls(r"::pass1$")
            if len(rd) != 1 or len(ps_) != 1:
                tri(R, "F1", key, w, False if not ps_ and not T.calls(r"operator\+\+|saveInto|encode") else None, "no row is written")
                continue
            a = rd[0]
            tri(R, "F1", key + ":delimiter", f.loc(a.i), bare(a.args[2])[:2] == ("arg", 2) if bare(a.args[2])[0] == "arg" or a.arg(2)[0] == "str" or has(("x", a.arg(2)), r"basic_string$") else None, "the delimiter is not passed on")
            tri(R, "F1", key + ":in", f.loc(a.i), bare(a.args[1])[:2] == ("arg", 0) if bare(a.args[1])[0] in ("arg",) else None, "another input is read")
            if wr:
                tri(R, "F1", key + ":out", f.loc(wr[0].i), bare(wr[0].args[1])[:2] == ("arg", 1) if bare(wr[0].args[1])[0] == "arg" else None, "the rows go elsewhere")
            tri(R, "F1", key + ":count", w, bare(T.ret) == bare(ps_[0].val) if bare(T.ret)[0] in ("call", "c", "add", "sub") else None, "the number of rows is not returned")


def feeds(T, obj, arg):
    """obj was constructed from arg, possibly through other local objects"""
    seen, todo = set(), [obj]
    while todo:
        o = todo.pop()
        if o in seen:
            continue
        seen.add(o)
        for s in T.steps:
            if s.kind == "call" and s.args and root(bare(s.args[0])) == o and re.search(r"(\w+)::\1$", s.q):
                for x in s.args[1:]:
                    b = bare(x)
                    if contains(b, lambda y: y[:2] == arg):
                        return True
                    for y in walk(b):
                        if isinstance(y, tuple) and y[:1] == ("alloca",):
                            todo.append(y)
    return False


# ------------------------------------------------------------------------------------------------ T1
def opt_flow(T):
    """what the text objects of the tool hold: ('param', k), ('option', name, default) with transformations"""
    env = {}
    out = []
    for s in T.steps:
        out.append((s, dict(env)))
        if s.kind != "call" or not s.args:
            continue
        a = [bare(x) for x in s.args]
        dst = a[0]

        def val(x, d=6):
            x = bare(x)
            if d <= 0:
                return None
            if x in env:
                return env[x]
            if x[0] == "str":
                return (("lit", x[1]), ())
            if x[0] == "ld":
                return val(x[1], d - 1)
            if x[0] == "call" and len(x) > 2:
                if re.search(r"vector::(operator\[\]|at)$", x[1]) and len(x) > 3 and x[3][0] == "c":
                    v = val(x[2], d - 1)
                    if v and v[0] == ("params",):
                        return (("param", x[3][1]), v[1])
                if re.search(r"(::operator->|::operator\*)$", x[1]) or IDENT.search(x[1]):
                    return val(x[2], d - 1)
                if re.search(r"(CommandLineParser|Tool)::parameters$", x[1]) and len(x) > 3 and x[3][0] == "c":
                    return (("param", x[3][1]), ())
            if x[0] == "fld" and x[2] == "second":
                v = val(x[1], d - 1)
                if v and v[0][0] == "optit":
                    return (("option", v[0][1]), ())
                return None
            if x[0] == "fld" and x[2] == "parameters_":
                return (("params",), ())
            if x[0] in ("sub", "fld"):
                return val(x[1], d - 1)
            return None
        if re.search(r"(\w+)::\1$|operator=$|::assign$|PathName(::(operator .*|asString|localPath)$|cv)", s.q) and len(a) > 1:
            v = val(s.args[1])
            env.pop(dst, None)
            if v:
                env[dst] = v
        elif re.search(r"CommandLineParser::(optionArgument)$", s.q) and len(a) > 2:
            n = val(s.args[2])
            env.pop(dst, None)
            if n:
                env[dst] = (("option", n[0][1]), ())
        elif re.search(r"CommandLineParser::parameters$", s.q):
            env.pop(dst, None)
            if len(a) == 2:
                env[dst] = (("params",), ())
            elif len(a) == 3 and a[2][0] == "c":
                env[dst] = (("param", a[2][1]), ())
        elif re.search(r"StringTools::(upper|lower|trim)$", s.q) and len(a) == 2:
            v = val(s.args[1])
            env.pop(dst, None)
            if v:
                env[dst] = (v[0], v[1] + (s.q.split("::")[-1],))
        elif re.search(r"^decltype$|Translator::operator\(\)$", s.q) and len(a) > 1:
            pass
        elif re.search(r"::find$", s.q):
            pass
    return out, env


def tool(P, R):
    for f in P.find(r"ImportTool::run\(", "csv"):
        key, w = "ImportTool::run", f.where()
        ts = tr_(f, limit=20000)
        if ts is None:
            tri(R, "T1", key, w, None, "")
            continue
        for T in ts:
            sizes = [(s.val, s.truth) for s in T.steps if s.kind == "cond" and s.val[0] == "cmp" and s.val[2][0] == "call" and s.val[2][1].endswith("vector::size") and s.val[3][0] == "c"]
            work = T.calls(r"odbFromCSV$|filterAndImportFile$|importFile$")
            if T.end == "ret":
                fs = [(c[1], False, c[3][1], t) for c, t in sizes]
                tri(R, "T1", key + ":parameters", w, not allows(fs, 2) and not allows(fs, 4) and not allows(fs, 1), "a wrong number of parameters is accepted")
                tri(R, "T1", key + ":work", w, len(work) == 1, "the file is imported %d times" % len(work))
            if not work:
                continue
            s = work[-1]
            delim(R, f, key, T, s)
            sql = [(l, t) for l, t, e in str_tests(T)]
            sel = [t for l, t in sql if re.match(r"\s*select\s*\*\s*;?\s*$", l)]
            if s.q.endswith("odbFromCSV"):
                tri(R, "T1", key + ":query", f.loc(s.i), (True in sel) if sel else False, "the query is ignored")
                fh = [c for c in T.calls(r"FileHandle::FileHandle$")]
                files(R, f, key, T, s, fh)
    for f in P.find(r"ImportTool::filterAndImportFile\(", "csv"):
        key, w = "filterAndImportFile", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            tb = T.calls(r"ODBCSVTable::ODBCSVTable$")
            cf = T.calls(r"SQLOutputConfig::SQLOutputConfig$")
            ps = T.calls(r"SQLParser::parseString$")
            ex = T.calls(r"::execute$")
            ad = T.calls(r"::addImplicitTable$")
            A = lambda e, k: contains(("x", e), lambda x: x[:2] == ("arg", k))
            if len(tb) == 1:
                a = [tb[0].arg(j) for j in range(len(tb[0].args))]
                tri(R, "T1", key + ":delimiter", f.loc(tb[0].i), A(a[4], 3) if len(a) > 4 and (a[4][0] in ("arg", "str") or has(("x", a[4]), r".")) else None, "the delimiter is not passed on")
                tri(R, "T1", key + ":in", f.loc(tb[0].i), A(a[2], 0) if len(a) > 4 and (A(a[2], 0) or A(a[2], 1)) else None, "another file is read")
            if len(cf) == 1:
                tri(R, "T1", key + ":out", f.loc(cf[0].i), None if not contains(("x", cf[0].arg(1)), lambda x: x[:1] == ("arg",)) else A(cf[0].arg(1), 1), "the result goes to another file")
            if tb and not ad:
                tri(R, "T1", key + ":table", w, False, "the query does not see the file")
            if len(ps) == 1:
                tri(R, "T1", key + ":query", f.loc(ps[0].i), A(ps[0].arg(len(ps[0].args) - 1), 2) if contains(("x", ps[0].arg(len(ps[0].args) - 1)), lambda x: x[:1] in (("arg",), ("str",))) else None, "another query is run")
            tri(R, "T1", key + ":run", w, len(ex) == 1 and (not ps or T.index(ex[0]) > T.index(ps[-1])) and (not ad or T.index(ex[0]) > T.index(ad[-1])), "the query is not run once the file is known")
    for f in P.find(r"ImportTool::importFile\(", "csv"):
        key, w = "importFile", f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            s = T.calls(r"filterAndImportFile$|odbFromCSV$")
            if len(s) == 1 and s[0].q.endswith("filterAndImportFile"):
                a = [s[0].arg(j) for j in range(len(s[0].args))]
                off = 0 if len(a) == 4 else 1
                tri(R, "T1", key, w, len(a) >= 4 and a[off][:2] == ("arg", 0) and a[off + 1][:2] == ("arg", 1) and a[off + 3][:2] == ("arg", 2), "input, output and delimiter are not passed on as given")


def delim(R, f, key, T, s):
    """the delimiter used: TAB and SPACE by name, otherwise what was given"""
    fl, _ = opt_flow(T)
    tests = {l: t for l, t, e in str_tests(T) if l.upper() in ("TAB", "SPACE") or l in ("TAB", "SPACE")}
    d = bare(s.args[-1] if not s.q.endswith("odbFromCSV") else s.args[2])
    env = next(e for q, e in fl if q is s)
    v = env.get(d)
    want = "\t" if tests.get("TAB") else " " if tests.get("SPACE") else None
    if v is None:
        tri(R, "T1", key + ":delimiter", f.loc(s.i), None if want is None else None, "")
        return
    src = v[0]
    if want is not None:
        tri(R, "T1", key + ":delimiter-name", f.loc(s.i), src == ("lit", want) if src[0] == "lit" else False if src[0] in ("option",) else None, "a delimiter given by name is not the character of that name")
    else:
        if src[0] == "lit":
            # the default
            return
        tri(R, "T1", key + ":delimiter", f.loc(s.i), src == ("option", "-d") and "upper" not in v[1] and "lower" not in v[1] if src[0] == "option" else False if src[0] == "param" else None, "the delimiter is not the one given with -d")


def files(R, f, key, T, s, fh):
    fl, _ = opt_flow(T)
    pos = {}
    for c in fh:
        env = next(e for q, e in fl if q is c)
        v = env.get(bare(c.args[1]))
        if v and v[0][0] == "param":
            pos[bare(c.args[0])] = v[0][1]
    a = [bare(x) for x in s.args]
    for j, n, what in ((0, 1, "read from"), (1, 2, "written to")):
        p = pos.get(root(a[j])) if a[j] not in pos else pos[a[j]]
        tri(R, "T1", "%s:file%d" % (key, j), f.loc(s.i), None if p is None else p == n, "the data is %s the wrong parameter" % what)
    for c in T.calls(r"::open(ForRead|ForWrite|ForAppend)$"):
        o = root(bare(c.args[0]))
        p = pos.get(o)
        if p is not None:
            tri(R, "T1", "%s:open%d" % (key, p), f.loc(c.i), c.q.endswith("openForRead") == (p == 1), "the parameter is opened the wrong way")


# ------------------------------------------------------------------------------------------------ R1
def reader(P, R):
    for f in P.find(r"^odc::TextReader::", "csv"):
        n = f.qual.split("::")[-1]
        ps = split_params(f.dem) or []
        if n == "TextReader" and len(ps) == 2:
            ctor(R, f, "istream" in ps[0])
        elif n == "TextReader" and len(ps) == 1:
            for T in tr_(f) or []:
                if T.end != "ret":
                    continue
                key, w = "TextReader(move)", f.where()
                i, o = T.field("in_"), T.field("deleteDataHandle_")
                rhs = lambda m: ("ld", ("fld", ("arg", 1, "rhs"), m))
                src = [s for s in T.stores() if s.addr[0] == "fld" and s.addr[1][:2] == ("arg", 1)]
                gone = any(s.addr[2] == "in_" and bare(s.val)[0] == "null" or s.addr[2] == "deleteDataHandle_" and bare(s.val) == ("c", 0) for s in src)
                if T.calls(r"swap$|operator=$") and i is None:
                    tri(R, "R1", key, w, None, "")
                    continue
                takes = o is not None and bare(o)[0] == "ld" and bare(o)[1][:1] == ("fld",) and bare(o)[1][2] == "deleteDataHandle_"
                tri(R, "R1", key + ":stream", w, i is not None and contains(i, lambda x: x[:1] == ("fld",) and x[2] == "in_" and x[1][:2] == ("arg", 1)), "the stream is not moved")
                tri(R, "R1", key + ":once", w, gone if takes or o == ("c", 1) else None, "both readers delete the stream")
                tri(R, "R1", key + ":owned", w, True if takes else False if o == ("c", 0) else None, "nobody deletes the stream")
                cs = [s for s in T.calls(r"IteratorProxy::(IteratorProxy|operator=)$") if s.arg(0) == F("iteratorSingleton_")]
                tri(R, "R1", key + ":cursor", w, bool(cs) and contains(cs[-1].arg(1), lambda x: x[:1] == ("fld",) and x[2] == "iteratorSingleton_") if cs else None, "the cursor is not moved")
                dl = [s for s in T.calls(STRQ + r"::basic_string$") if s.arg(0) == F("delimiter_")]
                tri(R, "R1", key + ":delimiter", w, contains(dl[-1].arg(1), lambda x: x[:1] == ("fld",) and x[2] == "delimiter_") if dl and len(dl[-1].args) > 1 else None, "the delimiter is not moved")
        elif n == "operator=":
            for T in tr_(f) or []:
                if T.end != "ret":
                    continue
                sw = {s.arg(0)[2] for s in T.calls(r"std::swap$|::swap$") if s.arg(0)[:1] == ("fld",) and s.arg(1)[:1] == ("fld",) and s.arg(0)[2] == s.arg(1)[2]}
                if sw:
                    for m in ("in_", "deleteDataHandle_", "delimiter_", "iteratorSingleton_"):
                        tri(R, "R1", "operator=:" + m, f.where(), m in sw or (None if T.field(m) is not None else False), "assignment leaves %s behind" % m)
        elif n == "begin":
            for T in tr_(f) or []:
                if T.end == "ret":
                    cs = T.calls(r"IteratorProxy::IteratorProxy$")
                    tri(R, "R1", "begin", f.where(), any(contains(("x", s.arg(1)), lambda x: x[:1] == ("fld",) and x[2] == "iteratorSingleton_") for s in cs) and not T.calls(r"TextReaderIterator::TextReaderIterator$") if cs else None,
                        "begin() does not hand out the one cursor that has read the header")
        elif n == "~TextReader":
            for T in tr_(f) or []:
                if T.end != "ret":
                    continue
                key, w = "~TextReader", f.where()
                dl = [s for s in T.steps if s.kind == "call" and s.args and bare(s.args[0]) == LD("in_") and not re.search(r"::close$", s.q or "")]
                own = [t for c, t in T.conds() if uncast(c) == LD("deleteDataHandle_")]
                nul = [t for c, t in T.conds() if c == ("cmp", "eq", LD("in_"), ("null",))]
                if True in nul:
                    continue
                if not own:
                    tri(R, "R1", key + ":owned", w, False if dl else (False if not nul else None), "a stream is deleted, or kept, without asking who opened it")
                    continue
                tri(R, "R1", key + (":owned" if own[0] else ":foreign"), w, (len(dl) == 1) == own[0], "a stream the reader opened is not deleted" if own[0] else "a stream of the caller's is deleted")
    for f in P.find(r"TextReaderIterator::TextReaderIterator\(", "csv"):
        ps = split_params(f.dem) or []
        if not ps:
            continue
        key, w = "TextReaderIterator(%d)" % len(ps), f.where()
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            h, nx = T.calls(r"::parseHeader$"), T.calls(r"TextReaderIterator::next$")
            tri(R, "R1", key + ":header", w, len(h) == 1, "the header is read %d times" % len(h))
            tri(R, "R1", key + ":first", w, len(nx) == 1 and h and T.index(nx[0]) > T.index(h[0]), "the first row is not read after the header")
            for m, v in (("noMore_", ("c", 0)), ("lastValues_", None), ("columnOffsets_", None)):
                x = next((s.full(s.val) for s in T.stores(m)), None)
                tri(R, "R1", "%s:%s" % (key, m), w, None if x is None and m != "noMore_" else x == v if v else x[0] == "null", "%s is not set before it is used" % m)
            own = T.field("ownsF_")
            i = T.field("in_")
            if i is not None and own is not None:
                mine = contains(i, lambda x: x[0] == "call" and x[1].startswith("operator new"))
                tri(R, "R1", key + ":owns", w, (own == ("c", 1)) == mine, "a stream is deleted by the cursor that did not open it, or by nobody")
            st = [s for s in T.stores("in_") if s.full(s.val)[0] != "null"]
            if h and st:
                tri(R, "R1", key + ":stream-first", w, T.index(st[0]) < T.index(h[0]), "the header is read before the stream is known")
            dl = [s for s in T.calls(STRQ + r"::(basic_string|operator=)$") if s.arg(0) == F("delimiter_")]
            if dl:
                tri(R, "R1", key + ":delimiter", w, contains(dl[-1].arg(1), lambda x: x[:1] == ("fld",) and x[2] == "delimiter_" and x[1][:2] == ("arg", 1)) and (not h or T.index(dl[-1]) < T.index(h[0])) if len(dl[-1].args) > 1 else False,
                    "the cursor does not split at the reader's delimiter")
    for f in P.find(r"TextReaderIterator::(isNewDataset|data|rowDataSizeDoubles|dataOffset)\(", "csv"):
        n = f.qual.split("::")[-1]
        ps = [p for p in (split_params(f.dem) or []) if p]
        for T in tr_(f) or []:
            if T.end != "ret":
                continue
            v = bare(T.ret)
            w = f.where()
            if n == "isNewDataset":
                tri(R, "R1", n, w, uncast(v) == LD("newDataset_") if v[0] in ("ld", "cmp", "c", "not") else None, "isNewDataset() does not tell whether the layout changed with this row")
            elif n == "data" and not ps:
                tri(R, "R1", n, w, v == LD("lastValues_") if v[0] in ("ld", "idx") else None, "data() is not the row")
            elif n == "data":
                tri(R, "R1", n + "(i)", w, place(v, ("arg", 1, "i")) if v[0] == "idx" else None, "data(i) is not column i's place")
            elif n == "dataOffset":
                tri(R, "R1", n, w, v == ("ld", ("idx", LD("columnOffsets_"), ("arg", 1, "i"), "i64")) if v[0] in ("ld",) else None, "dataOffset(i) is not column i's place")


def ctor(R, f, stream):
    key, w = "TextReader(%s)" % ("stream" if stream else "path"), f.where()
    for T in tr_(f) or []:
        cur = T.calls(r"TextReaderIterator::TextReaderIterator$")
        if T.end != "ret":
            continue
        i, o = T.field("in_"), T.field("deleteDataHandle_")
        tri(R, "R1", key + ":cursor", w, len(cur) == 1 and len(cur[0].args) == 2 and bare(cur[0].args[1]) == THIS if cur else False, "the reader has no cursor on its own stream")
        if stream:
            tri(R, "R1", key + ":stream", w, i is not None and i[:2] == ("arg", 1) if i is not None else None, "another stream is read")
            tri(R, "R1", key + ":owned", w, o == ("c", 0) if o is not None else None, "a stream of the caller's will be deleted")
        else:
            op = T.calls(r"basic_(if|f)stream::(basic_ifstream|basic_fstream|open)$")
            tri(R, "R1", key + ":path", w, contains(("x", op[-1].arg(1)), lambda x: x[:2] == ("arg", 1)) if op and len(op[-1].args) > 1 else None, "another file is opened")
            ok = None
            for s in T.steps:
                if s.kind == "cond":
                    e = uncast(s.val)
                    if e[0] == "call" and re.search(r"::(operator!|fail|bad)$", e[1]):
                        ok = not s.truth
                    elif e[0] == "call" and re.search(r"::(operator bool|is_open|good)$", e[1]):
                        ok = s.truth
            tri(R, "R1", key + ":opened", w, ok if ok is not None else False, "a file that cannot be opened is read as an empty one")
            tri(R, "R1", key + ":owned", w, o == ("c", 1) if o is not None else None, "the stream opened is never deleted")
        if cur:
            st = [s for s in T.stores("in_")]
            dl = [s for s in T.calls(STRQ + r"::(basic_string|operator=)$") if s.arg(0) == F("delimiter_")]
            tri(R, "R1", key + ":order", w, (not st or T.index(st[0]) < T.index(cur[0])) and (not dl or T.index(dl[0]) < T.index(cur[0])), "the cursor reads before stream and delimiter are known")
            if dl and len(dl[-1].args) > 1:
                tri(R, "R1", key + ":delimiter", w, contains(("x", dl[-1].arg(1)), lambda x: x[:2] == ("arg", 2)), "the delimiter is not kept")
