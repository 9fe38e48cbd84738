"""C API arguments and results: in the body of every public C function, handle parameters are used only where they are known
non-null, index parameters subscript a container only under both bounds, optional outputs are written only when requested,
every requested output is written on every successful path with the attribute it documents, setters and getters use the
same state, and size/row arguments are validated before they take effect."""
from apilib import *

CONFIG = {"roots": [WRAP, BODY, PLAIN]}

OPTIONAL = {  # outputs documented as optional (null: not requested)
    "odc_frame_column_attributes": ["name", "type", "element_size", "bitfield_count"],
    "odc_frame_bitfield_attributes": ["name", "offset", "size"],
    "odc_decoder_data_array": ["data", "width", "height", "columnMajor"],
    "odc_decoder_column_data_array": ["element_size", "stride", "data"],
    "odc_decode": ["rows_decoded"], "odc_decode_threaded": ["rows_decoded"],
    "odc_encode_to_file_descriptor": ["bytes_encoded"], "odc_encode_to_buffer": ["bytes_encoded"]
}
# output parameter -> names (fields / functions) its value must be derived from, and names it must not come from
SOURCE = {
    ("odc_frame_column_attributes", "name"): {"name"}, ("odc_frame_column_attributes", "type"): {"type"},
    ("odc_frame_column_attributes", "element_size"): {"decodedSize"}, ("odc_frame_column_attributes", "bitfield_count"): {"bitfield", "size"},
    ("odc_frame_bitfield_attributes", "name"): {"bitfield", "name"}, ("odc_frame_bitfield_attributes", "offset"): {"bitfield", "offset"},
    ("odc_frame_bitfield_attributes", "size"): {"bitfield", "size!"},
    ("odc_frame_row_count", "count"): {"rowCount"}, ("odc_frame_column_count", "count"): {"columnCount"},
    ("odc_frame_properties_count", "nproperties"): {"properties", "size"},
    ("odc_frame_property_idx", "key"): {"first"}, ("odc_frame_property_idx", "value"): {"second"},
    ("odc_decoder_column_count", "count"): {"size"},
    ("odc_missing_integer", "missing_value"): {"integerMissingValue"}, ("odc_missing_double", "missing_value"): {"doubleMissingValue"},
    ("odc_version", "version"): {"version"}, ("odc_vcs_version", "version"): {"gitsha1"},
    ("odc_encode_to_stream", "bytes_encoded"): {"position"}, ("odc_encode_to_file_descriptor", "bytes_encoded"): {"position"},
    ("odc_encode_to_buffer", "bytes_encoded"): {"position"},
}
# setter parameter <-> getter output: the same piece of state
PAIRS = [
    (("odc_decoder_set_row_count", "nrows"), ("odc_decoder_row_count", "nrows")),
    (("odc_decoder_set_data_array", "data"), ("odc_decoder_data_array", "data")),
    (("odc_decoder_set_data_array", "width"), ("odc_decoder_data_array", "width")),
    (("odc_decoder_set_data_array", "height"), ("odc_decoder_data_array", "height")),
    (("odc_decoder_set_data_array", "height"), ("odc_decoder_row_count", "nrows")),
    (("odc_decoder_set_data_array", "columnMajor"), ("odc_decoder_data_array", "columnMajor")),
    (("odc_decoder_set_column_major", "columnMajor"), ("odc_decoder_data_array", "columnMajor")),
    (("odc_decoder_column_set_data_size", "element_size"), ("odc_decoder_column_data_array", "element_size")),
    (("odc_decoder_column_set_data_array", "element_size"), ("odc_decoder_column_data_array", "element_size")),
    (("odc_decoder_column_set_data_array", "stride"), ("odc_decoder_column_data_array", "stride")),
    (("odc_decoder_column_set_data_array", "data"), ("odc_decoder_column_data_array", "data")),
]
SIBLING = [{"columnData", "columnNames"}, {"columnInfo", "columnData"}]
HANDLE = re.compile(r"^(const )?odc_(reader|frame|decoder|encoder)_t\*$")


def is_sub(f, i):
    return i.op in ("call", "invoke") and re.search(r"std::(vector|deque|array)::operator\[\]$|basic_string::operator\[\]$", f.cq(i))


def run(P, R):
    R.rule("V1", "a handle argument is dereferenced only where it is known to be non-null")
    R.rule("V2", "an index argument subscripts a container only under 0 <= index < size of that container (or of its parallel container)")
    R.rule("V3", "an optional output is written only when the caller asked for it (non-null)")
    R.rule("V4", "every output the caller asked for is written on every successful path, with the attribute it documents")
    R.rule("V5", "setter and getter of the same decoder attribute use the same state")
    R.rule("V6", "size, row and layout arguments are validated before they take effect")
    R.rule("V7", "no argument of a public function is ignored")
    A = apis(P)
    for n, a in A.items():
        if a.ret != "int":
            continue
        R.anchor(a.bodies, "body of " + n)
        for f in a.bodies:
            check_body(P, R, a, f)
    pairs(P, R, A)
    sizes(P, R, A)
    handles(P, R, A)
    R.need("V1", 60)
    R.need("V2", 8)
    R.need("V4", 40)


def handles(P, R, A):
    """data handles wrapped around user callbacks implement what the reading/writing code calls on them"""
    R.rule("V8", "a data handle wrapped around user callbacks implements every operation the frame reader or writer uses")
    hd = P.byid.get(zts("eckit::DataHandle"))
    R.anchor(hd, "eckit::DataHandle")
    idx = {}
    for m in hd[1]["meth"]:
        if m[2] >= 0 and m[0] in ("read", "write", "position", "seek", "close", "openForRead", "openForWrite"):
            idx[m[0]] = m[2]
    for n, need in (("odc_open_stream", ("openForRead", "read", "position", "seek", "close")), ("odc_encode_to_stream", ("openForWrite", "write", "position", "close"))):
        for f in A[n].bodies:
            vts = set()
            for i in f.insts():
                for o in f.operands(i):
                    for x in walk(f.expr(o)):
                        if x[0] in ("g", "ce"):
                            vts |= {y for y in walk(x) if y[0] == "g" and y[1].startswith("_ZTV")}
                if i.op in ("call", "invoke"):
                    s = f.csym(i)
                    for y in (P.functions.get(s, {}) or {}).get("refs", []):
                        if y.startswith("_ZTV"):
                            vts.add(("g", y))
            vts = [v[1] for v in vts if P.globals.get(v[1], {}).get("vt") and "DataHandle" in P.globals[v[1]]["d"] and n in P.globals[v[1]]["d"]]
            if not vts:
                R.extra["undecided"] = R.extra.get("undecided", 0) + 1
            for v in vts:
                s = P.globals[v]["vt"][0]
                for m in need:
                    sym = s[idx[m] + 2] if idx[m] + 2 < len(s) else None
                    R.check(sym and not P.dem(sym).startswith("eckit::DataHandle::"), "V8", "%s|%s" % (n, m), f.where(),
                            "%s wraps the callback in a handle without %s(), which the frame code calls" % (n, m), m)


def base_params(e):
    """parameters whose pointee an address expression lies in (through fields/subscripts, without another load)"""
    while isinstance(e, tuple) and e:
        if e[0] == "param":
            return e
        if e[0] in ("fld", "sub", "idx"):
            e = e[1]
            continue
        return None


def check_body(P, R, a, f):
    ty = {p: t for t, p in a.params}
    handles = [p for t, p in a.params if HANDLE.match(t)]
    outs = [p for t, p in a.params if t.endswith("*") and not HANDLE.match(t) and t not in ("const char*", "const void*", "void*")]
    used = set()
    stores = {p: [] for p in outs}
    for i in f.insts():
        ops = [a.ex(f, o) for o in f.operands(i)]
        for e in ops:
            for x in walk(e):
                if isinstance(x, tuple) and x[:1] == ("param",):
                    used.add(x[1])
                elif isinstance(x, tuple) and x[:1] == ("fld",) and x[1][:2] == ("arg", 0) and i.op in ("call", "invoke"):
                    # the captured argument itself, handed on by reference
                    used.add(a.maps.get(f.name, {}).get(x[2]) or a.srcnames.get(x[2]))
        addr = []
        if i.op == "load":
            addr = [ops[0]]
        elif i.op == "store":
            addr = [ops[1]]
            if ops[1][:1] == ("param",) and ops[1][1] in stores:
                stores[ops[1][1]].append(i)
        elif i.op in ("call", "invoke"):
            q = f.cq(i)
            if not q.startswith("llvm.") and q not in ("operator delete", "eckit::Assert") and not re.search(r"::~\w+$", q):
                addr = [e for e in ops if e[:1] == ("fld",)]
                # passing the handle itself on is fine for another checked API function
                if not q.startswith("odc_"):
                    addr += [e for e in ops if e[:1] == ("param",) and e[1] in handles]
            if re.search(r"::~odc_\w+$", q):
                addr = ops[:1]
        F = None
        for e in addr:
            b = base_params(e)
            if b and b[1] in handles:
                F = F or a.facts(f, i)
                R.check(F.nonnull(b), "V1", "%s|%s" % (a.name, b[1]), f.loc(i), "%s uses its argument %s without having rejected null" % (a.name, b[1]), "%s non-null in %s" % (b[1], a.name))
            if b and b[1] in OPTIONAL.get(a.name, []) and b == e:
                F = F or a.facts(f, i)
                R.check(F.nonnull(b), "V3", "%s|%s" % (a.name, b[1]), f.loc(i), "%s writes its optional output %s without checking that it was requested" % (a.name, b[1]), "%s guarded" % b[1])
        if is_sub(f, i):
            ix = uncast(ops[1])
            if ix[:1] == ("param",) and ty.get(ix[1]) in ("int", "long"):
                F = F or a.facts(f, i)
                C = ops[0]
                okc = False
                for (u, x, y, k) in F.ltset:
                    if x == ix and k <= 0 and y[0] == "call" and y[1].endswith("::size"):
                        if same_container(y[2], C, F, f):
                            okc = True
                    if x == ix and k <= 0 and not (y[0] == "call" and y[1].endswith("::size")) and y[0] != "c":
                        # some other bound: accept a local that holds that size
                        okc = okc or contains(y, lambda z: z[0] == "call" and z[1].endswith(("::size", "Count")))
                R.check(okc, "V2", "%s|%s|upper" % (a.name, ix[1]), f.loc(i), "%s indexes %s with %s without checking it against its size" % (a.name, pretty(C), ix[1]), "%s < size" % ix[1])
                R.check(F.nonneg(ix), "V2", "%s|%s|lower" % (a.name, ix[1]), f.loc(i), "%s indexes %s with %s without rejecting negative values" % (a.name, pretty(C), ix[1]), "%s >= 0" % ix[1])
    for _, p in a.params:
        if not f.name == a.name or f.insts():
            R.check(p in used or p in ("context",), "V7", "%s|%s" % (a.name, p), f.where(), "%s ignores its argument %s" % (a.name, p), "%s used" % p)
    for p in outs:
        S = stores[p]
        if not S:
            # handed on to another function
            passed = any(("param", p) in [a.ex(f, o) for o in i["o"]] for i in f.calls())
            R.check(passed, "V4", "%s|%s|never" % (a.name, p), f.where(), "%s never sets its output %s" % (a.name, p), "%s set by a callee" % p)
            continue
        skip = []
        for (b, s, c, tr) in f.edge_conds():
            if Facts([(a.subst(f, x), t) for x, t in f.implied(c, tr)]).isnull(("param", p)):
                skip.append((b, s))
        bad = f.path_avoiding(None, lambda x: x.op == "ret" and status_ok(f, x), lambda x: x in S, avoid_edges=skip)
        R.check(bad is None, "V4", "%s|%s|path" % (a.name, p), f.loc(S[0]), "%s can succeed without setting its output %s" % (a.name, p), "%s set" % p)
        want = SOURCE.get((a.name, p))
        if want:
            for i in S:
                v = a.ex(f, i["o"][0])
                names = set()
                todo, seen = [v], set()
                while todo:
                  for x in walk(todo.pop()):
                    if isinstance(x, tuple) and x:
                        if x[0] == "alloca" and x not in seen:
                            seen.add(x)
                            for d in f.mem_defs(x[1], i):
                                if d is not None:
                                    todo.append(a.ex(f, d.id) if d.get("t") else ("call", f.cq(d)) if d.op in ("call", "invoke") else a.ex(f, d["o"][0]))
                        if x[0] == "fld":
                            names.add(x[2])
                        if x[0] in ("call", "vcall"):
                            names.add(x[1].split("::")[-1])
                if v[0] == "phi":
                    continue
                w = {x.rstrip("!") for x in want}
                good = w <= names
                if "size!" in want:
                    good = good and uncast(v)[0] == "ld" and uncast(v)[1][:1] == ("fld",) and uncast(v)[1][2] == "size"
                if want == {"rowCount"} or want == {"columnCount"}:
                    good = good and not ({"rowCount", "columnCount"} - want) & names
                if want == {"position"}:
                    good = not (v[0] == "c" or contains(v, lambda x: x[:1] == ("param",)))
                R.check(good, "V4", "%s|%s|value" % (a.name, p), f.loc(i), "%s sets %s from %s" % (a.name, p, pretty(v)), "%s <- %s" % (p, pretty(v)))


def status_ok(f, r):
    """a return that may report success (a body without status always does)"""
    if not r.get("o"):
        return True
    e = f.expr(r["o"][0])
    return not (e[0] == "c" and e[1] != 0)


def same_container(c1, c2, F, f):
    s1, s2 = strip_ids(c1), strip_ids(c2)
    if s1 == s2:
        return True
    if s1[0] == "fld" and s2[0] == "fld" and s1[1] == s2[1] and any({s1[2], s2[2]} <= s for s in SIBLING):
        return True
    # the index vector built from a container of the same size
    if s2[0] == "fld" and s2[2] == "propertiesIndex_" and s1[0] == "call" and s1[1].endswith("::properties"):
        return True
    return False


def strip_ids(e):
    if isinstance(e, tuple):
        if e[:1] == ("#",):
            return ("#",)
        return tuple(strip_ids(x) for x in e)
    return e


def state_of_setter(a, p):
    out = set()
    for f in a.bodies:
        for i in f.insts():
            if i.op == "store":
                v = uncast(a.ex(f, i["o"][0]))
                d = a.ex(f, i["o"][1])
                if v == ("param", p) and d[0] == "fld":
                    out.add(d[2])
    return out


def state_of_getter(a, p):
    out = set()
    for f in a.bodies:
        for i in f.insts():
            if i.op == "store" and a.ex(f, i["o"][1]) == ("param", p):
                for fs, e in f.alternatives(i["o"][0]):
                    e = uncast(a.subst(f, e))
                    if e[0] == "ld" and e[1][0] == "fld":
                        out.add(e[1][2])
                    elif e[0] == "ld" and e[1][0] == "ld" and e[1][1][0] == "fld":
                        out.add(e[1][1][2])
    return out


def pairs(P, R, A):
    for (sf, sp), (gf, gp) in PAIRS:
        s, g = state_of_setter(A[sf], sp), state_of_getter(A[gf], gp)
        if not s:
            R.bad("V5", "%s.%s" % (sf, sp), A[sf].bodies[0].where(), "%s does not store its argument %s" % (sf, sp))
            continue
        if not g:
            R.extra["undecided"] = R.extra.get("undecided", 0) + 1
            continue
        R.check(bool(s & g), "V5", "%s.%s" % (sf, sp), A[sf].bodies[0].where(), "%s stores %s in %s, %s reports %s" % (sf, sp, sorted(s), gf, sorted(g)), "%s.%s -> %s.%s" % (sf, sp, gf, gp))
        if len(g) > 1 and gp != "data":
            R.bad("V5", "%s.%s|mixed" % (gf, gp), A[gf].bodies[0].where(), "%s reports %s from different state: %s" % (gf, gp, sorted(g)))


def effects(a, f, fieldname=None, callrx=None):
    for i in f.insts():
        if fieldname and i.op == "store":
            d = a.ex(f, i["o"][1])
            if d[0] == "fld" and d[2] == fieldname:
                yield i
        if callrx and i.op in ("call", "invoke") and re.search(callrx, f.cq(i)):
            yield i


def sizes(P, R, A):
    def par(p):
        return ("param", p)

    def req(name, what, insts_of, pred, text):
        a = A[name]
        n = 0
        for f in a.bodies:
            for i in insts_of(a, f):
                n += 1
                F = a.facts(f, i)
                R.check(pred(a, f, F, i), "V6", "%s|%s" % (name, what), f.loc(i), "%s: %s" % (name, text), text)
        if not n:
            R.bad("V6", "%s|%s|effect" % (name, what), a.bodies[0].where(), "%s has no visible effect for: %s" % (name, text))
    st = lambda fld: (lambda a, f: effects(a, f, fld))
    ca = lambda rx: (lambda a, f: effects(a, f, None, rx))
    for n in ("odc_encoder_column_set_data_size", "odc_encoder_column_set_data_array"):
        req(n, "element_size", st("decodedSize"), lambda a, f, F, i: F.nonneg(par("element_size")) and F.multiple_of(par("element_size"), 8), "the element size takes effect without being checked as a non-negative multiple of 8")
    req("odc_encoder_column_set_data_array", "stride", st("stride"), lambda a, f, F, i: F.nonneg(par("stride")) and F.multiple_of(par("stride"), 8), "the stride takes effect without being checked as a non-negative multiple of 8")
    req("odc_encoder_set_data_array", "columnMajorWidth", st("columnMajorWidth"), lambda a, f, F, i: F.multiple_of(par("columnMajorWidth"), 8), "the column-major width takes effect without being checked as a multiple of 8")
    for w in ("width", "height"):
        req("odc_decoder_set_data_array", w, st({"width": "dataWidth", "height": "dataHeight"}[w]), lambda a, f, F, i, w=w: F.lt(("c", 0), par(w)), "a non-positive %s is accepted" % w)
    req("odc_decoder_set_data_array", "data", st("externalData"), lambda a, f, F, i: F.nonnull(par("data")), "a null buffer is accepted")
    req("odc_integer_behaviour", "value", ca(r"Settings::treatIntegersAsDoubles$"), lambda a, f, F, i: legal_behaviour(a, f, F, i), "values other than the two documented ones are accepted")
    def bits(a, f, F, i):
        for (u, x, y, k) in F.ltset:
            # offset + nbits < c (+k): an upper bound of 32 on a sum of the requested width and an existing offset/size
            if y == ("c", 0) and k <= 33 and x[0] == "add" and contains(x, lambda z: z == par("nbits")):
                return True
            # nbits < 32 - offset
            if x == par("nbits") and k <= 1 and y[0] == "sub" and uncast(y[1])[0] == "c" and uncast(y[1])[1] <= 32:
                return True
        return False
    req("odc_encoder_column_add_bitfield", "nbits", ca(r"vector::emplace_back$|vector::push_back$"), bits, "a field whose bits exceed the 32 bits of the column is accepted")
    # decode
    req("odc_decode_threaded", "rows", ca(r"odc::api::Decoder::decode$"), lambda a, f, F, i: any(kk <= 1 and has(x, "rowCount") and has(y, "nrows") for (u, x, y, kk) in F.ltset), "decoding starts although the decoder may have fewer rows than the frame")
    req("odc_decode_threaded", "cols", ca(r"odc::api::Decoder::decode$"), lambda a, f, F, i: any(kk <= 1 and has(x, "size") and has(y, "columnCount") for (u, x, y, kk) in F.ltset), "decoding starts although more columns were requested than the frame has")
    req("odc_decode_threaded", "threads", ca(r"odc::api::Decoder::decode$"), lambda a, f, F, i: F.lt(("c", 0), par("nthreads")), "decoding starts with a non-positive number of threads")
    for n in ("odc_encode_to_stream", "odc_encode_to_file_descriptor", "odc_encode_to_buffer"):
        req(n, "rows", ca(r"odc::api::encode$"), lambda a, f, F, i: pos(F, "nrows"), "encoding starts without rows")
        req(n, "frame rows", ca(r"odc::api::encode$"), lambda a, f, F, i: pos(F, "maxRowsPerFrame"), "encoding starts with zero rows per frame")
        req(n, "columns", ca(r"odc::api::encode$"), lambda a, f, F, i: pos_expr(F, lambda e: has(e, "columnData") or has(e, "columnInfo")), "encoding starts without columns")


def has(e, name):
    return contains(e, lambda x: (x[0] == "fld" and x[2] == name) or (x[0] in ("call", "vcall") and isinstance(x[1], str) and x[1].split("::")[-1] == name))


def pos_expr(F, p):
    return any(x == ("c", 0) and k <= 0 and p(y) for (u, x, y, k) in F.ltset) or any((p(x) and y == ("c", 0)) for x, y in F.neset)


def pos(F, fld):
    return pos_expr(F, lambda e: e[0] == "ld" and e[1][0] == "fld" and e[1][2] == fld)


def legal_behaviour(a, f, F, i):
    p = ("param", "integerBehaviour")
    if F.eq(p, ("c", 1)) or F.eq(p, ("c", 2)):
        return True
    # reached exactly when one of the two values matched: every edge assignment other than p==1 / p==2 throws
    blocks = {}
    for v in (0, 3, 1, 2, -1):
        skip = []
        for (b, s, c, tr) in f.edge_conds():
            for x, t in f.implied(c, tr)[:1]:
                e = a.subst(f, x)
                if e[0] == "cmp" and uncast(e[2]) == p and e[3][0] == "c":
                    val = {"eq": v == e[3][1], "ne": v != e[3][1], "slt": v < e[3][1], "sgt": v > e[3][1], "sle": v <= e[3][1], "sge": v >= e[3][1],
                           "ult": v % 2**32 < e[3][1] % 2**32, "ugt": v % 2**32 > e[3][1] % 2**32, "ule": v % 2**32 <= e[3][1] % 2**32, "uge": v % 2**32 >= e[3][1] % 2**32}.get(e[1])
                    if val is not None and val != t:
                        skip.append((b, s))
                elif e[0] == "switch" and uncast(e[1]) == p:
                    k, vals = e[2], e[3]
                    if (k == "case") != (v in vals):
                        skip.append((b, s))
        blocks[v] = i.blk in f.reach(0, avoid_edges=skip)
    return not blocks[0] and not blocks[3] and not blocks[-1] and blocks[1] and blocks[2]
