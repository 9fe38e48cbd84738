"""Enumeration of the codec classes (from emitted vtables) and summaries of their row and header functions."""
import re
from ir import *
from report import AnalysisBroken

KEEP = [r"ByteOrder::swap", r"DataStream<.*>::(read|write|advance|readBytes|writeBytes|set|get)\b"]
ROOT = {"tag": "codec", "re": r"^odc::(codec|core)::\w*(Codec|ShortReal|BaseCodec)\w*(<.*)?::(encode\(unsigned char\*|decode\(double\*\)|skip\(\)|load\(odc::core::DataStream|save\(odc::core::DataStream|gatherStats|clone|copyStrings|missingValue)",
        "keep": KEEP, "depth": 8}


class CodecClass:
    pass


def slots(P):
    n, c = P.byid[zts("odc::core::Codec")]
    r = {}
    for m in c["meth"]:
        if m[2] >= 0:
            key = m[0]
            if m[0] in ("load", "save", "setDataStream"):
                key += ":other" if any("Other" in t for t in m[4][2:]) else ":same"
            elif m[0] in ("dataSizeDoubles", "missingValue"):
                key += ":set" if len(m[4]) > 2 else ":get"
            r[key] = m[2]
    return r


def codec_classes(P):
    sl = slots(P)
    out = []
    for g, v in P.globals.items():
        if not g.startswith("_ZTV") or "vt" not in v:
            continue
        d = v["d"].replace("vtable for ", "")
        cid = "_ZTS" + g[4:]
        if not derives(P, cid, zts("odc::core::Codec")):
            continue
        s = v["vt"][0]
        fn = {}
        for k, idx in sl.items():
            if idx + 2 < len(s):
                fn[k] = s[idx + 2]
        if any(x and "__cxa_pure_virtual" in x for x in s):
            continue
        c = CodecClass()
        c.dem, c.cid, c.slots = d, cid, fn
        c.order = "Other" if "OtherByteOrder" in d else "Same"
        c.short = d.replace("odc::codec::", "").replace("odc::core::", "")
        c.base = strip_templates(d).split("::")[-1]
        nm = [f for f in P.fns.values() if f.dem.startswith(d + "::codec_name()")]
        c.name = None
        if nm:
            for r in nm[0].rets():
                e = nm[0].expr(r["o"][0])
                if e[0] == "str":
                    c.name = e[1]
        out.append(c)
    out.sort(key=lambda c: c.dem)
    if len(out) < 40:
        raise AnalysisBroken("only %d codec classes found" % len(out))
    return out


def derives(P, cid, base, seen=None):
    if cid == base:
        return True
    if cid not in P.byid:
        return False
    return any(derives(P, b, base) for _, b in P.byid[cid][1]["bases"])


def root(P, sym, tag="codec"):
    f = P.roots[tag].get(sym)
    if f is None:
        raise AnalysisBroken("function %s was not summarised" % P.dem(sym))
    return f


WIDTH = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8}


def ctype_size(t):
    t = t.strip()
    t = re.sub(r"\bconst\b|&|\s+$", "", t).strip()
    m = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
         "float": 4, "long": 8, "unsigned long": 8, "double": 8, "long long": 8, "unsigned long long": 8}
    return m.get(t)


def ds_op(f, i):
    """(kind, swapped, width-expression or container type, value operand, stream operand) of a DataStream operation, else None"""
    if i.op not in ("call", "invoke"):
        return None
    q = f.cq(i)
    m = re.match(r"odc::core::(?:General)?DataStream::(read|write|readBytes|writeBytes|advance)$", q)
    if not m:
        return None
    k = m.group(1)
    o = i["o"]
    if k == "advance":
        return ("advance", None, f.expr(o[1]), None, o[0])
    if k in ("readBytes", "writeBytes"):
        return (k[:-5], False, f.expr(o[2]), o[1], o[0])
    ps = split_params(f.callee(i))
    if len(o) == 3:
        return (k, True, f.expr(o[2]), o[1], o[0])
    t = re.sub(r"\s*&$", "", ps[0].replace(" const&", "&")).strip()
    t = re.sub(r"^const ", "", t).strip()
    sz = ctype_size(t)
    if sz:
        return (k, True, ("c", sz), o[1], o[0])
    t = re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string", t)
    t = re.sub(r", std::allocator<[^<>]*(<[^<>]*>)?[^<>]*>", "", t)
    t = re.sub(r", std::less<.*", ">", t)
    return (k, True, ("T", t), o[1], o[0])
