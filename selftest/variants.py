#!/usr/bin/env python3
"""Scratch copies of /repo's sources with one behaviour-preserving rewriting applied everywhere it can be.

    variants.py MODE DIR     writes DIR/src (and nothing else); then ODC_REPO=DIR python3 check.py ID must stay quiet
"""
import concurrent.futures, os, re, shutil, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/engine")
import build

SRC = "/repo/src"


def blank(t):
    """the same text with the contents of comments and literals blanked"""
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'|^[ \t]*#(?:[^\n\\]|\\.)*(?:\\\n[^\n]*)*',
                  lambda m: re.sub(r"[^\n]", "_" if m.group(0)[0] in "\"'" else " ", m.group(0)), t, flags=re.S | re.M)


def close(b, i):
    o = b[i]
    c = {"(": ")", "{": "}"}[o]
    d = 0
    while i < len(b):
        if b[i] == o:
            d += 1
        elif b[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    return None


def ws(b, i):
    while i < len(b) and b[i].isspace():
        i += 1
    return i


def before(b, i):
    i -= 1
    while i >= 0 and b[i].isspace():
        i -= 1
    return i


def enclosing(b, i):
    """where the block around i begins"""
    d = 0
    i -= 1
    while i >= 0:
        if b[i] == "}":
            d += 1
        elif b[i] == "{":
            if d == 0:
                return i
            d -= 1
        i -= 1
    return None


def header(b, o):
    """the text between the last ; { } and the block opening at o"""
    i = o - 1
    d = 0
    while i >= 0:
        if b[i] == ")":
            d += 1
        elif b[i] == "(":
            d -= 1
        elif b[i] in ";{}" and d == 0:
            break
        i -= 1
    return b[i + 1:o].strip()


def sites(t, mode):
    b = blank(t)
    n = 0
    if mode in ("ifbool", "ifinv", "guard", "ifnest"):
        for m in re.finditer(r"\bif\s*\(", b):
            o = m.end() - 1
            e = close(b, o)
            if e is None or "constexpr" in m.group(0):
                continue
            cond = t[o + 1:e]
            if re.search(r"(?<![=!<>])=(?!=)", b[o + 1:e]) or b[o + 1:e].strip() == "":
                continue
            p = before(b, m.start())
            if mode == "ifbool":
                if p >= 0 and b[p] in ";{}":
                    yield (m.start(), e + 1, "const bool vv@ = static_cast<bool>(%s);\n if (vv@)" % cond)
                continue
            k = ws(b, e + 1)
            if k >= len(b) or b[k] != "{":
                continue
            ke = close(b, k)
            q = ws(b, ke + 1)
            if mode == "ifinv":
                if b[q:q + 4] == "else":
                    r = ws(b, q + 4)
                    if b[r] == "{":
                        re_ = close(b, r)
                        yield (m.start(), re_ + 1, "if (!(%s)) %s else %s" % (cond, t[r:re_ + 1], t[k:ke + 1]))
                continue
            if mode == "ifnest":
                # if (a && b) {..} without an else: nested ifs
                if b[q:q + 4] == "else":
                    continue
                parts, d, last = [], 0, o + 1
                for i in range(o + 1, e):
                    if b[i] in "([{":
                        d += 1
                    elif b[i] in ")]}":
                        d -= 1
                    elif d == 0 and b[i:i + 2] == "||":
                        parts = None
                        break
                    elif d == 0 and b[i:i + 2] == "&&":
                        parts.append(t[last:i])
                        last = i + 2
                if not parts:
                    continue
                parts.append(t[last:e])
                yield (m.start(), ke + 1, " ".join("if (%s)" % x for x in parts) + " " + t[k:ke + 1])
                continue
            # guard: the last statement of a loop's body, or of a function that returns nothing
            if b[q] != "}" or p < 0 or b[p] not in ";{}":
                continue
            blk = enclosing(b, m.start())
            h = header(b, blk) if blk is not None else ""
            if re.match(r"(for|while)\b", h):
                yield (m.start(), ke + 1, "if (!(%s)) continue;\n%s" % (cond, t[k + 1:ke]))
            elif re.match(r"(static |inline |virtual )*void\s+[\w:~]+\s*\(", h):
                yield (m.start(), ke + 1, "if (!(%s)) return;\n%s" % (cond, t[k + 1:ke]))
    if mode in ("forwhile", "postinc"):
        for m in re.finditer(r"\bfor\s*\(", b):
            o = m.end() - 1
            e = close(b, o)
            if e is None:
                continue
            parts, d, last = [], 0, o + 1
            for i in range(o + 1, e):
                if b[i] in "([{":
                    d += 1
                elif b[i] in ")]}":
                    d -= 1
                elif b[i] == ";" and d == 0:
                    parts.append(t[last:i])
                    last = i + 1
            parts.append(t[last:e])
            if len(parts) != 3:
                continue
            if mode == "postinc":
                x = re.sub(r"\+\+(\w+)\b(?!\s*[\[.(-])", r"\1++", parts[2])
                if x == parts[2]:
                    x = re.sub(r"(?<![\w\])])(\w+)\+\+", r"++\1", parts[2])
                if x != parts[2]:
                    yield (o + 1, e, ";".join(parts[:2] + [x]))
                continue
            k = ws(b, e + 1)
            if b[k] == "{":
                ke = close(b, k)
                body, end = t[k + 1:ke], ke + 1
            else:
                ke = b.index(";", k)
                if re.match(r"(for|if|while|do|switch)\b", b[k:]):
                    continue
                body, end = t[k:ke + 1], ke + 1
            if re.search(r"\bcontinue\b", blank(body)):
                continue
            yield (m.start(), end, "{ %s; while (%s) { {%s\n} %s; } }" % (parts[0], parts[1].strip() or "true", body, parts[2]))
    if mode == "assertbool":
        for m in re.finditer(r"\bASSERT\s*\(", b):
            e = close(b, m.end() - 1)
            if e is None or b[ws(b, e + 1)] != ";":
                continue
            q = ws(b, e + 1)
            yield (m.start(), q + 1, "{ const bool vv@ = static_cast<bool>(%s); ASSERT(vv@); }" % t[m.end():e])
    if mode == "assertthrow":
        for m in re.finditer(r"\bASSERT\s*\(", b):
            e = close(b, m.end() - 1)
            if e is None or b[ws(b, e + 1)] != ";":
                continue
            q = ws(b, e + 1)
            yield (m.start(), q + 1, "{ if (!(%s)) throw eckit::AssertionFailed(\"%s\", Here()); }" % (t[m.end():e], "x"))
    if mode == "retvar":
        for m in re.finditer(r"\breturn\b([^;{}]+);", b):
            p = before(b, m.start())
            blk = enclosing(b, m.start())
            h = ""
            while blk is not None:
                h = header(b, blk)
                if re.match(r"(for|while|if|else|do|try|catch|switch|case\b.*|default\b.*|)$", re.sub(r"\(.*", "", h, flags=re.S).strip()):
                    blk = enclosing(b, blk)
                    continue
                break
            if re.match(r"(static |inline |virtual |const )*(bool|int|long|size_t|double|float|unsigned long|unsigned char|char|uint\w+|int\w+_t|std::string|api::ColumnType)\s+[\w:~]+\s*\(", h):
                ty = re.match(r"(?:static |inline |virtual )*((?:const )?[\w:]+(?: long| char)?)\s+[\w:~]+\s*\(", h)
                if ty:
                    yield (m.start(), m.end(), "{ %s vv@ =%s; return vv@; }" % (ty.group(1).replace("const ", ""), t[m.start(1):m.end(1)]))
    if mode == "ternary":
        for m in re.finditer(r"\breturn\b([^;{}?]+)\?([^;{}?:]+|[^;{}?]*?[^:]):(?!:)([^;{}?]+);", b):
            if before(b, m.start()) >= 0:
                yield (m.start(), m.end(), "{ if (%s) return %s; else return %s; }" % tuple(t[m.start(k):m.end(k)] for k in (1, 2, 3)))
    if mode == "lambda":
        for m in re.finditer(r"\b(?:if|for|while)\s*\(|\belse\s*(?=\{)", b):
            k = ws(b, m.end()) if m.group(0).startswith("else") else None
            if k is None:
                e = close(b, m.end() - 1)
                if e is None:
                    continue
                k = ws(b, e + 1)
            if k >= len(b) or b[k] != "{":
                continue
            ke = close(b, k)
            if re.search(r"\b(return|break|continue|goto|case|co_\w+)\b", b[k:ke]) or not b[k + 1:ke].strip():
                continue
            yield (k, ke + 1, "{ auto vv@ = [&]() {%s\n}; vv@(); }" % t[k + 1:ke])
    if mode == "bodylambda":
        for m in re.finditer(r"(?<![\w>&*:,] )(?<!\w)((?:bool|int|long|size_t|double|float|void|unsigned long|unsigned char|std::string|Length|eckit::Length|eckit::Offset))\s+((?:\w+(?:<[\w, ]*>)?::)*\w+)\s*\(", b):
            e = close(b, m.end() - 1)
            if e is None:
                continue
            k = ws(b, e + 1)
            if b[k:k + 5] == "const":
                k = ws(b, k + 5)
            if b[k:k + 8] == "override":
                k = ws(b, k + 8)
            if k >= len(b) or b[k] != "{" or m.group(2) == "main" or b[max(0, m.start() - 10):m.start()].strip().endswith("constexpr"):
                continue
            ke = close(b, k)
            if not b[k + 1:ke].strip():
                continue
            yield (k, ke + 1, "{ auto vv@ = [&]() -> %s {%s\n}; return vv@(); }" % (m.group(1), t[k + 1:ke]))
    if mode in ("swapcmp", "demorgan"):
        for m in re.finditer(r"\b(?:if|while)\s*\(", b):
            o = m.end() - 1
            e = close(b, o)
            if e is None:
                continue
            c = b[o + 1:e]
            if mode == "demorgan":
                if re.search(r"(?<![=!<>])=(?!=)", c):
                    continue
                for op, other in (("&&", "||"), ("||", "&&")):
                    if op in c and other not in c and c.count("(") == c.count(")"):
                        parts, d, last = [], 0, o + 1
                        for i in range(o + 1, e):
                            if b[i] in "([{":
                                d += 1
                            elif b[i] in ")]}":
                                d -= 1
                            elif d == 0 and b[i:i + 2] == op:
                                parts.append(t[last:i])
                                last = i + 2
                        if parts:
                            parts.append(t[last:e])
                            yield (o + 1, e, "!(%s)" % (" %s " % other).join("!(%s)" % x for x in parts))
                        break
                continue
            ops = list(re.finditer(r"(?<![<>=!\-])(==|!=|<=|>=|<|>)(?![<>=])", c))
            if len(ops) != 1 or re.search(r"&&|\|\||\?|<<|>>|<\w+>", c) or c[:ops[0].start()].count("(") != c[:ops[0].start()].count(")"):
                continue
            op = ops[0].group(1)
            l, r = t[o + 1:o + 1 + ops[0].start()], t[o + 1 + ops[0].end():e]
            if "=" in re.sub(r"==", "", l) or "++" in l + r or "--" in l + r:
                continue
            yield (o + 1, e, "(%s) %s (%s)" % (r, {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}[op], l))
    if mode == "rangefor":
        for m in re.finditer(r"\bfor\s*\(\s*(?:size_t|int|unsigned|unsigned int|std::size_t)\s+(\w+)\s*(?:=\s*0|\(0\)|\{0\})\s*;\s*(\w+)\s*(?:<|!=)\s*([\w.\->]+(?:\(\))?)\.size\(\)\s*;\s*(?:\+\+(\w+)|(\w+)\+\+)\s*\)\s*", b):
            i, c = m.group(1), m.group(3)
            k = m.end()
            if k >= len(b):
                continue
            if b[k] == "{":
                ke = close(b, k)
                body = t[k + 1:ke]
            else:
                ke = b.index(";", k)
                body = t[k:ke + 1]
            nb = re.sub(r"(?<![\w.>])%s\s*\[\s*%s\s*\]" % (re.escape(c), i), "vv@", body)
            if re.search(r"\b%s\b" % i, blank(nb)) or re.search(r"(?<![\w.>])%s\b" % re.escape(c), nb) or nb == body:
                continue
            yield (m.start(), ke + 1, "for (auto&& vv@ : %s) {%s\n}" % (c, nb))
    if mode == "swapstmt":
        for m in re.finditer(r"(?<=[;{}])(\s*)([\w.]+) *= *([\w.]+(?:\(\))?);(\s*)([\w.]+) *= *([\w.]+);", b):
            a, x, c, y = m.group(2, 3, 5, 6)
            names = lambda z: set(re.findall(r"\w+", z))
            if names(a) & (names(c) | names(y)) or names(c) & names(x) or "(" in x:
                continue
            yield (m.start(2), m.end(), "%s = %s;%s%s = %s;" % (t[m.start(5):m.end(5)], t[m.start(6):m.end(6)], m.group(4), t[m.start(2):m.end(2)], t[m.start(3):m.end(3)]))
    if mode == "switchif":
        for m in re.finditer(r"\bswitch\s*\(", b):
            e = close(b, m.end() - 1)
            k = ws(b, e + 1)
            if b[k] != "{":
                continue
            ke = close(b, k)
            labs = list(re.finditer(r"\b(case\b(?:[^:]|::)+|default\s*):(?!:)", b[k:ke]))
            if not labs or "switch" in b[k:ke]:
                continue
            groups, cur, ok = [], [], True
            for n, l in enumerate(labs):
                z = labs[n + 1].start() if n + 1 < len(labs) else ke - k
                body = b[k + l.end():k + z]
                cur.append(t[k + l.start():k + l.start(1) + len(l.group(1))])
                if not body.strip():
                    continue
                tb = t[k + l.end():k + z]
                if re.search(r"\bbreak\s*;\s*\}?\s*$", body) and body.count("break") == 1:
                    tb = re.sub(r"\bbreak\s*;(\s*\}?\s*)$", r"\1", tb)
                elif not re.search(r"\b(return|throw)\b[^;]*;\s*\}?\s*$", body) and n + 1 < len(labs) or "break" in body:
                    ok = False
                groups.append((cur, tb))
                cur = []
            if cur:
                ok = False
            if not ok:
                continue
            d = [g for g in groups if any(c.startswith("default") for c in g[0])]
            if d and d[0] is not groups[-1]:
                continue
            txt = "{ const auto vv@ = %s;\n" % t[m.end():e]
            for n, (cs, tb) in enumerate(groups):
                cond = " || ".join("vv@ == (%s)" % c[4:].strip() for c in cs if c.startswith("case"))
                isdef = any(c.startswith("default") for c in cs)
                txt += ("else " if n else "") + ("" if isdef and n else "if (%s) " % ("true" if isdef else cond)) + "{%s\n}\n" % tb
            yield (m.start(), ke + 1, txt + "}")


def main(mode, out):
    shutil.rmtree(out + "/src", ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    shutil.copytree(SRC, out + "/src")
    stub = build.stub_dir()
    orig, drop = {}, {}
    for r, _, fs in os.walk(out + "/src"):
        for f in fs:
            if f.endswith((".cc", ".h")):
                orig[r + "/" + f] = open(r + "/" + f).read()
                drop[r + "/" + f] = set()
    dead = set()

    def write(p):
        t = orig[p]
        if p in dead:
            open(p, "w").write(t)
            return 0
        ss = [(i,) + s for i, s in enumerate(sites(t, mode)) if i not in drop[p]]
        ss.sort(key=lambda s: s[1])
        keep, end = [], -1
        for s in ss:  # the innermost of nested sites is left alone
            if s[1] >= end:
                keep.append(s)
                end = s[2]
        for i, a, z, new in reversed(keep):
            t = t[:a] + new.replace("@", "%d" % i) + t[z:]
        open(p, "w").write(t)
        return len(keep)

    n = sum(write(p) for p in orig)
    us = build.units()
    flags = ["-fsyntax-only", "-ferror-limit=200"] + [x.replace("-I" + build.SRC, "-I" + out + "/src") for x in build.cxxflags(stub)]

    def comp(u):
        return subprocess.run([build.CLANGXX] + flags + [out + "/src/" + u], capture_output=True, text=True).stderr

    for rnd in range(6):
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            errs = list(ex.map(comp, us))
        bad = set()
        for e in errs:
            for m in re.finditer(r"^(%s/src/[^:\n]+):(\d+):\d+: error: ([^\n]*)" % re.escape(out), e, flags=re.M):
                bad.add((os.path.normpath(m.group(1)), int(m.group(2)), m.group(3)))
        if not bad:
            break
        for p, l, msg in bad:
            txt = open(p).read().split("\n")
            ids = [int(x) for k in range(max(0, l - 3), min(len(txt), l + 1)) for x in re.findall(r"\bvv(\d+)\b", txt[k])]
            ids += [int(x) for x in re.findall(r"\bvv(\d+)\b", msg)]
            new = set(ids) - drop[p]
            if new and rnd < 4:
                drop[p] |= new
            else:
                dead.add(p)
        n = sum(write(p) for p in orig)
    print("%s: %d sites, %d files left alone%s" % (mode, n, len(dead), " " + " ".join(sorted(os.path.basename(x) for x in dead))[:200] if dead else ""))


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
