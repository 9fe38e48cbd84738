"""Fortran front end: reads what gfortran itself resolved.

gfortran -fsyntax-only -fdump-fortran-original prints the compiler's own typed
program (symbols with attributes, resolved calls with positional arguments,
the statement tree); the module file it writes (gzip, s-expressions) holds the
resolved interface bodies (type, kind, INTENT, VALUE of every formal).  Nothing
is executed.  Interfaces of names that are PRIVATE are left out of module
files, so the copy that is compiled has its PRIVATE statements blanked.
"""
import gzip
import os
import re
import shutil
import subprocess
import tempfile


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ front end
def compile_module(path, workdir=None, private=False):
    """-> (dump text, {module name: module s-expression}); private: keep the PRIVATE statements"""
    tmp = tempfile.mkdtemp(prefix="vf90.", dir=workdir)
    try:
        text = open(path, errors="replace").read()
        if not private:
            text = re.sub(r"(?im)^([ \t]*)private[ \t]*(::.*)?$", r"\1", text)
        src = os.path.join(tmp, os.path.basename(path))
        open(src, "w").write(text)
        r = subprocess.run(["gfortran", "-fsyntax-only", "-fdump-fortran-original", "-ffree-line-length-none",
                            "-J", tmp, src], capture_output=True, text=True, cwd=tmp)
        if r.returncode:
            raise Unsupported("gfortran cannot read %s: %s" % (path, r.stderr[-400:]))
        mods = {}
        for n in os.listdir(tmp):
            if n.endswith(".mod"):
                t = gzip.open(os.path.join(tmp, n), "rt", errors="replace").read()
                mods[n[:-4]] = sexpr(t[t.index("\n"):])
        return r.stdout, mods
    finally:
        shutil.rmtree(tmp)


def sexpr(t):
    out, stack = [], []
    cur = out
    for m in re.finditer(r"\(|\)|'(?:[^']|'')*'|\"(?:[^\"]|\"\")*\"|[^\s()]+", t):
        k = m.group(0)
        if k == "(":
            new = []
            cur.append(new)
            stack.append(cur)
            cur = new
        elif k == ")":
            cur = stack.pop()
        else:
            cur.append(k)
    return out


# ------------------------------------------------- bind(C) interfaces from .mod
def interfaces(mod):
    """{fortran name: dict(label, result, formals=[dict(name, type, kind, value, intent, dim, func)], body)}"""
    table = None
    for e in mod:
        if isinstance(e, list) and len(e) > 6 and isinstance(e[0], str) and e[0].isdigit() \
                and isinstance(e[1], str) and e[1].startswith("'"):
            table = e
    if table is None:
        raise Unsupported("no symbol table in the module file")
    syms = {}
    for i in range(0, len(table) - 5, 6):
        syms[table[i]] = dict(name=table[i + 1].strip("'"), module=table[i + 2].strip("'"), label=table[i + 3].strip("'"),
                              ns=table[i + 4], d=table[i + 5])

    def typ(d):
        t = d[2]
        if not t:
            return ("VOID", 0)
        if t[0] in ("DERIVED", "CLASS"):
            s = syms.get(t[1])
            return (s["name"].lower() if s else t[1], 0)
        if t[0] == "UNKNOWN":
            return ("VOID", 0)
        return (t[0], int(t[1]) if isinstance(t[1], str) and t[1].lstrip("-").isdigit() else 0)

    out = {}
    for k, s in syms.items():
        a = s["d"][0]
        if "IS_BIND_C" not in a or a[0] != "PROCEDURE":
            continue
        formals = []
        for f in s["d"][5]:
            fs = syms[f]
            fa = fs["d"][0]
            t = typ(fs["d"])
            formals.append(dict(name=fs["name"].lower(), type=t[0], kind=t[1], value="VALUE" in fa, intent=fa[1],
                                dim="DIMENSION" in fa, optional="OPTIONAL" in fa, proc=fa[0] == "PROCEDURE"))
        res = s["d"][7]
        result = typ(syms[res]["d"]) if res != "0" and res in syms else typ(s["d"])
        if "SUBROUTINE" in a:
            result = ("VOID", 0)
        out[s["name"].lower()] = dict(label=s["label"] or s["name"].lower(), formals=formals, result=result,
                                      module_proc="CONTAINED" in a or "MODULE-PROC" in a and a[3] == "DECL", attrs=a)
    return out


def parameters(dump):
    """module level PARAMETER constants {name: value text}"""
    out = {}
    head = dump.split("\n  Namespace:", 1)[0]
    for m in re.finditer(r"symtree: '([^']+)'[^\n]*\n\s+type spec : \((\w+)[^\n]*\n\s+attributes: \(PARAMETER([^\n]*)\)\n\s+value: ([^\n]*)", head):
        if "USE-ASSOC" in m.group(3):
            continue
        out[m.group(1).lower()] = m.group(4).strip()
    return out


def bindings(dump):
    """{type: {binding: (procedure, pass?)}}"""
    out = {}
    cur = None
    for ln in dump.split("\n"):
        m = re.match(r"\s*symtree: '([^']+)'\s*\|\| symbol: '([^']+)'", ln)
        if m:
            cur = m.group(2).lower()
        m = re.match(r"\s*PROCEDURE(?:, )?(.*?)\s*::\s*(\w+)\s*=>\s*(\w+)", ln)
        if m and cur:
            out.setdefault(cur, {})[m.group(2).lower()] = (m.group(3).lower(), "NOPASS" not in m.group(1))
    return out


# --------------------------------------------------------------- procedures
class Proc:
    def __init__(self, name):
        self.name = name
        self.syms = {}
        self.code = []
        self.formals = None
        self.result = None
        self.unsupported = None

    def __repr__(self):
        return "<%s>" % self.name


def procedures(dump):
    """{name: Proc}; formals come from the symbol of the enclosing namespace"""
    lines = dump.split("\n")
    procs, i = {}, 0
    formals, results = {}, {}
    cur = None
    sym = None
    while i < len(lines):
        ln = lines[i]
        m = re.match(r"\s*procedure name = (\S+)", ln)
        if m:
            cur = Proc(m.group(1).lower())
            procs[cur.name] = cur
            sym = None
            i += 1
            continue
        m = re.match(r"\s*symtree: '([^']+)'\s*\|\| symbol: '([^']+)'(.*)", ln)
        if m and cur is not None:
            sym = dict(name=m.group(2).lower(), attrs=set(), type=None, value=None, host="from namespace" in m.group(3))
            cur.syms[m.group(1).lower()] = sym
            i += 1
            continue
        s = ln.strip()
        if sym is not None and cur is not None:
            if s.startswith("type spec : "):
                sym["type"] = s[12:].strip()
            elif s.startswith("attributes: "):
                sym["attrs"] = set(re.findall(r"[A-Z][A-Z_\-]*(?:\([^)]*\))?", s[12:]))
            elif s.startswith("value: "):
                sym["value"] = s[7:].strip()
            elif s.startswith("Formal arglist:"):
                formals[sym["name"]] = s[15:].lower().split()
            elif s.startswith("result: "):
                results[sym["name"]] = s[8:].strip().lower()
        if s == "code:" and cur is not None:
            body, i = [], i + 1
            while i < len(lines) and not re.match(r"\s*(CONTAINS|Namespace: .*|procedure name = .*)\s*$", lines[i]):
                body.append(lines[i])
                i += 1
            try:
                cur.code = statements(body)
            except Unsupported as e:
                cur.unsupported = str(e)
            sym = None
            continue
        i += 1
    for n, p in procs.items():
        p.formals = formals.get(n, [])
        p.result = results.get(n, n)
        if p.result not in p.syms and n in p.syms:
            p.result = n
    return procs


# --------------------------------------------------------------- statements
SKIP = ("CONTINUE", "NOP")


def statements(lines):
    """[('assign', lhs, rhs) | ('if', [(cond|None, body)]) | ('call', name, args) | ('return',) | ('alloc', [vars])
        | ('ptr', lhs, rhs) | ('other', text)]"""
    toks = []
    for ln in lines:
        s = ln.strip()
        if s:
            toks.append(s)
    pos = [0]

    def block(ends):
        out = []
        while pos[0] < len(toks):
            s = toks[pos[0]]
            if any(s == e or s.startswith(e + " ") for e in ends):
                return out
            pos[0] += 1
            if s.startswith("ASSIGN "):
                l, rest = parse(s[7:])
                r, rest = parse(rest)
                if rest.strip():
                    raise Unsupported("trailing text in " + s[:80])
                out.append(("assign", l, r))
            elif s.startswith("POINTER ASSIGN "):
                l, rest = parse(s[15:])
                r, rest = parse(rest)
                out.append(("ptr", l, r))
            elif s.startswith("IF "):
                c, rest = parse(s[3:])
                arms = []
                body = block(("ELSE", "ELSE IF", "ENDIF"))
                arms.append((c, body))
                while True:
                    if pos[0] >= len(toks):
                        raise Unsupported("IF without ENDIF")
                    s = toks[pos[0]]
                    pos[0] += 1
                    if s == "ENDIF":
                        break
                    if s.startswith("ELSE IF "):
                        c, rest = parse(s[8:])
                        arms.append((c, block(("ELSE", "ELSE IF", "ENDIF"))))
                    elif s == "ELSE":
                        arms.append((None, block(("ENDIF",))))
                    else:
                        raise Unsupported("unexpected " + s)
                out.append(("if", arms))
            elif s.startswith("CALL "):
                m = re.match(r"CALL\s+(\S+)\s*(.*)", s)
                args, rest = arglist(m.group(2)) if m.group(2) else ([], "")
                out.append(("call", m.group(1).lower(), args))
            elif s == "RETURN" or s.startswith("RETURN"):
                out.append(("return",))
            elif s.startswith("ALLOCATE "):
                vs, rest = [], s[9:]
                while rest.strip():
                    if not re.match(r"\s*[\w@]+:", rest):
                        break
                    v, rest = parse(rest)
                    vs.append(v)
                out.append(("alloc", vs))
            elif s.startswith("DEALLOCATE "):
                out.append(("other", s))
            elif re.match(r"(\d+\s+)?(CONTINUE|NOP)$", s):
                pass
            elif s == "BLOCK" or s.startswith("BLOCK "):
                out += block(("END BLOCK",))
                if pos[0] < len(toks):
                    pos[0] += 1
            elif s.startswith("WRITE "):
                m = re.match(r"WRITE UNIT=(.*)", s)
                unit, items = None, []
                try:
                    unit, rest = parse(m.group(1))
                    if rest.strip():
                        unit = None
                except (Unsupported, AttributeError):
                    pass
                while pos[0] < len(toks) and toks[pos[0]] != "DT_END":
                    t = toks[pos[0]]
                    pos[0] += 1
                    if t.startswith("TRANSFER "):
                        items.append(parse(t[9:])[0])
                    else:
                        unit = None
                pos[0] += 1
                out.append(("write", unit, items))
            elif s.startswith("ASSOCIATE "):
                rest = s[10:]
                while rest.strip():
                    m = re.match(r"\s*,?\s*(\w+)\s*=\s*(?!=)", rest)
                    if not m:
                        raise Unsupported(s[:60])
                    e, rest = parse(rest[m.end():])
                    out.append(("associate", m.group(1).lower(), e))
                out += block(("END ASSOCIATE",))
                if pos[0] < len(toks):
                    pos[0] += 1
            elif s.startswith("SELECT CASE "):
                sel, rest = parse(s[12:])
                arms = []
                while pos[0] < len(toks) and not toks[pos[0]].startswith("END SELECT"):
                    t = toks[pos[0]]
                    if not t.startswith("CASE "):
                        raise Unsupported(t[:60])
                    pos[0] += 1
                    vals, rest = [], t[5:].strip()
                    while rest:
                        if not rest.startswith("("):
                            raise Unsupported(t[:60])
                        lo, rest = parse(rest[1:])
                        hi, rest = parse(rest)
                        rest = rest.lstrip()[1:].strip()
                        vals.append((lo, hi))
                    arms.append((vals, block(("CASE", "END SELECT"))))
                pos[0] += 1
                out.append(("select", sel, arms))
            elif s.startswith(("symtree:", "type spec", "attributes:", "value:", "Array spec", "result:", "Formal arglist")):
                pass
            else:
                out.append(("other", s))
                if re.match(r"(DO|SELECT|FORALL|WHERE|ASSOCIATE|CRITICAL)\b", s):
                    raise Unsupported("statement " + s[:60])
        return out

    return block(())


# -------------------------------------------------------------- expressions
# ('const', text) ('var', ns, name, [suffixes]) ('call', name, args) ('op', op, a[, b]) ('array', [..]) ('absent',)
# suffixes: ('comp', name) ('full',) ('index', [...])
OPS = ["EQV", "NEQV", "AND", "OR", "NOT", "parens", "U+", "U-", "**", "//", "==", "/=", ">=", "<=", "+", "-", "*", "/", ">", "<"]


def parse(t):
    t = t.lstrip()
    if not t:
        raise Unsupported("empty expression")
    c = t[0]
    if c == "'":
        m = re.match(r"'(?:[^']|'')*'", t)
        if not m:
            raise Unsupported("string")
        return ("const", m.group(0)), t[m.end():]
    m = re.match(r"\.(true|false)\.(_\d+)?", t)
    if m:
        return ("const", m.group(1)), t[m.end():]
    m = re.match(r"-?\d+(\.\d+)?([eE][+-]?\d+)?(_\d+)?", t)
    if m:
        return ("const", re.sub(r"_\d+$", "", m.group(0))), t[m.end():]
    if t.startswith("(/ "):
        # array constructor or division
        items, rest, comma = [], t[3:], False
        while True:
            e, rest = parse(rest)
            items.append(e)
            rest = rest.lstrip()
            if rest.startswith(","):
                comma = True
                rest = rest[1:]
                continue
            if rest.startswith("/)"):
                return suffixed(("array", items), rest[2:])
            if rest.startswith(")"):
                if comma or len(items) != 2:
                    raise Unsupported("array constructor: " + t[:60])
                return ("op", "/", items[0], items[1]), rest[1:]
    if c == "(":
        m = re.match(r"\(\s*(%s)\s+" % "|".join(re.escape(o) for o in OPS), t)
        if m:
            op, rest, items = m.group(1), t[m.end():], []
            while not rest.lstrip().startswith(")"):
                e, rest = parse(rest)
                items.append(e)
            rest = rest.lstrip()[1:]
            if op == "parens":
                return items[0], rest
            return ("op", op) + tuple(items), rest
        if t.startswith("()"):
            return ("absent",), t[2:]
        raise Unsupported("expression " + t[:60])
    m = re.match(r"NULL\(\)", t)
    if m:
        return ("const", "NULL"), t[m.end():]
    m = re.match(r"([A-Za-z_][\w@]*)", t)
    if not m:
        raise Unsupported("expression " + t[:60])
    name, rest = m.group(1), t[m.end():]
    ns = None
    m = re.match(r":([A-Za-z_][\w@]*)", rest)
    if m:
        ns, name, rest = name, m.group(1), rest[m.end():]
        return suffixed(("var", ns.lower(), name.lower(), ()), rest)
    if rest.startswith("[["):
        args, rest = arglist(rest[2:])
        if not rest.startswith("]]"):
            raise Unsupported("call " + t[:60])
        return ("call", name.lower(), tuple(args)), rest[2:]
    if rest.startswith("["):
        args, rest = arglist(rest[1:])
        if not rest.startswith("]"):
            raise Unsupported("call " + t[:60])
        return ("call", name.lower(), tuple(args)), rest[1:]
    if rest.startswith("("):
        # structure constructor  name(v , v)
        items, rest = [], rest[1:]
        while not rest.lstrip().startswith(")"):
            e, rest = parse(rest)
            items.append(e)
            rest = rest.lstrip().lstrip(",")
        return ("struct", name.lower(), tuple(items)), rest.lstrip()[1:]
    return ("name", name.lower()), rest


def suffixed(v, rest):
    suf = []
    while True:
        m = re.match(r"\s*%\s*([A-Za-z_]\w*)", rest)
        if m:
            rest = rest[m.end():]
            suf.append(("comp", m.group(1).lower()))
            if rest.startswith("[["):
                args, rest = arglist(rest[2:])
                if not rest.startswith("]]"):
                    raise Unsupported("method call")
                rest = rest[2:]
                return ("method", v[:3] + (tuple(suf[:-1]),), m.group(1).lower(), tuple(args)), rest
            continue
        if rest.startswith("(FULL)"):
            rest = rest[6:]
            suf.append(("full",))
            continue
        if rest.startswith("("):
            rest = rest[1:]
            idx = []
            while True:
                parts, cur = [], None
                while True:
                    rest = rest.lstrip()
                    if rest[:1] in (":", ",", ")"):
                        if rest[0] == ":":
                            parts.append(cur)
                            cur = None
                            rest = rest[1:]
                            continue
                        break
                    cur, rest = parse(rest)
                idx.append(tuple(parts + [cur]) if parts else cur)
                if rest[0] == ",":
                    rest = rest[1:]
                    continue
                rest = rest[1:]
                break
            suf.append(("index", tuple(idx)))
            continue
        break
    if v[0] == "var":
        return ("var", v[1], v[2], tuple(suf)), rest
    if suf:
        raise Unsupported("suffix on a value")
    return v, rest


def arglist(t):
    """((a) (b) (name = c))"""
    t = t.lstrip()
    if t.startswith("()"):
        return [], t[2:]
    if not t.startswith("("):
        raise Unsupported("argument list " + t[:60])
    rest = t[1:]
    out = []
    while True:
        rest = rest.lstrip()
        if rest.startswith(")"):
            return out, rest[1:]
        m = re.match(r"\(?\(arg not-present\)\)?", rest)
        if m:
            out.append(("absent",))
            rest = rest[m.end():]
            continue
        if not rest.startswith("("):
            raise Unsupported("argument " + rest[:60])
        kw = None
        m = re.match(r"\(\s*([A-Za-z_]\w*)\s*=\s*(?!=)", rest)
        if m:
            kw, rest = m.group(1).lower(), rest[m.end():]
        else:
            rest = rest[1:]
        e, rest = parse(rest)
        rest = rest.lstrip()
        if not rest.startswith(")"):
            raise Unsupported("argument end " + rest[:60])
        rest = rest[1:]
        out.append(("kw", kw, e) if kw else e)
