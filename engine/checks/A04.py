"""Fortran bindings: every bind(C) interface of the two Fortran modules is compared with the C header it binds (clang AST of
the header against the interface resolved by gfortran), and every wrapper procedure is evaluated path by path over gfortran's
own resolved statement tree (branching on argument presence, logical arguments and call outcome) and compared with what the
reference documentation says that procedure passes to, and returns from, the C function."""
import json
import os
import re
import subprocess

import build
import fortran as F

CONFIG = {}
API = "odc/api/odc.f90"
LEGACY = "fortran/odc_c_binding.f90"


def tri(R, rule, key, where, v, msg, good=""):
    if v is None:
        R.extra.setdefault("undecided", []).append("%s [%s] %s" % (where, rule, key))
        return
    R.check(v, rule, key, where, msg, good)


# ------------------------------------------------------------------ C headers
def c_header(path):
    """({function: (result, [(name, type)])}, {enumerator: value}, {typedef: type})"""
    flags = ["-x", "c", "-std=gnu11", "-I" + build.SRC]
    r = subprocess.run([build.CLANGXX.replace("clang++", "clang"), "-fsyntax-only", "-Xclang", "-ast-dump=json"] + flags + [path],
                       capture_output=True, text=True)
    if not r.stdout.startswith("{"):
        raise build.AnalysisBroken("clang cannot read %s: %s" % (path, r.stderr[-300:]))
    ast = json.loads(r.stdout)
    fns, enums, tds = {}, {}, {}

    def find_value(n):
        if "value" in n:
            return n["value"]
        for c in n.get("inner", []):
            v = find_value(c)
            if v is not None:
                return v
        return None

    for n in ast["inner"]:
        k = n["kind"]
        if k == "TypedefDecl":
            tds[n["name"]] = n["type"].get("desugaredQualType", n["type"]["qualType"])
        elif k == "FunctionDecl":
            ps = [(c.get("name"), c["type"].get("qualType")) for c in n.get("inner", []) if c["kind"] == "ParmVarDecl"]
            res = n["type"]["qualType"].split("(", 1)[0].strip()
            fns[n["name"]] = (res, ps)
        elif k == "EnumDecl":
            nxt = 0
            for c in n.get("inner", []):
                if c["kind"] == "EnumConstantDecl":
                    v = find_value(c)
                    nxt = int(v) if v is not None else nxt
                    enums[c["name"]] = nxt
                    nxt += 1
    return fns, enums, tds


def canon(t, tds):
    """canonical C type: ('int'|'long'|'double'|'bool'|'void'|'char'|struct.. , pointer depth, function pointer?, const pointee?)"""
    for _ in range(8):
        words = re.findall(r"[A-Za-z_]\w*", t)
        hit = [w for w in words if w in tds and w not in ("size_t",)]
        if not hit or "(*)" in t:
            break
        t2 = re.sub(r"\b%s\b" % hit[0], tds[hit[0]], t, count=1)
        if t2 == t:
            break
        t = t2
    if "(*)" in t:
        return ("fn", 1, True, False, t)
    const = bool(re.match(r"\s*const\b", t))
    depth = t.count("*") + t.count("[")
    base = re.sub(r"\b(const|struct|volatile|restrict|enum)\b|[*\[\]]", " ", t)
    base = " ".join(base.split())
    return (base, depth, False, const, t)


SCALAR = {"int": ("INTEGER", 4), "long": ("INTEGER", 8), "long int": ("INTEGER", 8), "double": ("REAL", 8), "_Bool": ("LOGICAL", 1),
          "bool": ("LOGICAL", 1), "float": ("REAL", 4)}


def arg_matches(f, c):
    """None when the C type is not one the bindings use"""
    base, depth, fn, const, text = c
    ft = (f["type"], f["kind"])
    if fn:
        return f["type"] == "c_funptr" and f["value"]
    if depth == 0:
        if base not in SCALAR:
            return None
        return f["value"] and ft == SCALAR[base] and not f["dim"]
    if depth == 1:
        if f["type"] == "c_ptr":
            return f["value"]
        if f["value"]:
            return False
        if base == "char":
            return f["type"] == "CHARACTER" and f["dim"]
        if base in SCALAR:
            return ft == SCALAR[base] and (const or f["intent"] != "IN")
        if base == "void":
            return None
        return False
    if depth == 2:
        return f["type"] == "c_ptr" and not f["value"] and f["intent"] != "IN"
    return None


def res_matches(res, c):
    base, depth, fn, const, text = c
    if depth:
        return res[0] == "c_ptr"
    if base == "void":
        return res[0] == "VOID"
    if base not in SCALAR:
        return None
    return tuple(res) == SCALAR[base]


# ------------------------------------------------------------------ evaluator
class Fork(Exception):
    def __init__(self, atom):
        self.atom = atom


class Stop(Exception):
    pass


NULLP = ("const", "NULLPTR")


def unknown(v):
    if isinstance(v, tuple):
        if v and v[0] == "?":
            return True
        return any(unknown(x) for x in v)
    return False


def num(v):
    """polynomial {monomial: coefficient} of an integer value"""
    if v[0] == "int":
        return {(): v[1]}
    if v[0] == "poly":
        return dict(v[1])
    return {(v,): 1}


def poly(d):
    d = {k: c for k, c in d.items() if c}
    if not d:
        return ("int", 0)
    if list(d) == [()]:
        return ("int", d[()])
    if len(d) == 1:
        k, c = next(iter(d.items()))
        if c == 1 and len(k) == 1:
            return k[0]
    return ("poly", tuple(sorted(d.items(), key=repr)))


def padd(a, b, s=1):
    d = dict(num(a))
    for k, c in num(b).items():
        d[k] = d.get(k, 0) + s * c
    return poly(d)


def pmul(a, b):
    d = {}
    for k, c in num(a).items():
        for k2, c2 in num(b).items():
            m = tuple(sorted(k + k2, key=repr))
            d[m] = d.get(m, 0) + c * c2
    return poly(d)


class Run:
    """one path through a procedure: `conds` fixes the outcome of every condition met so far"""

    def __init__(self, M, conds):
        self.M, self.conds = M, conds
        self.env, self.calls, self.events, self.alloc = {}, [], [], {}
        self.frames = 0

    def decide(self, atom):
        if atom in self.conds:
            return self.conds[atom]
        raise Fork(atom)

    # ---- conditions
    def present(self, x):
        return self.decide(("present", x))

    def success(self, k):
        return self.decide(("eq", ("res", k), ("int", 0)))

    def truth(self, v):
        if v[0] == "bool":
            return v[1]
        if v[0] == "not":
            return not self.truth(v[1])
        if v[0] == "cmp":
            return self.compare(v[1], v[2], v[3])
        if v[0] == "pres":
            return self.present(v[1])
        if v[0] == "and":
            return self.truth(v[1]) and self.truth(v[2])
        if v[0] == "or":
            return self.truth(v[1]) or self.truth(v[2])
        if v[0] == "eqv":
            return self.truth(v[1]) == self.truth(v[2])
        if unknown(v):
            self.events.append(("unknown-branch", v))
        return self.decide(("true", v))

    def compare(self, op, a, b):
        d = padd(a, b, -1)
        if d[0] == "int" and op in ("==", "/=", "<", "<=", ">", ">="):
            n = d[1]
            return {"==": n == 0, "/=": n != 0, "<": n < 0, "<=": n <= 0, ">": n > 0, ">=": n >= 0}[op]
        if op in ("==", "/="):
            x, y = (a, b) if repr(a) >= repr(b) else (b, a)
            r = self.decide(("eq", x, y))
            return r if op == "==" else not r
        return self.decide(("cmp", op, a, b))

    # ---- variables
    def key(self, fr, v):
        return (fr, v[2] if v[1] not in ("@",) else v[2])

    def lookup(self, fr, ns, name):
        """(frame, name) the variable denotes, through by-reference bindings"""
        p = fr["proc"]
        b = fr["bind"].get(name)
        if b is None and (fr["id"], name) in self.env:
            return (fr["id"], name), fr
        if ns == self.M.module or (ns != p.name and not ns.startswith("block@") and name not in p.syms):
            return ("g", name), fr
        if b is not None:
            return b, fr
        return (fr["id"], name), fr

    def initial(self, fr, slot, name):
        if slot[0] == "g":
            s = self.M.globals.get(name)
            return ("global", name)
        p = fr["proc"]
        s = p.syms.get(name)
        if s is None:
            return ("?", name)
        a = s["attrs"]
        if any(x.startswith("DUMMY") for x in a) or name in p.formals:
            if "DUMMY(OUT)" in a:
                return ("undef", name)
            return ("arg", name)
        if ("IMPLICIT-SAVE" in a or "EXPLICIT-SAVE" in a) and s["value"] is not None:
            if name in self.M.modified(p):
                return ("saved", name)
            return self.const(s["value"])
        if "IMPLICIT-SAVE" in a or "EXPLICIT-SAVE" in a:
            return ("saved", name)
        return ("undef", name)

    def const(self, t):
        try:
            e, _ = F.parse(t)
            return self.value(None, e)
        except (F.Unsupported, TypeError):
            return ("?", t)

    def read(self, fr, v, forcond=False):
        ns, name, suf = v[1], v[2], list(v[3])
        slot, _ = self.lookup(fr, ns, name)
        if slot[0] == "absent":
            self.events.append(("absent-read", name))
            return ("undef", name)
        # an optional dummy of the analysed procedure may only be read where it is present
        opt = self.M.optional(slot)
        if opt and not self.present(opt):
            self.events.append(("absent-read", opt))
            return ("undef", name)
        comps = []
        while suf and suf[0][0] == "comp":
            comps.append(suf.pop(0)[1])
        comps = tuple(c for c in comps if c != "_data")
        k = slot + comps
        if k in self.env:
            val = self.env[k]
        elif comps:
            base = self.env.get(slot)
            if base is None:
                base = self.initial_of(slot, fr, name)
            val = ("comp", base) + comps
        else:
            val = self.initial_of(slot, fr, name)
        suf = [s for s in suf if s[0] != "full"]
        for s in suf:
            if s[0] != "index":
                return ("?", "suffix")
            idx = []
            for e in s[1]:
                if e is None:
                    idx.append(None)
                elif e and isinstance(e[0], (tuple, type(None))):
                    idx.append(tuple(None if x is None else self.value(fr, x) for x in e))
                else:
                    idx.append(self.value(fr, e))
            if len(idx) == 1 and isinstance(idx[0], tuple) and len(idx[0]) == 2 and isinstance(idx[0][0], tuple):
                lo, hi = idx[0]
                if lo == ("int", 1) and hi == ("len_trim", val):
                    val = ("trim", val)
                    continue
                if lo == ("int", 1) and val[0] == "deref" and len(val[2]) == 1 and val[2][0] == hi:
                    continue
            val = ("sect", val, tuple(idx))
        return val

    def initial_of(self, slot, fr, name):
        if slot[0] == "g":
            return ("global", name)
        f = self.M.frames[slot[0]] if slot[0] in self.M.frames else fr
        return self.initial(f, slot, slot[1])

    def write(self, fr, v, val):
        ns, name, suf = v[1], v[2], list(v[3])
        slot, _ = self.lookup(fr, ns, name)
        if slot[0] == "absent":
            self.events.append(("absent-write", name))
            return
        opt = self.M.optional(slot)
        if opt and not self.present(opt):
            self.events.append(("absent-write", opt))
            return
        comps = []
        while suf and suf[0][0] == "comp":
            comps.append(suf.pop(0)[1])
        comps = tuple(c for c in comps if c != "_data")
        suf = [s for s in suf if s[0] != "full"]
        if suf:
            val = ("?", "partial write")
        k = slot + comps
        for o in list(self.env):
            if len(o) > len(k) and o[:len(k)] == k:
                del self.env[o]
        self.env[k] = val

    # ---- values
    def value(self, fr, e):
        k = e[0]
        if k == "const":
            t = e[1]
            if t in ("true", "false"):
                return ("bool", t == "true")
            if t.startswith("'"):
                return ("text", t[1:-1].replace("''", "'").replace("\\x00", "\0"))
            if re.match(r"-?\d+$", t):
                return ("int", int(t))
            return ("num", t)
        if k == "var":
            return self.read(fr, e)
        if k == "struct":
            if e[1] in ("c_ptr", "c_funptr") and len(e[2]) == 1:
                v = self.value(fr, e[2][0])
                return NULLP if v == ("int", 0) else ("ptr", v)
            return ("?", e[1])
        if k == "name":
            return ("name", e[1])
        if k == "array":
            return ("array",) + tuple(self.value(fr, x) for x in e[1])
        if k == "absent":
            return ("absent",)
        if k == "op":
            return self.operate(fr, e[1], [x for x in e[2:]])
        if k == "call":
            return self.call(fr, e[1], list(e[2]))
        if k == "method":
            p = None
            for t, bs in self.M.bindings.items():
                if e[2] in bs and len(e[3]):
                    p = bs[e[2]][0] if p in (None, bs[e[2]][0]) else False
            if p:
                return self.call(fr, p, list(e[3]))
            return ("?", e[2])
        return ("?", k)

    def operate(self, fr, op, xs):
        if op == "AND":
            return ("and", self.logical(fr, xs[0]), self.logical(fr, xs[1])) if False else \
                ("bool", self.truth(self.value(fr, xs[0])) and self.truth(self.value(fr, xs[1])))
        if op == "OR":
            return ("bool", self.truth(self.value(fr, xs[0])) or self.truth(self.value(fr, xs[1])))
        if op == "NOT":
            return ("bool", not self.truth(self.value(fr, xs[0])))
        vs = [self.value(fr, x) for x in xs]
        if op == "EQV":
            return ("bool", self.truth(vs[0]) == self.truth(vs[1]))
        if op == "NEQV":
            return ("bool", self.truth(vs[0]) != self.truth(vs[1]))
        if op in ("==", "/=", "<", "<=", ">", ">="):
            return ("cmp", op, vs[0], vs[1])
        if op == "//":
            return ("concat",) + tuple(y for v in vs for y in (v[1:] if v[0] == "concat" else (v,)))
        if op == "+":
            return padd(vs[0], vs[1])
        if op == "-":
            return padd(vs[0], vs[1], -1)
        if op == "*":
            return pmul(vs[0], vs[1])
        if op == "U-":
            return pmul(("int", -1), vs[0])
        if op == "U+":
            return vs[0]
        if op == "/":
            return self.divide(vs[0], vs[1])
        return ("?", op)

    def divide(self, a, b):
        if b[0] == "int" and b[1]:
            n = num(a)
            if all(c % b[1] == 0 for c in n.values()) and n:
                return poly({k: c // b[1] for k, c in n.items()})
            return ("div", a, b[1])
        return ("?", "/")

    def call(self, fr, name, args):
        m = re.match(r"__convert_([a-z])(\d+)_([a-z])(\d+)$", name)
        if m or name.startswith("__int_"):
            v = self.value(fr, args[0])
            if m and m.group(1) == m.group(3) and int(m.group(4)) >= int(m.group(2)):
                return v
            if m and m.group(1) == "l":
                return v
            if v[0] in ("int", "strlen"):
                return v
            if not m:
                w = re.match(r"__int_(\d+)_i(\d+)$", name)
                if w and int(w.group(1)) >= int(w.group(2)):
                    return v
                return ("int4", v)
            return ("conv", m.group(0), v)
        if name == "_gfortran_present":
            v = args[0]
            if v[0] != "var":
                return ("?", name)
            slot, _ = self.lookup(fr, v[1], v[2])
            if slot[0] == "absent":
                return ("bool", False)
            opt = self.M.optional(slot)
            if not opt:
                return ("bool", True)
            return ("bool", self.present(opt))
        if name in ("c_loc", "__c_loc"):
            v = args[0]
            return ("loc", self.value(fr, v))
        if name in ("c_funloc",):
            v = args[0]
            return ("funloc", v[2] if v[0] == "var" else v[1])
        if re.match(r"_?_?(_gfortran_)?trim(_\d)?$", name):
            return ("trim", self.value(fr, args[0]))
        if re.match(r"_?_?(_gfortran_)?(string_)?len_trim(_.*)?$", name):
            return ("len_trim", self.value(fr, args[0]))
        if name in ("size", "_gfortran_size", "__size", "_gfortran_size0", "_gfortran_size1"):
            v = self.value(fr, args[0])
            d = self.value(fr, args[1]) if len(args) > 1 and args[1][0] != "absent" else None
            return ("size", v, d)
        if name.startswith("__merge"):
            c = self.truth(self.value(fr, args[2]))
            return self.value(fr, args[0] if c else args[1])
        if name in ("_gfortran_c_associated", "c_associated", "__c_associated"):
            v = self.value(fr, args[0])
            if len(args) > 1 and args[1][0] != "absent":
                return ("?", name)
            return ("bool", self.decide(("assoc", v)))
        if name.startswith("__transfer"):
            src = self.value(fr, args[0])
            if src[0] == "deref" and len(src[2]) == 1 and src[2][0] == ("strlen", src[1]):
                # the result takes the length of its own mold, which has to have been given the same length
                mold = args[1]
                slot = self.lookup(fr, mold[1], mold[2])[0] if mold[0] == "var" else None
                if slot in self.alloc:
                    return ("str", src[1])
            return ("transfer", src)
        i = self.M.interfaces.get(name)
        if i is not None and not (name in self.M.procs and self.M.procs[name].code):
            return self.ccall(fr, name, i, args)
        p = self.M.procs.get(name)
        if p is not None:
            return self.inline(fr, p, args)
        for a in args:
            if a[0] == "var":
                pass
        return ("?", name)

    def ccall(self, fr, name, i, args):
        label = i["label"]
        if label == "strlen":
            p = self.value(fr, args[0])
            self.events.append(("deref", p, self.known_success(p)))
            return ("strlen", p)
        vals = []
        outs = []
        for k, a in enumerate(args):
            f = i["formals"][k] if k < len(i["formals"]) else None
            if f is None or a[0] == "kw":
                vals.append(("?", "argument"))
                continue
            if f["value"]:
                vals.append(self.strip(self.value(fr, a)))
            elif a[0] == "var" and f["intent"] != "IN":
                outs.append((k, a))
                vals.append(("ref", k))
            else:
                vals.append(("inref", self.value(fr, a)))
        cid = len(self.calls)
        self.calls.append((label, vals))
        for k, a in outs:
            self.write(fr, a, ("out", cid, k))
        return ("res", cid)

    def strip(self, v):
        # a logical value whose truth this path has fixed
        if v[0] in ("arg",) and ("true", v) in self.conds:
            return ("bool", self.conds[("true", v)])
        if v[0] in ("cmp", "not", "and", "or", "eqv"):
            return ("bool", self.truth(v))
        return v

    def known_success(self, p):
        """may the pointer p be read here?"""
        b = p
        while b[0] in ("comp", "deref"):
            b = b[1]
        if b[0] == "out":
            return self.conds.get(("eq", ("res", b[1]), ("int", 0))) is True
        return True

    def inline(self, fr, p, args):
        if self.frames > 40 or p.unsupported:
            return ("?", p.name)
        self.frames += 1
        sub = {"proc": p, "id": "%s#%d" % (p.name, self.frames), "bind": {}}
        self.M.frames[sub["id"]] = sub
        names = p.formals
        pos = 0
        for a in args:
            if a[0] == "kw":
                n, a = a[1], a[2]
            else:
                n = names[pos] if pos < len(names) else None
                pos += 1
            if n is None:
                return ("?", p.name)
            if a[0] == "absent":
                sub["bind"][n] = ("absent",)
            elif a[0] == "var" and not [s for s in a[3] if s[0] == "index"]:
                slot, _ = self.lookup(fr, a[1], a[2])
                sub["bind"][n] = slot + tuple(c[1] for c in a[3] if c[0] == "comp" and c[1] != "_data")
            else:
                self.env[(sub["id"], n)] = self.value(fr, a)
        for n in names:
            if n not in sub["bind"] and (sub["id"], n) not in self.env:
                sub["bind"][n] = ("absent",)
        try:
            self.block(sub, p.code)
        except Stop:
            pass
        return self.env.get((sub["id"], p.result), ("undef", p.result))

    # ---- statements
    def block(self, fr, stmts):
        for s in stmts:
            k = s[0]
            if k == "assign":
                v = self.value(fr, s[2])
                if s[1][0] == "var":
                    self.write(fr, s[1], v)
            elif k == "if":
                for c, body in s[1]:
                    if c is None or self.truth(self.value(fr, c)):
                        self.block(fr, body)
                        break
            elif k == "select":
                v = self.value(fr, s[1])
                default = body = None
                for vals, b in s[2]:
                    for lo, hi in vals:
                        if lo[0] == "absent" and hi[0] == "absent":
                            default = b
                        elif lo == hi:
                            if self.truth(("cmp", "==", v, self.value(fr, lo))):
                                body = b
                        else:
                            body = b if (lo[0] == "absent" or self.truth(("cmp", ">=", v, self.value(fr, lo)))) and \
                                (hi[0] == "absent" or self.truth(("cmp", "<=", v, self.value(fr, hi)))) else body
                        if body is not None:
                            break
                    if body is not None:
                        break
                self.block(fr, body if body is not None else default or [])
            elif k == "associate":
                e = s[2]
                if e[0] == "var" and not [x for x in e[3] if x[0] == "index"]:
                    slot, _ = self.lookup(fr, e[1], e[2])
                    fr["bind"][s[1]] = slot + tuple(c[1] for c in e[3] if c[0] == "comp" and c[1] != "_data")
                else:
                    v = self.value(fr, e)
                    fr["bind"].pop(s[1], None)
                    self.env[(fr["id"], s[1])] = v
            elif k == "call":
                self.subroutine(fr, s[1], list(s[2]))
            elif k == "return":
                raise Stop()
            elif k == "alloc":
                for v in s[1]:
                    self.alloc[self.lookup(fr, v[1], v[2])[0]] = True
            elif k == "ptr":
                rhs = s[2]
                v = ("proc", rhs[2]) if rhs[0] == "var" else ("?", "pointer")
                self.events.append(("pointer", s[1][2], self.read_quiet(fr, rhs)))
                self.write(fr, s[1], v)
            elif k == "write":
                self.events.append(("write", None if s[1] is None else self.value(fr, s[1]), tuple(self.value(fr, x) for x in s[2])))
            else:
                self.events.append(("other", s[1]))

    def read_quiet(self, fr, e):
        return ("name", e[2]) if e[0] == "var" else ("?", "pointer")

    def subroutine(self, fr, name, args):
        if name == "_gfortran_c_f_pointer":
            p = self.value(fr, args[0])
            shape = ()
            if len(args) > 2 and args[2][0] != "absent":
                s = self.value(fr, args[2])
                shape = s[1:] if s[0] == "array" else (("?", "shape"),)
            self.events.append(("deref", p, self.known_success(p)))
            self.write(fr, args[1], ("deref", p, shape))
            return
        if name in self.M.procs and name not in self.M.abstract:
            self.inline(fr, self.M.procs[name], args)
            return
        if name in self.M.interfaces:
            self.ccall(fr, name, self.M.interfaces[name], args)
            return
        self.events.append(("callptr", name, tuple(self.value(fr, a) for a in args)))


class Module:
    def __init__(self, path):
        self.path = path
        dump, mods = F.compile_module(path)
        self.dump = dump
        self.module = sorted(mods)[0]
        self.interfaces = {}
        for m in mods.values():
            self.interfaces.update(F.interfaces(m))
        self.exported = set()
        for m in F.compile_module(path, private=True)[1].values():
            self.exported |= set(F.interfaces(m))
        self.parameters = F.parameters(dump)
        self.bindings = F.bindings(dump)
        self.procs = {n: p for n, p in F.procedures(dump).items() if n != self.module and not n.startswith("__copy")}
        self.globals = {}
        self.abstract = set()
        self.frames = {}
        self._mod = {}
        self.top = None

    def calls(self, name):
        def walk(e):
            return isinstance(e, (tuple, list)) and (len(e) == 3 and e[0] == "call" and e[1] == name or any(walk(x) for x in e))
        return any(walk(p.code) for p in self.procs.values())

    def modified(self, p):
        if p.name not in self._mod:
            out = set()

            def expr(e):
                if isinstance(e, tuple):
                    if e and e[0] in ("call", "method"):
                        args = e[2] if e[0] == "call" else e[3]
                        i = self.interfaces.get(e[1]) if e[0] == "call" else None
                        for k, a in enumerate(args):
                            if a[0] == "var" and (i is not None and k < len(i["formals"]) and not i["formals"][k]["value"] and
                                                  i["formals"][k]["intent"] != "IN" or (e[0] == "method" or e[1] in self.procs)):
                                out.add(a[2])
                    for x in e:
                        expr(x)

            def st(ss):
                for s in ss:
                    if s[0] in ("assign", "ptr"):
                        if s[1][0] == "var":
                            out.add(s[1][2])
                        expr(s[2])
                    elif s[0] == "if":
                        for c, b in s[1]:
                            if c is not None:
                                expr(c)
                            st(b)
                    elif s[0] == "call":
                        for a in s[2]:
                            if a[0] == "var":
                                out.add(a[2])
                            expr(a)
                    elif s[0] == "alloc":
                        out.update(v[2] for v in s[1])
            st(p.code)
            self._mod[p.name] = out
        return self._mod[p.name]

    def optional(self, slot):
        """name of the analysed procedure's optional dummy behind a variable"""
        if self.top and len(slot) >= 2 and slot[0] == self.top["id"]:
            s = self.top["proc"].syms.get(slot[1])
            if s and "OPTIONAL" in s["attrs"]:
                return slot[1]
        return None

    def paths(self, p, after=None, limit=4000):
        """[(Run, result of after(run))] for every combination of outcomes; None if the procedure is not understood"""
        if p.unsupported:
            return None
        work, out, n = [{}], [], 0
        while work:
            conds = work.pop()
            n += 1
            if n > limit:
                return None
            r = Run(self, conds)
            self.top = {"proc": p, "id": "top", "bind": {}}
            self.frames = {"top": self.top}
            try:
                try:
                    r.block(self.top, p.code)
                except Stop:
                    pass
                x = after(r) if after else None
            except Fork as f:
                for v in (True, False):
                    c = dict(conds)
                    c[f.atom] = v
                    work.append(c)
                continue
            out.append((r, x))
        return out


def same(a, b):
    """None when either side holds something the evaluator does not model"""
    if a == b:
        return True
    if unknown(a) or unknown(b):
        return None
    return False


# ---------------------------------------------------------------- expectations
# written from docs/content/reference/f90-reference.rst and c-reference.rst
IMPL = lambda n: ("comp", ("arg", n), "impl")
ARG = lambda n: ("arg", n)
LESS1 = lambda n: padd(("arg", n), ("int", 1), -1)
STR = lambda n: ("loc", ("concat", ("trim", ("arg", n)), ("text", "\0")))
REF = "ref"


def simple(cname, args, outs=None, handles=None):
    """the procedure makes exactly one call, with these arguments; on success each present output holds the given result"""
    def spec(r, p, self):
        a = [x if x == REF else x(self) if callable(x) else x for x in args]
        o = {}
        if r.success(0):
            for n, v in (outs or {}).items():
                if n in p.formals and (not r.M.optional(("top", n)) or r.present(n)):
                    o[n] = v
        h = {}
        for n, k in (handles or {}).items():
            h[("top", self if n == "self" else n, "impl")] = ("out", 0, k)
        return [(cname, a)], o, h, ("res", 0)
    return spec


SELF = lambda s: IMPL(s)


def O(k):
    return ("out", 0, k)


def pick(r, *alts):
    for n, v in alts:
        if r.present(n):
            return v
    return None


def frame_next(r, p, self):
    mx = ARG("maximum_rows") if r.present("maximum_rows") else ("int", -1)
    if r.present("aggregated"):
        agg = r.truth(ARG("aggregated"))
    else:
        agg = r.present("maximum_rows")
    if agg:
        return [("odc_next_frame_aggregated", [IMPL(self), mx])], {}, {}, ("res", 0)
    return [("odc_next_frame", [IMPL(self)])], {}, {}, ("res", 0)


def major(r):
    return r.truth(ARG("column_major")) if r.present("column_major") else True


def decoder_initialise(r, p, self):
    cm = major(r)
    calls = [("odc_new_decoder", [REF])]
    h = {("top", self, "impl"): ("out", 0, 0)}
    if r.success(0):
        calls.append(("odc_decoder_set_column_major", [("out", 0, 0), ("bool", cm)]))
        return calls, {}, h, ("res", 1)
    return calls, {}, h, ("res", 0)


def data_shape(r):
    d = ARG("data")
    cm = major(r)
    a, b = ("size", d, ("int", 1)), ("size", d, ("int", 2))
    return cm, pmul(b if cm else a, ("int", 8)), a if cm else b


def decoder_set_data(r, p, self):
    cm, w, h = data_shape(r)
    return [("odc_decoder_set_data_array", [IMPL(self), ("loc", ARG("data")), w, h, ("bool", cm)])], {}, {}, ("res", 0)


def encoder_set_data(r, p, self):
    cm, w, h = data_shape(r)
    return [("odc_encoder_set_data_array", [IMPL(self), ("loc", ARG("data")), w, h, ("int", 8 if cm else 0)])], {}, {}, ("res", 0)


def decoder_data(r, p, self):
    o = {}
    if r.success(0):
        if r.present("data"):
            cols = ("div", ("out", 0, 2), 8)
            cm = r.truth(("out", 0, 4))
            shape = (("out", 0, 3), cols) if cm else (cols, ("out", 0, 3))
            o["data"] = ("deref", ("out", 0, 1), shape)
        if r.present("column_major"):
            o["column_major"] = ("out", 0, 4)
    return [("odc_decoder_data_array", [IMPL(self), REF, REF, REF, REF])], o, {}, ("res", 0)


def frame_property(r, p, self):
    o = {}
    if r.success(0):
        a = r.decide(("assoc", O(2)))
        if r.present("exists"):
            o["exists"] = ("bool", a)
        if a and r.present("val"):
            o["val"] = ("str", O(2))
    return [("odc_frame_property", [IMPL(self), STR("key"), REF])], o, {}, ("res", 0)


def decoder_decode(r, p, self):
    o = {}
    th = r.present("nthreads")
    if r.success(0):
        o["rows_decoded"] = O(2)
    if th:
        return [("odc_decode_threaded", [IMPL(self), IMPL("frame"), REF, ARG("nthreads")])], o, {}, ("res", 0)
    return [("odc_decode", [IMPL(self), IMPL("frame"), REF])], o, {}, ("res", 0)


def element_size(r):
    """documented: size in bytes, or in doubles; both given is the caller's contradiction"""
    d, b = r.present("element_size_doubles"), r.present("element_size")
    if d and b:
        return None
    return pmul(ARG("element_size_doubles"), ("int", 8)) if d else ARG("element_size") if b else ("int", 0)


def opt(r, n, default):
    return ARG(n) if r.present(n) else default


def encoder_column_set_data_size(r, p, self):
    return [("odc_encoder_column_set_data_size", [IMPL(self), LESS1("col"), element_size(r)])], {}, {}, ("res", 0)


def column_set_data_array(which):
    def spec(r, p, self):
        if "element_size_doubles" in p.formals:
            es = element_size(r)
        else:
            es = opt(r, "element_size", ("int", 0))
        return [("odc_%s_column_set_data_array" % which, [IMPL(self), LESS1("col"), es, opt(r, "stride", ("int", 0)),
                                                         opt(r, "data", NULLP)])], {}, {}, ("res", 0)
    return spec


def reader_close(r, p, self):
    return [("odc_close", [IMPL(self)])], {}, {("top", self, "impl"): NULLP}, ("res", 0)


METHODS = {
    ("odc_reader", "open_path"): simple("odc_open_path", [REF, STR("path")], {}, {"self": 0}),
    ("odc_reader", "close"): reader_close,
    ("odc_frame", "initialise"): simple("odc_new_frame", [REF, IMPL("reader")], {}, {"self": 0}),
    ("odc_frame", "free"): simple("odc_free_frame", [SELF]),
    ("odc_frame", "copy"): simple("odc_copy_frame", [SELF, REF], {}, {"new_frame": 1}),
    ("odc_frame", "next"): frame_next,
    ("odc_frame", "row_count"): simple("odc_frame_row_count", [SELF, REF], {"nrows": O(1)}),
    ("odc_frame", "column_count"): simple("odc_frame_column_count", [SELF, REF], {"ncols": O(1)}),
    ("odc_frame", "column_attributes"): simple(
        "odc_frame_column_attributes", [SELF, LESS1("col"), REF, REF, REF, REF],
        {"name": ("str", O(2)), "type": O(3), "element_size": O(4), "element_size_doubles": ("div", O(4), 8), "bitfield_count": O(5)}),
    ("odc_frame", "bitfield_attributes"): simple(
        "odc_frame_bitfield_attributes", [SELF, LESS1("col"), LESS1("field"), REF, REF, REF],
        {"name": ("str", O(3)), "offset": O(4), "size": O(5)}),
    ("odc_frame", "properties_count"): simple("odc_frame_properties_count", [SELF, REF], {"nproperties": O(1)}),
    ("odc_frame", "property_idx"): simple("odc_frame_property_idx", [SELF, LESS1("idx"), REF, REF],
                                          {"key": ("str", O(2)), "val": ("str", O(3))}),
    ("odc_frame", "property"): frame_property,
    ("odc_decoder", "initialise"): decoder_initialise,
    ("odc_decoder", "free"): simple("odc_free_decoder", [SELF]),
    ("odc_decoder", "defaults_from_frame"): simple("odc_decoder_defaults_from_frame", [SELF, IMPL("frame")]),
    ("odc_decoder", "set_row_count"): simple("odc_decoder_set_row_count", [SELF, ARG("count")]),
    ("odc_decoder", "row_count"): simple("odc_decoder_row_count", [SELF, REF], {"count": O(1)}),
    ("odc_decoder", "set_data"): decoder_set_data,
    ("odc_decoder", "data"): decoder_data,
    ("odc_decoder", "add_column"): simple("odc_decoder_add_column", [SELF, STR("name")]),
    ("odc_decoder", "column_count"): simple("odc_decoder_column_count", [SELF, REF], {"count": O(1)}),
    ("odc_decoder", "column_set_data_size"): simple("odc_decoder_column_set_data_size", [SELF, LESS1("col"), ARG("element_size")]),
    ("odc_decoder", "column_set_data_array"): column_set_data_array("decoder"),
    ("odc_decoder", "column_data_array"): simple(
        "odc_decoder_column_data_array", [SELF, LESS1("col"), REF, REF, REF],
        {"element_size": O(2), "element_size_doubles": ("div", O(2), 8), "stride": O(3), "data": O(4)}),
    ("odc_decoder", "decode"): decoder_decode,
    ("odc_encoder", "initialise"): simple("odc_new_encoder", [REF], {}, {"self": 0}),
    ("odc_encoder", "free"): simple("odc_free_encoder", [SELF]),
    ("odc_encoder", "set_row_count"): simple("odc_encoder_set_row_count", [SELF, ARG("row_count")]),
    ("odc_encoder", "set_rows_per_frame"): simple("odc_encoder_set_rows_per_frame", [SELF, ARG("rows_per_frame")]),
    ("odc_encoder", "set_data"): encoder_set_data,
    ("odc_encoder", "add_column"): simple("odc_encoder_add_column", [SELF, STR("name"), ARG("type")]),
    ("odc_encoder", "add_property"): simple("odc_encoder_add_property", [SELF, STR("key"), STR("val")]),
    ("odc_encoder", "column_set_data_size"): encoder_column_set_data_size,
    ("odc_encoder", "column_set_data_array"): column_set_data_array("encoder"),
    ("odc_encoder", "column_add_bitfield"): simple("odc_encoder_column_add_bitfield", [SELF, LESS1("col"), STR("name"), ARG("nbits")]),
    ("odc_encoder", "encode"): simple("odc_encode_to_stream", [SELF, ("loc", ARG("outunit")), ("funloc", "write_fn"), REF],
                                      {"bytes_written": O(3)}),
}

FUNCTIONS = {
    "odc_version": simple("odc_version", [REF], {"version_str": ("str", O(0))}),
    "odc_vcs_version": simple("odc_vcs_version", [REF], {"git_sha1": ("str", O(0))}),
    "odc_column_type_name": simple("odc_column_type_name", [ARG("type"), REF], {"type_name": ("str", O(1))}),
}

LEGACY_FUNCTIONS = {
    "odb_%s_get_column_offset" % k: simple("odb_%s_iterator_get_column_offset" % k, [ARG("odb_iterator"), ARG("n"), REF],
                                           {"offset": padd(O(2), ("int", 1))})
    for k in ("read", "select", "write")
}


def wrapper(R, M, where, key, p, spec, self):
    """rules P1-P4 for one procedure"""
    def after(r):
        return spec(r, p, self)
    ps = M.paths(p, after)
    if ps is None:
        tri(R, "P1", key, where, None, "")
        return
    calls = outs = err = opts = True
    msgs = {}

    def fold(cur, v, tag, text):
        if v is False:
            msgs.setdefault(tag, text)
            return False
        if v is None and cur is True:
            return None
        return cur

    for r, (ecalls, eouts, handles, eerr) in ps:
        blind = any(e[0] in ("unknown-branch", "other") for e in r.events)
        cond = describe(r)
        # saved state
        for e in r.events:
            if e[0] in ("absent-read", "absent-write"):
                opts = fold(opts, False, "opt", "optional argument %s is used on a path where it is absent%s" % (e[1], cond))
            if e[0] == "deref" and not e[2]:
                opts = fold(opts, False, "opt", "a string or array returned by the C call is read although the call did not succeed%s" % cond)
        sv = [k for k in saved_in(r)]
        if sv:
            opts = fold(opts, False, "opt", "the value of %s left by an earlier call is used (initialised once, SAVE)%s" % (", ".join(sorted(set(sv))), cond))
            continue
        if len(r.calls) != len(ecalls) or any(c[0] != e[0] for c, e in zip(r.calls, ecalls)):
            calls = fold(calls, None if blind else False, "call", "calls %s, expected %s%s" %
                         ([c[0] for c in r.calls], [e[0] for e in ecalls], cond))
            continue
        bad = False
        for (cn, cv), (en, ev) in zip(r.calls, ecalls):
            if len(cv) != len(ev):
                calls = fold(calls, False, "call", "%s is called with %d arguments, expected %d" % (cn, len(cv), len(ev)))
                bad = True
                continue
            for k, (a, e) in enumerate(zip(cv, ev)):
                if e is None:
                    continue
                if e == REF:
                    v = a[0] in ("ref", "inref")
                else:
                    v = same(settle(r, a), e)
                    if v is False and blind:
                        v = None
                if v is False:
                    bad = True
                calls = fold(calls, v, "call", "argument %d of %s is %s, expected %s%s" % (k + 1, cn, show(a), show(e), cond))
        if bad:
            continue
        for n, e in eouts.items():
            v = same(settle(r, r.env.get(("top", n), ("undef", n))), e)
            if v is False and blind:
                v = None
            outs = fold(outs, v, "out", "output %s is %s, expected %s%s" % (n, show(r.env.get(("top", n), ("undef", n))), show(e), cond))
        for k, e in handles.items():
            got = r.env.get(k)
            v = same(got, e) if got is not None else False
            if v is False and blind:
                v = None
            outs = fold(outs, v, "out", "%s%%impl is %s afterwards, expected %s%s" % (k[1], show(got), show(e), cond))
        v = same(r.env.get(("top", p.result), ("undef", p.result)), eerr)
        err = fold(err, v, "err", "the status returned is %s, expected the status of the C call%s" % (show(r.env.get(("top", p.result))), cond))
    n = len(ps)
    tri(R, "P1", key, where, calls, msgs.get("call", ""), "%s: C call and arguments on %d paths" % (p.name, n))
    tri(R, "P2", key, where, outs, msgs.get("out", ""), "%s: outputs on %d paths" % (p.name, n))
    tri(R, "P3", key, where, err, msgs.get("err", ""), "%s: status on %d paths" % (p.name, n))
    tri(R, "P4", key, where, opts, msgs.get("opt", ""), "%s: defaults and optional arguments on %d paths" % (p.name, n))


def settle(r, v):
    if isinstance(v, tuple) and v and v[0] == "arg" and ("true", v) in r.conds:
        return ("bool", r.conds[("true", v)])
    return v


def saved_in(r):
    out = []

    def walk(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "saved":
                out.append(v[1])
                return
            for x in v:
                walk(x)
    for a in r.conds:
        walk(a)
    for c in r.calls:
        for v in c[1]:
            walk(v)
    for k, v in r.env.items():
        if k[0] == "top" and (k[1] in r.M.top["proc"].formals or k[1] == r.M.top["proc"].result):
            walk(v)
    return out


def show(v):
    if v is None:
        return "nothing"
    if isinstance(v, str):
        return "a reference"
    k = v[0]
    if k == "arg":
        return v[1]
    if k == "comp":
        return show(v[1]) + "%" + ".".join(v[2:])
    if k == "int":
        return str(v[1])
    if k == "bool":
        return ".%s." % str(v[1]).lower()
    if k == "poly":
        return " + ".join(("%d" % c if not m else (("%d*" % c if c != 1 else "") + "*".join(show(x) for x in m))) for m, c in v[1])
    if k == "out":
        return "result %d of call %d" % (v[2] + 1, v[1] + 1)
    if k == "res":
        return "the status of call %d" % (v[1] + 1)
    if k in ("undef", "saved", "global"):
        return {"undef": "undefined", "saved": "a kept value of ", "global": ""}[k] + ("" if k == "undef" else str(v[1]))
    if k == "text":
        return repr(v[1])
    if v == NULLP:
        return "null"
    return "%s(%s)" % (k, ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in v[1:]))


def describe(r):
    out = []
    for a, v in r.conds.items():
        if a[0] == "present":
            out.append("%s %s" % (a[1], "given" if v else "absent"))
        elif a[0] == "eq":
            out.append("%s %s %s" % (show(a[1]), "=" if v else "/=", show(a[2])))
        elif a[0] == "true":
            out.append("%s %s" % (show(a[1]), str(v).lower()))
        elif a[0] == "assoc":
            out.append("%s %s" % (show(a[1]), "set" if v else "null"))
    return " [%s]" % ", ".join(out) if out else ""


def run(P, R):
    R.rule("B1", "every bind(C) interface names a function the library defines, with the number, types, passing mode and order of the C parameters and the C result type")
    R.rule("B2", "a procedure whose address is handed to the C library has the signature of the callback type it is registered as")
    R.rule("B3", "every constant of the Fortran modules has the value of the C constant of the same name")
    R.rule("P1", "each documented procedure calls its C function with the handle, 1-based indices converted to 0-based, trimmed NUL-terminated strings, and each argument in its place")
    R.rule("P2", "on success each output argument that was given holds the C result it is named for, in the documented unit")
    R.rule("P3", "the status returned is the status of the C call")
    R.rule("P4", "an optional argument is only touched where it is present, and an absent one has its documented default on every call, not what an earlier call left behind; C results are read only after success")
    R.rule("P5", "the stream callback writes exactly the bytes it is given to the unit it is given and reports their number; the failure callback passes the registered context and the error code to the registered handler")
    defined = set()
    for u in P.roots.values():
        defined |= set(u)
    defined |= {n for n in P.fns}
    undefined_known = bool(defined & {"odc_open_path", "odb_read_create"})
    nproc = 0
    for rel, hdrs in ((API, ["odc/api/odc.h"]), (LEGACY, ["odc/odccapi.h", "odc/api/odc.h"])):
        path = os.path.join(build.SRC, rel)
        if not os.path.exists(path):
            raise build.AnalysisBroken("missing " + rel)
        where = "src/" + rel
        try:
            M = Module(path)
        except F.Unsupported as e:
            raise build.AnalysisBroken(str(e))
        fns, enums, tds = {}, {}, {}
        for h in hdrs:
            a, b, c = c_header(os.path.join(build.SRC, h))
            for k, v in a.items():
                fns.setdefault(k, v)
            enums.update(b)
            tds.update(c)
        # ---- B1
        for n, i in sorted(M.interfaces.items()):
            if n in M.procs and M.procs[n].code:
                continue
            lab = i["label"]
            key = "%s|%s" % (os.path.basename(rel), lab)
            if lab == "strlen":
                R.check(len(i["formals"]) == 1 and i["formals"][0]["type"] == "c_ptr" and i["formals"][0]["value"] and tuple(i["result"]) == ("INTEGER", 8),
                        "B1", key, where, "strlen is not declared as size_t strlen(const char*)")
                continue
            if n not in M.exported and not M.calls(n):
                continue    # private and never called: nothing can reach it
            if lab not in fns:
                R.bad("B1", key, where, "%s is bound to the C function %s, which %s does not declare" % (n, lab, " or ".join(hdrs)))
                continue
            if undefined_known and lab not in defined:
                R.bad("B1", key, where, "%s is bound to the C function %s, which is not defined" % (n, lab))
                continue
            res, ps = fns[lab]
            if len(ps) != len(i["formals"]):
                R.bad("B1", key, where, "%s has %d arguments, the C function %s has %d" % (n, len(i["formals"]), lab, len(ps)))
                continue
            v, msg = True, ""
            for f, (cn, ct) in zip(i["formals"], ps):
                m = arg_matches(f, canon(ct, tds))
                if m is False:
                    v, msg = False, "argument %s of %s (%s(%s)%s%s) does not match the C parameter `%s`" % (
                        f["name"], lab, f["type"], f["kind"], ", value" if f["value"] else "", ", intent %s" % f["intent"].lower() if f["intent"] in ("IN", "OUT", "INOUT") else "", ct)
                    break
                if m is None:
                    v = None
            if v is not False:
                m = res_matches(i["result"], canon(res, tds))
                if m is False:
                    v, msg = False, "the result of %s is declared %s(%s), in C it is `%s`" % (lab, i["result"][0], i["result"][1], res)
                elif m is None:
                    v = None
            tri(R, "B1", key, where, v, msg, "%s matches %s" % (n, lab))
        # ---- B2
        cb = {"failure_handler_wrapper": "odc_failure_handler_t", "write_fn": "odc_stream_write_t"}
        for n, i in sorted(M.interfaces.items()):
            if not (n in M.procs and M.procs[n].code):
                continue
            td = callback_type(M, n, fns, tds)
            if td is None:
                continue
            m = re.match(r"(.*)\(\*\)\((.*)\)$", td)
            res, ps = m.group(1).strip(), [x.strip() for x in m.group(2).split(",")]
            v, msg = len(ps) == len(i["formals"]), "%s has %d arguments, the callback type `%s` has %d" % (n, len(i["formals"]), td, len(ps))
            if v:
                for f, ct in zip(i["formals"], ps):
                    x = arg_matches(f, canon(ct, tds))
                    if x is False:
                        v, msg = False, "argument %s of the callback %s is %s(%s), the C library passes `%s`" % (f["name"], n, f["type"].lower(), f["kind"], ct)
                    elif x is None and v:
                        v = None
                x = res_matches(i["result"], canon(res, tds))
                if x is False:
                    v, msg = False, "the callback %s returns %s(%s), the C library expects `%s`" % (n, i["result"][0], i["result"][1], res)
            tri(R, "B2", "callback|" + n, where, v, msg, "%s has the signature %s" % (n, td))
        # ---- B3
        up = {k.lower(): v for k, v in enums.items()}
        cc = M.parameters
        for n, val in sorted(cc.items()):
            tgt = up.get(n)
            if tgt is None and n.startswith("odb_"):
                tgt = up.get("odc_" + n[4:])
            if tgt is None and n in ("odc_integers_as_doubles", "odc_integers_as_longs"):
                tgt = up.get(n)
            if tgt is None or not re.match(r"-?\d+(_\d+)?$", val):
                continue
            got = int(val.split("_")[0])
            R.check(got == tgt, "B3", "%s|%s" % (os.path.basename(rel), n), where, "%s is %d, the C constant is %d" % (n.upper(), got, tgt))
        if "double_size" in cc:
            R.check(cc["double_size"].split("_")[0] == "8", "B3", "double_size", where, "double_size is %s, a double has 8 bytes" % cc["double_size"])
        # ---- P1..P4
        if rel == API:
            for (t, b), spec in sorted(METHODS.items()):
                bd = M.bindings.get(t, {}).get(b)
                key = "%s%%%s" % (t, b)
                if bd is None or bd[0] not in M.procs:
                    R.bad("P1", key, where, "type %s has no procedure %s" % (t, b))
                    continue
                p = M.procs[bd[0]]
                nproc += 1
                if not p.formals:
                    tri(R, "P1", key, where, None, "")
                    continue
                wrapper(R, M, where, key, p, spec, p.formals[0])
            fs = FUNCTIONS
            specials(R, M, where)
        else:
            fs = LEGACY_FUNCTIONS
        for n, spec in sorted(fs.items()):
            p = M.procs.get(n)
            if p is None or not p.code:
                R.bad("P1", n, where, "procedure %s is missing" % n)
                continue
            nproc += 1
            wrapper(R, M, where, n, p, spec, p.formals[0] if p.formals else None)
    R.extra["procedures"] = nproc
    R.need("B1", 60)
    R.need("P1", 20)


def callback_type(M, n, fns, tds):
    """type of the C parameter the address of n is passed to"""
    found = []

    def walk(e):
        if isinstance(e, (tuple, list)):
            if len(e) == 3 and e[0] == "call" and e[1] in M.interfaces:
                ps = fns.get(M.interfaces[e[1]]["label"], (None, []))[1]
                for k, a in enumerate(e[2]):
                    if isinstance(a, tuple) and a[0] == "call" and a[1] == "c_funloc" and a[2][0][0] in ("var", "name") and a[2][0][-2 if a[2][0][0] == "var" else 1] == n and k < len(ps):
                        found.append(ps[k][1])
            for x in e:
                walk(x)
    for p in M.procs.values():
        walk(p.code)
    for t in found:
        t = tds.get(t, t)
        if "(*)" in t:
            return t
    return None


def specials(R, M, where):
    # odc_error_string: the text of the C function's result
    p = M.procs.get("odc_error_string")
    if p:
        v, msg = True, ""
        ps = M.paths(p)
        if ps is None:
            v = None
        for r, _ in ps or ():
            got = r.env.get(("top", p.result), ("undef", ""))
            w = same(got, ("str", ("res", 0)))
            if w and r.calls != [("odc_error_string", [ARG(p.formals[0])])]:
                w = False
            if w is not True:
                v, msg = w, "odc_error_string returns %s" % show(got)
        tri(R, "P2", "odc_error_string", where, v, msg)
    # callbacks
    for n, i in M.interfaces.items():
        p = M.procs.get(n)
        if p is None or not p.code:
            continue
        handed = callback_users(M, n)
        if "odc_encode_to_stream" in handed and len(p.formals) == 3:
            c, b, l = p.formals
            ps = M.paths(p)
            v, msg = True, ""
            if ps is None:
                v = None
            for r, _ in ps or ():
                ws = [e for e in r.events if e[0] == "write"]
                exp = ("write", ("deref", ARG(c), ()), (("deref", ARG(b), (ARG(l),)),))
                got = r.env.get(("top", p.result), ("undef", ""))
                if any(e[0] in ("other", "unknown-branch") for e in r.events) or any(w[1] is None for w in ws):
                    v = None if v is True else v
                elif len(ws) != 1 or same(ws[0], exp) is False:
                    v, msg = False, "the stream callback writes %s, expected the whole buffer once to the given unit" % (ws,)
                elif same(got, ARG(l)) is False:
                    v, msg = False, "the stream callback reports %s bytes, expected the number it was given" % show(got)
            tri(R, "P5", "stream callback", where, v, msg)
        if "odc_set_failure_handler" in handed and len(p.formals) == 2:
            reg = M.procs.get("odc_set_failure_handler")
            ps, rs = M.paths(p), M.paths(reg) if reg and reg.code else None
            v, msg = True, ""
            if ps is None or rs is None:
                v = None
            else:
                fnv = ctxv = None
                for r, _ in rs:
                    if len(reg.formals) != 2:
                        v = None
                        continue
                    h, c = reg.formals
                    ptrs = [e for e in r.events if e[0] == "pointer" and e[2] == ("name", h)]
                    stores = [k for k, val in r.env.items() if k[0] == "g" and val == ARG(c)]
                    if len(ptrs) != 1 or len(stores) != 1:
                        v, msg = False, "odc_set_failure_handler does not keep both the handler and the context"
                    else:
                        fnv, ctxv = ptrs[0][1], stores[0][1]
                    if [x[0] for x in r.calls] != ["odc_set_failure_handler"] or r.calls[0][1][0] != ("funloc", n):
                        v, msg = False, "odc_set_failure_handler does not register the callback with the C library"
                    elif same(r.env.get(("top", reg.result)), ("res", 0)) is False:
                        v, msg = False, "odc_set_failure_handler does not return the status of the C call"
                if v:
                    for r, _ in ps:
                        ev = [e for e in r.events if e[0] == "callptr"]
                        if len(ev) != 1 or ev[0][1] != fnv or len(ev[0][2]) != 2:
                            v, msg = False, "the failure callback does not call the registered handler once with context and error"
                        elif same(ev[0][2][0], ("global", ctxv)) is False or same(unwrap(ev[0][2][1]), ARG(p.formals[1])) is False:
                            v, msg = False, "the failure callback passes (%s, %s), expected the registered context and the error code" % (show(ev[0][2][0]), show(ev[0][2][1]))
            tri(R, "P5", "failure callback", where, v, msg)


def unwrap(v):
    return v[1] if v[0] == "int4" else v


def callback_users(M, n):
    out = set()

    def walk(e):
        if isinstance(e, (tuple, list)):
            if len(e) == 3 and e[0] == "call" and e[1] in M.interfaces:
                for a in e[2]:
                    if isinstance(a, tuple) and a[0] == "call" and a[1] == "c_funloc" and n in a[2][0]:
                        out.add(M.interfaces[e[1]]["label"])
            for x in e:
                walk(x)
    for p in M.procs.values():
        walk(p.code)
    return out
