"""Program model over the odcir dump: CFG, dominance, canonical value expressions, edge facts, effect languages."""
import re, functools
from collections import defaultdict, deque

NORETURN = re.compile(r"^(eckit::Assert\(|eckit::handle_assert\(|eckit::handle_panic\(|eckit::Panic|__cxa_throw|__cxa_rethrow|__clang_call_terminate|"
                      r"std::terminate|abort|exit|_exit|std::__throw_|__cxa_bad_cast|__cxa_pure_virtual|__assert_fail|_Unwind_Resume)")


# ------------------------------------------------------------------------------------------------ names
def strip_templates(d):
    """odc::core::DataStream<X>::write<int>(int const&) -> odc::core::DataStream::write"""
    out, depth, i, n = [], 0, 0, len(d)
    while i < n:
        if d.startswith("operator", i) and (i == 0 or not (d[i - 1].isalnum() or d[i - 1] == "_")) and depth == 0:
            m = re.match(r"operator\s*(<<=|>>=|<=>|->\*|->|<<|>>|<=|>=|<|>|\(\)|\[\]|[^\w\s(<]+)?", d[i:])
            if m and m.group(1):
                out.append("operator" + m.group(1))
                i += m.end()
                continue
        if d.startswith("(anonymous namespace)", i):
            if depth == 0:
                out.append("(anon)")
            i += len("(anonymous namespace)")
            continue
        if d.startswith("'lambda", i):
            j = d.find("'", i + 1)
            # 'lambda'(args)#n  or 'lambda0'(...)
            if depth == 0:
                out.append("$lambda")
            i = (j + 1) if j > 0 else n
            if i < n and d[i] == "(":
                k, dep = i, 0
                while k < n:
                    if d[k] == "(":
                        dep += 1
                    elif d[k] == ")":
                        dep -= 1
                        if dep == 0:
                            break
                    k += 1
                i = k + 1
            continue
        c = d[i]
        if c == "<":
            depth += 1
        elif c == ">":
            if i and d[i - 1] == "-" and depth == 0:
                out.append(c)
            else:
                depth = max(0, depth - 1)
        elif depth == 0:
            if c == "(":
                # parameter list of an enclosing function (local class / lambda) or the final one
                k, dep = i, 0
                while k < n:
                    if d[k] == "(":
                        dep += 1
                    elif d[k] == ")":
                        dep -= 1
                        if dep == 0:
                            break
                    k += 1
                rest = d[k + 1:]
                m = re.match(r"(\s*const)?(\s*&{1,2})?(\[abi:\w+\])?::", rest)
                if m:
                    out.append("::")
                    i = k + 1 + m.end()
                    continue
                break
            out.append(c)
        i += 1
    s = "".join(out)
    s = re.sub(r"\[abi:\w+\]", "", s).strip()
    # drop a leading return type ("double odc::f")
    if " " in s:
        m = re.match(r"^(?!operator)[^()]*\s(\S+)$", s)
        if m and "operator" not in s:
            s = m.group(1)
        elif m:
            j = s.find("operator")
            k = s.rfind(" ", 0, j)
            s = s[k + 1:]
    return s


strip_templates = functools.lru_cache(maxsize=None)(strip_templates)

# functions that return (a pointer/reference to) their argument
IDENT = re.compile(r"^(std::(move|forward|addressof|__addressof|as_const|launder|__niter_base|__miter_base|move_if_noexcept)|"
                   r"std::(unique_ptr|shared_ptr|__shared_ptr|__shared_ptr_access|__uniq_ptr_impl)::(get|_M_get|_M_ptr|operator->|operator\*)|"
                   r"std::reference_wrapper::(get|operator.*)|std::get|std::atomic::operator .*)$")


def neg(e):
    return e[1] if e[0] == "not" else ("not", e)


PENDING = object()


class Inst(dict):
    __slots__ = ("fn", "blk", "pos")

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    @property
    def op(self):
        return self["op"]

    @property
    def id(self):
        return self["id"]

    def loc(self):
        return self.fn.loc(self)


class Fn:
    def __init__(self, prog, d):
        self.P, self.raw = prog, d
        self.name, self.dem = d["n"], d["d"]
        self.qual = strip_templates(self.dem)
        self.root = d.get("root")
        self.args = d["args"]
        self.I, self.B = {}, []
        for bi, b in enumerate(d["b"]):
            L = []
            for k, x in enumerate(b):
                i = Inst(x)
                i.fn, i.blk, i.pos = self, bi, k
                self.I[x["id"]] = i
                L.append(i)
            self.B.append(L)
        self._expr = {}
        self._cache = {}
        # cut after calls that never return
        self.cut = {}
        for bi, L in enumerate(self.B):
            for i in L:
                if i.op in ("call", "invoke") and self.is_noreturn(i) and not self._reevaluates(i):
                    self.cut[bi] = i.pos
                    break

    # ---- basic
    def __repr__(self):
        return "<Fn %s>" % self.dem

    @property
    def file(self):
        return self.raw.get("file", "")

    @property
    def line(self):
        return self.raw.get("line", 0)

    def where(self):
        return "%s:%s" % (self.P.rel(self.file), self.line)

    def loc(self, i):
        if i.get("l") is not None and "f" in i:
            return "%s:%s" % (self.P.rel(self.P.files[i["f"]]), i["l"])
        return self.where()

    def callee(self, i):
        """demangled callee of a call, virtual methods as 'virtual Class::method' """
        if "c" in i:
            return self.P.dem(i["c"])
        cv = i.get("cv")
        if isinstance(cv, list) and cv and cv[0] == "fn":
            return self.P.dem(cv[1])
        v = self.vcall(i)
        if v:
            return "virtual " + v[0]
        return None

    def cq(self, i):
        """qualified callee name without templates/parameters"""
        if "c" in i:
            return strip_templates(self.P.dem(i["c"]))
        cv = i.get("cv")
        if isinstance(cv, list) and cv and cv[0] == "fn":
            return strip_templates(self.P.dem(cv[1]))
        v = self.vcall(i)
        if v:
            return v[0]
        return ""

    def csym(self, i):
        if "c" in i:
            return i["c"]
        cv = i.get("cv")
        if isinstance(cv, list) and cv and cv[0] == "fn":
            return cv[1]
        return None

    def is_noreturn(self, i):
        if i.get("noret"):
            return True
        s = self.csym(i)
        if s is None:
            return False
        f = self.P.functions.get(s)
        if f and f.get("nr"):
            return True
        return bool(NORETURN.match(self.P.dem(s)))

    def _reevaluates(self, i):
        """eckit::Assert(!(cond)) evaluates a failed condition a second time: when cond performs a transfer, the call can return"""
        if not (self.csym(i) or "").startswith("_ZN5eckit6AssertE") or not i["o"] or not isinstance(i["o"][0], int):
            return False

        def transfers(root):
            st, seen, out = [root], set(), set()
            while st:
                x = st.pop()
                if x in seen or x not in self.I or len(seen) > 60:
                    continue
                seen.add(x)
                n = self.I[x]
                if n.op in ("call", "invoke"):
                    v = self.vcall(n)
                    if v and re.search(r"DataHandle::(read|write|skip|seek)$", v[0]):
                        out.add(x)
                if n.op == "phi":
                    st += [v for v, _ in n["o"] if isinstance(v, int)]
                else:
                    st += [v for v in n.get("o", ()) if isinstance(v, int)]
            return out
        mine = transfers(i["o"][0])
        if mine:
            # a transfer whose result was already branched on is not performed again
            for n in self.I.values():
                if n.op == "br" and n.get("o") and isinstance(n["o"][0], int):
                    mine -= transfers(n["o"][0])
        return bool(mine)

    def vcall(self, i):
        """(qualified virtual method name, static class, linkage name, object operand) of a virtual call, or None"""
        k = ("vc", i.id)
        if k in self._cache:
            return self._cache[k]
        r = None
        cv = i.get("cv")
        if isinstance(cv, int) and cv in self.I and self.I[cv].op == "load":
            slot = self.I[cv]["o"][0]
            idx = 0
            vp = slot
            if isinstance(slot, int) and slot in self.I and self.I[slot].op == "getelementptr":
                g = self.I[slot]
                if isinstance(g["o"][1], list) and g["o"][1][0] == "i":
                    idx, vp = g["o"][1][1], g["o"][0]
            if isinstance(vp, int) and vp in self.I and self.I[vp].op == "load":
                for u in self.uses(vp):
                    if u.op in ("call", "invoke") and u.get("c") in ("llvm.type.test", "llvm.public.type.test"):
                        md = u["o"][1]
                        cid = md[1] if isinstance(md, list) else ""
                        m = self.P.vmethod(cid, idx)
                        if m:
                            r = (m[0] + "::" + m[1], cid, m[2], self.I[vp]["o"][0])
                        else:
                            r = ("?%s::#%d" % (cid, idx), cid, None, self.I[vp]["o"][0])
                        break
        self._cache[k] = r
        return r

    def uses(self, vid):
        u = self._cache.get("uses")
        if u is None:
            u = defaultdict(list)
            for i in self.insts(all=True):
                for o in self.operands(i):
                    if isinstance(o, int):
                        u[o].append(i)
            self._cache["uses"] = u
        return u.get(vid, [])

    def operands(self, i):
        if i.op == "phi":
            return [x[0] for x in i["o"]]
        r = list(i.get("o", []))
        if isinstance(i.get("cv"), int):
            r.append(i["cv"])
        return r

    # ---- CFG
    def succ(self, b, exc=False):
        L = self.B[b]
        if not L:
            return []
        if b in self.cut:
            i = L[self.cut[b]]
            return [i["ub"]] if exc and "ub" in i else []
        t = L[-1]
        if t.op == "br":
            return list(dict.fromkeys(t["s"]))
        if t.op == "switch":
            return list(dict.fromkeys([t["def"]] + [c[1] for c in t["cases"]]))
        if t.op == "invoke":
            return [t["nb"]] + ([t["ub"]] if exc else [])
        return []

    def _succs(self, exc):
        k = ("succ", exc)
        if k not in self._cache:
            self._cache[k] = [self.succ(b, exc) for b in range(len(self.B))]
        return self._cache[k]

    def preds(self, exc=False):
        k = ("pred", exc)
        if k not in self._cache:
            p = [[] for _ in self.B]
            for b, ss in enumerate(self._succs(exc)):
                for s in ss:
                    p[s].append(b)
            self._cache[k] = p
        return self._cache[k]

    def reach(self, start=0, exc=False, avoid_blocks=(), avoid_edges=()):
        S = self._succs(exc)
        avoid_blocks = set(avoid_blocks)
        avoid_edges = set(avoid_edges)
        if start in avoid_blocks:
            return set()
        seen, st = {start}, [start]
        while st:
            b = st.pop()
            for s in S[b]:
                if s in seen or s in avoid_blocks or (b, s) in avoid_edges:
                    continue
                seen.add(s)
                st.append(s)
        return seen

    def live(self, exc=False):
        k = ("live", exc)
        if k not in self._cache:
            self._cache[k] = self.reach(0, exc)
        return self._cache[k]

    def insts(self, all=False, exc=False):
        """instructions on normal (exc: also unwinding) paths, block order"""
        live = range(len(self.B)) if all else sorted(self.live(exc))
        for b in live:
            L = self.B[b]
            end = len(L)
            if not all and b in self.cut:
                end = self.cut[b] + 1
            for i in L[:end]:
                yield i

    def calls(self, rx=None, exc=False, all=False):
        r = re.compile(rx) if isinstance(rx, str) else rx
        for i in self.insts(all=all, exc=exc):
            if i.op in ("call", "invoke"):
                if r is None or r.search(self.cq(i)):
                    yield i

    def is_live(self, i, exc=False):
        return i.blk in self.live(exc) and not (i.blk in self.cut and i.pos > self.cut[i.blk])

    def dominates(self, a, b, exc=False):
        """instruction a executes on every path from entry to instruction b"""
        if a.blk == b.blk:
            return a.pos <= b.pos
        if b.blk not in self.live(exc):
            return True
        k = ("dom", a.blk, exc)
        if k not in self._cache:
            self._cache[k] = self.reach(0, exc, avoid_blocks=[a.blk])
        return b.blk not in self._cache[k]

    def reachable_from(self, a, exc=False):
        """blocks reachable after instruction a (a's own block only when in a cycle)"""
        S = self._succs(exc)
        seen, st = set(), list(S[a.blk])
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st += S[b]
        return seen

    def may_follow(self, a, b, exc=False):
        """b may execute after a"""
        if a.blk == b.blk and b.pos > a.pos:
            return not (a.blk in self.cut and self.cut[a.blk] < b.pos)
        return b.blk in self.reachable_from(a, exc) and self.is_live(b, exc)

    def path_facts(self, d, at, kills=()):
        """conditions that hold on every path from instruction d (None: entry) to `at` executing none of `kills`"""
        kills = set(k.id for k in kills if k is not None and k is not d)
        out = list(self.facts_at(at)) + (list(self.facts_at(d)) if d is not None else [])
        for (b, s, c, tr) in self.edge_conds():
            if self.path_avoiding(d, lambda x: x is at, lambda x: x.id in kills, avoid_edges=((b, s),)) is None:
                for f in self.implied(c, tr):
                    if f not in out:
                        out.append(f)
        return out

    def path_avoiding(self, a, targets, avoid, exc=False, avoid_edges=()):
        """is there a path from just after a (or from entry if None) to an instruction satisfying `targets`
        that executes no instruction satisfying `avoid`?  Returns the reached instruction or None."""
        S = self._succs(exc)
        start = (0, 0) if a is None else (a.blk, a.pos + 1)
        seen, st = set(), [start]
        while st:
            b, p = st.pop()
            L = self.B[b]
            end = self.cut[b] + 1 if b in self.cut else len(L)
            stop = False
            for i in L[p:end]:
                if avoid(i) and not targets(i):
                    # an invoke that unwinds has not performed its effect; ignored unless exc paths are asked for
                    stop = True
                    break
                if targets(i):
                    return i
            if stop:
                continue
            for s in S[b]:
                if s not in seen and (b, s) not in avoid_edges:
                    seen.add(s)
                    st.append((s, 0))
        return None

    def rets(self):
        return [i for i in self.insts() if i.op == "ret"]

    def in_cycle(self, i):
        return i.blk in self.reachable_from(i)

    # ---- values
    def ty(self, op):
        if isinstance(op, int):
            if op in self.I:
                return self.I[op].get("t", "")
            return self.args[op]["t"]
        if op[0] == "i":
            return "i%d" % op[2]
        return "ptr" if op[0] in ("g", "fn", "null", "ce") else ""

    def expr(self, op, depth=40):
        if not isinstance(op, int):
            return self.cexpr(op)
        if op in self._expr:
            e = self._expr[op]
            if e is PENDING:
                # cyclic through a phi: what is being computed above must not be remembered with this cut in it
                st = self._cache["stack"]
                for k in range(len(st) - 1, -1, -1):
                    if st[k][0] == op:
                        break
                    st[k][1] = True
                return ("rec", op)
            return e
        if op < len(self.args) and op not in self.I:
            e = ("arg", op, self.args[op]["n"])
        elif depth <= 0:
            return ("deep", op)
        else:
            i = self.I[op]
            st = self._cache.setdefault("stack", [])
            me = [op, False]
            st.append(me)
            self._expr[op] = ("phi", op) if i.op == "phi" else PENDING
            e = self._mk(i, depth - 1)
            st.pop()
            if me[1] and e != ("phi", op):
                if i.op == "phi":
                    e = ("phi", op)
                else:
                    del self._expr[op]
                    return e
        self._expr[op] = e
        return e

    def cexpr(self, c):
        k = c[0]
        if k == "i":
            return ("c", c[1])
        if k == "ce":
            if c[1] == "getelementptr":
                return self.cexpr(c[2])
            return ("ce",) + tuple(self.cexpr(x) if isinstance(x, list) else x for x in c[1:])
        if k == "g":
            g = self.P.globals.get(c[1], {})
            if "str" in g and c[1].startswith(".str"):
                return ("str", g["str"])
            return ("g", c[1])
        return tuple(c)

    def _mk(self, i, dp):
        op = i.op
        E = lambda o: self.expr(o, dp)
        if op == "load":
            p = E(i["o"][0])
            if p[0] in ("minref", "maxref"):
                return (p[0][:3],) + p[1:]
            if p[0] == "alloca":
                r = self._reaching_scalar(i, p)
                if r is not None:
                    return r
            if p[0] == "g":
                g = self.P.globals.get(p[1], {})
                if g.get("const"):
                    if "int" in g:
                        return ("c", g["int"])
                    if "fp" in g:
                        return ("f", g["fp"])
            return ("ld", p)
        if op == "getelementptr":
            base = E(i["o"][0])
            idx = i["o"][1:]
            if "fld" in i and len(idx) == 2:
                return ("fld", base, i["fld"])
            ix = [E(x) for x in idx]
            if len(ix) == 1:
                if ix[0] == ("c", 0):
                    return base
                return ("idx", base, ix[0], i["st"])
            if ix[0] == ("c", 0):
                rest = ix[1:]
                while rest and rest[-1] == ("c", 0):
                    rest = rest[:-1]
                if not rest:
                    return base
                return ("sub", base) + tuple(rest)
            return ("sub", base) + tuple(ix)
        if op in ("call", "invoke"):
            q = self.cq(i)
            a = i["o"]
            sym = i.get("c") or ""
            if sym.startswith("_ZTW") and not a:
                return ("g", "_Z" + sym[4:])        # thread_local variable, through its initialising wrapper
            if sym.startswith("llvm.threadlocal.address") and a:
                return E(a[0])
            if IDENT.match(q) and a:
                x = E(a[0])
                if q.endswith(("::get", "operator->", "operator*", "_M_ptr", "_M_get")) and "ptr::" in q or "__shared_ptr" in q:
                    return ("ld", x) if x[0] != "ldobj" else x
                return x
            if q in ("std::min", "std::max") and len(a) == 2:
                xs = [self._content(o, i) for o in a]
                return (q[5:] + "ref",) + tuple(sorted(xs, key=repr))
            v = self.vcall(i)
            if v:
                return ("vcall", v[0]) + tuple(E(x) for x in a) + (("#", i.id),)
            if not q:
                return ("icall", E(i["cv"]) if isinstance(i.get("cv"), (int, list)) else "?") + tuple(E(x) for x in a) + (("#", i.id),)
            return ("call", q) + tuple(E(x) for x in a) + (("#", i.id),)
        if op == "icmp" or op == "fcmp":
            a, b = E(i["o"][0]), E(i["o"][1])
            if op == "icmp" and i["p"] in ("eq", "ne") and b == ("c", 0):
                x = a
                while x[0] in ("zext", "trunc") and x[0] != "c":
                    if x[0] == "zext" and x[1] == "i1":
                        return x[3] if i["p"] == "ne" else neg(x[3])
                    x = x[3]
            return ("cmp", i["p"], a, b)
        if op == "phi":
            xs = {repr(E(x[0])): E(x[0]) for x in i["o"] if x[0] != i.id}
            if len(xs) == 1:
                return next(iter(xs.values()))
            return ("phi", i.id)
        if op == "select":
            return ("select",) + tuple(E(x) for x in i["o"])
        if op in ("zext", "sext", "trunc", "fptrunc", "fpext", "fptosi", "fptoui", "sitofp", "uitofp", "bitcast", "ptrtoint", "inttoptr"):
            x = E(i["o"][0])
            if x[0] == "c" and op in ("sext", "trunc"):
                return x
            if op == "trunc" and i["t"] == "i1" and x[0] == "zext" and x[1] == "i1":
                return x[3]
            if x[0] == "c" and op == "zext":
                w = int(i["from"][1:])
                return ("c", x[1] & ((1 << w) - 1))
            return (op, i["from"], i["t"], x)
        if op == "alloca":
            return ("alloca", i.id, i.get("vn", ""))
        if op == "freeze":
            return E(i["o"][0])
        if op in ("add", "mul", "and", "or", "xor", "fadd", "fmul"):
            a, b = E(i["o"][0]), E(i["o"][1])
            if op == "xor" and i["t"] == "i1" and b in (("c", -1), ("c", 1)):
                return neg(a)
            if op in ("add", "mul") and a[0] == "c" and b[0] == "c":
                return ("c", a[1] + b[1] if op == "add" else a[1] * b[1])
            if op == "add" and ("c", 0) in (a, b):
                return b if a == ("c", 0) else a
            return (op,) + tuple(sorted((a, b), key=repr))
        if op in ("sub", "fsub", "sdiv", "udiv", "fdiv", "srem", "urem", "shl", "lshr", "ashr", "fneg", "frem"):
            return (op,) + tuple(E(x) for x in i["o"])
        if op == "extractvalue":
            return ("xv", E(i["o"][0])) + tuple(i["idx"])
        if op == "landingpad":
            return ("lp", i.id)
        if op in ("atomicrmw", "cmpxchg"):
            return (op, i.get("rmw", "")) + tuple(E(x) for x in i["o"]) + (("#", i.id),)
        return (op, i.id)

    # scalar local that SROA could not promote (its address is taken): single dominating store, never passed elsewhere
    # before the load by mutable reference
    def _reaching_scalar(self, ld, p):
        stores, others = [], []
        for u in self.uses(p[1]):
            if u.op == "store" and u["o"][1] == p[1]:
                stores.append(u)
            elif u.op == "load" or (u.op in ("call", "invoke") and u.get("c", "").startswith("llvm.lifetime")):
                pass
            else:
                others.append(u)
        if len(stores) == 1 and self.dominates(stores[0], ld):
            # address may have been passed to a callee: tolerate callees that take it as const reference
            for o in others:
                if not self._const_use(o, p[1]):
                    return None
            return self.expr(stores[0]["o"][0])
        return None

    def _content(self, addr, at):
        """expression of the value stored at an address operand when `at` executes"""
        e = self.expr(addr)
        if e[0] == "alloca":
            ds = self.mem_defs(e[1], at)
            if len(ds) == 1 and ds[0] is not None and ds[0].op == "store":
                return self.expr(ds[0]["o"][0])
        return ("ld", e)

    def mem_defs(self, aid, at):
        """definitions of local variable `aid` that may reach instruction `at`: store instructions, calls that may write
        through its address, or None (undefined on entry)"""
        defs = {}
        for u in self.uses(aid):
            if u.op == "store" and u["o"][1] == aid:
                defs[u.id] = u
            elif u.op in ("call", "invoke") and not u.get("c", "").startswith(("llvm.lifetime", "llvm.dbg")) and not self._const_use(u, aid):
                defs[u.id] = u
        out, seen = [], set()

        def scan(b, end):
            L = self.B[b]
            for k in range(end - 1, -1, -1):
                if L[k].id in defs:
                    return L[k]
            return None
        d = scan(at.blk, at.pos)
        if d is not None:
            return [d]
        P = self.preds(True)
        st = [at.blk]
        if at.blk == 0:
            return [None]
        while st:
            b = st.pop()
            if b == 0:
                if None not in out:
                    out.append(None)
            for p in P[b]:
                if p in seen:
                    continue
                seen.add(p)
                d = scan(p, len(self.B[p]))
                if d is not None:
                    if d not in out:
                        out.append(d)
                else:
                    st.append(p)
        return out

    def _const_use(self, u, aid):
        if u.op not in ("call", "invoke"):
            return False
        s = self.csym(u)
        if not s:
            return False
        d = self.P.dem(s)
        ps = split_params(d)
        if ps is None:
            return False
        off = len(u["o"]) - len(ps)
        for k, o in enumerate(u["o"]):
            if o == aid:
                j = k - off
                if j < 0:
                    if re.search(r"\)\s*const", d):
                        continue
                    return False
                if not ("const&" in ps[j] or "const*" in ps[j]):
                    return False
        return True

    # ---- facts
    def edge_conds(self):
        """[(block, successor, cond operand, truth or ('case', v))] for conditional edges"""
        k = "edges"
        if k in self._cache:
            return self._cache[k]
        r = []
        for b in self.live():
            if b in self.cut:
                continue
            t = self.B[b][-1]
            if t.op == "br" and "o" in t and t["s"][0] != t["s"][1]:
                r.append((b, t["s"][0], t["o"][0], True))
                r.append((b, t["s"][1], t["o"][0], False))
            elif t.op == "switch":
                bys = defaultdict(list)
                for v, s in t["cases"]:
                    bys[s].append(v)
                for s, vs in bys.items():
                    if s != t["def"]:
                        r.append((b, s, t["o"][0], ("case", tuple(vs))))
                if t["def"] not in bys:
                    r.append((b, t["def"], t["o"][0], ("notcase", tuple(v for v, _ in t["cases"]))))
        self._cache[k] = r
        return r

    def facts(self, blk):
        """conditions that hold whenever block blk executes: list of (cond expr, truth)"""
        k = ("facts", blk)
        if k in self._cache:
            return self._cache[k]
        self._cache[k] = []
        out = []
        for (b, s, c, tr) in self.edge_conds():
            kk = ("noedge", b, s)
            if kk not in self._cache:
                self._cache[kk] = self.reach(0, avoid_edges=[(b, s)])
            if blk not in self._cache[kk]:
                out += self.implied(c, tr)
        self._cache[k] = out
        return out

    def facts_at(self, i):
        return self.facts(i.blk)

    def edge_facts(self, b, s, depth=6):
        out = list(self.facts(b))
        for (x, y, c, tr) in self.edge_conds():
            if (x, y) == (b, s):
                out += self.implied(c, tr, depth)
        return out

    def implied(self, c, tr, depth=6):
        if isinstance(tr, tuple):
            return [(("switch", self.expr(c)) + tr, True)]
        i = self.I.get(c) if isinstance(c, int) else None
        while i is not None:
            if i.op == "xor" and i["t"] == "i1" and isinstance(i["o"][1], list):
                c, tr = i["o"][0], not tr
            elif i.op == "trunc" and i["t"] == "i1" and self._zext1(i["o"][0]) is not None:
                c = self._zext1(i["o"][0])
            elif i.op == "icmp" and i["p"] in ("eq", "ne") and isinstance(i["o"][1], list) and i["o"][1][:2] == ["i", 0] and self._zext1(i["o"][0]) is not None:
                c, tr = self._zext1(i["o"][0]), (tr if i["p"] == "ne" else not tr)
            else:
                break
            i = self.I.get(c) if isinstance(c, int) else None
        e = self.expr(c)
        while e[0] == "not":
            e, tr = e[1], not tr
        out = [(e, tr)]
        if depth <= 0:
            return out
        if i is not None and i.op == "phi":
            alts = []
            for v, b in i["o"]:
                if b not in self.live():
                    continue
                if isinstance(v, list) and v[0] == "i":
                    if bool(v[1]) != tr:
                        continue
                    alts.append(self.edge_facts(b, i.blk, depth - 1))
                else:
                    alts.append(self.edge_facts(b, i.blk, depth - 1) + self.implied(v, tr, depth - 1))
            if alts:
                common = [f for f in alts[0] if all(f in a for a in alts[1:])]
                out += common
        elif i is not None and i.op == "icmp" and i["p"] in ("eq", "ne") and isinstance(i["o"][1], list) and i["o"][1][0] == "i" and isinstance(i["o"][0], int) and i["o"][0] in self.I and self.I[i["o"][0]].op == "phi":
            # a value chosen by control flow, compared with a constant: only the edges whose value fits remain
            ph, k, same = self.I[i["o"][0]], i["o"][1][1], tr == (i["p"] == "eq")
            alts = [self.edge_facts(b, ph.blk, depth - 1) for v, b in ph["o"]
                    if b in self.live() and not (isinstance(v, list) and v[0] == "i" and (v[1] == k) != same)]
            if alts and ph.id not in self._loop_phis():
                out += [f for f in alts[0] if all(f in a for a in alts[1:])]
        elif i is not None and i.op == "select" and i["t"] == "i1":
            cc, a, b = i["o"]
            if isinstance(b, list) and b[0] == "i" and not b[1] and tr:
                out += self.implied(cc, True, depth - 1) + self.implied(a, True, depth - 1)
            if isinstance(a, list) and a[0] == "i" and a[1] and not tr:
                out += self.implied(cc, False, depth - 1) + self.implied(b, False, depth - 1)
        elif i is not None and i.op == "and" and tr:
            for o in i["o"]:
                out += self.implied(o, True, depth - 1)
        elif i is not None and i.op == "or" and not tr:
            for o in i["o"]:
                out += self.implied(o, False, depth - 1)
        return out

    def _loop_phis(self):
        if getattr(self, "_lphis", None) is None:
            self._lphis = {i.id for i in self.insts() if i.op == "phi" and any(b in self.reachable_from(i) for _, b in i["o"])}
        return self._lphis

    def _zext1(self, op):
        """operand x when op is zext i1 x (possibly widened/narrowed further)"""
        while isinstance(op, int) and op in self.I and self.I[op].op in ("zext", "trunc"):
            i = self.I[op]
            if i.op == "zext" and i["from"] == "i1":
                return i["o"][0]
            op = i["o"][0]
        return None

    def alternatives(self, op, blk=None, seen=None):
        """Guarded values of a (possibly phi) operand: [(facts, expr)], loop-carried self references dropped."""
        seen = seen or set()
        if isinstance(op, int) and op in self.I:
            i = self.I[op]
            if i.op == "phi":
                if op in seen:
                    return []
                seen = seen | {op}
                out = []
                for v, b in i["o"]:
                    if b not in self.live():
                        continue
                    ef = self.edge_facts(b, i.blk)
                    for f, e in self.alternatives(v, b, seen):
                        out.append((ef + f, e))
                return out
            if i.op == "select":
                c, a, b = i["o"]
                return [(self.implied(c, True) + f, e) for f, e in self.alternatives(a, blk, seen)] + \
                       [(self.implied(c, False) + f, e) for f, e in self.alternatives(b, blk, seen)]
            if i.op in ("zext", "sext", "trunc", "fptosi", "sitofp", "uitofp", "fptoui", "fpext", "fptrunc") and \
                    isinstance(i["o"][0], int) and i["o"][0] in self.I and self.I[i["o"][0]].op in ("phi", "select"):
                return [(f, (i.op, i["from"], i["t"], e) if e[0] != "c" else e) for f, e in self.alternatives(i["o"][0], blk, seen)]
        return [([], self.expr(op))]

    # ---- effect language
    def language(self, label, accept=None):
        """NFA of the sequences of labels on normal paths entry->return.  label(inst) -> hashable or None or list."""
        trans, start = defaultdict(set), (0, 0)
        accepts = set()
        S = self._succs(False)
        for b in self.live():
            L = self.B[b]
            end = self.cut[b] + 1 if b in self.cut else len(L)
            cur = (b, 0)
            n = 0
            for i in L[:end]:
                ls = label(i)
                if ls is None:
                    if i.op == "ret":
                        accepts.add(cur)
                    continue
                if not isinstance(ls, list):
                    ls = [ls]
                for l in ls:
                    n += 1
                    trans[cur].add((l, (b, n)))
                    cur = (b, n)
            if b in self.cut:
                continue
            for s in S[b]:
                trans[cur].add((None, (s, 0)))
        return NFA(start, trans, accepts)


class NFA:
    def __init__(self, start, trans, accepts):
        self.start, self.trans, self.accepts = start, trans, accepts

    def closure(self, ss):
        seen, st = set(ss), list(ss)
        while st:
            x = st.pop()
            for l, y in self.trans.get(x, ()):
                if l is None and y not in seen:
                    seen.add(y)
                    st.append(y)
        return frozenset(seen)

    def step(self, ss, l):
        return self.closure({y for x in ss for (k, y) in self.trans.get(x, ()) if k == l})

    def labels(self, ss):
        return {l for x in ss for (l, _) in self.trans.get(x, ()) if l is not None}

    def acc(self, ss):
        return any(x in self.accepts for x in ss)

    def productive(self):
        """states from which acceptance is reachable"""
        rev = defaultdict(set)
        for x, ts in self.trans.items():
            for _, y in ts:
                rev[y].add(x)
        seen, st = set(self.accepts), list(self.accepts)
        while st:
            x = st.pop()
            for y in rev[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    def trimmed(self):
        p = self.productive()
        t = defaultdict(set)
        for x, ts in self.trans.items():
            if x in p:
                t[x] = {(l, y) for l, y in ts if y in p}
        return NFA(self.start, t, self.accepts)

    def count(self):
        return sum(1 for ts in self.trans.values() for l, _ in ts if l is not None)

    def words(self, limit=20, maxlen=80):
        n = self.trimmed()
        out, q = [], deque([(n.closure({n.start}), ())])
        seen = defaultdict(int)
        while q and len(out) < limit:
            s, w = q.popleft()
            if n.acc(s):
                out.append(w)
            if len(w) >= maxlen:
                continue
            for l in sorted(n.labels(s), key=repr):
                t = n.step(s, l)
                if seen[(s, l)] < 3:
                    seen[(s, l)] += 1
                    q.append((t, w + (l,)))
        return out


def lang_diff(a, b):
    """None if L(a)==L(b), else (shortest distinguishing prefix, what a allows next, what b allows next)"""
    a, b = a.trimmed(), b.trimmed()
    s = (a.closure({a.start}), b.closure({b.start}))
    seen, q = {s}, deque([(s, ())])
    while q:
        (x, y), w = q.popleft()
        la, lb = a.labels(x), b.labels(y)
        if la != lb or a.acc(x) != b.acc(y):
            return (w, (sorted(map(repr, la - lb)), a.acc(x)), (sorted(map(repr, lb - la)), b.acc(y)))
        for l in la:
            n = (a.step(x, l), b.step(y, l))
            if n not in seen:
                seen.add(n)
                q.append((n, w + (l,)))
    return None


def split_params(d):
    """parameter type strings of a demangled function name"""
    depth, i = 0, len(d) - 1
    d = re.sub(r"(\s*const)?(\s*&{1,2})?(\[abi:\w+\])?$", "", d)
    if not d.endswith(")"):
        return None
    dep, k = 0, len(d) - 1
    while k >= 0:
        if d[k] == ")":
            dep += 1
        elif d[k] == "(":
            dep -= 1
            if dep == 0:
                break
        k -= 1
    body = d[k + 1:-1]
    if not body.strip():
        return []
    out, dep, cur = [], 0, ""
    for c in body:
        if c in "<([{":
            dep += 1
        elif c in ">)]}":
            dep -= 1
        if c == "," and dep == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return out


def zts(name):
    parts = [p for p in name.split("::") if p]
    enc = "".join("%d%s" % (len(p), p) for p in parts)
    return "_ZTS" + (enc if len(parts) == 1 else "N" + enc + "E")


class Program:
    def __init__(self, d, src="/repo/src/"):
        self.files = d["files"]
        self.src = src
        self.functions, self.globals = d["functions"], d["globals"]
        self.classes, self.enums, self.units = d.get("classes", {}), d.get("enums", {}), d.get("units", [])
        # classes keyed by their type-info symbol; non-template classes whose debug info carries no identifier by name
        self.byid = {}
        for n, c in self.classes.items():
            c["id"] = c.get("id") or (n if n.endswith("::") else zts(n))  # a closure has no name of its own
            self.byid[c["id"]] = (n, c)
        for n, c in self.classes.items():
            c["bases"] = [(b, bid or zts(b)) for b, bid in c["bases"]]
        self.fns, self.roots = {}, defaultdict(dict)
        for f in d["fns"]:
            F = Fn(self, f)
            if F.root:
                self.roots[F.root][F.name] = F
            else:
                self.fns[F.name] = F
        self._q = defaultdict(list)
        for F in self.fns.values():
            self._q[F.qual].append(F)
        self._desc = None

    def rel(self, p):
        return p[len(self.src) - 4:] if p.startswith(self.src) else p

    def dem(self, sym):
        f = self.functions.get(sym)
        if f:
            return f["d"]
        g = self.globals.get(sym)
        return g["d"] if g else sym

    def find(self, rx, tag=None):
        r = re.compile(rx)
        pool = self.fns.values() if tag is None else self.roots[tag].values()
        return [f for f in pool if r.search(f.dem)]

    def q(self, qual, tag=None):
        if tag is None:
            return list(self._q.get(qual, []))
        return [f for f in self.roots[tag].values() if f.qual == qual]

    def vmethod(self, cid, idx, seen=None):
        """method declared at vtable index idx for class id: (declaring class, name, linkage)"""
        seen = seen or set()
        if cid in seen or cid not in self.byid:
            return None
        seen.add(cid)
        name, c = self.byid[cid]
        for m in c["meth"]:
            if m[2] == idx or (m[2] == idx - 1 and m[0].startswith("~")):
                return (strip_templates(name), m[0], m[1])
        for b, bid in c["bases"]:
            r = self.vmethod(bid, idx, seen)
            if r:
                return r
        return None

    def subclasses(self, cid):
        if self._desc is None:
            self._desc = defaultdict(set)
            for i, (n, c) in self.byid.items():
                for b, bid in c["bases"]:
                    self._desc[bid].add(i)
        out, st = set(), [cid]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st += self._desc[x]
        return out

    def vtargets(self, fn, call):
        """mangled names of the functions a virtual call may reach (class-hierarchy analysis over emitted vtables)"""
        v = fn.vcall(call)
        if not v:
            return set()
        cid = v[1]
        slot = fn.I[call["cv"]]["o"][0]
        idx = 0
        g = fn.I.get(slot) if isinstance(slot, int) else None
        if g is not None and g.op == "getelementptr" and isinstance(g["o"][1], list):
            idx = g["o"][1][1]
        out = set()
        for sub in self.subclasses(cid):
            vt = self.globals.get("_ZTV" + sub[4:])
            if vt and vt.get("vt"):
                s = vt["vt"][0]
                if idx + 2 < len(s) and s[idx + 2]:
                    out.add(s[idx + 2])
        return out

    def enum(self, name):
        for n, e in self.enums.items():
            if n == name or n.endswith("::" + name):
                return dict(e)
        return None


def walk(e):
    """all sub-expressions"""
    yield e
    if isinstance(e, tuple):
        for x in e[1:]:
            if isinstance(x, tuple):
                yield from walk(x)


def contains(e, pred):
    return any(pred(x) for x in walk(e))


CASTS = ("zext", "sext", "trunc", "fptrunc", "fpext", "fptosi", "fptoui", "sitofp", "uitofp", "bitcast", "ptrtoint", "inttoptr")


def uncast(e):
    while isinstance(e, tuple) and e and e[0] in CASTS:
        e = e[3]
    return e


def fields(e):
    return {x[2] for x in walk(e) if isinstance(x, tuple) and x and x[0] == "fld"}


def pretty(e, d=0):
    if not isinstance(e, tuple):
        return str(e)
    if not e:
        return "()"
    k = e[0]
    if d > 12:
        return "..."
    P = lambda x: pretty(x, d + 1)
    if k == "c":
        return str(e[1])
    if k == "f":
        return str(e[1])
    if k == "str":
        return '"%s"' % e[1]
    if k == "arg":
        return e[2] or "arg%d" % e[1]
    if k == "ld":
        return P(e[1]) if e[1][0] == "fld" else "*" + P(e[1])
    if k == "fld":
        b = P(e[1])
        return e[2] if b == "this" else b + "." + e[2]
    if k in ("call", "vcall"):
        return "%s(%s)" % (e[1].split("::")[-1] if "operator" not in e[1] else e[1][e[1].rfind("operator"):], ", ".join(P(x) for x in e[2:] if x[:1] != ("#",)))
    if k == "cmp":
        return "%s %s %s" % (P(e[2]), e[1], P(e[3]))
    if k in CASTS:
        return P(e[3])
    if k == "not":
        return "!" + P(e[1])
    if k == "alloca":
        return e[2] or "local%d" % e[1]
    if k == "g":
        return e[1]
    return "%s(%s)" % (k, ", ".join(P(x) for x in e[1:]))
