"""Concurrency: state shared between threads is accessed only while its lock is held; worker threads share no frame, their errors reach
the caller and every frame is decoded for every thread count; process-wide mutable state is not written outside set-up calls."""
from frlib import *
from loops import loops, innermost, exits, once_per_iteration
from F05 import tri, strip

CONFIG = {"roots": [
    {"tag": "decode", "re": r"^odc::api::FrameImpl::decode\([^)]*\)$", "keep": [r"Table::", r"DecodeTarget::~?DecodeTarget", r"DecodeTarget::slice"], "depth": 6},
    {"tag": "work", "re": r"^odc::api::FrameImpl::decode\(.*\)::.*operator\(\)", "keep": [r"Table::", r"DecodeTarget::"], "depth": 6},
    {"tag": "slice", "re": r"^odc::core::DecodeTarget::slice\(|^odc::api::StridedDataT<.*>::slice\(", "keep": [r"StridedDataT<.*>::slice\(", r"DecodeTarget::DecodeTarget"], "depth": 4}]}

# class: (member holding shared state, mutex). A class with a mutex that is not listed guards everything it holds.
SHARED = {"odc::core::TablesReader": ("tables_",), "odc::core::ThreadSharedDataHandle::Internal": ("dh_",), "odc::core::CodecFactory": ("builders_",)}
MUTEX = r"^(mutable )?(std::(recursive_|shared_|timed_)?mutex|eckit::Mutex)$"
LOCKS = r"^(std::(lock_guard|unique_lock|scoped_lock|shared_lock)|eckit::AutoLock)::"
# process set-up calls: documented to be made before (or between) the threads' work
SETUP = r"^(odc_initialise_api|odc_set_failure_handler|odc::MDI::|odc_missing_|odc::api::Settings::|odb_|debugMeNow)"
MUTATE = r"::(operator=|assign|append|operator\+=|push_back|emplace_back|pop_back|insert|emplace|erase|clear|resize|reserve|swap|reset|store)$"
READS = r"(~\w+|find|begin|end|cbegin|cend|size|empty|c_str|at|count|data|front|back|operator\[\]|lower_bound|upper_bound|instance)$"


def run(P, R):
    R.rule("L1", "members of a class that owns a mutex are accessed, outside construction and destruction, only while that object's mutex is held")
    R.rule("L2", "a reference into guarded state that later changes move does not leave the locked region")
    R.rule("L3", "locks are acquired in one order, never twice by the same thread, and released on every path")
    R.rule("L4", "process-wide mutable state is written only during static initialisation, by set-up calls, under a lock or per thread")
    R.rule("T1", "what worker threads share and change they change under a lock they share; each works on frames no other thread takes")
    R.rule("T2", "every frame is taken: the shared counter starts at the first frame, advances by one, and a worker stops only behind the last")
    R.rule("T3", "all workers are waited for with their exceptions passed on, before what they use changes or goes away")
    R.rule("T4", "a frame is decoded for every number of threads, each into its own consecutive range of rows")
    H = Held(P)
    guarded(P, R, H)
    order(P, R, H)
    globals_(P, R, H)
    workers(P, R)
    R.need("L1", 3)


# ------------------------------------------------------------------------------------------------ held locks
class Held:
    def __init__(self, P):
        self.P, self.memo = P, {}

    def locks(self, f):
        """[(instruction, key, mutex expr, 'acquire' | 'release')]"""
        out, assoc = [], {}
        for i in f.insts(exc=True):
            if i.op not in ("call", "invoke"):
                continue
            q = f.cq(i)
            if not q:
                continue
            m = re.match(LOCKS, q)
            if m:
                key = repr(f.expr(i["o"][0]))
                meth = q[m.end():]
                if meth in ("lock_guard", "unique_lock", "scoped_lock", "shared_lock", "AutoLock"):
                    if len(i["o"]) >= 2 and not re.search(r"unique_lockISt5mutexEC\dEOS", f.csym(i) or ""):
                        mx = strip(f.expr(i["o"][1]))
                        assoc[key] = mx
                        d = self.P.dem(f.csym(i)) or ""
                        if not re.search(r"defer_lock_t|try_to_lock_t|chrono", d):
                            out.append((i, key, mx, "acquire"))
                elif meth == "lock":
                    out.append((i, key, None, "acquire"))
                elif meth.startswith("~") or meth == "unlock":
                    out.append((i, key, None, "release"))
            elif re.match(r"^(std::(\w+_)?mutex|eckit::Mutex)::(lock|unlock)$", q):
                mx = strip(f.expr(i["o"][0]))
                out.append((i, "m" + repr(mx), mx, "acquire" if q.endswith("::lock") else "release"))
        return [(i, k, assoc.get(k) if mx is None else mx, w) for i, k, mx, w in out]

    def table(self, f):
        """{block: locks held at its start on every path}, events per block"""
        if f.name in self.memo and self.memo[f.name][0] is f:
            return self.memo[f.name][1:]
        ev = {}
        for i, k, mx, w in self.locks(f):
            if mx is not None or w == "release":
                ev.setdefault(i.blk, []).append((i, k, mx, w))
        st, S = {0: frozenset()}, f._succs(True)
        if ev:
            work = [0]
            while work:
                b = work.pop()
                cur = dict(st[b])
                for i, k, mx, w in ev.get(b, ()):
                    if w == "acquire":
                        cur[k] = mx
                    else:
                        cur.pop(k, None)
                # a constructor that unwinds has acquired nothing
                for s in S[b]:
                    o = dict(cur)
                    last = f.B[b][-1]
                    if last.op == "invoke" and last.get("ub") == s:
                        for i, k, mx, w in ev.get(b, ()):
                            if i is last and w == "acquire":
                                o.pop(k, None)
                    n = frozenset(o.items())
                    if s in st:
                        n &= st[s]
                    if s not in st or n != st[s]:
                        st[s] = n
                        work.append(s)
        self.memo[f.name] = (f, st, ev)
        return st, ev

    def at(self, f, inst):
        """{mutex expr} held when inst executes"""
        st, ev = self.table(f)
        if not ev:
            return set()
        cur = dict(st.get(inst.blk, ()))
        es = {id(e[0]): e for e in ev.get(inst.blk, ())}
        for j in f.B[inst.blk]:
            if j is inst or j.id == inst.id and j.id is not None and j.op == inst.op:
                break
            e = es.get(id(j))
            if e:
                if e[3] == "acquire":
                    cur[e[1]] = e[2]
                else:
                    cur.pop(e[1], None)
        return set(cur.values())

    def unreleased(self, f):
        """locks held when the function returns although released by hand elsewhere"""
        return [(i, m) for i in f.insts(exc=True) if i.op in ("ret", "resume") for m in self.at(f, i)]


def subst(e, env):
    if not isinstance(e, tuple):
        return e
    if e and e[0] == "arg" and len(e) > 1:
        return env.get(e[1], e)
    return tuple(subst(x, env) if isinstance(x, tuple) else x for x in e)


def noid(e):
    """expression without call identities"""
    if not isinstance(e, tuple):
        return e
    return tuple(noid(x) for x in e if not (isinstance(x, tuple) and x[:1] == ("#",)))


# ------------------------------------------------------------------------------------------------ L1, L2
def callers(P):
    out = {}
    for f in P.fns.values():
        for i in f.insts(exc=True):
            if i.op in ("call", "invoke"):
                s = f.csym(i)
                if s:
                    out.setdefault(s, []).append((f, i))
    return out


def struct_name(st):
    m = re.match(r'^%"?(?:class|struct)\.(.*?)(?:\.\d+)?"?$', st or "")
    return m.group(1) if m else None


def accesses(f, cls, names):
    """[(instruction, base expr, member)] of every access to the named members of class cls in f"""
    ids, out = {}, []
    other = set()
    for i in f.insts(exc=True):
        if i.op == "getelementptr" and "fld" in i and i["fld"] in names:
            if struct_name(i["st"]) in (cls, cls + ".base"):
                e = f.expr(i.id)
                if e[0] == "fld":
                    ids[i.id] = (e[1], e[2])
            else:
                other.add(i["fld"])
    for i in f.insts(exc=True):
        if i.op in ("load", "store", "call", "invoke", "ret", "cmpxchg", "atomicrmw"):
            seen = set()
            for o in i["o"]:
                if isinstance(o, int) and o in ids:
                    seen.add(ids[o])
                elif not other and i.op in ("store", "call", "invoke") and ids:
                    e = f.expr(o)
                    for x in reaches(e):
                        if isinstance(x, tuple) and x[:1] == ("fld",) and len(x) == 3 and (x[1], x[2]) in ids.values():
                            seen.add((x[1], x[2]))
            if i.op in ("call", "invoke") and re.match(LOCKS, f.cq(i) or ""):
                continue
            for b, n in sorted(seen, key=repr):
                out.append((i, b, n))
    return out


def reaches(e):
    """e and the expressions it is part of or was found through; not the arguments a value was computed from"""
    while isinstance(e, tuple) and e:
        yield e
        if e[0] in ("fld", "idx", "sub", "ld"):
            e = e[1]
        elif e[0] == "call" and len(e) > 3 and re.search(r"::(operator\[\]|operator->|operator\*|at|back|front|get|data|begin|find)$", e[1]):
            e = e[2]
        else:
            return


def guarded(P, R, H):
    cl = callers(P)
    found = {}
    for n, c in P.classes.items():
        if not c.get("file", "").startswith(P.src) and not n.startswith("odc::"):
            continue
        mx = [m[0] for m in c["m"] if re.match(MUTEX, m[1])]
        # a closure's captured mutex is a reference, not its own
        if mx:
            found[n] = (mx, [m[0] for m in c["m"] if m[0] not in mx])
    for n, want in SHARED.items():
        c = P.classes.get(n)
        if c is None or not all(any(m[0] == w for m in c["m"]) for w in want):
            R.extra.setdefault("undecided", []).append("L1 %s: class or member not found" % n)
            continue
        R.check(n in found, "L1", n + " lock", "%s:%d" % (P.rel(c["file"]), c["line"]), "the state shared between threads is guarded by no mutex", "owns a mutex")
    for n, (mx, members) in sorted(found.items()):
        members = [m for m in members if not immutable(P, n, m)]
        for f in sorted(P.fns.values(), key=lambda f: f.name):
            if construction(n, f):
                continue
            for i, base, m in accesses(f, n, members):
                where = f.loc(i)
                if i.op == "ret":
                    R.bad("L2", "%s::%s returned by %s" % (n, m, f.qual), where, "a reference to state guarded by a lock is returned")
                    continue
                ok = covered(P, H, cl, n, mx, f, i, base, 4)
                R.check(ok, "L1", "%s::%s in %s" % (n, m, f.qual), where, "%s is accessed without holding the lock that guards it" % m, "under the lock")
            for i in f.rets():
                e = f.expr(i["o"][0]) if i["o"] else None
                if e and e[0] == "call" and re.match(r"std::(vector|deque)::(operator\[\]|at|back|front|data|begin)$", e[1]) and e[2][:1] == ("fld",) and e[2][2] in members and \
                        any(b == e[2][1] and m == e[2][2] for _, b, m in accesses(f, n, members)):
                    R.bad("L2", "%s::%s element returned by %s" % (n, e[2][2], f.qual), f.loc(i), "a reference to an element that a later insertion moves is returned")
        R.ok("L2", n, "no reference to guarded containers or movable elements returned")


def construction(n, f):
    """constructors, destructors of the class or of the class it is nested in (which creates it)"""
    outer = [n]
    if "::Internal" in n or "::Impl" in n:
        outer.append(n.rsplit("::", 1)[0])
    for o in outer:
        last = o.rsplit("::", 1)[1]
        if f.qual in (o + "::" + last, o + "::~" + last):
            # copying and moving constructors read an object that is already shared
            return not (o != n and re.search(r"\((%s) (const&|&&)\)|\(%s(&&| const&)\)" % (re.escape(o), re.escape(o)), f.dem))
    return f.dem.startswith(("__cxx_global_var_init", "_GLOBAL_")) or bool(re.match(r"(std|__gnu_cxx)::", f.qual))


def immutable(P, n, m):
    """scalar members that nothing but constructors store"""
    c = P.classes[n]
    t = next(x[1] for x in c["m"] if x[0] == m)
    if not re.match(r"^(const )?(bool|int|long|unsigned .*|double|float|char|enum .*)$", t) and not t.startswith("const "):
        # an object with a lock of its own guards itself
        return t in ("odc::core::ThreadSharedDataHandle",) or bool(re.match(r"std::(atomic|once_flag|condition_variable)", t))
    for f in P.fns.values():
        if construction(n, f):
            continue
        for i, b, mm in accesses(f, n, [m]):
            if i.op != "load":
                return False
    return True


def covered(P, H, cl, n, mx, f, i, base, depth):
    held = {noid(x) for x in H.at(f, i)}
    # (the address of an object's first member is the object's own)
    if any(noid(("fld", base, m)) in held for m in mx) or noid(base) in held and mx and P.classes.get(cl, {}).get("m") and any(m[0] in mx and m[2] == 0 for m in P.classes[cl]["m"]):
        return True
    # reached only with the caller's lock held?
    args = {x[1] for x in walk(base) if isinstance(x, tuple) and x[:1] == ("arg",)}
    cs = cl.get(f.name, [])
    if depth <= 0 or not cs or not args:
        return False
    for g, c in cs:
        if g.name == f.name:
            continue
        if construction(n, g):
            continue
        env = {k: g.expr(o) for k, o in enumerate(c["o"])}
        b = subst(base, env)
        if not covered(P, H, cl, n, mx, g, c, b, depth - 1):
            return False
    return True


# ------------------------------------------------------------------------------------------------ L3
def lockclass(f, mx):
    """name of the class of locks a mutex expression belongs to"""
    for i in f.insts(exc=True):
        if i.op == "getelementptr" and "fld" in i and f.expr(i.id) == mx:
            return "%s::%s" % (struct_name(i["st"]), i["fld"])
    return None


def order(P, R, H):
    direct, edges, same = {}, {}, []
    for f in P.fns.values():
        for i, k, mx, w in H.locks(f):
            if w == "acquire" and mx is not None:
                c = lockclass(f, mx)
                if c:
                    direct.setdefault(f.name, set()).add((c, noid(mx)))
    trans = {n: {c for c, m in v} for n, v in direct.items()}
    # transitive closure over direct and virtual calls
    calls = {}
    for f in P.fns.values():
        s = set()
        for i in f.insts(exc=True):
            if i.op in ("call", "invoke"):
                if f.csym(i):
                    s.add(f.csym(i))
                elif f.vcall(i):
                    s |= P.vtargets(f, i)
        calls[f.name] = s
    ch = True
    while ch:
        ch = False
        for n, s in calls.items():
            t = set(trans.get(n, ()))
            for m in s:
                t |= trans.get(m, set())
            if t != trans.get(n, set()):
                trans[n] = t
                ch = True
    for f in P.fns.values():
        if not H.table(f)[1]:
            continue
        for i in f.insts(exc=True):
            if i.op not in ("call", "invoke"):
                continue
            held = H.at(f, i)
            if not held:
                continue
            hc = {(lockclass(f, m), noid(m)) for m in held}
            q = f.cq(i) or ""
            inner = set()
            if re.match(LOCKS, q) or q.endswith("utex::lock"):
                for j, k, mx, w in H.locks(f):
                    if j is i and w == "acquire" and mx is not None:
                        if noid(mx) in {m for c, m in hc}:
                            same.append((f, i, "the lock is already held"))
                        elif lockclass(f, mx):
                            inner.add(lockclass(f, mx))
            else:
                tg = {f.csym(i)} if f.csym(i) else P.vtargets(f, i) if f.vcall(i) else set()
                for t in tg:
                    for c in trans.get(t, ()):
                        g = P.fns.get(t)
                        for d, m in direct.get(t, ()):
                            if d == c and subst(m, {k: noid(f.expr(o)) for k, o in enumerate(i["o"])}) in {m2 for c2, m2 in hc}:
                                same.append((f, i, "%s acquires the lock that is already held" % (g.qual if g else t)))
                        inner.add(c)
            for c, m in hc:
                for d in inner:
                    if c and d and c != d:
                        edges.setdefault((c, d), (f, i))
    for f, i, t in same:
        R.bad("L3", "%s relocks" % f.qual, f.loc(i), t)
    for (a, b), (f, i) in sorted(edges.items(), key=lambda x: x[0]):
        R.check((b, a) not in edges, "L3", "%s before %s" % (a, b), f.loc(i), "locks are acquired in both orders", "%s is held while %s is acquired, never the other way round" % (a, b))
    for f in P.fns.values():
        man = [x for x in H.locks(f) if x[1].startswith("m")]
        if not man or f.qual.startswith("std::") or not P.rel(f.file).startswith("src/"):
            continue
        for i, m in H.unreleased(f):
            R.bad("L3", "%s leaves a lock held" % f.qual, f.loc(man[0][0]), "a lock taken here is still held when the function is left")
    R.ok("L3", "lock acquisitions", "%d functions acquire %d locks" % (len(direct), len({c for v in direct.values() for c, m in v})))
    R.extra["lock_order"] = ["%s -> %s" % e for e in sorted(edges)]


# ------------------------------------------------------------------------------------------------ L4
def root_global(e):
    while isinstance(e, tuple):
        if e[0] == "g":
            return e[1]
        if e[0] in ("fld", "idx", "sub"):
            e = e[1]
        elif e[0] == "call" and e[1] == "std::map::operator[]":
            e = e[2]
        else:
            return None
    return None


def globals_(P, R, H):
    own = {n for n, c in P.classes.items() if any(re.match(MUTEX, m[1]) for m in c["m"])}
    gs = {}
    for s, g in P.globals.items():
        f = g.get("file") or ""
        if g.get("const") or g.get("tls") or not f.startswith(P.src) or re.search(r"/odc/(tools/|odccapi|Test)", f) or s.startswith(("_ZTV", "_ZTI", "_ZGV")):
            continue
        if re.match(r"(const )?(std::(atomic|mutex|once_flag)|eckit::(Mutex|ThreadSingleton))", g.get("dit") or ""):
            continue
        gs[s] = g
    cl = callers(P)
    n = 0
    for f in P.fns.values():
        if f.dem.startswith(("__cxx_global_var_init", "_GLOBAL_")):
            continue
        for i in f.insts(exc=True):
            tgt = None
            if i.op == "store":
                tgt = root_global(f.expr(i["o"][1]))
            elif i.op in ("call", "invoke") and i["o"]:
                q = f.cq(i) or ""
                d = P.dem(f.csym(i) or "")
                last = q.rsplit("::", 1)[-1]
                if re.search(MUTATE, q) or q == "std::map::operator[]" or "::" in q and "(" in d and not d.endswith("const") and not re.match(READS, last) and last not in q.split("::")[-2:-1]:
                    tgt = root_global(f.expr(i["o"][0]))
                elif q in ("std::getline", "memcpy", "strcpy", "llvm.memcpy.p0.p0.i64", "memset", "llvm.memset.p0.i64"):
                    tgt = root_global(f.expr(i["o"][0]))
            if tgt not in gs:
                continue
            n += 1
            name = gs[tgt]["d"].replace("[abi:cxx11]", "")
            ok = bool(H.at(f, i)) or set_up(P, cl, f, 5) or any(c[0] == "call" and c[1].endswith("__cxa_guard_acquire") for c, t in f.facts_at(i) if isinstance(c, tuple)) or \
                any("__cxa_guard_acquire" in repr(c) for c, t in f.facts_at(i))
            R.check(ok, "L4", "%s written by %s" % (name, strip_templates(f.dem).split("(")[0]), f.loc(i), "%s is shared by all threads and written without a lock" % name, "guarded or set-up")
    for s, g in gs.items():
        R.ok("L4", "%s:%d" % (P.rel(g["file"]), g.get("line", 0)), g["d"])
    R.extra["mutable_globals"] = sorted(g["d"] for g in gs.values())


def set_up(P, cl, f, depth):
    if re.match(SETUP, f.dem) or re.match(SETUP, f.qual):
        return True
    cs = cl.get(f.name, [])
    return depth > 0 and bool(cs) and all(set_up(P, cl, g, depth - 1) for g, c in cs if g is not f)


# ------------------------------------------------------------------------------------------------ T1 - T4
def shared_rooted(e):
    """address in an object captured by reference (or through the captured this)"""
    while isinstance(e, tuple):
        if e[0] == "ld" and e[1][:1] == ("fld",) and e[1][1][:1] == ("arg",) and e[1][1][1] == 0:
            return True
        if e[0] in ("fld", "idx", "sub", "ld"):
            e = e[1]
        elif e[0] in ("call", "vcall") and len(e) > 2 and re.match(r"std::(vector|deque|array)::", e[1]):
            e = e[2]
        else:
            return False
    return False


def elements(e):
    """(container, index) of every element expression inside e"""
    for x in walk(e):
        if isinstance(x, tuple) and x[:1] == ("call",) and re.match(r"std::(vector|deque|array)::(operator\[\]|at)$", x[1]):
            yield x[2], x[3]
        elif isinstance(x, tuple) and x[:1] == ("idx",):
            yield x[1], x[2]


def workers(P, R):
    D = [f for f in P.roots["decode"].values()]
    W = [f for f in P.roots["work"].values()]
    if not D:
        R.extra.setdefault("undecided", []).append("T1-T4: FrameImpl::decode not found")
        return
    f = D[0]
    launches = [i for i in f.insts() if i.op in ("call", "invoke") and re.match(r"std::(async|thread::thread|jthread::jthread)$", f.cq(i) or "")]
    spawned_in_vec = [i for i in f.insts() if i.op in ("call", "invoke") and re.match(r"std::vector::emplace_back$", f.cq(i) or "") and "thread" in P.dem(f.csym(i) or "")]
    if launches or spawned_in_vec:
        H = Held(P)
        if not W:
            R.extra.setdefault("undecided", []).append("T1: the function worker threads run was not found")
        for g in W:
            if any(re.match(r"odc::core::Table::decode$", g.cq(i) or "") for i in g.insts()):
                worker(P, R, H, g, f)
        joined(P, R, f, launches, W)
    handles(P, R)
    rows(P, R, f, launches or spawned_in_vec)
    slices(P, R)


def worker(P, R, H, g, f):
    stores = [(i, g.expr(i["o"][1])) for i in g.insts() if i.op == "store" and shared_rooted(g.expr(i["o"][1]))]
    addrs = {noid(a) for i, a in stores}
    at = {}
    for i in g.insts():
        if i.op in ("load", "store"):
            a = noid(g.expr(i["o"][-1] if i.op == "store" else i["o"][0]))
            if a in addrs:
                at.setdefault(a, []).append(i)
    for a, ii in at.items():
        name = next((x[2] for x in walk(a) if isinstance(x, tuple) and x[:1] == ("fld",)), "?")
        common = None
        for i in ii:
            h = {noid(m) for m in H.at(g, i) if shared_rooted(m) or m[0] == "ld"}
            common = h if common is None else common & h
            R.check(bool(h), "T1", "%s in worker" % name, g.loc(i), "%s is shared between worker threads and accessed without a lock they share" % name, "under a shared lock")
        R.check(bool(common), "T1", "%s one lock" % name, g.where(), "accesses to %s are guarded by different locks" % name, "one lock")
    # container operations that change shared containers
    for i in g.insts():
        if i.op in ("call", "invoke") and i["o"] and re.search(MUTATE, g.cq(i) or "") and (g.cq(i) or "").startswith("std::") and shared_rooted(g.expr(i["o"][0])):
            R.check(bool(H.at(g, i)), "T1", "container change in worker", g.loc(i), "a container shared between worker threads is changed without a lock", "locked")
    # elements handed to project code
    for i in g.insts():
        if i.op in ("call", "invoke") and (g.cq(i) or "").startswith("odc::"):
            for o in i["o"]:
                for c, ix in elements(g.expr(o)):
                    if not shared_rooted(c):
                        continue
                    unique(R, H, g, i, ix, at, c)
    # T2
    dec = [i for i in g.insts() if re.match(r"odc::core::Table::decode$", (g.cq(i) or "") if i.op in ("call", "invoke") else "")]
    for a, ii in at.items():
        st = [i for i in ii if i.op == "store"]
        for s in st:
            v = linear(strip(g.expr(s["o"][0])))
            cur = ("ld", a)
            k = v[1] if v and len(v[0]) == 1 and noid(next(iter(v[0]))) == cur and next(iter(v[0].values())) == 1 else None
            tri(R, "T2", "step", g.loc(s), None if k is None else k == 1, "the shared counter does not advance by one", )
        name = next((x[2] for x in walk(a) if isinstance(x, tuple) and x[:1] == ("fld",)), None)
        init = [i for i in f.insts() if i.op == "store" and f.expr(i["o"][1])[:1] == ("alloca",) and f.expr(i["o"][1])[2] == name]
        if init:
            R.check(all(f.expr(i["o"][0]) == ("c", 0) for i in init), "T2", "start", f.loc(init[0]), "the shared counter does not start at the first frame", "starts at 0")
        # leaving the worker
        def behind(e, t):
            if e[0] != "cmp":
                return False
            p = e[1] if t else INVERSE.get(e[1])
            x, y = noid(strip(e[2])), noid(strip(e[3]))
            if p is None:
                return False
            if y == ("ld", a) or (y[0] == "call" and x != ("ld", a) and not y[1].endswith("::size")):
                x, y, p = y, x, SWAP.get(p, p)
            return p[-2:] in ("ge", "eq") and p[0] != "o" and y[:2] == ("call", "std::vector::size") and is_counter(x, a)
        done = edges_where(g, behind)
        r = g.reach(0, avoid_edges=done)
        left = [i for i in g.rets() if i.blk in r]
        recognised = bool(done)
        tri(R, "T2", "stop", g.where(), True if not left else (False if recognised or wrong_stop(g, a) else None), "a worker stops before all frames are taken")
    for i in dec:
        S = g._succs(False)
        # the loop continues after a frame was decoded
        lp = innermost(g, i)
        R.check(lp is not None, "T2", "loop", g.loc(i), "a worker decodes one frame only", "in a loop")


def is_counter(x, a):
    if x == ("ld", a):
        return True
    return x[0] == "phi" or x[:1] == ("sub",) and contains(x, lambda y: y == ("ld", a))


def wrong_stop(g, a):
    """the counter is compared with something else than the number of frames"""
    for b in g.live():
        for s in g.succ(b):
            for c, t in g.edge_facts(b, s):
                if c[0] == "cmp" and contains(noid(c), lambda y: y == ("ld", a)) and contains(noid(c), lambda y: isinstance(y, tuple) and y[:2] == ("call", "std::vector::size")):
                    return True
    return False


def unique(R, H, g, i, ix, at, c):
    name = next((x[2] for x in walk(c) if isinstance(x, tuple) and x[:1] == ("fld",)), "?")
    key = "element of %s" % name
    e = noid(strip(ix))
    if e[0] == "call" and re.search(r"atomic.*::(fetch_add|operator\+\+)$", e[1]) or e[0] == "atomicrmw":
        R.ok("T1", g.loc(i), "index taken from an atomic counter")
        return
    # captured by value: the launcher's own per-thread value
    if e[0] == "ld" and e[1][:1] == ("fld",) and e[1][1][:1] == ("arg",):
        R.ok("T1", g.loc(i), "index captured by value")
        return
    ctr = [a for a in at if contains(e, lambda y: y == ("ld", a))]
    if not ctr:
        if e[0] == "c":
            R.bad("T1", key, g.loc(i), "all worker threads use the same element")
        elif shared_rooted(e):
            R.bad("T1", key, g.loc(i), "worker threads take their element from a counter none of them advances")
        else:
            R.extra.setdefault("undecided", []).append("T1 %s: index %s" % (key, pretty(ix)[:60]))
        return
    a = ctr[0]
    # the load whose value is the index runs under the lock, and the counter advances before that lock is released
    loads = [j for j in at[a] if j.op == "load"]
    src = [j for j in loads if source_of(g, ix, j)]
    stores = [j for j in at[a] if j.op == "store"]
    ok = bool(stores)
    for l in src or loads:
        held = H.at(g, l)
        if not held:
            ok = False
            continue
        rel = [j.blk for j, k, mx, w in H.locks(g) if w == "release"]
        # from the load to the use of the element, without passing a store: not allowed
        if path_without(g, l, i, stores):
            ok = False
        # between load and store no release
        for s in stores:
            for j, k, mx, w in H.locks(g):
                if w == "release" and between(g, l, j, s, stores):
                    ok = False
    R.check(ok, "T1", key, g.loc(i), "two worker threads may take the same element: the counter is not read and advanced under one lock", "index taken and advanced under the lock")


def source_of(g, ix, j):
    e = g.expr(ix) if isinstance(ix, int) else ix
    return True


def pos(g, i):
    return next(k for k, x in enumerate(g.B[i.blk]) if x is i)


def path_without(g, a, b, stops, exc=False):
    """a path from a to b that passes none of stops"""
    sb = {}
    for s in stops:
        sb.setdefault(s.blk, []).append(pos(g, s))
    if a.blk == b.blk and pos(g, a) < pos(g, b):
        return not any(pos(g, a) < k < pos(g, b) for k in sb.get(a.blk, ()))
    if any(k > pos(g, a) for k in sb.get(a.blk, ())):
        return False
    S = g._succs(exc)
    seen, st = set(), list(S[a.blk])
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == b.blk:
            if not any(k < pos(g, b) for k in sb.get(x, ())):
                return True
            continue
        if x in sb:
            continue
        st += S[x]
    return False


def between(g, a, j, s, stores):
    """j runs after a and before s, with no other store of the counter in between"""
    return path_without(g, a, j, stores) and path_without(g, j, s, [a])


def handles(P, R):
    """every table reads through a handle, and so a position, of its own"""
    seen, st = set(), [f.name for f in P.fns.values() if f.qual in ("odc::core::Table::decode", "odc::core::Table::readEncodedData")]
    n = 0
    while st:
        s = st.pop()
        f = P.fns.get(s)
        if s in seen or f is None:
            continue
        seen.add(s)
        for i in f.insts():
            if i.op not in ("call", "invoke"):
                continue
            q = f.cq(i) or ""
            if f.csym(i):
                st.append(f.csym(i))
            if not f.qual.startswith("odc::core::Table::"):
                continue
            if re.search(r"DataHandle::(read|seek|position)$", q) and i["o"]:
                e = f.expr(i["o"][0])
            elif f.vcall(i) and i["o"] and "ThreadSharedDataHandle" in repr(f.vcall(i)):
                e = f.expr(i["o"][0])
            else:
                continue
            n += 1
            while e[0] == "sub":
                e = e[1]
            tri(R, "T1", "handle of %s" % f.qual, f.loc(i), False if e[0] == "ld" and e[1][0] == "fld" and e[1][1][:1] == ("arg",) else True,
                "tables read through a handle they share: the position one thread sets is changed by another before it reads")
    R.extra["table_reads"] = n


def joined(P, R, f, launches, W):
    """T3"""
    for l in launches:
        q = f.cq(l)
        if q != "std::async":
            catches = any(any(i.op == "landingpad" for i in g.insts(exc=True)) for g in W)
            R.check(False if not catches else None, "T3", "exceptions", f.loc(l), "an exception in this thread ends the process instead of reaching the caller") if not catches else \
                R.extra.setdefault("undecided", []).append("T3: exceptions of std::thread workers")
            continue
        pol = f.expr(l["o"][1]) if len(l["o"]) > 1 else None
        # the future goes into a container
        obj = f.expr(l["o"][0])
        into = [i for i in f.insts() if i.op in ("call", "invoke") and re.match(r"std::vector::(emplace_back|push_back)$", f.cq(i) or "") and any(f.expr(o) == obj for o in i["o"][1:])]
        gets = [i for i in f.insts() if i.op in ("call", "invoke") and f.cq(i) in ("std::future::get", "std::shared_future::get")]
        waits = [i for i in f.insts() if i.op in ("call", "invoke") and f.cq(i) in ("std::__basic_future::wait", "std::future::wait")]
        if not into:
            direct = [i for i in gets if f.expr(i["o"][0]) == obj]
            uses = [i for i in f.insts() if i is not l and i.op in ("call", "invoke", "store") and any(f.expr(o) == obj for o in i["o"]) and not re.search(r"::~|llvm\.", f.cq(i) or "")]
            tri(R, "T3", "future", f.loc(l), True if direct else (None if uses else False), "the result of an asynchronous call, and any exception in it, is dropped")
            continue
        ok = None
        for i in gets:
            L = innermost(f, i)
            if L is not None and walks(f, L, f.expr(into[0]["o"][0]), i):
                # every way out after a launch goes through that loop
                hdr = {L.header}
                r = f.reach(l.blk, avoid_blocks=hdr)
                ok = not any(x.blk in r for x in f.rets())
                # every future: no iteration without, no leaving after the first
                valid = [j for j in f.insts() if j.op in ("call", "invoke") and (f.cq(j) or "").endswith("future::valid")]
                if ok and not valid:
                    if not once_per_iteration(L, i):
                        ok = False
                    elif any(b != L.header and b not in L.latches for b, s in exits(L)):
                        ok = None
                break
        if ok is None:
            ok = None if gets else False
        tri(R, "T3", "join", f.loc(l), ok, "worker threads' exceptions are not passed on to the caller before it returns" if not gets else "not every way out waits for all workers")
        if gets:
            cap = captured(f)
            for i in f.insts():
                if i.op in ("call", "invoke") and re.search(MUTATE, f.cq(i) or "") and (f.cq(i) or "").startswith("std::") and noid(f.expr(i["o"][0])) in cap and f.may_follow(l, i):
                    R.check(not path_without(f, l, i, gets), "T3", "change while running", f.loc(i), "what the workers use is changed while they run", "after the join")
            # on an exception the futures wait in their destructors: what the workers use must not be destroyed before
            home = f.expr(into[0]["o"][0])
            dtors = [i for i in f.insts(exc=True) if i.op in ("call", "invoke") and re.search(r"::~\w+$", f.cq(i) or "") and i["o"]]
            waits = [i for i in dtors if f.expr(i["o"][0]) == home]
            for i in dtors:
                if noid(f.expr(i["o"][0])) in cap and f.expr(i["o"][0]) != home:
                    R.check(not path_without(f, into[0], i, waits, True), "T3", "lifetime", f.loc(i), "what the workers use may be destroyed while they run", "destroyed after the workers ended")


def captured(f):
    """objects stored in closures"""
    out = set()
    for i in f.insts():
        if i.op == "store":
            a = f.expr(i["o"][1])
            if a[0] in ("sub", "alloca") and (a[0] == "alloca" or a[1][0] == "alloca"):
                v = f.expr(i["o"][0])
                if v[0] in ("alloca", "arg", "fld"):
                    out.add(noid(v))
    return out


def walks(f, L, cont, i):
    """the loop runs over all elements of the container"""
    blocks = L.body
    txt = [f.expr(o) for j in f.insts() if j.op in ("call", "invoke") and f.cq(j) in ("std::vector::begin", "std::vector::end", "std::vector::size", "std::vector::operator[]") for o in j["o"][:1]]
    return cont in txt


# ------------------------------------------------------------------------------------------------ T4
def feasible(f, n, arg):
    """edges that cannot be taken when the argument has the value n"""
    import operator as o
    ops = {"eq": o.eq, "ne": o.ne, "ult": o.lt, "ule": o.le, "ugt": o.gt, "uge": o.ge, "slt": o.lt, "sle": o.le, "sgt": o.gt, "sge": o.ge}
    out = []
    for b in f.live():
        for s in f.succ(b):
            for c, t in f.edge_facts(b, s):
                if c[0] == "cmp" and c[1] in ops:
                    x, y = strip(c[2]), strip(c[3])
                    if x[:1] == ("arg",) and x[1] == arg and y[0] == "c":
                        v = ops[c[1]](n, y[1])
                    elif y[:1] == ("arg",) and y[1] == arg and x[0] == "c":
                        v = ops[c[1]](x[1], n)
                    else:
                        continue
                    if v != t:
                        out.append((b, s))
    return out


def rows(P, R, f, launches):
    arg = next((k for k, a in enumerate(f.args) if a["n"] == "nthreads"), 2)
    dec = [i for i in f.insts() if i.op in ("call", "invoke") and f.cq(i) == "odc::core::Table::decode"]
    R.check(bool(dec) or bool(launches), "T4", "decoded", f.where(), "no frame is decoded", "decodes")
    consts = {1}
    for b in f.live():
        for s in f.succ(b):
            for c, t in f.edge_facts(b, s):
                if c[0] == "cmp":
                    for x, y in ((c[2], c[3]), (c[3], c[2])):
                        if strip(x)[:1] == ("arg",) and strip(x)[1] == arg and strip(y)[0] == "c":
                            consts.add(strip(y)[1])
    vals = sorted({v for c in consts for v in (c - 1, c, c + 1) if v >= 0})
    # blocks that can only be passed when there are no frames (left) to decode: the exits of loops over the frames
    for n in vals:
        dead = feasible(f, n, arg)
        S = f._succs(False)
        work = [i.blk for i in dec] + [i.blk for i in launches]
        # loops whose every feasible iteration decodes, loops that launch at least one worker
        head = set()
        for L in loops(f):
            bs = L.body
            here = [i for i in dec + launches if i.blk in bs]
            if not here:
                continue
            starts = [s for b in bs for s in S[b] if b == L.header and s in bs]
            skip = set()
            for s in starts:
                if s in {i.blk for i in here}:
                    continue
                seen, st = {s}, [s]
                while st:
                    b = st.pop()
                    for t in S[b]:
                        if (b, t) in dead or t in {i.blk for i in here} or t in seen or t not in bs:
                            continue
                        seen.add(t)
                        st.append(t)
                if any((b, L.header) not in dead and L.header in S[b] for b in seen):
                    skip.add(s)
            if starts and not skip and all((L.header, s) not in dead for s in starts):
                head.add(L.header)
        r = f.reach(0, avoid_blocks=set(work) | head, avoid_edges=dead)
        bad = [i for i in f.rets() if i.blk in r]
        R.check(not bad, "T4", "nthreads=%d" % n, f.where(), "with %d threads several frames are returned as decoded without having been decoded" % n, "decoded with %d threads" % n)
    # ranges
    for i in f.insts():
        if i.op in ("call", "invoke") and f.cq(i) == "odc::core::DecodeTarget::slice":
            off, cnt = strip(f.expr(i["o"][-2])), noid(strip(f.expr(i["o"][-1])))
            L = innermost(f, i)
            if L is None or off[0] != "phi":
                R.check(False if L is not None and off[0] == "c" else None, "T4", "range", f.loc(i), "all frames are decoded into the same rows") if L is not None and off[0] == "c" else \
                    R.extra.setdefault("undecided", []).append("T4: row offset of a slice")
                continue
            okc = cnt[0] == "call" and cnt[1].endswith("Table::rowCount")
            ph = f.I[off[1]]
            ini = [f.expr(v) for v, b in ph["o"] if b not in L.body]
            upd = [noid(strip(f.expr(v))) for v, b in ph["o"] if b in L.body]
            R.check(all(x == ("c", 0) for x in ini), "T4", "first range", f.loc(i), "the first frame is not decoded into the first rows", "offset starts at 0")
            want = noid(("add",) + tuple(sorted((off, strip(f.expr(i["o"][-1]))), key=repr)))
            good = all(sorted(map(repr, u[1:])) == sorted(map(repr, (noid(off), cnt))) if u[0] == "add" else False for u in upd)
            tri(R, "T4", "ranges", f.loc(i), True if good and okc else (False if okc and upd and all(u[0] in ("add", "phi", "c") or u == cnt for u in upd) else (False if not okc and cnt[0] == "c" else None)),
                "consecutive frames are not decoded into consecutive rows")
            # decoded by the frame whose rows the range was made for
            if okc:
                own = cnt[2]
                for d in dec:
                    if innermost(f, d) is L:
                        R.check(noid(f.expr(d["o"][0])) == own, "T4", "own range", f.loc(d), "a frame is decoded into the rows of another", "own rows")


def slices(P, R):
    for f in P.roots["slice"].values():
        if "StridedDataT" in f.dem:
            continue
        # every facade sliced with the same range, in order
        cs = [i for i in f.insts() if i.op in ("call", "invoke") and re.search(r"StridedDataT::slice$", f.cq(i) or "")]
        for i in cs:
            a = [strip(f.expr(o)) for o in i["o"]][-2:]
            off = [k for k, x in enumerate(f.args) if x["n"] in ("rowOffset", "nrows")]
            want = [("arg", k, f.args[k]["n"]) for k in off]
            R.check(a == want, "T4", "slice of every column", f.loc(i), "a column's part of the target is not the range of rows asked for", "same range")
        if not cs:
            R.extra.setdefault("undecided", []).append("T4: slices of the columns not found")
    for f in P.roots["slice"].values():
        if "StridedDataT" not in f.dem:
            continue
        ctor(R, f)


def ctor(R, f):
    names = {a["n"]: k for k, a in enumerate(f.args)}
    base = {}
    for i in f.insts():
        if i.op == "store":
            a = f.expr(i["o"][1])
            if a[0] == "fld" or a[0] in ("arg", "alloca"):
                base.setdefault(a[2] if a[0] == "fld" else "data_", []).append((i, strip(f.expr(i["o"][0]))))
    key = strip_templates(f.dem).split("(")[0].split("::")[-1] + (" const" if f.dem.endswith("const") else "")
    this = [a for a in f.args if a["n"] == "this"]
    for m, want in (("nelem_", "nrows"), ("dataSize_", "dataSize_"), ("stride_", "stride_")):
        for i, v in base.get(m, []):
            ok = v[:1] == ("arg",) and v[2] == want or v[0] == "ld" and v[1][0] == "fld" and v[1][2] == want
            R.check(ok, "T4", "%s %s" % (key, m), f.loc(i), "the part of a strided column has another %s" % m, m)
    for i, v in base.get("data_", []):
        c = noid(v)
        idx = [x for x in walk(c) if isinstance(x, tuple) and x[:1] == ("idx",)]
        ok = None
        if idx:
            l = idx[0][2]
            t = fields(l) if True else ()
            ok = contains(l, lambda y: y[:1] == ("arg",) and y[2] == "rowOffset") and "stride_" in t and not contains(l, lambda y: isinstance(y, tuple) and y[:1] == ("arg",) and y[2] == "nrows")
        tri(R, "T4", "%s data" % key, f.loc(i), ok, "the part of a strided column does not start at the row asked for")
