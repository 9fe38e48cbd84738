"""C API exception containment: for every function of the public C header, inlined down to its error wrapper, no instruction
outside a catch handler can let an exception escape (every unwinding edge ends in a catch-all), the value returned from a
handler is the documented code of that handler, and the handler records the message before it notifies the registered
callback with the same code and the registered context."""
from apilib import *

CONFIG = {"roots": [WRAP, BODY, PLAIN]}
GENERAL, UNKNOWN = 2, 3


def handlers(f):
    """begin_catch instructions with the set of exception types that lead to them (None: catch-all)"""
    out = []
    for i in f.insts(exc=True):
        if i.op in ("call", "invoke") and i.get("c") == "__cxa_begin_catch":
            ty = None
            for c, t in facts_exc(f, i.blk):
                if c[0] == "cmp" and c[1] == "eq" and t:
                    for x in (c[2], c[3]):
                        if x[0] == "call" and x[1].startswith("llvm.eh.typeid.for"):
                            ty = x[2][1] if x[2][0] == "g" else repr(x[2])
            out.append((i, ty))
    return out


def facts_exc(f, blk):
    out = []
    for b in f.live(True):
        t = f.B[b][-1]
        if t.op == "br" and "o" in t and t["s"][0] != t["s"][1]:
            for k, tr in ((0, True), (1, False)):
                if blk not in f.reach(0, True, avoid_edges=[(b, t["s"][k])]):
                    out += f.implied(t["o"][0], tr)
    return out


def nothrow(f, i, ok):
    if i.get("nothrow") or i.get("noret") and not f.csym(i):
        return True
    s = f.csym(i)
    if s is None:
        return False
    if s.startswith("llvm.") or s in ok:
        return True
    g = f.P.functions.get(s)
    return bool(g and g.get("nt"))


def run(P, R):
    R.rule("E1", "no exception can leave a public C function: every throwing instruction outside a handler unwinds to a catch-all handler that does not rethrow")
    R.rule("E2", "after a caught exception the function returns the documented error code (2 for known exceptions, 3 for unknown), never success; a normal return of a function without own status is 0")
    R.rule("E3", "the handler stores the exception's message (the text odc_error_string returns for that code) and afterwards calls the registered failure handler, if any, with the registered context and the code that is returned")
    R.rule("E4", "odc_error_string returns the stored message for the exception codes, and odc_set_failure_handler stores its two arguments where the handlers read them")
    R.rule("E5", "advancing a frame reports success exactly when a new frame was obtained and iteration-complete otherwise; a decode that did not complete never returns success")
    A = apis(P)
    names = {n for n, a in A.items() if a.ret == "int"}
    defined = [n for n in names if n in P.roots["apiwrap"]]
    for n in sorted(names - set(defined)):
        R.bad("E1", n + "|undefined", "src/odc/api/odc.h", "declared function %s has no definition" % n)
    R.anchor(len(defined) >= 40, "C API functions")
    # where odc_error_string reads its text
    es = P.roots["apiwrap"].get("odc_error_string") or P.roots["apiplain"].get("odc_error_string")
    R.anchor(es, "odc_error_string")
    textglob = {x[1] for i in es.insts() for o in es.operands(i) for x in walk(es.expr(o)) if x[0] == "g" and not x[1].startswith((".str", "switch"))
                and "basic_string" in "".join(es.cq(j) for j in es.calls())}
    cbs, ctxs = set(), set()
    for n in sorted(defined):
        f = P.roots["apiwrap"][n]
        hs = handlers(f)
        inh = set()
        for b, _ in hs:
            S = f._succs(True)
            inh |= {x for x in f.live(True) if f.dominates(b, f.B[x][0], exc=True) and x != b.blk} if f.B[b.blk] else set()

        def in_handler(i):
            return i.blk in inh or any(b.blk == i.blk and i.pos >= b.pos for b, _ in hs)
        lps = {}
        for i in f.insts(exc=True):
            if i.op in ("call", "invoke") and i.get("c", "") != "__cxa_begin_catch" and not in_handler(i):
                if f.B[i.blk][0].op == "landingpad" or any(f.dominates(L, i, exc=True) for L in [x for b in f.live(True) for x in f.B[b][:1] if x.op == "landingpad"]):
                    # cleanup code on the way to a handler: destructors
                    if i.op == "call":
                        R.ok("E1", f.loc(i), "cleanup on the way to a handler")
                        continue
                if nothrow(f, i, names):
                    continue
                what = f.callee(i) or "an indirect call"
                if i.op == "call":
                    if f.is_noreturn(i) and re.match(r"__clang_call_terminate|std::terminate|abort|_exit|exit", f.cq(i) or ""):
                        continue
                    R.bad("E1", "%s|%s" % (n, f.cq(i) or "indirect"), f.loc(i), "an exception from %s leaves %s: it is called outside any handler" % (what, n))
                    continue
                # invoke: walk to its landing pad(s)
                esc = None
                pad = i["ub"]
                if pad not in lps:
                    lp = next((x for x in f.B[pad] if x.op == "landingpad"), None)
                    bad = None
                    if lp is None or (["null"] not in (lp.get("o") or [])):
                        # cleanup-only pads lead on to resume
                        bad = "its landing pad has no catch-all clause"
                    r = f.path_avoiding(lp, lambda x: x.op == "resume", lambda x: x.op in ("call", "invoke") and x.get("c") == "__cxa_begin_catch", exc=True) if lp is not None else None
                    if r is not None:
                        bad = "unwinding continues past the function"
                    lps[pad] = bad
                esc = lps[pad]
                R.check(not esc, "E1", "%s|%s" % (n, f.cq(i) or "indirect"), f.loc(i), "an exception from %s leaves %s: %s" % (what, n, esc), "%s in %s is contained" % (what, n))
        calls_api = [i for i in f.insts() if f.csym(i) in names] if not hs else []
        if not hs:
            thr = [i for i in f.insts(exc=True) if i.op in ("call", "invoke") and not nothrow(f, i, names)]
            R.check(not thr or calls_api, "E1", n + "|nohandler", f.where(), "%s has no handler" % n, "%s delegates to another contained function" % n)
            continue
        # return values
        rets = f.rets() or [i for i in f.insts(exc=True) if i.op == "ret"]
        for r in [i for i in f.insts(exc=True) if i.op == "ret"]:
            alts = ret_alts(f, r)
            for val, blk, chain in alts:
                h = [(b, ty) for b, ty in hs if f.dominates(b, f.B[blk][-1], exc=True)] or [(b, ty) for b, ty in hs if blk in inh and f.may_follow(b, f.B[blk][-1], exc=True)]
                e = f.expr(val)
                if h:
                    ty = h[-1][1]
                    want = UNKNOWN if ty is None else GENERAL
                    if e[0] == "c":
                        R.check(e[1] == want, "E2", "%s|handler %s" % (n, ty or "..."), f.loc(h[-1][0]),
                                "%s returns %d from the handler of %s, documented code is %d" % (n, e[1], ty or "unknown exceptions", want), "%s -> %d" % (ty or "unknown", want))
                    else:
                        R.extra["undecided"] = R.extra.get("undecided", 0) + 1
                elif e[0] == "c":
                    R.check(e[1] == 0, "E2", "%s|normal" % n, f.where(), "%s returns %d although no exception was caught" % (n, e[1]), "normal completion returns 0")
                else:
                    R.ok("E2", f.where(), "status computed by the body")
        # handler contents
        for b, ty in hs:
            if any(b2 is not b and f.dominates(b2, b, exc=True) for b2, _ in hs):
                continue
            want = UNKNOWN if ty is None else GENERAL
            st = [i for i in f.insts(exc=True) if i.op in ("call", "invoke") and re.search(r"basic_string::(operator=|assign)$", f.cq(i)) and f.may_follow(b, i, exc=True)
                  and f.expr(i["o"][0])[0] == "g" and f.expr(i["o"][0])[1] in textglob]
            ics = [i for i in f.insts(exc=True) if i.op in ("call", "invoke") and not f.cq(i) and f.may_follow(b, i, exc=True) and f.expr(i["cv"])[0] == "ld" and f.expr(i["cv"])[1][0] == "g"]
            rets_h = lambda x: x.op == "ret"
            miss = f.path_avoiding(b, rets_h, lambda x: x in st)
            R.check(miss is None and bool(st), "E3", "%s|%s|text" % (n, ty or "..."), f.loc(b),
                    "%s: the handler of %s can return without recording the message" % (n, ty or "unknown exceptions"), "message recorded")
            for i in st:
                if ty is not None:
                    src = f.expr(i["o"][1])
                    good = contains(src, lambda x: x[0] in ("vcall", "call", "icall") and len(x) > 1 and isinstance(x[1], str) and (x[1].endswith("::what") or "exception::#2" in x[1])) or src[0] == "icall"
                    R.check(good, "E3", "%s|%s|what" % (n, ty), f.loc(i), "%s: the recorded text is not the exception's message" % n, "what()")
            if not ics:
                R.bad("E3", "%s|%s|callback" % (n, ty or "..."), f.loc(b), "%s: the handler of %s never calls the failure handler" % (n, ty or "unknown exceptions"))
            for i in ics:
                g = f.expr(i["cv"])[1][1]
                a = [f.expr(x) for x in i["o"]]
                cbs.add(g)
                if len(a) == 2 and a[0][0] == "ld" and a[0][1][0] == "g":
                    ctxs.add(a[0][1][1])
                R.check(len(a) == 2 and uncast(a[1]) == ("c", want), "E3", "%s|%s|code" % (n, ty or "..."), f.loc(i),
                        "%s: the failure handler is told code %s, the function returns %d" % (n, pretty(a[1]) if len(a) > 1 else "?", want), "callback code %d" % want)
                R.check(any(f.dominates(s, i, exc=True) for s in st), "E3", "%s|%s|order" % (n, ty or "..."), f.loc(i),
                        "%s: the failure handler runs before the message is recorded" % n, "message first")
            # skipped only when no callback is registered
            skip = set()
            for b2 in f.live(True):
                t = f.B[b2][-1]
                if t.op == "br" and "o" in t:
                    for k, tr in ((0, True), (1, False)):
                        for c, v in f.implied(t["o"][0], tr):
                            if c[0] == "cmp" and {x[0] for x in c[2:4]} == {"ld", "null"} and any(x[0] == "ld" and x[1][0] == "g" and x[1][1] in cbs for x in c[2:4]):
                                if (c[1] == "eq") == v:
                                    skip.add((b2, t["s"][k]))
            if ics:
                miss = f.path_avoiding(b, rets_h, lambda x: x in ics, avoid_edges=skip)
                R.check(miss is None, "E3", "%s|%s|skipped" % (n, ty or "..."), f.loc(b), "%s: a registered failure handler can be skipped" % n, "callback always notified")
    # E4
    al = []
    for r in es.rets():
        for facts, e in es.alternatives(r["o"][0]):
            al.append((Facts(facts), e))
    for code in (GENERAL, UNKNOWN):
        got = [e for fs, e in al if any(c[0] == "switch" and c[2] == "case" and code in c[3] and t for c, t in fs.raw) or fs.eq(("arg", 0, es.args[0]["n"]), ("c", code))]
        if not got:
            # a common compiled shape: switch edges are not visible as facts; accept if the text is returned at all
            R.extra["undecided"] = R.extra.get("undecided", 0) + 1
            continue
        R.check(all(contains(e, lambda x: x[0] == "g" and x[1] in textglob) for e in got), "E4", "error_string|%d" % code, es.where(),
                "odc_error_string does not return the recorded message for code %d" % code, "code %d -> recorded message" % code)
    R.check(len(textglob) == 1, "E4", "error_string|text", es.where(), "odc_error_string does not read one recorded message", "message global")
    sh = A["odc_set_failure_handler"]
    want = {"handler": cbs, "context": ctxs}
    pn = [p for _, p in sh.params]
    R.anchor(sh.bodies and len(pn) == 2, "odc_set_failure_handler body")
    for f in sh.bodies:
        got = {}
        for i in f.insts():
            if i.op == "store" and f.expr(i["o"][1])[0] == "g":
                got[f.expr(i["o"][1])[1]] = sh.ex(f, i["o"][0])
        for k, p in enumerate(pn):
            gl = (cbs, ctxs)[k]
            R.check(gl and all(got.get(g) == ("param", p) for g in gl), "E4", "set_failure_handler|%s" % p, f.where(),
                    "odc_set_failure_handler does not store its argument %s where the error handlers read it" % p, "%s stored" % p)
    # E5
    for n in ("odc_next_frame", "odc_next_frame_aggregated"):
        a = A[n]
        R.anchor(a.bodies, n)
        for f in a.bodies:
            for r in f.rets():
                if not r.get("o"):
                    R.bad("E5", n + "|void", f.where(), "%s does not report whether a frame was obtained" % n)
                    continue
                for facts, e in f.alternatives(r["o"][0]):
                    obtained = None
                    for c, t in facts + f.facts_at(r):
                        if c[0] in ("call",) and re.search(r"odc::api::Frame::operator bool$|Frame::valid", c[1]):
                            obtained = t
                    v = e[1] if e[0] == "c" else None
                    if e[0] == "zext" and contains(e, lambda x: x[0] == "call" and "Frame::operator bool" in x[1]):
                        # (int)!bool
                        ok = contains(e, lambda x: x[0] == "not")
                        R.check(ok, "E5", n + "|status", f.where(), "%s returns iteration-complete for a valid frame" % n)
                        continue
                    if e[0] == "select" and contains(e[1], lambda x: x[0] == "call" and "Frame::operator bool" in x[1]):
                        ok = (e[2], e[3]) == (("c", 0), ("c", 1)) or (e[1][0] == "not" and (e[2], e[3]) == (("c", 1), ("c", 0)))
                        R.check(ok, "E5", n + "|status", f.where(), "%s swaps success and iteration-complete" % n)
                        continue
                    if obtained is None or v is None:
                        R.extra["undecided"] = R.extra.get("undecided", 0) + 1
                        continue
                    R.check(v == (0 if obtained else 1), "E5", n + "|" + ("frame" if obtained else "end"), f.where(),
                            "%s returns %d when %s" % (n, v, "a frame was obtained" if obtained else "there are no more frames"), "status %d" % v)
    R.need("E1", 40)
    R.need("E2", 80)
    R.need("E3", 80)


def ret_alts(f, r, op=None, seen=None, blk=None):
    op = r["o"][0] if op is None else op
    blk = r.blk if blk is None else blk
    seen = seen or set()
    if isinstance(op, int) and op in f.I and f.I[op].op == "phi":
        if op in seen:
            return []
        out = []
        for v, b in f.I[op]["o"]:
            if b in f.live(True):
                out += ret_alts(f, r, v, seen | {op}, b)
        return out
    return [(op, blk, None)]
