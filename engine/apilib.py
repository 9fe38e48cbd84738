"""The public C functions: declarations of the public header, the body that runs for each, captured values mapped to parameters."""
import re
from ir import *
from rel import Facts
import build
from report import AnalysisBroken

def decls():
    """{function: (return type, [(type, name)])} of odc/api/odc.h"""
    t = open(build.SRC + "/odc/api/odc.h").read()
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    t = re.sub(r"//[^\n]*", " ", t)
    out = {}
    for m in re.finditer(r"(?:^|[;}{])\s*((?:const\s+)?\w+[\s*]+)(odc_\w+)\s*\(([^()]*)\)\s*;", t):
        ps = []
        for p in m.group(3).split(","):
            p = p.strip()
            if not p or p == "void":
                continue
            k = re.match(r"^(.*?)(\w+)$", p, re.S)
            ps.append((re.sub(r"\s+", " ", k.group(1)).strip().replace(" *", "*"), k.group(2)))
        out[m.group(2)] = (m.group(1).strip(), ps)
    # consecutive declarations share their separator: scan again on what overlapped
    for m in re.finditer(r"\b(int|const char\*)\s+(odc_\w+)\s*\(([^()]*)\)\s*;", t):
        if m.group(2) in out:
            continue
        ps = []
        for p in m.group(3).split(","):
            p = p.strip()
            if not p or p == "void":
                continue
            k = re.match(r"^(.*?)(\w+)$", p, re.S)
            ps.append((re.sub(r"\s+", " ", k.group(1)).strip().replace(" *", "*"), k.group(2)))
        out[m.group(2)] = (m.group(1).strip(), ps)
    if len(out) < 40:
        raise AnalysisBroken("only %d declarations found in the public C header" % len(out))
    return out


DECL = "^(%s)$" % "|".join(sorted(decls()))
BODY = {"tag": "apibody", "re": r"^odc_\w+::.*operator\(\)", "depth": 6, "keep": ["^odc::", "^std::", "^eckit::", DECL]}
WRAP = {"tag": "apiwrap", "re": r"^odc_\w+$", "depth": 12, "keep": [], "max": 20000}
PLAIN = {"tag": "apiplain", "re": r"^odc_\w+$", "depth": 6, "keep": ["^odc::", "^std::", "^eckit::", DECL]}



class Api:
    """one C function: body functions (lambda call operators, or the function itself) with captures named as parameters"""

    def __init__(self, P, name, ret, params):
        self.P, self.name, self.ret, self.params = P, name, ret, params
        self.fn = P.fns.get(name)
        self.bodies = []
        self._memo = {}
        # parameter names in the definition may differ from the header's
        self.srcnames = {}
        if self.fn is not None:
            for k, a in enumerate(self.fn.args):
                if k < len(params):
                    self.srcnames[re.sub(r"\.(coerce|addr)$", "", a["n"])] = params[k][1]
        for f in P.roots["apibody"].values():
            if f.qual.split("::")[0] == name:
                self.bodies.append(f)
        if not self.bodies and name in P.roots["apiplain"]:
            self.bodies = [P.roots["apiplain"][name]]
        self.maps = {f.name: self._map(f) for f in self.bodies}

    def _map(self, f):
        """capture slot -> parameter name"""
        if f.name == self.name:
            return {}
        return {p: p for _, p in self.params}

    def pname(self, n):
        return self.params[n][1] if n < len(self.params) else "#%d" % n

    def subst(self, f, e):
        """captured values and own arguments become ('param', name)"""
        k = (f.name, e)
        if k in self._memo:
            return self._memo[k]
        m = self.maps.get(f.name, {})
        r = e
        if isinstance(e, tuple) and e:
            if f.name == self.name:
                if e[0] == "arg":
                    r = ("param", self.pname(e[1]))
                else:
                    r = tuple(self.subst(f, x) if isinstance(x, tuple) else x for x in e)
            elif e[0] == "ld" and e[1][0] == "fld" and e[1][1][:2] == ("arg", 0) and (e[1][2] in m or e[1][2] in self.srcnames):
                r = ("param", m.get(e[1][2]) or self.srcnames[e[1][2]])
            else:
                r = tuple(self.subst(f, x) if isinstance(x, tuple) else x for x in e)
        self._memo[k] = r
        return r

    def ex(self, f, o):
        return self.subst(f, f.expr(o))

    def facts(self, f, i):
        return Facts([(self.subst(f, c), t) for c, t in f.facts_at(i)])


def apis(P):
    return {n: Api(P, n, r, ps) for n, (r, ps) in sorted(decls().items())}
