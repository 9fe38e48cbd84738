"""Builds what every check analyses: LLVM IR of the current /repo sources (never executed), and the odcir dumper.

All output lives in /verif/build (git-ignored).  Object reuse is keyed on the content of every file a unit read, so a
changed source or header is always recompiled."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ODC_REPO", "/repo")
SRC = REPO + "/src"
BUILD = os.environ.get("ODC_VERIF_BUILD", VERIF + "/build")
CLANGXX = next((p for p in ("/usr/bin/clang++-18", "/usr/lib/llvm-18/bin/clang++") if os.path.exists(p)), "clang++-18")
LLVM_LINK = next((p for p in ("/usr/bin/llvm-link-18", "/usr/lib/llvm-18/bin/llvm-link") if os.path.exists(p)), "llvm-link-18")


class AnalysisBroken(Exception):
    """The analysis itself could not be carried out (never a verdict about the code)."""


def eckit_include():
    for c in ("/opt/odc-deps/lib/python3.12/site-packages/eckitlib/include",):
        if os.path.isdir(c):
            return c
    for root, dirs, files in os.walk("/opt"):
        if root.endswith("/include") and "eckit" in dirs:
            return root
    raise AnalysisBroken("eckit headers not found")


def cxxflags(stub):
    e = eckit_include()
    return ["-std=gnu++17", "-fPIC", "-DNDEBUG", "-w", "-I" + stub, "-I" + SRC, "-I" + e, "-I" + e + "/eckit/sql",
            "-I" + e + "/eckit"]


def stub_dir():
    d = BUILD + "/stub"
    os.makedirs(d, exist_ok=True)
    txt = open(SRC + "/odc_config.h.in").read()
    txt = re.sub(r"@(\w+)@", lambda m: {"odc_VERSION_MAJOR": "1", "odc_VERSION_MINOR": "6", "odc_VERSION_PATCH": "3"}.get(m.group(1), "1.6.3"), txt)
    txt = re.sub(r"#cmakedefine.*", "", txt)
    open(d + "/odc_ecbuild_config.h", "a").close()
    p = d + "/odc_config.h"
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    return d


def units():
    """Translation units the build compiles: names listed in the two CMakeLists that exist as .cc files."""
    out = []
    for sub in ("odc", "odc/tools"):
        cm = open("%s/%s/CMakeLists.txt" % (SRC, sub)).read()
        cm = re.sub(r"#.*", "", cm)
        tmpl = set()
        for m in re.finditer(r"list\(\s*APPEND\s+odclib_templates([^)]*)\)", cm):
            tmpl |= set(m.group(1).split())
        for m in re.finditer(r"list\(\s*APPEND\s+(\w+)([^)]*)\)", cm):
            if "test" in m.group(1):
                continue
            for f in m.group(2).split():
                if f.endswith(".cc") and f not in tmpl and os.path.exists("%s/%s/%s" % (SRC, sub, f)):
                    out.append("%s/%s" % (sub, f))
    # header-only templates listed as sources too: compiled by the build as empty units; harmless to include
    tools_main = "odc/tools/odc.cc"
    if os.path.exists(SRC + "/" + tools_main):
        out.append(tools_main)
    seen = []
    for f in out:
        if f not in seen and not re.search(r"/(Test\w*|UnitTests|Examples|CAPIExamples|MockReader)\.cc$", f):
            seen.append(f)
    return seen


def sha(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in memo:
        memo[k] = hashlib.sha256(open(path, "rb").read()).hexdigest()
    return memo[k]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_tool():
    src = VERIF + "/tool/odcir.cpp"
    exe = BUILD + "/odcir"
    stamp = BUILD + "/odcir.sha"
    h = sha(src)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".tmp%d" % os.getpid()
    r = run([CLANGXX, "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
             "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
             "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    if r.returncode:
        raise AnalysisBroken("odcir does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, exe)
    open(stamp, "w").write(h)
    return exe


IRFLAGS = ["-O0", "-g", "-fstandalone-debug", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-fno-inline",
           "-flto", "-fwhole-program-vtables", "-fvisibility=default", "-emit-llvm", "-c"]


def compile_unit(u, stub):
    key = hashlib.sha256((u + SRC).encode()).hexdigest()[:16]
    base = "%s/bc/%s-%s" % (BUILD, re.sub(r"\W", "_", u), key)
    bc, meta = base + ".bc", base + ".json"
    flags = IRFLAGS + cxxflags(stub)
    if os.path.exists(bc) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["flags"] == flags and all(sha(p) == h for p, h in m["deps"].items()):
                return bc, None
        except Exception:
            pass
    tmp = base + ".tmp%d" % os.getpid()
    d = tmp + ".d"
    r = run([CLANGXX] + flags + ["-MD", "-MF", d, "-o", tmp, SRC + "/" + u])
    if r.returncode:
        return None, "%s does not compile:\n%s" % (u, r.stderr[-2000:])
    txt = open(d).read().replace("\\\n", " ")
    os.unlink(d)
    deps = {p: sha(p) for p in txt.split(":", 1)[1].split()}
    os.replace(tmp, bc)
    json.dump({"flags": flags, "deps": deps}, open(meta, "w"))
    return bc, None


def build_bitcode(only=None):
    """Compile (or reuse) every unit and link; returns (linked bitcode, unit list)."""
    stub = stub_dir()
    os.makedirs(BUILD + "/bc", exist_ok=True)
    us = units()
    if len(us) < 60:
        raise AnalysisBroken("only %d translation units found" % len(us))
    bcs, errs = [], []
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for bc, err in ex.map(lambda u: compile_unit(u, stub), us):
            if err:
                errs.append(err)
            else:
                bcs.append(bc)
    if errs:
        raise AnalysisBroken("\n".join(errs))
    key = hashlib.sha256("".join(sha(b) for b in bcs).encode()).hexdigest()[:16]
    out = BUILD + "/all-%s.bc" % key
    if not os.path.exists(out):
        for f in os.listdir(BUILD):
            if f.startswith("all-") and f.endswith(".bc"):
                os.unlink(BUILD + "/" + f)
        tmp = out + ".tmp%d" % os.getpid()
        r = run([LLVM_LINK, "-o", tmp] + bcs)
        if r.returncode:
            raise AnalysisBroken("llvm-link failed: " + r.stderr[-2000:])
        os.replace(tmp, out)
    return out, us


def analyse(config):
    """Run odcir with the given config; returns the parsed dump."""
    exe = build_tool()
    bc, us = build_bitcode()
    config = dict(config)
    config["src"] = SRC + "/"
    with tempfile.TemporaryDirectory(prefix="odcir.") as td:
        cfg, out = td + "/cfg.json", td + "/out.json"
        json.dump(config, open(cfg, "w"))
        r = run([exe, bc, cfg, out])
        if r.returncode or not os.path.exists(out):
            raise AnalysisBroken("odcir failed: " + r.stderr[-2000:])
        with open(out, encoding="utf-8", errors="replace") as f:
            d = json.load(f)
    d["units"] = us
    return d


if __name__ == "__main__":
    exe = build_tool()
    bc, us = build_bitcode()
    print("odcir: %s\nunits: %d\nlinked: %s" % (exe, len(us), bc))
