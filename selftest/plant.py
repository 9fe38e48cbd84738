#!/usr/bin/env python3
"""Plants bugs: for each entry of selftest/plants/*.py writes seeded/<id>/{patch.diff,demo.sh,demo.cc,meta.json} and, with --verify,
applies the patch to /repo, builds, runs the stable tests, the demonstration and the checks, and undoes it.
usage: plant.py [--verify] [--checks] [--only RX]"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0: behaviour as specified; non-zero: broken.  Runs in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/odcdemo.XXXXXX)
trap 'find "$T" -delete' EXIT
E=/opt/odc-deps/lib/python3.12/site-packages/eckitlib
ulimit -c 0
%(build)s
cd "$T" || exit 2
export ODC_BIN=/repo/_build/bin/odc LD_LIBRARY_PATH=/repo/_build/lib:$E/lib64
%(run)s
'''
CXX = r'''g++ -std=c++17 -g -w -fPIC -I/repo/src -I/repo/_build/src -I$E/include -I$E/include/eckit/sql "$D/demo.cc" -o "$T/demo" -L/repo/_build/lib -lodccore -L$E/lib64 -leckit_sql -leckit -Wl,-rpath,/repo/_build/lib:$E/lib64 || exit 2'''
F90 = r'''(cd "$T" && gfortran -w -I/repo/_build/module -I/repo/_build/module/fodc -I/repo/_build/module/odc -I/repo/_build/src/odc "$D/demo.f90" -o "$T/demo" -L/repo/_build/lib -lfodc -lodc_fortran -lodccore -L$E/lib64 -leckit_sql -leckit -Wl,-rpath,/repo/_build/lib:$E/lib64) || exit 2'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def load():
    out = []
    for p in sorted(glob.glob(V + "/selftest/plants/*.py")):
        s = importlib.util.spec_from_file_location("p", p)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        out += m.PLANTS
    return out


def write(p):
    d = "%s/seeded/%s" % (V, p["id"])
    os.makedirs(d, exist_ok=True)
    wt = "/tmp/plant-wt-%d" % os.getpid()
    sh("git -C /repo worktree prune")
    r = sh("git -C /repo worktree add --detach -f %s HEAD" % wt)
    assert r.returncode == 0, r.stdout
    try:
        for f, old, new in p["edits"]:
            q = wt + "/" + f
            t = open(q).read()
            assert t.count(old) >= 1, "edit does not apply: %s %r" % (f, old[:60])
            open(q, "w").write(t.replace(old, new, 1))
        diff = sh("git -C %s diff" % wt).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        sh("git -C /repo worktree remove --force %s" % wt)
    lang = p.get("lang", "cc")
    if "code" in p:
        open(d + "/demo." + lang, "w").write(p["code"])
    build = {"cc": CXX, "f90": F90, "sh": ""}[lang]
    run = p.get("run", 'timeout 120 "$T/demo"\nexit $?')
    open(d + "/demo.sh", "w").write(DEMO % {"build": build, "run": run})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["what"]}, open(d + "/meta.json", "w"), indent=1)
    return d


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "pass", "tests"):
        if isinstance(b, dict) and k in b:
            return set(b[k])
    return set(b)


def main():
    ver, chk, only = "--verify" in sys.argv, "--checks" in sys.argv, None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    assert sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip() == ""
    fails = []
    for p in load():
        if only and not re.search(only, p["id"]):
            continue
        try:
            d = write(p)
        except AssertionError as e:
            print("FAIL", p["id"], e)
            fails.append(p["id"])
            continue
        msg = []
        if ver:
            if "--clean" in sys.argv:
                r = sh("bash /opt/vp/build.sh && cd /repo && bash %s/demo.sh" % d)
                msg.append("clean demo rc=%d" % r.returncode)
            sh("git -C /repo checkout -- .")
            r = sh("git -C /repo apply %s/patch.diff" % d)
            assert r.returncode == 0, r.stdout
            try:
                r = sh("bash /opt/vp/build.sh")
                msg.append("build %s" % ("ok" if r.returncode == 0 else "FAILED\n" + r.stdout[-1500:]))
                if r.returncode == 0:
                    sh("bash /opt/vp/test.sh /tmp/plant-out.json")
                    o = json.load(open("/tmp/plant-out.json"))
                    passed = set(o.get("passed", o.get("pass", [])))
                    lost = stable() - passed
                    msg.append("tests %s" % ("ok" if not lost else "LOST %s" % sorted(lost)[:4]))
                    r = sh("cd /repo && bash %s/demo.sh" % d)
                    msg.append("demo rc=%d%s" % (r.returncode, "" if r.returncode else " NOT FAILING"))
                    if "-v" in sys.argv:
                        msg.append("\n" + r.stdout[-800:])
                if chk:
                    env = dict(os.environ, ODC_VERIF_EVIDENCE="/tmp/plant-ev")
                    r = sh("cd %s && python3 check.py %s" % (V, p["property"]), env=env)
                    msg.append("check rc=%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED"))
                    if r.returncode == 1:
                        msg.append("\n    " + "\n    ".join(l for l in r.stdout.splitlines() if l.startswith("  "))[:400])
            finally:
                sh("git -C /repo checkout -- .")
        print(p["id"], "; ".join(msg))
        sys.stdout.flush()
    if ver:
        r = sh("bash /opt/vp/build.sh")
        print("clean build rc=%d" % r.returncode)
        for p in load():
            if only and not re.search(only, p["id"]):
                continue
            r = sh("cd /repo && bash %s/seeded/%s/demo.sh" % (V, p["id"]))
            print("clean demo %s rc=%d%s" % (p["id"], r.returncode, "" if r.returncode == 0 else "  NOT QUIET\n" + r.stdout[-600:]))
    return 0


sys.exit(main())
