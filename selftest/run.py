#!/usr/bin/env python3
"""Self-test of the checks: applies textual edits to a scratch copy of /repo/src and runs checks against the copy.
usage: run.py [--only SUBSTR] [--check ID] [--jobs N]...   cases in selftest/cases/*.py: CASES = [(name, [(file, old, new)...], {ids expected to alarm})]
An empty expectation means a behaviour-preserving edit: every check must stay quiet."""
import glob, importlib.util, multiprocessing, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ODC_SELFTEST_REPO", "/repo")
TAG = "/tmp/odc-selftest" + os.environ.get("ODC_SELFTEST_TAG", "")


def load():
    out = []
    for p in sorted(glob.glob(V + "/selftest/cases/*.py")):
        s = importlib.util.spec_from_file_location("c", p)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        out += m.CASES
    return out


def worker(q, out, k):
    scratch, build = "%s-%d" % (TAG, k), "%s-build-%d" % (TAG, k)
    env = dict(os.environ, ODC_REPO=scratch, ODC_VERIF_BUILD=build, ODC_VERIF_EVIDENCE=scratch + "/ev")
    os.makedirs(build, exist_ok=True)
    while True:
        try:
            name, edits, exp, ids = q.get(timeout=2)
        except Exception:
            break
        # every file as in /repo, keeping the times of unchanged ones
        subprocess.run(["rsync", "-a", "--delete", REPO + "/src", scratch + "/"] if shutil.which("rsync") else ["cp", "-au", REPO + "/src", scratch + "/"], check=True)
        res, err, saved = {}, None, {}
        for f, old, new in edits:
            p = scratch + "/" + f
            t = open(p).read()
            saved.setdefault(p, t)
            if t.count(old) < 1:
                err = "edit does not apply: %s" % f
                break
            open(p, "w").write(t.replace(old, new, 1))
        if not err:
            for c in ids:
                r = subprocess.run([sys.executable, V + "/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
                res[c] = (r.returncode, r.stdout)
        for p, t in saved.items():
            open(p, "w").write(t)
        out.put((name, exp, res, err))
    out.put(None)


def main():
    only, checks, jobs = None, [], 3
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == "--only":
            only = a.pop(0)
        elif x == "--check":
            checks.append(a.pop(0))
        elif x == "--jobs":
            jobs = int(a.pop(0))
    allc = sorted(re.sub(r"\.py$", "", os.path.basename(p)) for p in glob.glob(V + "/engine/checks/[A-Z]*.py"))
    q, out = multiprocessing.Queue(), multiprocessing.Queue()
    n = 0
    for name, edits, exp in load():
        if only and not re.search(only, name) or checks and exp and not (set(checks) & set(exp)):
            continue
        # only the expected checks for a bug (plus, with --check, the named ones); every check for a refactoring
        q.put((name, edits, exp, [c for c in allc if (not checks or c in checks) and (not exp or c in exp)]))
        n += 1
    jobs = max(1, min(jobs, n))
    for k in range(jobs):
        d = "%s-%d" % (TAG, k)
        os.makedirs(d, exist_ok=True)
        shutil.rmtree(d + "/src", ignore_errors=True)
        subprocess.run(["cp", "-a", REPO + "/src", d + "/"], check=True)
    ws = [multiprocessing.Process(target=worker, args=(q, out, k)) for k in range(jobs)]
    for w in ws:
        w.start()
    bad, live = 0, jobs
    while live:
        r = out.get()
        if r is None:
            live -= 1
            continue
        name, exp, res, err = r
        if err:
            print("BROKEN %s: %s" % (name, err))
            bad += 1
        for c, (rc, txt) in sorted(res.items()):
            want = rc if exp is None else 1 if c in exp else 0
            good = rc == want
            bad += not good
            print("%s %-45s %s rc=%d" % ("ok  " if good else "FAIL", name, c, rc))
            if not good or "-v" in sys.argv:
                print("      " + "\n      ".join(txt.strip().splitlines()[-8:]))
        sys.stdout.flush()
    print("%d cases, %d failures" % (n, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
