#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of /repo's current sources. Exit 0 held, 1 violated, 3 analysis broken."""
import importlib, os, sys, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/engine")
sys.path.insert(0, V + "/engine/checks")
sys.dont_write_bytecode = True
import build, ir, report


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    R = report.Report(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    mod = importlib.import_module(pid)
    try:
        P = None
        if getattr(mod, "CONFIG", None) is not None:
            cfg = dict(mod.CONFIG)
            cfg.setdefault("plain", ["."])
            P = ir.Program(build.analyse(cfg), build.SRC + "/")
        mod.run(P, R)
    except (build.AnalysisBroken, report.AnalysisBroken) as e:
        print("ANALYSIS-BROKEN: %s" % e)
        # violations already established stand on their own
        if R.bads:
            return R.finish(explanation="analysis incomplete: %s" % e) or 3
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error")
        return 3
    n = len(P.fns) + sum(len(v) for v in P.roots.values()) if P else R.extra.get("functions", 0)
    return R.finish(getattr(mod, "LEVEL", "other"), (mod.__doc__ or "").strip(), n, len(P.units) if P else R.extra.get("units", 0))


sys.exit(main())
