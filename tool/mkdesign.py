#!/usr/bin/env python3
"""Writes DESIGN.md: head, one section per property (statement, rules read from the checks), plants, findings, tail."""
import ast, glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tool")
sys.dont_write_bytecode = True
from props import PROPS, TRUST
out = [open(V + "/tool/design_head.md").read()]
out.append("## 2. Properties\n")
metas = {}
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    metas.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(p)), m))
caught = json.load(open(V + "/tool/caught.json")) if os.path.exists(V + "/tool/caught.json") else {}
for p in PROPS:
    if "na" in p:
        continue
    out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    out.append("*Quantifies over* %s. *Tests cannot settle it:* %s\n" % (p["quant"], p["why_tests"] if "why_tests" in p else p["why"]))
    out.append("*Method:* %s. %s\n" % (p["technique"], p["note"].replace(TRUST, "")))
    src = open(V + "/engine/checks/%s.py" % p["id"]).read()
    rules = re.findall(r'R\.rule\("(\w+)",\s*("(?:[^"\\]|\\.)*")\)', src)
    out.append("\n".join("- %s: %s" % (a, ast.literal_eval(b)) for a, b in rules) + "\n")
    if p.get("design"):
        out.append(p["design"] + "\n")
    if metas.get(p["id"]):
        out.append("Planted changes: " + "; ".join("`%s` (%s; needs %s)%s" % (i, m["what_it_breaks"], m["needs"], "" if i not in caught else " - caught by " + ", ".join(caught[i]) if caught[i] else " - NOT caught") for i, m in metas[p["id"]]) + ".\n")
out.append("### Not applicable\n")
for p in PROPS:
    if "na" in p:
        out.append("- %s %s: %s." % (p["id"], p["title"], p["na"]))
k = json.load(open(V + "/known_findings.json"))
out.append("\n## 3. Genuine defects found\n\nRepaired in /repo (each its own `fix:` commit):\n")
out += ["- %s: %s" % tuple(re.match(r"fixed: property=(\w+ \w+) (.*)", x).groups()) for x in k["fixed"]]
if k["findings"]:
    out.append("\nRecorded as known findings, not repaired:\n")
    out += ["- %s: %s" % (x["property"], x["text"]) for x in k["findings"]]
out.append(open(V + "/tool/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
