#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, the property table, known_findings.txt and seeded/*/meta.json."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + "/tools/design_table.py").read())
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
out = []
for q in props:
    i = q["id"]
    w, o, b = DES[i]
    f = V + "/checks/%s.py" % i
    mons = []
    if os.path.exists(f):
        src = open(f).read()
        mons = sorted(set(re.findall(r"""ck\.(?:ok|close)\(\s*["']([\w<>= -]+)["']""", src)))
    out.append("### %s %s\n" % (i, q["title"]))
    out.append("**W** %s.\n**O** %s.\n**B** %s.\n**Why** %s" % (w, o, b if b != "-" else "none beyond the statement", q["why_tests_cant"]))
    if mons:
        out.append("Monitors: %s." % ", ".join("`%s`" % m for m in mons))
    if i not in man:
        out.append("Not claimed yet.")
    out.append("")
fx = [l.strip()[7:] for l in open(V + "/known_findings.txt") if l.startswith("fixed: ")]
fixed = "\n".join("* %s" % re.sub(r"^property=(\w+) (\w+) ", r"**\1** (`\2`) ", l) for l in fx)
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"], d["what_it_breaks"], d.get("caught_by", "?")))
t = open(V + "/tools/DESIGN.in.md").read()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXED@@", fixed).replace("@@PLANTS@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
print(len(t), "bytes,", len(rows) - 2, "plants")
