#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
D = "py/desimeter/"


def p(id, title, statement, over, text, why, files, mech, observe=(), technique="", note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=list(observe), technique=technique, note=note, state=state))


exec(open(os.path.join(V, "tools", "properties_table.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            nsent = q["statement"].count(". ") + 1
            assert nsent <= 3, (q["id"], nsent)
            anchors = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]],
                       "observe_at": q["observe"], "hook_needed": None}
            if q["state"]:
                anchors["state"] = q["state"]
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["text"]},
                                "why_tests_cant": q["why"], "anchors": anchors}) + "\n")
    checks, na = [], []
    for q in P:
        if os.path.exists(os.path.join(V, "checks", q["id"] + ".py")):
            checks.append({"property": q["id"], "quick_cmd": "bash run.sh %s --tier quick" % q["id"],
                           "thorough_cmd": "bash run.sh %s --tier thorough" % q["id"],
                           "evidence_file": "evidence/%s.json" % q["id"],
                           "technique": q["technique"] or "runtime monitoring: reference-model and invariant monitors over seeded workloads",
                           "level": "exploration",
                           "level_note": q["note"] or "Held on the executions observed; counts per monitor are in the evidence file."})
        else:
            na.append({"property": q["id"], "reason": "check still under construction"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
                   "notes": "No hooks were needed in /repo: every monitor observes public functions, files and processes from outside. "
                            "desimeter is pure Python, so compiler sanitizers and race detectors have no native code of its own to observe (see DESIGN.md)."},
                  f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "claimed")


main()
