"""Plant bugs: plant.py SPEC.py [ID ...] [--nocheck] [--keep]
SPEC.py defines B = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks, checks=[..])].
In a scratch copy of /repo: makes the change, confirms that the tests pass and that the demo tells the two
trees apart, keeps it as seeded/<id>, and says whether the checks report it."""
import json, os, shutil, subprocess, sys, tempfile, runpy
from multiprocessing.pool import ThreadPool

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
base = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **env), capture_output=True, text=True)


def stable(repo):
    d = tempfile.mkdtemp(dir="/tmp")
    x = os.path.join(d, "j.xml")
    sh(["bash", "-c", ". /opt/vp/env.sh; export PYTHONPATH=%s/py; %s -m pytest -q -p no:cacheprovider -o junit_family=xunit2 --junitxml=%s py/desimeter/test" % (repo, PY, x)], repo)
    o = os.path.join(d, "o.json")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", o, "junit:" + x], capture_output=True)
    r = json.load(open(o))
    shutil.rmtree(d)
    return [t for t in base["stable"] if t not in r["passed"]]


def work(b):
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    repo = os.path.join(d, "repo")
    out = dict(id=b["id"])
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        sh(["git", "checkout", "-q", "--", "."], repo)
        s = os.path.join(d, "seed")
        os.makedirs(s)
        open(os.path.join(s, "demo.py"), "w").write(b["demo"].lstrip())
        open(os.path.join(s, "demo.sh"), "w").write('#!/bin/bash\n# run in the repository: exit 0 when the behaviour is right\nexport PYTHONPATH="$PWD/py" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r0 = sh(["bash", os.path.join(s, "demo.sh")], repo)
        out["clean"] = r0.returncode
        for f, a, c in b["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(a) != 1:
                out["edit"] = "%s: %d times %r" % (f, t.count(a), a[:60])
                return out
            open(p, "w").write(t.replace(a, c))
        diff = sh(["git", "diff"], repo).stdout
        open(os.path.join(s, "patch.diff"), "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(s, "meta.json"), "w"), indent=1)
        # lines of the original repository only
        first = sh(["git", "rev-list", "--max-parents=0", "HEAD"], repo).stdout.strip()
        mine = 0
        for f in {e[0] for e in b["edits"]}:
            bl = sh(["git", "blame", "-s", "-l", "HEAD", "--", f], repo).stdout.splitlines()
            own = {l.split(")", 1)[1][1:] for l in bl if not l.lstrip("^").startswith(first[:39])}
            own = {l for l in own if l.strip()}
            mine += sum(1 for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:] in own)
        out["mine"] = mine
        r1 = sh(["bash", os.path.join(s, "demo.sh")], repo)
        out["patched"] = r1.returncode
        out["missing"] = stable(repo)
        good = out["clean"] == 0 and out["patched"] != 0 and not out["missing"] and not mine
        out["good"] = good
        if not good:
            out["log"] = r0.stderr[-600:] + r0.stdout[-200:] + "|| PATCHED " + r1.stderr[-300:]
        if good or "--keep" in sys.argv:
            t = os.path.join(V, "seeded", b["id"])
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(s, t)
        if "--nocheck" not in sys.argv:
            for c in [b["prop"]] + b.get("checks", []):
                r = sh(["bash", os.path.join(V, "run.sh"), c], V, VERIF_REPO=repo, VERIF_EVIDENCE=os.path.join(d, "ev"), VERIF_SCRATCH=d)
                out["check " + c] = "CAUGHT" if r.returncode == 1 else "missed (%d) %s" % (r.returncode, r.stdout[-200:])
                out.setdefault("by", []).extend([c] if r.returncode == 1 else [])
                out["why " + c] = [l.strip()[:150] for l in r.stdout.splitlines() if "monitor=" in l][:2]
            m = os.path.join(V, "seeded", b["id"], "meta.json")
            if os.path.exists(m):
                j = json.load(open(m))
                j["caught_by"] = ", ".join(out.get("by", [])) or "missed"
                json.dump(j, open(m, "w"), indent=1)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    B = runpy.run_path(a[0])["B"]
    B = [b for b in B if len(a) == 1 or b["id"] in a[1:]]
    with ThreadPool(3) as p:
        for o in p.imap(work, B):
            print(json.dumps(o, indent=1), flush=True)
