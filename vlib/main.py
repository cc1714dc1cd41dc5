"""entry point:  python -m vlib.main <ID> [--tier T] [--seed N] [--replay FILE]"""
import argparse, importlib, json, os, sys, time, traceback
from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--show", action="store_true", help="show what the code under test prints")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        a.prop, a.tier, a.seed = r["property"], r["tier"], r["seed"]
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    # everything the code under test prints goes to a scratch file; verdict lines go to the real stdout
    real = os.fdopen(os.dup(1), "w", buffering=1)
    if not a.show:
        sys.stdout.flush()
        fd = os.open(os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "code-output.txt"),
                     os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        os.dup2(fd, 1)
    say = lambda *x: print(*x, file=real, flush=True)

    ck = core.Check(a.prop, a.tier, a.seed)
    rc = 0
    try:
        import desimeter
        where = os.path.realpath(desimeter.__file__)
        if not where.startswith(core.REPO + "/"):
            raise RuntimeError("desimeter imported from %s, not from %s" % (where, core.REPO))
        mod = importlib.import_module("checks." + a.prop)
        try:
            mod.run(ck)
        except core.StopEarly:
            ck.notes["stopped_early"] = "many violations"
    except core.Inconclusive as e:
        say("INCONCLUSIVE: property=%s %s" % (a.prop, e))
        rc = 3
    except BaseException as e:
        if not (isinstance(e, Exception) and ck.unexpected(e)):
            rc = 2
        say("CHECK-ERROR: property=%s %r" % (a.prop, e))
        say(traceback.format_exc())

    missing = {k: (ck.mon.get(k, [0])[0], v) for k, v in ck.req.items() if ck.mon.get(k, [0])[0] < v}
    wall = time.time() - ck.t0
    evid = os.environ.get("VERIF_EVIDENCE") or os.path.join(core.VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    json.dump({
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": ck.n_eval, "distinct_nontrivial": len(ck.distinct), "rule": ck.rule or "see DESIGN.md",
            "samples": ck.samples[:24] or [{"kind": "none"}],
            "cases_by_kind": ck.kinds,
            "monitors": {k: {"evaluations": m[0], "violations": m[1],
                             **({"worst_fraction_of_tolerance": round(m[2], 6)} if m[2] is not None else {})}
                         for k, m in sorted(ck.mon.items())},
            "observed": core.jsonable(ck.notes),
            "known_findings_seen": {k: c[0] for k, c in ck.known_hits.items()},
        },
        "assumptions": ck.assumptions, "wall_s": round(wall, 2), "violations": len(ck.viol),
    }, open(os.path.join(evid, a.prop + ".json"), "w"), indent=1)

    for k, (c, w) in sorted(ck.known_hits.items()):
        say("KNOWN-FINDING: property=%s %s (seen %d times this run)" % (a.prop, ck.known[k], c))
    if ck.viol:
        rdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(core.VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, w in enumerate(ck.viol[:12]):
            p = os.path.join(rdir, "%s-%s-%d-%d.json" % (a.prop, a.tier, a.seed, i))
            json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, **w), open(p, "w"), indent=1)
            say("VIOLATION property=%s replay=%s" % (a.prop, p))
            say("   monitor=%s case=%s %s" % (w["monitor"], w["case"], json.dumps(w["witness"])[:700]))
        say("%s: VIOLATED (%d monitors) in %.1fs" % (a.prop, len({w["key"] for w in ck.viol}), wall))
        return 1
    if rc:
        return rc
    if missing or ck.n_eval == 0:
        say("INCONCLUSIVE: property=%s monitors not reached: %s" % (a.prop, missing))
        return 3
    tot = sum(m[0] for m in ck.mon.values())
    say("%s: held on %d cases (%d distinct), %d monitor evaluations, tier=%s seed=%d, %.1fs"
        % (a.prop, ck.n_eval, len(ck.distinct), tot, a.tier, a.seed, wall))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stderr.flush()
    os._exit(rc)
