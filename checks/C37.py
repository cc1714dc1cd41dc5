"""Analysis of positioner performance: errors of every move with respect to its targets, selection of moves, statistics."""
import glob, os, re, subprocess, sys, tempfile
import numpy as np
from vlib import core

TAGS = ("TRACKED", "REQUESTED", "ACCEPTED")
SIGMAS = (1, 2, 3, 4, 5, np.inf)
STATS = {"MAX": np.max, "MIN": np.min, "MEAN": np.mean, "MEDIAN": np.median, "STD": np.std, "RMS": lambda v: np.sqrt(np.mean(np.square(v)))}
SPECIAL = ["MOTORTEST", "move_to_range", "disambiguate_theta", "homing", "limit seek"]


def run(ck):
    ck.rule = "a case is one run of the script on one generated history of moves; distinct by the history"
    ck.assumptions = ["dates on a bound of the selection are not generated", "a correction given as a displacement follows a measured move of its positioner", "rotation of a displacement to the petal by multiples of 36 degrees, as the script says"]
    ck.parallel(chunk, [(i, ck.n(2, 14)) for i in range(6)])
    for m, k in (("ends", 6), ("rows", 200), ("errors", 300), ("places", 150), ("flags", 150), ("statistics", 60), ("summary", 60), ("report", 12)):
        ck.require(m, k)


def chunk(ck, item):
    i, n = item
    g = ck.rng("hist", i)
    for j in range(n):
        with tempfile.TemporaryDirectory(prefix="c37_") as d:
            analyse(ck, g, d, i + j)


def loc2flat(T, P, c):
    t, p = np.radians(T + c["OFFSET_T"]), np.radians(P + c["OFFSET_P"])
    return (c["OFFSET_X"] + c["LENGTH_R1"] * np.cos(t) + c["LENGTH_R2"] * np.cos(t + p), c["OFFSET_Y"] + c["LENGTH_R1"] * np.sin(t) + c["LENGTH_R2"] * np.sin(t + p))


def date(s):
    from datetime import datetime, timedelta
    return (datetime(2021, 3, 1) + timedelta(seconds=float(s))).strftime("%Y-%m-%d %H:%M:%S.%f+00:00")


def history(g, pid, k, exps, span, opt):
    """moves of one positioner: rows of the table and what is true of them"""
    from desimeter.transform.pos2ptl import flat2ptl, ptl2flat
    pet, loc = int(g.integers(0, 10)), int(g.integers(0, 530))
    a, r = g.uniform(0, 36), g.uniform(40, 380)
    base = dict(LENGTH_R1=3 + .1 * g.normal(), LENGTH_R2=3 + .1 * g.normal(), OFFSET_X=r * np.cos(np.radians(a)), OFFSET_Y=r * np.sin(np.radians(a)), OFFSET_T=g.uniform(-170, 170), OFFSET_P=g.uniform(-15, 15))
    rows, truth = [], []
    idx = int(g.integers(10, 5000))
    for e, (exp, t0) in enumerate(exps):
        c = dict(base)
        if g.random() < .3:
            c["OFFSET_T"] += 5 * g.normal()
        it = 0
        tm = t0 + k * .01
        prev = None
        gear = (1., 1.)
        if opt["gears"]:
            gear = [(1., 1.), (.9, 1.), (1., 1.1), (.95, .9)][int(g.integers(4))]
        for mv in range(int(g.integers(1, 5))):
            rq = g.uniform(-150, 150), g.uniform(20, 165)
            rflat = loc2flat(*rq, c)
            rptl = [float(v) for v in flat2ptl(*rflat)]
            lost, parent = False, False
            for sub in range(int(g.choice([1, 2, 2, 3]))):
                idx += 1
                tm += g.uniform(20, 90)
                kind = str(g.choice(["good"] * 12 + ["frozen", "rejected", "unmatched", "special", "norequest", "nomove"]))
                if opt["clean"]:
                    kind = "good" if kind not in ("frozen",) else kind
                err = .08 * g.normal(size=2) / (1 + 6 * sub)
                tp = rq[0] + (g.normal() * 3 if kind == "frozen" else .01 * g.normal()), rq[1] + .01 * g.normal()
                tflat = loc2flat(*tp, c)
                mflat = tflat[0] + err[0], tflat[1] + err[1]
                mptl = [float(v) for v in flat2ptl(*mflat)]
                ptok = list(rptl)
                tok = ["req_posintTP=(%.6f, %.6f)" % rq, "req_ptlXYZ=(%.8f, %.8f, %.4f)" % (rptl[0], rptl[1], -.2)]
                want = rptl
                if sub and not lost and prev is not None:        # correction as a displacement
                    how = str(g.choice(["obsdXdY", "poslocdXdY"]))
                    want = rptl[0] + 2e-3 * g.normal(), rptl[1] + 2e-3 * g.normal()
                    dx, dy = want[0] - prev[0], want[1] - prev[1]
                    if how == "obsdXdY":
                        b = np.radians(36. * (pet - 3))
                        dx, dy = np.cos(b) * dx - np.sin(b) * dy, np.sin(b) * dx + np.cos(b) * dy
                    cmd = "%s=[%.8f, %.8f]" % (how, dx, dy)
                    tok[1] = "req_ptlXYZ=(%.8f, %.8f, %.4f)" % (mptl[0] + .3, mptl[1] - .2, -.2)        # the log is wrong in this case
                else:
                    cmd = "%s=[%.6f, %.6f]" % (str(g.choice(["QS", "poslocTP", "ptlXY", "obsXY"])), *rq)
                named = lost or g.random() < .6 or kind == "special"
                tok += ["move %d" % mv] + (["submove %d" % sub] if named else [])
                seq = str(g.choice(["", "grid", "local test"]))
                if seq:
                    tok += ["sequence: " + seq, "sequence_move_idx %d" % (mv + 3)]
                av = int(g.choice([0, 0, 0, 1, 3]))
                if av:
                    ids, cut = ["'M%05d'" % q for q in g.integers(0, 9999, av)], int(g.integers(0, av))
                    tok += ["collision avoidance: [%s]" % ", ".join(v) for v in (ids[:cut], ids[cut:]) if v]
                if kind == "special":
                    tok += [str(g.choice(SPECIAL)) + " x"]
                if kind == "norequest":
                    tok.pop(int(g.integers(0, 2)))
                tok = [tok[q] for q in g.permutation(len(tok))]
                fl = (0 if kind == "unmatched" else 1) | 4 | ((1 << 20) if kind == "frozen" else 0) | ((1 << 25) if kind == "rejected" else 0) | int(g.choice([0, 1 << 15]))
                prev_it = it
                rows.append(dict(POS_ID=pid, PETAL_ID=pet + 2, PETAL_LOC=pet, DEVICE_LOC=loc, POS_MOVE_INDEX=idx, DATE=date(tm), POS_T=tp[0], POS_P=tp[1], PTL_X=mptl[0], PTL_Y=mptl[1], PTL_Z=-.2,
                                 MOVE_CMD="" if kind == "nomove" else cmd, LOG_NOTE="; ".join(tok).replace(",", opt["comma"]), EXPOSURE_ID=exp, EXPOSURE_ITER=it, FLAGS=fl, POSTSCRIPT="", CALIB_NOTE=str(g.choice(["", "x"])), GEAR_CALIB_T=gear[0], GEAR_CALIB_P=gear[1], OTHER=1., **c))
                it += int(g.integers(1, 4))
                dropped = kind in ("unmatched", "special", "nomove")
                out = not (span[0] < tm < span[1])
                f = np.array(ptl2flat(*[np.array([v]) for v in want]))[:, 0]
                truth.append(dict(pos=pid, idx=idx, kind=kind, sub=sub, move=mv, exp=exp, out=out, seq=seq, av=av, frozen=kind == "frozen", accepted=kind not in ("frozen", "rejected"), gear=gear, iter=prev_it,
                                  et=(mflat[0] - tflat[0], mflat[1] - tflat[1]), er=(mflat[0] - f[0], mflat[1] - f[1]), meas=mptl, tloc=(tflat[0] - c["OFFSET_X"], tflat[1] - c["OFFSET_Y"])))
                if kind == "special":
                    if opt["special"]:
                        dropped = False
                if dropped:
                    lost = True
                else:
                    prev = mptl
                    lost = lost
    return rows, truth


def analyse(ck, g, d, j):
    from astropy.table import Table
    opt = dict(gears=j % 3 == 1, special=g.random() < .3, clean=j % 2 == 0, comma=[",", "||"][int(g.integers(2))])        # get_posmoves writes || for a comma
    n = int(g.integers(4, 9))
    day = 86400.
    exps, t = [], day * .5
    for q in range(int(g.integers(3, 6))):
        exps.append((70000 + 7 * q + int(g.integers(0, 5)), t))
        t += day * float(g.choice([1., 2.]))
    span, args = (-1., 1e9), []
    if g.random() < .5:
        a, b = exps[1][1] - .5 * day, exps[-1][1] - .5 * day
        lo, hi = (a, 1e9) if g.random() < .5 else (-1., b)
        span = lo, hi
        args += ["-dmin", date(lo)[:10]] if hi == 1e9 else ["-dmax", date(hi)[:10]]
    scl = "include"
    if opt["gears"]:
        scl = str(g.choice(["include", "exclude", "t_only", "p_only", "t_or_p", "t_and_p"]))
        args += ["-scl", scl]
    if opt["special"]:
        args += ["-spec"]
    top = int(g.integers(3, 15))
    args += ["-top", top, "-np", int(g.integers(1, 3)), "-sout"]
    allrows, truth = [], []
    for k in range(n):
        r, tr = history(g, "M%05d" % (100 + 13 * k), k, exps, span, opt)
        allrows.append(r)
        truth += tr
    files = []
    inp = os.path.join(d, "in")
    os.makedirs(inp)
    if g.random() < .3:       # all positioners in two tables, split in time
        q = [v for r in allrows for v in r]
        q = [q[v] for v in g.permutation(len(q))]
        cut = sorted(v["DATE"] for v in q)[len(q) // 2]
        groups = [[v for v in q if v["DATE"] < cut], [v for v in q if v["DATE"] >= cut]]
    else:
        groups = [[r[v] for v in g.permutation(len(r))] for r in allrows]
    for q, r in enumerate(groups):
        f = os.path.join(inp, "M%d.csv" % q)
        Table(rows=r).write(f)
    out = os.path.join(d, "out")
    ck.case("history", rows=[(v["pos"], v["idx"], v["kind"], v["sub"]) for v in truth], args=args)
    e = dict(os.environ, PYTHONPATH=os.path.join(core.REPO, "py"), MPLBACKEND="Agg", MPLCONFIGDIR=d, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    src = [inp] if g.random() < .5 else [os.path.join(inp, "M*.csv")]
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(core.REPO, "bin", "analyze_pos_performance"), "-i"] + src + ["-o", out] + [str(v) for v in args], env=e, cwd=d, capture_output=True, text=True, timeout=800)
    # what is left, by the rules of the script's documentation
    T = [v for v in truth if not v["out"] and v["kind"] not in ("unmatched", "nomove") and (opt["special"] or v["kind"] != "special")]
    nt = lambda v: v["gear"][0] != 1
    np_ = lambda v: v["gear"][1] != 1
    sel = dict(include=lambda v: True, exclude=lambda v: not nt(v) and not np_(v), t_only=lambda v: nt(v) and not np_(v), p_only=lambda v: np_(v) and not nt(v), t_or_p=lambda v: nt(v) or np_(v), t_and_p=lambda v: nt(v) and np_(v))[scl]
    T = [v for v in T if sel(v)]
    par = {(v["pos"], v["exp"], v["move"]) for v in T if v["sub"] == 0}
    T = [v for v in T if v["sub"] == 0 or (v["pos"], v["exp"], v["move"]) in par]
    T = [v for v in T if v["kind"] != "norequest"]
    for q in sorted({v["pos"] for v in T}):        # a positioner without an accepted move in one of its submoves is left out
        mine = [v for v in T if v["pos"] == q]
        if any(not any(v["accepted"] for v in mine if v["sub"] == s) for s in {v["sub"] for v in mine}):
            T = [v for v in T if v["pos"] != q]
    w = dict(args=args, n=len(T))
    if not T:
        ck.ok("ends", "No data" in p.stderr or p.returncode == 0, rc=p.returncode, err=p.stderr[-600:], **w)
        return
    ck.ok("ends", p.returncode == 0, rc=p.returncode, err=(p.stdout[-300:] + p.stderr)[-900:], **w)
    mf = glob.glob(os.path.join(out, "*_moves.csv"))
    if p.returncode or not mf:
        ck.ok("ends", mf, files=os.listdir(out) if os.path.isdir(out) else None, **w)
        return
    t = Table.read(mf[0])
    got = {(str(q["POS_ID"]), int(q["POS_MOVE_INDEX"])): q for q in t}
    want = {(v["pos"], v["idx"]): v for v in T}
    for q in set(got) | set(want):
        ck.ok("rows", q in got and q in want, row=q, listed=q in got, truth=[v for v in truth if (v["pos"], v["idx"]) == q][:1], **w)
    ck.ok("rows", len(got) == len(t), rows=len(t), distinct=len(got))
    for q in set(got) & set(want):
        r, v = got[q], want[q]
        for tag, err in (("TRACKED", v["et"]), ("REQUESTED", v["er"])):
            ck.close("errors", [r["ERR_X_" + tag], r["ERR_Y_" + tag], r["ERR_XY_" + tag]], [err[0], err[1], np.hypot(*err)], 3e-4, row=q, tag=tag, truth=v)
        ck.close("places", [r["PTL_X_MEASURED"], r["PTL_Y_MEASURED"], r["LOC_X_TRACKED"], r["LOC_Y_TRACKED"], r["RADIUS_TRACKED"]], [v["meas"][0], v["meas"][1], v["tloc"][0], v["tloc"][1], np.hypot(*v["tloc"])], 3e-4, row=q)
        ck.ok("flags", str(r["ACCEPTED"]) == str(v["accepted"]) and str(r["FROZEN"]) == str(v["frozen"]) and int(r["SUBMOVE"]) == v["sub"] and int(r["MOVE"]) == v["move"] and int(r["NUM_COLLISION_AVOIDANCES"]) == v["av"]
              and ("" if np.ma.is_masked(r["SEQUENCE"]) else str(r["SEQUENCE"])) == v["seq"], row=q, truth=v, accepted=str(r["ACCEPTED"]), submove=int(r["SUBMOVE"]), move=str(r["MOVE"]), sequence=str(r["SEQUENCE"]), avoid=int(r["NUM_COLLISION_AVOIDANCES"]))
    # statistics over the errors listed
    sub = np.array(t["SUBMOVE"])
    pos = np.array(t["POS_ID"]).astype(str)
    acc = np.array([str(v) == "True" for v in t["ACCEPTED"]])
    E = {"TRACKED": np.array(t["ERR_XY_TRACKED"]), "REQUESTED": np.array(t["ERR_XY_REQUESTED"])}
    E["ACCEPTED"] = E["REQUESTED"]
    S = {"TRACKED": np.ones(len(t), bool), "REQUESTED": np.ones(len(t), bool), "ACCEPTED": acc}
    st = Table.read(glob.glob(os.path.join(out, "*_stats_by_positioner.csv"))[0])
    keys = [(str(r["POS_ID"]), int(r["SUBMOVE"])) for r in st]
    ck.ok("statistics", sorted(keys) == sorted(set(zip(pos.tolist(), sub.tolist()))), listed=len(keys))
    for r, (q, s) in zip(st, keys):
        k = (pos == q) & (sub == s)
        for tag in TAGS:
            v = E[tag][k & S[tag]]
            ck.close("statistics", [r["N_TARGETS_" + tag]] + [r["%s_%s" % (f, tag)] for f in STATS], [len(v)] + [f(v) for f in STATS.values()], 1e-8, pos=q, sub=s, tag=tag)
        ck.close("statistics", [r["GEAR_CALIB_T_MIN"], r["GEAR_CALIB_P_MIN"]], [np.min(t["GEAR_CALIB_T"][k]), np.min(t["GEAR_CALIB_P"][k])], 1e-9, pos=q)
    for tag in TAGS:
        sm = Table.read(glob.glob(os.path.join(out, "*_stats_summary_%s.csv" % tag))[0])
        ck.ok("summary", set(np.array(sm["SUBMOVE"]).tolist()) == set(sub.tolist()), tag=tag)
        for r in sm:
            v = E[tag][S[tag] & (sub == r["SUBMOVE"])]
            sg = float(r["SIGMA"])
            q = 1 - np.exp(-sg)
            v = v[v <= np.quantile(v, q, method="midpoint") + 1e-12] if np.isfinite(sg) else v
            ck.close("summary", [r["N_TARGETS"], r["QUANTILE"]] + [r[f] for f in STATS], [len(v), q] + [f(v) for f in STATS.values()], 1e-8, tag=tag, sub=int(r["SUBMOVE"]), sigma=sg)
    rep = open(glob.glob(os.path.join(out, "*_report.txt"))[0]).read()
    for tag in TAGS:
        m = re.search(r"Top %d errors for %s targets\.\.\.\n(.*?)(?:\n\n|\Z)" % (top, tag), rep, re.S)
        lines = m.group(1).splitlines()[2:] if m else []
        v = sorted(E[tag][S[tag]], reverse=True)[:top]
        u = [float(q.split()[-1]) for q in lines if q.strip()]
        ck.ok("report", len(u) == len(v) and np.allclose(u, np.array(v) * 1000, atol=.0501), tag=tag, listed=u, want=[round(q * 1000, 2) for q in v])
