"""Choices that protect the instrument: which positioners may move, which may move together, which ones moved, and which
fitted parameters are passed on."""
import json, os, re, subprocess, sys, tempfile
import numpy as np
from vlib import core


def run(ck):
    ck.rule = "a case is one run of a script on one generated table; distinct by the table and the answers"
    ck.assumptions = ["values within rounding of a threshold are not generated", "questions are answered by a plan, the option of a duplicate by the number of points it shows"]
    items = [(w, i, n) for w, m, n in (("ok2move", 2, ck.n(3, 30)), ("groups", 1, ck.n(2, 10)), ("prepare", 4, ck.n(2, 25)), ("moved", 2, ck.n(1, 12))) for i in range(m)]
    ck.parallel(chunk, items)
    for m, k in (("ends", 15), ("ok2move", 100), ("groups-apart", 4), ("groups-own", 4), ("prepared-rows", 5), ("prepared-values", 60), ("prepared-commit", 60), ("prepared-disabled", 20), ("prepared-choice", 3), ("moved-ids", 2), ("moved-values", 5)):
        ck.require(m, k)


def chunk(ck, item):
    what, i, n = item
    g = ck.rng(what, i)
    for j in range(n):
        with tempfile.TemporaryDirectory(prefix="c34_") as d:
            globals()[what](ck, g, d, i, j)


def call(ck, name, args, d, good=(0,), env={}, pre=()):
    e = dict(os.environ, PYTHONPATH=os.path.join(core.REPO, "py"), MPLBACKEND="Agg", MPLCONFIGDIR=d, PYTHONDONTWRITEBYTECODE="1", DESI_LOGLEVEL="INFO", **env)
    e["PATH"] = os.path.join(core.REPO, "bin") + ":" + e["PATH"]
    p = subprocess.run([sys.executable] + list(pre) + [os.path.join(core.REPO, "bin", name)] + [str(a) for a in args], env=e, cwd=d, capture_output=True, text=True, timeout=300)
    ck.ok("ends", p.returncode in good, script=name, args=args, rc=p.returncode, err=(p.stdout[-300:] + p.stderr)[-900:])
    return p


# ------------------------------------------------------------------------------------------------ who may move
def ok2move(ck, g, d, i, j):
    """a positioner between two close neighbours on opposite sides must not move; all others are listed once"""
    from astropy.table import Table
    n = int(g.integers(20, 160))
    xy = g.uniform(-120, 120, (n, 2))
    for k in range(0, n - 2, 3):        # triplets at all distances and opening angles
        a, b = np.deg2rad(g.uniform(0, 360)), np.deg2rad(g.uniform(3, 177))
        r1, r2 = g.uniform(1, 6, 2)
        xy[k + 1] = xy[k] + r1 * np.array([np.cos(a), np.sin(a)])
        xy[k + 2] = xy[k] + r2 * np.array([np.cos(a + b), np.sin(a + b)])
    ids = np.array(["M%05d" % k for k in g.permutation(20000)[:n]])
    fid = g.random(n) < .1
    o = g.permutation(n)
    t = Table({"DEVICE_ID": ids, "PINHOLE_ID": fid * g.integers(1, 5, n), "X_FP": xy[:, 0], "Y_FP": xy[:, 1], "XPIX": xy[:, 0] * 10, "YPIX": xy[:, 1] * 10})[o]
    f, out = os.path.join(d, "in.csv"), os.path.join(d, "out.txt")
    t.write(f)
    size = int(g.choice([7, 50]))
    ck.case("ok2move", xy=xy.tolist(), size=size)
    p = call(ck, "ok2move", ["-i", f, "-g", size] + (["-o", out] if j % 2 else []), d)
    text = open(out).read() if j % 2 and os.path.exists(out) else p.stdout
    groups = [re.findall(r"'([^']*)'", l) for l in text.splitlines() if l.startswith("group")]
    got = [v for q in groups for v in q]
    xy, ids = xy[~fid], ids[~fid]
    yes, no = set(), set()
    for k in range(len(xy)):
        v = np.delete(xy, k, axis=0) - xy[k]
        r = np.hypot(*v.T)
        s = np.sort(r)
        o = np.argsort(r)[:2]
        c = (v[o[0]] * v[o[1]]).sum() / r[o].prod()
        ang = np.degrees(np.arccos(np.clip(c, -1, 1)))
        if abs(s[1] - 3.5) < 1e-6 or abs(ang - 90) < 1e-6 or s[2] - s[1] < 1e-9 or ang < .01:
            continue
        (no if s[1] < 3.5 and ang > 90 else yes).add(ids[k])
    for k in ids:
        if k in yes or k in no:
            ck.ok("ok2move", got.count(k) == (k in yes), device=k, listed=got.count(k), may=k in yes)
    ck.ok("ok2move", set(got) <= set(ids) and all(len(q) <= size for q in groups) and sum(len(q) < size for q in groups) <= 1, sizes=[len(q) for q in groups], size=size, foreign=sorted(set(got) - set(ids))[:5])


# ------------------------------------------------------------------------------------------------ who may move together
def groups(ck, g, d, i, j):
    """no two neighbours in one group, nobody in two groups"""
    from astropy.table import Table
    from desimeter.io import desimeter_data_dir
    m = Table.read(os.path.join(desimeter_data_dir(), "fp-metrology.csv"))
    if j:
        q = np.array(m["DEVICE_TYPE"]) == "POS"
        keep = ~q | (g.random(len(m)) < g.uniform(.1, .6))
        m = m[keep][g.permutation(int(keep.sum()))]
    os.makedirs(os.path.join(d, "data"))
    m.write(os.path.join(d, "data", "fp-metrology.csv"))
    ck.case("groups", ids=list(map(str, m["DEVICE_ID"])))
    call(ck, "select_groups_of_positioners", [], d, env={"DESIMETER_DATA": os.path.join(d, "data")})
    from scipy.spatial import cKDTree
    q = np.array(m["DEVICE_TYPE"]) == "POS"
    xy = dict(zip(map(str, m["DEVICE_ID"][q]), np.array([m["X_FP"][q], m["Y_FP"][q]]).T))
    seen = []
    for k in range(4):
        f = os.path.join(d, "group-%d.csv" % k)
        if not ck.ok("groups-own", os.path.exists(f), group=k):
            continue
        ids = [str(v) for v in Table.read(f)["DEVICE_ID"]]
        l = re.findall(r"'([^']*)'", open(os.path.join(d, "group-%d.list" % k)).read())
        ck.ok("groups-own", l == ids and set(ids) <= set(xy) and len(set(ids)) == len(ids), group=k)
        seen += ids
        z = np.array([xy[v] for v in ids if v in xy])
        near = cKDTree(z).query_pairs(12 - 1e-6) if len(z) > 1 else []
        ck.ok("groups-apart", not near, group=k, close=[(ids[a], ids[b], float(np.hypot(*(z[a] - z[b])))) for a, b in sorted(near)[:4]])
    ck.ok("groups-own", len(set(seen)) == len(seen) and len(seen) > .9 * len(xy), listed=len(seen), distinct=len(set(seen)), positioners=len(xy))


# ------------------------------------------------------------------------------------------------ what is passed on
KEYS = ["LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P", "OFFSET_X", "OFFSET_Y"]
BOUNDS = {"LENGTH_R1": (2.5, 3.5), "LENGTH_R2": (2.5, 3.5), "OFFSET_T": (-200., 200.), "OFFSET_P": (-30., 30.), "OFFSET_X": (-500., 500.), "OFFSET_Y": (-500., 500.)}


def prepare(ck, g, d, i, j):
    from astropy.table import Table, vstack
    from desimeter.io import load_nominal_positioner_locations
    nom = load_nominal_positioner_locations()
    nom = {int(r["DEVICE_LOC"]): (float(r["X_FLAT"]), float(r["Y_FLAT"])) for r in nom if str(r["DEVICE_TYPE"]) == "POS"}
    enabling = bool((i + j) % 2)
    tol = {"check_num_outliers": 2, "check_fit_error": .03, "check_static_fit_bounds": .001, "check_xy_offsets": .5, "check_arm_lengths": .5}
    adjust = {}
    new = {"check_num_outliers": (0, 4), "check_fit_error": (.01, .05), "check_static_fit_bounds": (.0005, .02), "check_xy_offsets": (.2, 1.), "check_arm_lengths": (.1, .3)}
    for k, (a, b) in new.items():
        if g.random() < .4:
            adjust[k] = [float(v) if k != "check_num_outliers" else int(v) for v in g.permutation([a, b])[:int(g.integers(1, 3))]]
            tol[k] = adjust[k][-1]
    rows, why = [], []
    n = int(g.integers(30, 60))
    locs = [int(v) for v in g.permutation(sorted(nom))[:n]]
    masked = bool(g.integers(0, 2)) if j else True
    if j == 0 and i % 2 == 0:
        masked = False          # a table without a missing value
    npts = g.permutation(5000) + 10
    ids = ["M%05d" % v for v in g.permutation(9000)[:n]]
    dup = {}
    for k in range(n):
        r = row(g, ids[k], locs[k], nom[locs[k]], int(npts[k]), tol)
        rows.append(r)
        if g.random() < .25:
            for q in range(int(g.integers(1, 3))):
                rows.append(row(g, ids[k], locs[k], nom[locs[k]], int(npts[n + 3 * k + q]), tol, .2))
    rows = [rows[k] for k in g.permutation(len(rows))]
    for r in rows:
        if masked and g.random() < .08:
            r["missing"] = str(g.choice(["FIT_ERROR_STATIC", "LENGTH_R2_STATIC", "NUM_POINTS_IN_FIT_STATIC", "OFFSET_T_STATIC"]))
        elif masked and not enabling and g.random() < .04:
            r["missing"] = str(g.choice(["DEVICE_LOC", "FLAGS"]))
        else:
            r["missing"] = None
        r["bad"] = bool(r["missing"]) or fails(r, tol, nom)
    f = os.path.join(d, "all_paramfits.csv")
    cols = [k for k in rows[0] if k not in ("missing", "bad")]
    with open(f, "w") as o:
        o.write(",".join(cols) + "\n")
        for r in rows:
            o.write(",".join("" if k == r["missing"] else repr(r[k]).strip("'") for k in cols) + "\n")
    stay = [r for r in rows if enabling or not r["bad"]]
    choose, want = {}, []
    for k in ids:
        q = [r for r in stay if r["POS_ID"] == k]
        if len(q) > 1:
            choose[k] = None if g.random() < .3 else q[int(g.integers(len(q)))]["NUM_POINTS"]
            q = [r for r in q if r["NUM_POINTS"] == choose[k]]
        want += q
    commit = {k: bool(g.random() < .7) for k in KEYS + ["SCALE_T", "SCALE_P", "PHYSICAL_RANGE_T", "PHYSICAL_RANGE_P", "DEVICE_CLASSIFIED_NONFUNCTIONAL"]}
    plan, log = os.path.join(d, "plan.json"), os.path.join(d, "asked.json")
    json.dump({"adjust": adjust, "choose": choose, "commit": commit, "help": bool(g.integers(0, 2))}, open(plan, "w"))
    ck.case("prepare", rows=str([[r[k] for k in KEYS_S()] for r in rows]), plan=str((adjust, choose, commit, enabling)))
    p = call(ck, "prepare_posparams_for_instr", ["-i", f] + (["-e"] if enabling else []) + (["-a"] if g.random() < .3 else []), d, pre=[os.path.join(core.VERIF, "vlib", "answer.py"), plan, log])
    out = [v for v in os.listdir(d) if v.endswith("_posparams_for_instr.csv")]
    if not ck.ok("prepared-rows", len(out) == 1, files=os.listdir(d), rc=p.returncode, err=(p.stdout[-300:] + p.stderr)[-500:], masked=masked):
        return
    t = Table.read(os.path.join(d, out[0]))
    got = {str(r["POS_ID"]): r for r in t}
    a, b = sorted(str(v) for v in t["POS_ID"]), sorted(r["POS_ID"] for r in want)
    ck.ok("prepared-rows", a == b, extra=sorted(set(a) - set(b))[:5], missing=sorted(set(b) - set(a))[:5], tol=tol, enabling=enabling,
          rows=[r for r in rows if r["POS_ID"] in set(a) ^ set(b)][:2])
    for r in want:
        q = got.get(r["POS_ID"])
        if q is None:
            continue
        if r["POS_ID"] in choose:
            ck.ok("prepared-choice", int(q["NUM_POINTS"]) == r["NUM_POINTS"], pos=r["POS_ID"], got=int(q["NUM_POINTS"]), chosen=r["NUM_POINTS"])
            if int(q["NUM_POINTS"]) != r["NUM_POINTS"]:
                continue
        z = {k: (str(q[k]), r[k + "_STATIC"]) for k in KEYS if k + "_STATIC" != r["missing"] and not abs(float(q[k]) - r[k + "_STATIC"]) < 1e-9}
        ck.ok("prepared-values", not z and (r["missing"] == "DEVICE_LOC" or int(q["DEVICE_LOC"]) == r["DEVICE_LOC"]), wrong=z, pos=r["POS_ID"])
        off = str(q["DEVICE_CLASSIFIED_NONFUNCTIONAL"]) == "True"
        ck.ok("prepared-disabled", off == bool(r["bad"]), row=r, got=off, tol=tol, enabling=enabling, why=str(q["ENABLE_DISABLE_RATIONALE"])[:300])
        skip = {"SCALE_T", "SCALE_P", "PHYSICAL_RANGE_T", "PHYSICAL_RANGE_P"}
        for k, v in commit.items():
            w = v and k not in skip and (k == "DEVICE_CLASSIFIED_NONFUNCTIONAL" or not r["bad"])
            ck.ok("prepared-commit", (str(q["COMMIT_" + k]) == "True") == w, key2=k, pos=r["POS_ID"], got=str(q["COMMIT_" + k]), want=w, disabled=r["bad"])


def KEYS_S():
    return ["POS_ID", "NUM_POINTS"] + [k + "_STATIC" for k in KEYS]


def row(g, pid, loc, xy, npts, tol, pbad=.5):
    off = lambda lo, hi: float(g.choice([-1, 1]) * g.uniform(lo, hi))
    r = {"POS_ID": pid, "FLAGS": 0, "DEVICE_LOC": loc, "PETAL_LOC": int(g.integers(10)), "NUM_POINTS": npts, "DATA_END_DATE": "2021-03-04 05:06:07", "NUM_POINTS_IN_FIT_STATIC": npts - int(g.integers(0, 3)),
         "FIT_ERROR_STATIC": float(g.uniform(.001, .0095)), "FIT_ERROR_DYNAMIC": float(g.uniform(.001, .0095)), "NUM_POINTS_IN_FIT_DYNAMIC": npts,
         "LENGTH_R1_STATIC": 3 + off(0, .09), "LENGTH_R2_STATIC": 3 + off(0, .09), "OFFSET_T_STATIC": off(0, 190), "OFFSET_P_STATIC": off(0, 25),
         "OFFSET_X_STATIC": xy[0] + off(0, .15), "OFFSET_Y_STATIC": xy[1] + off(0, .15), "SCALE_T_DYNAMIC": float(g.uniform(.9, 1)), "SCALE_P_DYNAMIC": float(g.uniform(.9, 1)),
         "ERR.LENGTH_R1_STATIC": .01, "OFFSET_X_ERR": 3.}
    if g.random() < pbad:
        k = int(g.integers(9))
        if k == 0: r["FLAGS"] = int(g.choice([1, 2, 4, 8, 16, 5, 32 + 4]))
        if k == 1: r["FLAGS"] = int(g.choice([32, 64]))
        if k == 2: r["NUM_POINTS_IN_FIT_STATIC"] = npts - int(g.integers(3, 9))
        if k == 3: r["FIT_ERROR_STATIC"] = float(g.choice([.02, .04, .3]))
        if k == 4: r["LENGTH_R%d_STATIC" % g.integers(1, 3)] = 3 + off(.12, .28)
        if k == 5: r["LENGTH_R%d_STATIC" % g.integers(1, 3)] = 3 + off(.31, .48)
        if k == 6: r["OFFSET_%s_STATIC" % g.choice(["X", "Y"])] += off(.3, .45) if g.random() < .4 else off(.7, .9) if g.random() < .6 else off(1.3, 5)
        if k == 7: r["OFFSET_P_STATIC"] = float(g.choice([29.999, -29.999, 29.5, -29.2]))
        if k == 8: r["OFFSET_T_STATIC"] = float(g.choice([199.99, -199.99, 196., -195.]))
    return r


def fails(r, tol, nom):
    for k in KEYS:
        lo, hi = BOUNDS[k]
        e = (hi - lo) * tol["check_static_fit_bounds"]
        if not lo + e <= r[k + "_STATIC"] <= hi - e:
            return True
    x, y = nom[r["DEVICE_LOC"]]
    return bool(r["NUM_POINTS"] - r["NUM_POINTS_IN_FIT_STATIC"] > tol["check_num_outliers"] or r["FIT_ERROR_STATIC"] > tol["check_fit_error"] or r["FLAGS"] & 31
                or abs(r["OFFSET_X_STATIC"] - x) > tol["check_xy_offsets"] or abs(r["OFFSET_Y_STATIC"] - y) > tol["check_xy_offsets"]
                or abs(r["LENGTH_R1_STATIC"] - 3) > tol["check_arm_lengths"] or abs(r["LENGTH_R2_STATIC"] - 3) > tol["check_arm_lengths"])


# ------------------------------------------------------------------------------------------------ who moved
def moved(ck, g, d, i, j):
    """the positioners that were moved are found between the images before and after, each at its place after the move"""
    from astropy.table import Table
    from desimeter.io import load_metrology, fvc2fp_filename
    from desimeter.transform.fvc2fp import FVC2FP
    tx = FVC2FP.read_jsonfile(fvc2fp_filename())
    m = load_metrology()
    m = m[np.array(m["DEVICE_TYPE"]) == "POS"]
    m = m[g.permutation(len(m))[:int(g.integers(600, 1500))]]
    n = len(m)
    c = np.array([m["X_FP"], m["Y_FP"]], dtype=float).T
    a, r = g.uniform(0, 2 * np.pi, n), np.where(g.random(n) < .5, g.uniform(3.3, 5.5, n), g.uniform(0, 2.7, n))
    before = c + (r * np.array([np.cos(a), np.sin(a)])).T
    mv = []
    for k in range(n):          # moved ones, far from one another
        if len(mv) < 12 and all(np.hypot(*(c[k] - c[q])) > 30 for q in mv):
            mv.append(k)
    step = np.zeros((n, 2))
    b = g.uniform(0, 2 * np.pi, n)
    s = np.where(g.random(n) < .5, g.uniform(.1, .15, n), g.uniform(.2, .4, n))
    for k in mv:
        step[k] = s[k] * np.array([np.cos(b[k]), np.sin(b[k])])
    after = before + step
    lo, hi = (.05, .5) if g.random() < .5 else (.18, .5)
    rad = np.hypot(*(after - c).T)
    want = {str(m["DEVICE_ID"][k]): k for k in mv if lo < s[k] < hi and rad[k] > 3}
    fs = {}
    for name, p, shift in (("b", before, g.uniform(-2, 2, 2)), ("a", after, np.zeros(2))):
        fs[name] = []
        for q in range(int(g.integers(1, 4))):
            x, y = tx.fp2fvc(*p.T)
            o = g.permutation(n)
            t = Table({"XPIX": x + shift[0] + 1e-3 * g.normal(size=n), "YPIX": y + shift[1] + 1e-3 * g.normal(size=n), "COUNTS": np.ones(n)})[o]
            fs[name].append(os.path.join(d, "%s%d.csv" % (name, q)))
            t.write(fs[name][-1])
    out = os.path.join(d, "out.csv")
    ask = [str(m["DEVICE_ID"][k]) for k in g.permutation(mv)]
    ck.case("moved", xy=after.tolist(), ids=ask)
    call(ck, "detect_and_match_moving_positioners", ["--before-moves"] + fs["b"] + ["--after-moves"] + fs["a"] + ["-p", ",".join(ask), "-o", out, "--min-move-mm", lo, "--max-move-mm", hi], d)
    t = Table.read(out) if os.path.exists(out) else []
    got = {str(q["DEVICE_ID"]): q for q in t}
    ck.ok("moved-ids", sorted(got) == sorted(want) and len(t) == len(got), missing=sorted(set(want) - set(got)), extra=sorted(set(got) - set(want)), rows=len(t))
    for pid, k in want.items():
        if pid in got:
            q = got[pid]
            x, y = tx.fp2fvc(after[k, :1], after[k, 1:])
            ck.close("moved-values", [float(q["X_FP"]), float(q["Y_FP"])], after[k], .003, pos=pid)
            ck.close("moved-values", [float(q["XPIX"]), float(q["YPIX"])], [x[0], y[0]], .02, pos=pid)
            ck.close("moved-values", [float(q["X_FP_METRO"]), float(q["Y_FP_METRO"])], c[k], 1e-6, pos=pid)
