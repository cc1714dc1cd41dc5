"""Petal <-> focal plane: rigid motions, checked for shipped and replaced alignment tables (fresh processes)."""
import json, os, subprocess, sys, shutil
import numpy as np
from vlib import core

SRC = os.path.join(core.REPO, "py", "desimeter", "data")
WORKER = r'''
import sys, json, numpy as np
from astropy.table import Table
from desimeter.transform.ptl2fp import ptl2fp, fp2ptl, apply_ptl2fp
job = json.load(open(sys.argv[1])); out = []
for j in job:
    p, x, y, z = j["petal"], np.array(j["x"]), np.array(j["y"]), np.array(j["z"])
    r = dict(fwd=[np.asarray(v).tolist() for v in ptl2fp(p, x, y, z)], bwd=[np.asarray(v).tolist() for v in fp2ptl(p, x, y, z)])
    r["fwd_back"] = [np.asarray(v).tolist() for v in fp2ptl(p, *[np.array(v) for v in r["fwd"]])]
    r["bwd_fwd"] = [np.asarray(v).tolist() for v in ptl2fp(p, *[np.array(v) for v in r["bwd"]])]
    k = j["k"]
    r["one"] = [float(np.ravel(v)[0]) for v in ptl2fp(p, float(x[k]), float(y[k]), float(z[k]))]
    r["one_b"] = [float(np.ravel(v)[0]) for v in fp2ptl(p, float(x[k]), float(y[k]), float(z[k]))]
    r["noz"] = [np.asarray(v).tolist() for v in ptl2fp(p, x, y)]
    r["noz_b"] = [np.asarray(v).tolist() for v in fp2ptl(p, x, y)]
    t = Table(); t["PETAL_LOC"] = np.array(j["petals"]); t["X_PTL"] = x; t["Y_PTL"] = y; t["Z_PTL"] = z; t["NAME"] = np.arange(x.size)
    t2 = apply_ptl2fp(t)
    r["apply"] = [np.array(t2[c]).tolist() for c in ("X_FP", "Y_FP", "Z_FP")]
    r["kept"] = bool(np.array_equal(t2["X_PTL"], x) and np.array_equal(t2["Y_PTL"], y) and np.array_equal(t2["Z_PTL"], z) and np.array_equal(t2["PETAL_LOC"], j["petals"]) and np.array_equal(t2["NAME"], np.arange(x.size)))
    # each point through its own petal, one call per point
    r["singles"] = [[float(np.ravel(v)[0]) for v in ptl2fp(q, a, b, c)] for q, a, b, c in zip(j["petals"], x, y, z)]
    out.append(r)
json.dump(out, open(sys.argv[2], "w"))
'''


def motion(P):
    """independent: turn about x by alpha, then y by beta, then z by gamma, then shift"""
    def f(v):
        x, y, z = v
        a, b, c = P["alpha"], P["beta"], P["gamma"]
        y, z = y * np.cos(a) - z * np.sin(a), y * np.sin(a) + z * np.cos(a)
        x, z = x * np.cos(b) + z * np.sin(b), z * np.cos(b) - x * np.sin(b)
        x, y = x * np.cos(c) - y * np.sin(c), x * np.sin(c) + y * np.cos(c)
        return np.array([x + P["Tx"], y + P["Ty"], z + P["Tz"]])
    return f


def back(P):
    def f(v):
        x, y, z = v[0] - P["Tx"], v[1] - P["Ty"], v[2] - P["Tz"]
        a, b, c = -P["alpha"], -P["beta"], -P["gamma"]
        x, y = x * np.cos(c) - y * np.sin(c), x * np.sin(c) + y * np.cos(c)
        x, z = x * np.cos(b) + z * np.sin(b), z * np.cos(b) - x * np.sin(b)
        y, z = y * np.cos(a) - z * np.sin(a), y * np.sin(a) + z * np.cos(a)
        return np.array([x, y, z])
    return f


def run(ck):
    ck.rule = "a case is one (alignment table, petal, point set); distinct by table and points"
    ck.assumptions = ["replaced alignment tables are given through the DESIMETER_DATA directory to fresh processes"]
    ck.parallel(one_table, range(ck.n(12, 120)))
    for m, k in (("forward", 40), ("backward", 40), ("inverse", 80), ("rigid", 40), ("apply", 40), ("single", 40), ("sector", 10), ("nominal-z", 40)):
        ck.require(m, k)


def one_table(ck, i):
    import yaml
    g = ck.rng("table", i)
    d = os.path.join(os.environ["VERIF_SCRATCH"], "align%d" % i)
    os.makedirs(d)
    T = yaml.safe_load(open(os.path.join(SRC, "petal-alignments.yaml")))
    if i >= 2:
        s = float(g.choice([1e-4, 1e-2, 3.]))
        for p in T:
            T[p] = dict(Tx=float(g.normal() * 3), Ty=float(g.normal() * 3), Tz=float(g.normal() * 3), alpha=float(g.normal() * s), beta=float(g.normal() * s),
                        gamma=float((T[p]["gamma"] + g.normal() * 1e-3) if i % 2 else g.uniform(-7, 7)))
        if i % 3 == 0:
            order = list(T); g.shuffle(order)
            T = {int(p): T[p] for p in order}
    yaml.safe_dump(T, open(os.path.join(d, "petal-alignments.yaml"), "w"), sort_keys=False)
    jobs = []
    for p in range(10):
        n = int(g.choice([1, 2, 3, 4, 40]))
        x, y, z = g.uniform(-420, 420, n), g.uniform(-420, 420, n), g.uniform(-30, 5, n)
        s = np.hypot(x, y) > 420
        x[s] *= .7; y[s] *= .7
        if p % 3 == 0:
            x[0] = y[0] = z[0] = 0.
        k = int(g.integers(0, 12))          # whole sets on one coordinate plane
        if k < 5:
            z[:] = (0., -0., 0., -5., 0.)[k]
        elif k < 7:
            (x if k == 5 else y)[:] = 0.
        jobs.append(dict(petal=p, x=x.tolist(), y=y.tolist(), z=z.tolist(), k=int(g.integers(0, n)), petals=[int(v) for v in g.integers(0, 10, n)]))
    a, b = os.path.join(d, "job"), os.path.join(d, "out")
    json.dump(jobs, open(a, "w"))
    env = dict(os.environ)
    if i >= 1:
        env["DESIMETER_DATA"] = d
    pr = subprocess.run([sys.executable, "-c", WORKER, a, b], env=env, capture_output=True, text=True, cwd=d)
    if pr.returncode:
        ck.ok("no-exception", False, tb=pr.stderr[-1500:], table=T)
        return
    from desimeter.transform import rszn_lookups as L
    res = json.load(open(b))
    tab = {}
    for line in open(os.path.join(SRC, "focal_surface_lookup.csv")):
        f = line.split(",")
        if f[0].replace(".", "").isdigit():
            tab[float(f[0])] = float(f[1])
    tr, tz = np.array(sorted(tab)), np.array([tab[k] for k in sorted(tab)])
    for j, r in zip(jobs, res):
        p, v = j["petal"], np.array([j["x"], j["y"], j["z"]])
        ck.case("points", table=i, P=T[p], v=v)
        w = dict(petal=p, align=T[p])
        f, h = motion(T[p]), back(T[p])
        F = np.array(r["fwd"])
        ck.close("forward", F, f(v), 1e-8, **w)
        ck.close("backward", r["bwd"], h(v), 1e-8, **w)
        ck.close("inverse", r["fwd_back"], v, 1e-8, **w)
        ck.close("inverse", r["bwd_fwd"], v, 1e-8, **w)
        m = v.shape[1]
        D = lambda q: np.sqrt(np.sum((q[:, :, None] - q[:, None, :]) ** 2, 0))
        ck.close("rigid", D(F), D(v), 1e-8, **w)
        if m >= 4:
            det = lambda q: np.linalg.det(q[:, 1:4] - q[:, :1])
            ck.close("rigid", det(F), det(v), 1e-6 * (1 + abs(det(v))), what="handedness", **w)
        ck.close("single", r["one"], F[:, j["k"]], 1e-9, **w)
        ck.close("single", r["one_b"], np.array(r["bwd"])[:, j["k"]], 1e-9, **w)
        ck.close("apply", np.array(r["apply"]).T, [motion(T[q])(u) for q, u in zip(j["petals"], v.T)], 1e-8, **w)
        ck.close("apply", r["singles"], [motion(T[q])(u) for q, u in zip(j["petals"], v.T)], 1e-8, **w)
        ck.ok("apply", r["kept"], what="input columns", **w)
        zz = np.interp(np.hypot(v[0], v[1]), tr, tz)
        ck.close("nominal-z", r["noz"], f(np.array([v[0], v[1], zz])), 1e-6, **w)
        ck.close("nominal-z", r["noz_b"], h(np.array([v[0], v[1], zz])), 1e-6, **w)
        if i < 2:   # shipped table: petal 3 is the reference; the others follow every 36 degrees
            q = f(np.array([300., 0., 0.]))
            ck.close("sector", (np.degrees(np.arctan2(q[1], q[0])) - 36. * (p - 3) + 180) % 360 - 180, 0, .2, **w)
    shutil.rmtree(d)
