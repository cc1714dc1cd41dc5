"""Fiducial identification on simulated cameras with known labels."""
import glob
import json
import os
import numpy as np
from vlib import zb
from checks.C06 import metrology


def shipped():
    from desimeter.io import fvc2fp_filename
    out = []
    for f in sorted(glob.glob(os.path.join(os.path.dirname(fvc2fp_filename()), "*fvc2fp*.json"))):
        d = json.load(open(f))
        if "zbcoeffs" in d and "scale" in d and "xfvc_scale" in d:
            out.append((os.path.basename(f), d))
    return out


def pinholes():
    t = metrology()
    t = t[(np.array(t["DEVICE_TYPE"]) == "FIF") | (np.array(t["DEVICE_TYPE"]) == "GIF")]
    return np.array(t["LOCATION"]), np.array(t["PINHOLE_ID"]), np.array(t["X_FP"], float), np.array(t["Y_FP"], float)


def fibres(g, n, X, Y):
    """fibre positions away from fiducials and from one another"""
    from scipy.spatial import cKDTree
    r, p = 405 * np.sqrt(g.random(n)), g.uniform(0, 2 * np.pi, n)
    a, b = r * np.cos(p), r * np.sin(p)
    ok = cKDTree(np.array([X, Y]).T).query(np.array([a, b]).T)[0] > 3.
    a, b = a[ok], b[ok]
    q = cKDTree(np.array([a, b]).T).query_pairs(1.9)
    bad = {max(i, j) for i, j in q}
    k = np.array([i not in bad for i in range(len(a))], bool)
    return a[k], b[k]


def run(ck):
    ck.rule = "a case is one simulated camera (assumed model, true model) with one spot list; distinct by camera and spots"
    ck.assumptions = ["true camera within 60 pixels, 0.003 rad, 1% in scale of the assumed model; centroid noise up to 0.03 pixel; fibres 3 mm or more from pinholes; fiducial position errors of up to 0.2 mm",
                      "oracle: camera model coded independently in vlib/zb.py, shipped metrology"]
    ck.parallel(chunk, range(ck.n(12, 120)))
    for m, k in (("labels", 60), ("complete", 60), ("unlabelled", 60), ("columns", 60), ("order", 20), ("history", 10), ("rewritten", 20), ("unique", 60)):
        ck.require(m, k)


def chunk(ck, c):
    g = ck.rng("chunk", c)
    models = shipped()
    ref = []
    for k in range(10):
        with ck.guard("camera", chunk=c, k=k):
            ref.append(camera(ck, g, models, c * 10 + k))
    # earlier calls with other models do not matter: the same spot lists again, in another order
    for r in [ref[i] for i in g.permutation(len(ref))]:
        if r is not None:
            with ck.guard("history"):
                sp, f, want = r
                got = labels(find(sp, f))
                ck.ok("history", np.array_equal(got, want), n_diff=int(np.sum(np.any(got != want, 0))))


def find(sp, f):
    from desimeter.findfiducials import findfiducials
    return findfiducials(sp.copy(), input_transform=f)


def labels(t):
    return np.array([t["LOCATION"], t["PETAL_LOC"], t["DEVICE_LOC"], t["PINHOLE_ID"]])


def camera(ck, g, models, k):
    from astropy.table import Table
    loc, pin, X, Y = pinholes()
    if k % 2 == 0:
        name, d = models[(k // 2) % len(models)]
    else:
        name = "random"
        d = dict(models[0][1])
        d = {a: d[a] for a in ("method", "version")}
        d.update(xfvc_scale=float(g.choice([-3000., 3000.])), yfvc_scale=float(g.choice([-3000., 3000.])), xfvc_offset=3000., yfvc_offset=3000.,
                 scale=float(g.uniform(.9, 1.4)), rotation=float(g.choice([g.uniform(-np.pi, np.pi), np.pi / 2, 0, np.pi])),
                 offset_x=float(g.uniform(-.05, .05)), offset_y=float(g.uniform(-.05, .05)), zbpolids=[5, 6, 9, 20, 28, 29, 30],
                 zbcoeffs=[float(v) for v in g.normal(size=7) * np.array([1, 1, 40, 1, 1, 1, 1]) * 1e-4])
    f = os.path.join(os.environ["VERIF_SCRATCH"], "cam%d.json" % k)
    json.dump(d, open(f, "w"))
    t = dict(d)
    big = g.random() < .7
    if big:
        t["offset_x"] += float(g.uniform(-.02, .02))
        t["offset_y"] += float(g.uniform(-.02, .02))
        t["rotation"] += float(g.uniform(-.003, .003))
        t["scale"] *= float(g.uniform(.99, 1.01))
        t["zbcoeffs"] = [v + float(g.normal()) * 2e-5 for v in d["zbcoeffs"]]
    # real fiducials are not exactly where the metrology says: the four dots move together
    dx, dy = np.zeros(len(X)), np.zeros(len(X))
    for l in np.unique(loc):
        s = loc == l
        dx[s], dy[s] = g.uniform(-.15, .15, 2)
    seen = np.ones(len(loc), bool)
    for l in g.choice(np.unique(loc), int(g.choice([0, 5, 30])), replace=False):
        s = np.where(loc == l)[0]
        n = int(g.choice([1, 1, 2, 3, len(s)]))
        seen[g.choice(s, min(n, len(s)), replace=False)] = False
    seen[pin > 4] = k % 4 == 3
    full = {l for l in np.unique(loc) if np.sum(seen[loc == l]) >= 4 and not np.any(seen[(loc == l) & (pin > 4)])}
    a, b = fibres(g, int(g.choice([0, 50, 1000, 4000])), X + dx, Y + dy)
    L, P = np.append(loc[seen], np.full(len(a), -1)), np.append(pin[seen], np.zeros(len(a), int))
    x, y = zb.fp2fvc(t, np.append((X + dx)[seen], a), np.append((Y + dy)[seen], b))
    noise = float(g.choice([0, .01, .03]))
    x, y = x + g.normal(size=x.size) * noise, y + g.normal(size=x.size) * noise
    o = g.permutation(len(L))
    L, P, x, y = L[o], P[o], x[o], y[o]
    sp = Table()
    sp["XPIX"], sp["YPIX"], sp["COUNTS"] = x, y, g.uniform(1e4, 1e5, x.size)
    if g.random() < .3:        # labels of an earlier, wrong, identification are forgotten
        for c, v in (("LOCATION", 1234), ("PETAL_LOC", 1), ("DEVICE_LOC", 234), ("PINHOLE_ID", 3)):
            sp[c] = np.full(len(sp), v)
    w = dict(model=name, camera={q: t[q] for q in ("scale", "rotation", "offset_x", "offset_y")}, noise=noise, n_fibres=len(a), k=k)
    ck.case("camera", model=name, true=json.dumps(t), x=x, y=y)
    r = find(sp, f)
    got = labels(r)
    lab = got[3] > 0
    ck.ok("labels", np.array_equal(got[0][lab], L[lab]) and np.array_equal(got[3][lab], P[lab]), n_wrong=int(np.sum((got[0] != L) & lab)), wrong=np.where(lab & ((got[0] != L) | (got[3] != P)))[0][:5], **w)
    need = np.isin(L, list(full))
    ck.ok("complete", np.all(lab[need]), missing=sorted(set(L[need & ~lab].tolist()))[:5], **w)
    ck.ok("unlabelled", np.all(got[0][L < 0] == -1) and np.all(got[1][L < 0] == -1) and np.all(got[2][L < 0] == -1) and np.all(got[3][L < 0] == 0), **w)
    m = got[0] >= 0
    ck.ok("columns", np.array_equal(got[1][m], got[0][m] // 1000) and np.array_equal(got[2][m], got[0][m] % 1000) and np.array_equal(got[0][m], L[m]), **w)
    ck.ok("columns", all(np.array_equal(r[c], sp[c]) for c in ("XPIX", "YPIX", "COUNTS")) and len(r) == len(sp), **w)
    pairs = list(zip(got[0][lab], got[3][lab]))
    ck.ok("unique", len(set(pairs)) == len(pairs), **w)
    if k % 4 == 2:      # the same file rewritten with another camera, and back
        with open(f) as fx:
            keep = fx.read()
        e = dict(d, offset_x=d["offset_x"] + .4, rotation=d["rotation"] + .3)
        json.dump(e, open(f, "w"))
        other = dict(t, offset_x=e["offset_x"], rotation=e["rotation"], offset_y=e["offset_y"], scale=e["scale"], zbcoeffs=e["zbcoeffs"])
        u, v = zb.fp2fvc(other, np.append((X + dx)[seen], a), np.append((Y + dy)[seen], b))
        s2 = Table({"XPIX": u[o], "YPIX": v[o], "COUNTS": np.array(sp["COUNTS"])})
        r2 = labels(find(s2, f))
        ck.ok("rewritten", np.all(r2[3][need] == P[need]) and np.all(r2[0][need] == L[need]) and np.all(r2[0][L < 0] == -1), n_wrong=int(np.sum(r2[0][need] != L[need])), **w)
        with open(f, "w") as fx:
            fx.write(keep)
        ck.ok("rewritten", np.array_equal(labels(find(sp, f)), got), **w)
    if k % 3 == 0:
        q = g.permutation(len(sp))
        ck.ok("order", np.array_equal(labels(find(sp[q], f)), got[:, q]), **w)
    return sp, f, got
