"""Guide-camera pixels <-> focal plane."""
import numpy as np


def run(ck):
    ck.rule = "a case is one (metrology table, camera, pixel set); distinct by table and pixels"
    ck.assumptions = ["altered metrology tables: each camera's corners moved rigidly by up to a few mm, rows shuffled"]
    from desimeter.io import load_metrology
    M = load_metrology()
    shipped(ck, M)
    ck.parallel(altered, range(ck.n(60, 1200)))
    for m, k in (("metrology", 100), ("inverse", 100), ("similarity", 100), ("sector", 10), ("single", 50), ("unknown-camera", 10)):
        ck.require(m, k)


def expect(rows):
    """independent: corners of the chip -> plane fit, shifted along the chip normal to the focal surface"""
    o = np.argsort(rows["PINHOLE_ID"])
    V = np.array([rows["X_FP"], rows["Y_FP"], rows["Z_FP"]], float)[:, o]
    px = np.array([[0, 0], [2047, 0], [2047, 1031], [0, 1031]], float)
    H = np.c_[np.ones(4), px]
    cx, cy = np.linalg.lstsq(H, V[0], rcond=None)[0], np.linalg.lstsq(H, V[1], rcond=None)[0]
    n = np.cross(V[:, 1] - V[:, 0], V[:, 2] - V[:, 1])
    n /= np.linalg.norm(n)
    return cx + [2.23 * n[0] / n[2], 0, 0], cy + [2.23 * n[1] / n[2], 0, 0], V


def pixels(g):
    n = int(g.choice([1, 2, 3, 4, 60]))
    x, y = g.uniform(-300, 2350, n), g.uniform(-300, 1330, n)
    if n > 2:
        x[:3], y[:3] = [0, 2047, 1023.5], [0, 1031, 515.5]
    return x, y


def judge(ck, g, rows, fwd, bwd, w):
    x, y = pixels(g)
    cx, cy, V = expect(rows)
    X, Y = fwd(x.copy(), y.copy())
    ck.close("metrology", [X, Y], [cx[0] + cx[1] * x + cx[2] * y, cy[0] + cy[1] * x + cy[2] * y], 1e-6, **w)
    a, b = bwd(np.array(X), np.array(Y))
    ck.close("inverse", [a, b], [x, y], 1e-6, **w)
    u, v = V[0].mean() + g.uniform(-20, 20, 10), V[1].mean() + g.uniform(-20, 20, 10)
    p, q = fwd(*bwd(u, v))
    ck.close("inverse", [p, q], [u, v], 1e-8, **w)
    k = int(g.integers(0, x.size))
    s = fwd(float(x[k]), float(y[k]))
    ck.close("single", [float(s[0]), float(s[1])], [X[k], Y[k]], 1e-9, **w)
    s = bwd(float(X[k]), float(Y[k]))
    ck.close("single", [float(s[0]), float(s[1])], [a[k], b[k]], 1e-6, **w)
    o = g.permutation(x.size)
    A, B = fwd(x[o], y[o])
    ck.close("single", [A, B], [X[o], Y[o]], 1e-9, what="order", **w)
    # corner pixels sit on the measured corners (shifted along the normal)
    d = np.hypot(*(np.array(fwd(np.array([0., 2047, 2047, 0]), np.array([0., 0, 1031, 1031]))) - V[:2]))
    ck.ok("corners", np.all(d < .35), d=d, **w)
    J = np.array([np.array(fwd(1000., 500.)) - np.array(fwd(0., 500.)), np.array(fwd(1000., 1500.)) - np.array(fwd(1000., 500.))]).reshape(2, 2) / 1000
    ck.ok("similarity", np.linalg.det(J) > 0, J=J, **w)
    ck.close("similarity", [np.hypot(*J[0]) / .015, np.hypot(*J[1]) / .015, 1 + J[0] @ J[1] / .015 ** 2], 1, .01, **w)
    return X, Y


def shipped(ck, M):
    from desimeter.transform.gfa2fp import gfa2fp, fp2gfa
    g = ck.rng("shipped")
    gfa = M[M["DEVICE_TYPE"] == "GFA"]
    known = sorted(set(int(p) for p in gfa["PETAL_LOC"]))
    ck.ok("all-cameras", known == list(range(10)), known=known)
    for rep in range(ck.n(6, 100)):
        for p in g.permutation(known):
            p = int(p)
            rows = gfa[gfa["PETAL_LOC"] == p]
            ck.case("shipped", petal=p, rep=rep)
            w = dict(petal=p)
            with ck.guard("gfa2fp", **w):
                X, Y = judge(ck, g, rows, lambda x, y: gfa2fp(p, x, y), lambda x, y: fp2gfa(p, x, y), w)
                X, Y = gfa2fp(p, g.uniform(0, 2047, 50), g.uniform(0, 1031, 50))
                a = (np.degrees(np.arctan2(Y, X)) - 36. * (p - 3) + 180) % 360 - 180
                ck.ok("sector", np.all(a > 0) and np.all(a < 36.5) and np.all(np.hypot(X, Y) > 380) and np.all(np.hypot(X, Y) < 430), angle=a, **w)
                np_p = np.int64(p)
                s = gfa2fp(np_p, 10., 20.)
                ck.close("single", [float(v) for v in s], [float(v) for v in gfa2fp(p, 10., 20.)], 1e-9, **w)
        bad = [10, -1, 11, 99, 1000]
        for p in bad:
            for f in (gfa2fp, fp2gfa):
                try:
                    r = f(p, 10., 10.)
                    ck.ok("unknown-camera", False, petal=p, got=r)
                except Exception:
                    ck.ok("unknown-camera", True)


def altered(ck, i):
    """fit on altered tables"""
    from desimeter.io import load_metrology
    from desimeter.transform.gfa2fp import fit_gfa2fp
    g = ck.rng("altered", i)
    M = load_metrology()
    isg = np.array(M["DEVICE_TYPE"] == "GFA")
    for p in range(10):
        s = np.where(isg & (np.array(M["PETAL_LOC"]) == p))[0]
        c = np.array([np.mean(M[k][s]) for k in ("X_FP", "Y_FP", "Z_FP")])
        V = np.array([M[k][s] for k in ("X_FP", "Y_FP", "Z_FP")], float) - c[:, None]
        t = np.radians(g.uniform(-180, 180)) if i % 3 == 0 else np.radians(g.normal() * 2)
        R = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])
        b = g.normal() * .01
        B = np.array([[1, 0, 0], [0, np.cos(b), -np.sin(b)], [0, np.sin(b), np.cos(b)]])
        V = B @ R @ V + c[:, None] + g.normal(size=3)[:, None] * 2
        for k, v in zip(("X_FP", "Y_FP", "Z_FP"), V):
            M[k][s] = v
    gone = sorted(int(v) for v in g.choice(10, int(g.integers(0, 4)), replace=False))
    M = M[~(isg & np.isin(np.array(M["PETAL_LOC"]), gone))]
    M = M[g.permutation(len(M))]
    keep = M.copy()
    ck.case("altered", i=i, gone=gone)
    with ck.guard("fit_gfa2fp", gone=gone):
        T = fit_gfa2fp(M)
        ck.ok("all-cameras", sorted(T.keys()) == [p for p in range(10) if p not in gone], got=sorted(T.keys()), gone=gone)
        for c in ("X_FP", "Y_FP", "Z_FP", "PINHOLE_ID", "PETAL_LOC"):
            ck.ok("input-kept", np.array_equal(np.array(M[c]), np.array(keep[c])))
        G = keep[keep["DEVICE_TYPE"] == "GFA"]
        for p in T:
            judge(ck, g, G[G["PETAL_LOC"] == p], T[p].apply, T[p].apply_inverse, dict(petal=p, i=i))
