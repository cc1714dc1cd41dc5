"""Averaging spot tables against an independent match/transform/mean model."""
import contextlib, io
import numpy as np


def model(tables, xk, yk):
    """independent: nearest spot of each later table within 5, affine map onto the first table's common spots, mean"""
    x1, y1 = np.array(tables[0][xk], float), np.array(tables[0][yk], float)
    idx = np.arange(x1.size)
    xs, ys = [x1.copy()], [y1.copy()]
    for t in tables[1:]:
        x2, y2 = np.array(t[xk], float), np.array(t[yk], float)
        d = np.hypot(x2[None, :] - x1[idx][:, None], y2[None, :] - y1[idx][:, None])
        j = np.argmin(d, 1)
        m = d[np.arange(idx.size), j]
        ok = m < 5
        for q in np.unique(j):      # one spot of table 2 serves only its closest claimant
            s = np.where(j == q)[0]
            if s.size > 1:
                ok[[k for k in s if k != s[np.argmin(m[s])]]] = False
        idx, j = idx[ok], j[ok]
        xs, ys = [v[ok] for v in xs], [v[ok] for v in ys]
        H = np.array([np.ones(j.size), x2[j], y2[j]]).T
        cx, cy = np.linalg.lstsq(H, x1[idx], rcond=None)[0], np.linalg.lstsq(H, y1[idx], rcond=None)[0]
        xs.append(H @ cx); ys.append(H @ cy)
    X, Y = x1.copy(), y1.copy()
    X[idx], Y[idx] = np.mean(xs, 0), np.mean(ys, 0)
    return X, Y, idx


def scene(g, n, extent, sep):
    P = []
    while len(P) < n:
        q = g.uniform(-extent, extent, 2)
        if all(np.hypot(*(q - p)) > sep for p in P):
            P.append(q)
    return np.array(P)


def run(ck):
    ck.rule = "a case is one list of tables; distinct by their coordinates"
    ck.assumptions = ["spots separated by more than the 5-unit matching distance plus the frame motion; at least 3 common spots, not aligned"]
    ck.parallel(chunk, [(i, ck.n(50, 1000)) for i in range(8)])
    for m, k in (("model", 200), ("truth", 50), ("identical", 50), ("columns-kept", 200), ("inputs-kept", 200), ("row-order", 100), ("table-order", 100)):
        ck.require(m, k)


def chunk(ck, item):
    c, n = item
    g = ck.rng("chunk", c)
    with contextlib.redirect_stdout(io.StringIO()):
        for _ in range(n):
            one(ck, g)


def one(ck, g):
    from astropy.table import Table
    from desimeter.averagecoord import average_coordinates
    n = int(g.choice([3, 4, 5, 12, 40, 120]))
    ext = 3000. if g.random() < .5 else 400.
    P = scene(g, n, ext, 25.)
    xk, yk = [("XPIX", "YPIX"), ("X_FP", "Y_FP")][int(g.integers(0, 2))]
    T = int(g.integers(1, 6))
    noise = float(g.choice([0., .05]))
    mode = int(g.integers(0, 4))
    tables = []
    for t in range(T):
        keep = np.ones(n, bool)
        if mode >= 2 and t:
            k = min(max(n - 4, 0), int(g.integers(0, 1 + n // 5)))
            keep[g.choice(n, k, replace=False)] = False
        ids = np.where(keep)[0]
        q = P[ids]
        if mode >= 1 and t:
            a, s = g.normal() * .5 / ext, 1 + g.normal() * .5 / ext
            R = s * np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
            q = q @ R.T + np.clip(g.normal(size=2) * .7, -1.2, 1.2)
            if np.max(np.hypot(*(q - P[ids]).T)) > 4:
                q = P[ids]
        q = q + noise * g.normal(size=q.shape)
        if mode == 3:      # false detections
            while True:
                ex = g.uniform(-ext, ext, (3, 2))
                if min(np.min(np.hypot(*(P - e).T)) for e in ex) > 10:
                    break
            q, ids = np.vstack([q, ex]), np.append(ids, [-1, -1, -1])
        o = g.permutation(len(ids))
        tab = Table()
        tab[xk], tab[yk] = q[o, 0], q[o, 1]
        tab["ID"] = ids[o]
        tab["COUNTS"] = g.uniform(1e3, 1e5, len(o))
        tables.append(tab)
    snap = [t.copy() for t in tables]
    X, Y, common = model(tables, xk, yk)
    if common.size < 3 or np.linalg.cond(np.cov(X[common], Y[common])) > 50:
        return
    ck.case("tables", x=[np.array(t[xk]) for t in tables][-1], n=n, T=T, mode=mode)
    w = dict(n=n, T=T, mode=mode, noise=noise)
    with ck.guard("average_coordinates", **w):
        r = average_coordinates(tables, xk, yk)
        ck.close("model", [r[xk], r[yk]], [X, Y], 1e-6, **w)
        ck.ok("columns-kept", r.colnames == snap[0].colnames and len(r) == len(snap[0]) and np.array_equal(r["ID"], snap[0]["ID"]) and np.array_equal(r["COUNTS"], snap[0]["COUNTS"]), **w)
        ck.ok("inputs-kept", all(a.colnames == b.colnames and all(np.array_equal(a[k], b[k]) for k in b.colnames) for a, b in zip(tables, snap)), **w)
        if noise == 0:
            ck.close("truth", [r[xk], r[yk]], [snap[0][xk], snap[0][yk]], 1e-6, **w)
        else:
            s = np.array(snap[0]["ID"]) >= 0
            d = np.hypot(np.array(r[xk])[s] - P[np.array(snap[0]["ID"])[s], 0], np.array(r[yk])[s] - P[np.array(snap[0]["ID"])[s], 1])
            ck.close("near-truth", d, 0, 8 * noise, **w)
        # rows of later tables in another order
        t2 = [snap[0].copy()] + [t[g.permutation(len(t))] for t in snap[1:]]
        r2 = average_coordinates(t2, xk, yk)
        ck.close("row-order", [r2[xk], r2[yk]], [r[xk], r[yk]], 1e-6, **w)
        # rows of the first table in another order: same rows, moved
        o = g.permutation(len(snap[0]))
        r3 = average_coordinates([snap[0][o]] + [t.copy() for t in snap[1:]], xk, yk)
        ck.close("row-order", [r3[xk], r3[yk]], [np.array(r[xk])[o], np.array(r[yk])[o]], 1e-6, **w)
        # later tables in another order (frames fitted on the same spots when none is missing)
        if T > 2 and mode <= 1:
            r4 = average_coordinates([snap[0].copy()] + [t.copy() for t in snap[:0:-1]], xk, yk)
            ck.close("table-order", [r4[xk], r4[yk]], [r[xk], r[yk]], 1e-6, **w)
        r5 = average_coordinates([snap[0].copy() for _ in range(int(g.integers(1, 5)))], xk, yk)
        ck.close("identical", [r5[xk], r5[yk]], [snap[0][xk], snap[0][yk]], 1e-7, **w)
