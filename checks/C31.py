"""Distortion basis, distortion fits, and the desimeter/platemaker map."""
import json
import numpy as np
from vlib import zb

zb_ids = [0, 1, 2, 3, 4, 5, 6, 9, 20, 27, 28, 29, 30]


def disk(g, n, rmax=1.0):
    r, p = np.sqrt(g.uniform(0, 1, n)) * rmax, g.uniform(0, 2 * np.pi, n)
    return r * np.cos(p), r * np.sin(p)


def quadrature():
    r, w = np.polynomial.legendre.leggauss(24)
    r, w = (r + 1) / 2, w / 2 * (r + 1) / 2
    th = np.arange(48) * 2 * np.pi / 48
    return np.outer(r, np.cos(th)).ravel(), np.outer(r, np.sin(th)).ravel(), np.repeat(w, 48) * 2 * np.pi / 48


def run(ck):
    ck.rule = "a case is one basis function with its points, one coefficient set, or one distortion fit; distinct by function/coefficients/points"
    basis(ck)
    ck.parallel(eval_fit, range(ck.n(120, 2000)))
    ck.parallel(maps, range(ck.n(40, 600)))
    for m, k in (("closed-form", 33), ("orthonormal", 1), ("curl-free", 27), ("divergence-free", 6), ("linear", 100), ("fit-recovers", 100), ("map-inverse", 40)):
        ck.require(m, k)


def basis(ck):
    import desimeter.transform.zhaoburge as Q
    g = ck.rng("basis")
    X, Y, W = quadrature()
    B = []
    for p in range(33):
        x, y = disk(g, 200)
        x[0] = y[0] = 0.
        x[1], y[1] = 1., 0.
        ck.case("basis", p=p, x=x[5])
        a = Q.getZhaoBurgeTerm(p, x, y)
        b = zb.term(p, x, y)
        ck.close("closed-form", [np.max(np.abs(a[0] - b[0])), np.max(np.abs(a[1] - b[1]))], 0, 1e-10, p=p)
        q = Q.getZhaoBurgeTerm(p, X, Y)
        B.append((np.asarray(q[0]) + 0 * X, np.asarray(q[1]) + 0 * X))
        h = 1e-5
        x, y = disk(g, 100, .8)
        f = lambda u, v: [np.asarray(t) + 0 * u for t in Q.getZhaoBurgeTerm(p, u, v)[:2]]
        E, Wt, N, S = f(x + h, y), f(x - h, y), f(x, y + h), f(x, y - h)
        curl = (E[1] - Wt[1] - N[0] + S[0]) / 2 / h
        div = (E[0] - Wt[0] + N[1] - S[1]) / 2 / h
        if p < 27:
            ck.close("curl-free", curl, 0, 1e-5, p=p)
        else:
            ck.close("divergence-free", div, 0, 1e-5, p=p)
    G = np.array([[np.sum(W * (a[0] * b[0] + a[1] * b[1])) for a in B] for b in B]) / np.pi
    ck.close("orthonormal", G, np.eye(33), 1e-9)
    for j in range(1, 22):
        x, y = disk(g, 100)
        ck.close("zernike", Q.getZ(j, x, y), zb.Z(j, x, y), 1e-10, noll=j)


def eval_fit(ck, i):
    import desimeter.transform.zhaoburge as Q
    g = ck.rng("eval", i)
    ids = np.array(zb_ids) if i % 3 == 0 else np.array(sorted(g.choice(33, int(g.integers(1, 33)), replace=False)))
    if i % 5 == 1:
        ids = g.permutation(ids)
    n = int(g.choice([1, 2, 3, 4, 200]))
    x, y = disk(g, n)
    c1, c2 = g.normal(size=ids.size), g.normal(size=ids.size)
    ck.case("eval", ids=ids, x=x, c=c1)
    a = Q.getZhaoBurgeXY(ids, c1, x, y)
    r = zb.displacement(ids, c1, x, y)
    ck.close("displacement", [a[0], a[1]], [r[0], r[1]], 1e-9, ids=ids)
    b = Q.getZhaoBurgeXY(ids, c2, x, y)
    s = Q.getZhaoBurgeXY(ids, 2 * c1 - 3 * c2, x, y)
    ck.close("linear", [s[0], s[1]], [2 * a[0] - 3 * b[0], 2 * a[1] - 3 * b[1]], 1e-9, ids=ids)
    k = int(g.integers(0, n))
    one = Q.getZhaoBurgeXY(ids, c1, x[k:k + 1], y[k:k + 1])
    ck.close("elementwise", [one[0][0], one[1][0]], [a[0][k], a[1][k]], 1e-12)
    if n > 3:   # arrays which differ only inside, or in one coordinate, are different arrays
        o = np.concatenate([[0], 1 + g.permutation(n - 2), [n - 1]])
        s = Q.getZhaoBurgeXY(ids, c1, x[o], y[o])
        ck.close("elementwise", [s[0], s[1]], [a[0][o], a[1][o]], 1e-12, ids=ids)
        s = Q.getZhaoBurgeXY(ids, c1, x, y[o])
        r = zb.displacement(ids, c1, x, y[o])
        ck.close("elementwise", [s[0], s[1]], [r[0], r[1]], 1e-9, ids=ids)
    # transform = similarity then displacement
    sc, ro, ox, oy = g.uniform(.8, 1.2), g.uniform(-4, 4), g.uniform(-.1, .1), g.uniform(-.1, .1)
    t = Q.transform(x, y, sc, ro, ox, oy, ids, c1 * .01)
    u, v = sc * (np.cos(ro) * (x + ox) - np.sin(ro) * (y + oy)), sc * (np.sin(ro) * (x + ox) + np.cos(ro) * (y + oy))
    d = zb.displacement(ids, c1 * .01, u, v)
    ck.close("transform", [t[0], t[1]], [u + d[0], v + d[1]], 1e-9)
    t = Q.transform(x, y, sc, ro, ox, oy)
    ck.close("transform", [t[0], t[1]], [u, v], 1e-12)
    # fits: coefficients come back; order of points and repetition do not matter
    # (S/T terms that are harmonic - both curl- and divergence-free - are distinct; the basis is orthonormal)
    x, y = disk(g, 400)
    co = g.normal(size=ids.size) * .01
    dx, dy = zb.displacement(ids, co, x, y)
    pid, fc = Q.fitZhaoBurge(x, y, x + dx, y + dy, polids=np.array(ids))
    ck.ok("fit-ids", list(pid) == list(ids))
    ck.close("fit-recovers", fc, co, 1e-7, ids=ids)
    o = g.permutation(400)
    _, f2 = Q.fitZhaoBurge(x[o], y[o], (x + dx)[o], (y + dy)[o], polids=np.array(ids))
    ck.close("fit-order", f2, fc, 1e-8)
    # with noise: least squares optimum (residual orthogonal to the basis)
    nx, ny = g.normal(size=400) * 1e-3, g.normal(size=400) * 1e-3
    _, f3 = Q.fitZhaoBurge(x, y, x + dx + nx, y + dy + ny, polids=np.array(ids))
    qx, qy = zb.displacement(ids, f3, x, y)
    for p in ids:
        bx, by = zb.term(int(p), x, y)
        ck.close("normal-equations", np.sum(bx * (dx + nx - qx) + by * (dy + ny - qy)), 0, 1e-6)
    pid, _ = Q.fitZhaoBurge(x, y, x + dx, y + dy)
    ck.ok("default-ids", list(pid) == zb_ids)


def maps(ck, i):
    from desimeter.transform.dm2pm import DM2PM
    from desimeter.io import dm2pm_filename
    g = ck.rng("maps", i)
    m = DM2PM.read(dm2pm_filename())
    x, y = disk(g, 300, 420.)
    ck.case("map-shipped", x=x[3])
    a = m.dm2pm(x, y)
    b = m.pm2dm(*a)
    ck.close("map-inverse", np.hypot(b[0] - x, b[1] - y), 0, 1e-3)
    a = m.pm2dm(x, y)
    b = m.dm2pm(*a)
    ck.close("map-inverse", np.hypot(b[0] - x, b[1] - y), 0, 1e-3)
    p = json.loads(m.tojson())
    for f, k in ((m.dm2pm, "dm2pm_zbcoeffs"), (m.pm2dm, "pm2dm_zbcoeffs")):
        d = zb.displacement(p["zbpolids"], p[k], x / 420., y / 420.)
        r = f(x, y)
        ck.close("map-definition", [r[0], r[1]], [x + 420 * d[0], y + 420 * d[1]], 1e-8)
    # refit from point pairs
    co = g.normal(size=13) * (1e-4 if i % 3 else 4e-4)
    x, y = disk(g, 500, 410.)
    d = zb.displacement(zb_ids, co, x / 420., y / 420.)
    X, Y = x + 420 * d[0], y + 420 * d[1]
    m = DM2PM() if i % 2 else m
    ck.case("map-fit", co=co)
    m.fit(x, y, X, Y)
    r = m.dm2pm(x, y)
    ck.close("map-fit", np.hypot(r[0] - X, r[1] - Y), 0, 1e-6)
    r = m.pm2dm(X, Y)
    # the terms cannot express the inverse exactly: as well as they can
    T = [zb.term(int(p), X / 420., Y / 420.) for p in zb_ids]
    M = np.array([np.concatenate(t) for t in T]).T
    v = np.concatenate([x - X, y - Y])
    best = np.linalg.norm(v - M @ np.linalg.lstsq(M, v / 420., rcond=None)[0] * 420.)
    ck.ok("map-fit-inverse", np.linalg.norm([r[0] - x, r[1] - y]) <= 1.05 * best + 1e-5, got=np.linalg.norm([r[0] - x, r[1] - y]), best=best)
