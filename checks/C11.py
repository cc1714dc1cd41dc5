"""Positioner coordinate conversions: commuting diagrams, inverses, scalar/vector equivalence, shipped table."""
import os
import numpy as np
from vlib import core
from checks.C10 import solutions


def calib(g, n, real):
    lo = lambda: 3 + g.normal(size=n) * (.03 if real else .3)
    r, q = np.sqrt(g.uniform(.001, 1, n)) * 405, g.uniform(-np.pi, np.pi, n)
    return dict(r1=lo(), r2=lo(), t_offset=g.uniform(-180, 180, n) if not real else g.uniform(-170, 170, n), p_offset=g.normal(size=n) * 6,
                x_offset=r * np.cos(q), y_offset=r * np.sin(q))


def run(ck):
    ck.rule = "a case is one set of positioners (calibrations and angles) sent through all conversions; distinct by the values"
    ck.assumptions = ["arm lengths 2-4 mm, centres within 405 mm of the petal origin, t_int in (-180,180], p_int in [-20,200]"]
    n = ck.n(600, 12000)
    ck.parallel(chunk, [(i, n // 12) for i in range(12)])
    table(ck)
    for m, k in (("definition", 500), ("inverse-noguess", 200), ("inverse-guess", 200), ("composite", 500), ("single", 500), ("flat-inverse", 500), ("nominal-table", 1)):
        ck.require(m, k)


def table(ck):
    """the shipped positioner table lists nominal petal and flat coordinates of every device"""
    from desimeter.transform import pos2ptl as P
    from desimeter.io import load_nominal_positioner_locations
    ck.case("table")
    with ck.guard("table"):
        t = load_nominal_positioner_locations()
        X, Y, FX, FY = (np.array(t[c], float) for c in ("X_PTL", "Y_PTL", "X_FLAT", "Y_FLAT"))
        s = np.hypot(X, Y) < 405
        a, b = P.ptl2flat(X, Y)
        ck.close("nominal-table", np.hypot(a - FX, b - FY)[s], 0, 0.001)
        a, b = P.flat2ptl(FX, FY)
        ck.close("nominal-table", np.hypot(a - X, b - Y)[s], 0, 0.001)
        ck.ok("nominal-table", len(t) > 500 and "DEVICE_LOC" in t.colnames and "DEVICE_TYPE" in t.colnames)


def chunk(ck, item):
    from desimeter.transform import pos2ptl as P
    c, n = item
    g = ck.rng("chunk", c)
    for it in range(n):
        m = int(g.choice([1, 2, 3, 4, 7, 40]))
        K = calib(g, m, g.random() < .7)
        t = g.uniform(-179.9, 180, m)
        p = g.uniform(-20, 200, m)
        if m > 1 and g.random() < .5:      # many positioners with nominal calibrations, few with measured ones
            odd = np.zeros(m, bool)
            odd[int(g.integers(0, m)) if g.random() < .5 else -1] = True
            for q in ("r1", "r2", "t_offset", "p_offset"):
                if g.random() < .7:
                    K[q] = np.where(odd, K[q], K[q][0] if q not in ("r1", "r2") else 3.)
        if g.random() < .2:
            t[0] = float(g.choice([0., 90., 180., -90.]))
            p[0] = float(g.choice([0., 90., 180., 5.]))
        ck.case("positioners", t=t, p=p, r1=K["r1"], x=K["x_offset"])
        w = dict(t=t, p=p, **K)
        with ck.guard("pos2ptl", **w):
            exercise(ck, g, P, t, p, K, m, w)


def exercise(ck, g, P, t, p, K, m, w):
    r1, r2, to, po, xo, yo = (K[k] for k in ("r1", "r2", "t_offset", "p_offset", "x_offset", "y_offset"))
    # definitions
    te, pe = P.int2ext(t, to), P.int2ext(p, po)
    ck.close("definition", [te, pe], [t + to, p + po], 1e-11, **w)
    ck.close("definition", [P.ext2int(te, to), P.ext2int(pe, po)], [t, p], 1e-11, **w)
    x, y = P.ext2loc(te, pe, r1, r2)
    a, b = np.radians(t + to), np.radians(t + to + p + po)
    ck.close("definition", [x, y], [r1 * np.cos(a) + r2 * np.cos(b), r1 * np.sin(a) + r2 * np.sin(b)], 1e-10, **w)
    xf, yf = P.loc2flat(x, xo), P.loc2flat(y, yo)
    ck.close("definition", [xf, yf], [x + xo, y + yo], 1e-11, **w)
    ck.close("definition", [P.flat2loc(xf, xo), P.flat2loc(yf, yo)], [x, y], 1e-11, **w)
    xp, yp = P.flat2ptl(xf, yf)
    # the flat <-> petal map keeps the polar angle and is undone by its reverse
    ck.close("polar-angle", (xp * yf - yp * xf) / np.hypot(xf, yf), 0, 1e-9, **w)
    ck.ok("polar-angle", np.all(xp * xf + yp * yf > 0), **w)
    rp, sf = np.hypot(xp, yp), np.hypot(xf, yf)
    ck.ok("flat-radius", np.all(sf - rp > -0.006) and np.all(sf - rp < 0.6), **w)
    tf = np.where(rp < 40, 0.006, np.where(rp < 405, 5e-4, 0.005))
    ck.close("flat-inverse", np.array(P.ptl2flat(xp, yp)), [xf, yf], np.array([tf, tf]), **w)
    # composites
    ck.close("composite", np.array(P.int2loc(t, p, r1, r2, to, po)), [x, y], 1e-10, **w)
    ck.close("composite", np.array(P.int2ptl(t, p, r1, r2, to, po, xo, yo)), [xp, yp], 1e-10, **w)
    qe = P.loc2ext(x, y, r1, r2, to, po)
    qi = P.loc2int(x, y, r1, r2, to, po)
    ck.close("composite", [qi[0], qi[1]], [qe[0] - to, qe[1] - po], 1e-9, **w)
    ck.ok("composite", np.array_equal(np.asarray(qi[2], bool), np.asarray(qe[2], bool)), **w)
    fx, fy = P.ptl2flat(xp, yp)
    qp = P.ptl2int(xp, yp, r1, r2, to, po, xo, yo)
    qd = P.loc2int(fx - xo, fy - yo, r1, r2, to, po)
    ck.close("composite", [qp[0], qp[1]], [qd[0], qd[1]], 1e-9, **w)
    ck.ok("composite", np.array_equal(np.asarray(qp[2], bool), np.asarray(qd[2], bool)), **w)
    # inverses: reachable answers always reproduce the position, angles stay in the internal ranges
    ok = ~np.asarray(qi[2], bool)
    ax, ay = P.int2loc(qi[0], qi[1], r1, r2, to, po)
    ck.close("inverse-position", np.hypot(ax - x, ay - y)[ok], 0, 1e-6, **w)
    ck.ok("int-range", np.all(np.abs(qi[0]) <= 180 + 1e-9) and np.all(qi[1] >= -20 - 1e-9) and np.all(qi[1] <= 200 + 1e-9), **w)
    s = (pe > .5) & (pe < 179.5) & (t > -179.99) & (t < 179.99) & (p > -19.99) & (p < 199.99)
    if s.any():
        ck.ok("inverse-noguess", np.all(ok[s]), **w)
        ck.close("inverse-noguess", np.array([qi[0] - t, qi[1] - p])[:, s], 0, 1e-5, **w)
    # with a guess of theta near the truth, the true angles come back even when phi is on the other side
    guess = t + g.uniform(-1, 1, m)
    gi = P.loc2int(x, y, r1, r2, to, po, t_int_guess=guess, t_guess_tol=float(g.choice([2., 10., 30.])))
    gp = P.ptl2int(xp, yp, r1, r2, to, po, xo, yo, t_int_guess=guess)
    for i in range(m):
        R = [[-180 + to[i], 180 + to[i]], [-20 + po[i], 200 + po[i]]]
        alt = [u for u in solutions(x[i], y[i], r1[i], r2[i], R, -1e-6) if abs(u[0] - te[i]) > 1e-4 or abs(u[1] - pe[i]) > 1e-4]
        if -179.99 < t[i] < 179.99 and -19.99 < p[i] < 199.99 and all(abs(u[0] - te[i]) > 3 for u in alt) and .5 < abs((pe[i] + 180) % 360 - 180) < 179.5:
            ck.ok("inverse-guess", not gi[2][i], i=i, **w)
            ck.close("inverse-guess", [gi[0][i], gi[1][i]], [t[i], p[i]], 1e-5, i=i, guess=guess[i], **w)
            # petal coordinates: limited by the flat/petal approximation (< 2 um), near-straight arms amplify it
            if 20 < abs((pe[i] + 180) % 360 - 180) < 160:
                ck.close("inverse-guess", [gp[0][i], gp[1][i]], [t[i], p[i]], .3, i=i, guess=guess[i], **w)
    # scalars, lists, tuples, arrays: same values, per positioner
    i = int(g.integers(0, m))
    one = lambda *v: [u[i] for u in v]
    forms = [float, lambda v: [float(v)], lambda v: (float(v),), lambda v: np.array([v]), np.float64]
    f = forms[int(g.integers(0, len(forms)))]
    A = [f(v) for v in one(t, p, r1, r2, to, po, xo, yo)]
    ck.close("single", np.ravel(P.int2ptl(*A)), [xp[i], yp[i]], 1e-10, form=f(1.), **w)
    ck.close("single", np.ravel(P.int2loc(*A[:6])), [x[i], y[i]], 1e-10, form=f(1.), **w)
    B = [f(v) for v in one(xp, yp, r1, r2, to, po, xo, yo)]
    o = P.ptl2int(*B)
    ck.close("single", [np.ravel(o[0])[0], np.ravel(o[1])[0]], [qp[0][i], qp[1][i]], 1e-9, **w)
    ck.ok("single", bool(np.ravel(o[2])[0]) == bool(qp[2][i]), **w)
    o = P.ptl2int(*B, t_int_guess=f(guess[i]))
    ck.close("single", [np.ravel(o[0])[0], np.ravel(o[1])[0]], [gp[0][i], gp[1][i]], 1e-9, **w)
    lists = [list(map(float, v)) for v in (t, p, r1, r2, to, po, xo, yo)]
    if g.random() < .5:
        lists = [tuple(v) for v in lists]
    ck.close("lists", np.array(P.int2ptl(*lists)), [xp, yp], 1e-10, **w)
    L2 = [type(lists[0])(map(float, v)) for v in (xp, yp, r1, r2, to, po, xo, yo)]
    o = P.ptl2int(*L2)
    ck.close("lists", [o[0], o[1]], [qp[0], qp[1]], 1e-9, **w)
    # one calibration for many points
    C = [float(v) for v in one(r1, r2, to, po, xo, yo)]
    v = P.int2ptl(t, p, *C)
    u = [np.ravel(P.int2ptl(float(t[j]), float(p[j]), *C)) for j in range(m)]
    ck.close("one-calibration", np.array(v).T, u, 1e-10, **w)
    xx, yy = x[i] + g.uniform(-1, 1, m), y[i] + g.uniform(-1, 1, m)
    v = P.loc2int(xx, yy, *C[:4], t_int_guess=float(guess[i]))
    u = [P.loc2int(float(xx[j]), float(yy[j]), *C[:4], t_int_guess=float(guess[i])) for j in range(m)]
    ck.close("one-calibration", [v[0], v[1]], [[np.ravel(q[0])[0] for q in u], [np.ravel(q[1])[0] for q in u]], 1e-9, **w)
    v = P.loc2int(xx, yy, *C[:4])
    u = [P.loc2int(float(xx[j]), float(yy[j]), *C[:4]) for j in range(m)]
    ck.close("one-calibration", [v[0], v[1]], [[np.ravel(q[0])[0] for q in u], [np.ravel(q[1])[0] for q in u]], 1e-9, **w)
