"""Calibration fit of simulated positioners: recovery, bounds, fixed parameters, bookkeeping and history."""
import contextlib, copy, io, os, subprocess, sys, tempfile
import numpy as np
from vlib import core

K = ["LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P", "OFFSET_X", "OFFSET_Y"]
L = lambda v: [float(u) for u in v]
wrap = lambda a: (np.asarray(a, dtype=float) + 180.) % 360. - 180.


def truth(g):
    return dict(LENGTH_R1=g.uniform(2.7, 3.3), LENGTH_R2=g.uniform(2.7, 3.3), OFFSET_T=g.uniform(-179.9, 179.9), OFFSET_P=g.uniform(-20, 20),
                OFFSET_X=g.uniform(20, 400), OFFSET_Y=g.uniform(-100, 100))


# independent model: flat petal coordinates follow from r + QS straightening
def arm(par, t, p, et=0., ep=0.):
    a = np.radians(np.asarray(t) + par["OFFSET_T"] + et)
    b = a + np.radians(np.asarray(p) + par["OFFSET_P"] + ep)
    x = par["OFFSET_X"] + par["LENGTH_R1"] * np.cos(a) + par["LENGTH_R2"] * np.cos(b)
    y = par["OFFSET_Y"] + par["LENGTH_R1"] * np.sin(a) + par["LENGTH_R2"] * np.sin(b)
    return x, y


def to_ptl(x, y):
    from desimeter.transform import pos2ptl
    u, v = pos2ptl.flat2ptl(np.asarray(x), np.asarray(y))[:2]
    return np.asarray(u), np.asarray(v)


def to_flat(x, y):
    from desimeter.transform import pos2ptl
    u, v = pos2ptl.ptl2flat(np.asarray(x), np.asarray(y))[:2]
    return np.asarray(u), np.asarray(v)


def points(g):
    if g.random() < .5:
        n = int(g.integers(6, 13))
        t = np.concatenate([np.linspace(-170, 170, n)] * 2 + [g.uniform(-170, 170, 8)])
        p = np.concatenate([np.repeat(120., n), np.repeat(60., n), g.uniform(0, 180, 8)])
        return t, p
    n = int(g.integers(14, 60))
    return g.uniform(-175, 175, n), g.uniform(0, 180, n)


def fit(*a, **k):
    from desimeter.posparams import fitter
    with contextlib.redirect_stdout(io.StringIO()):
        return fitter.fit_params(*a, **k)


def args(t, p, x, y, rehome=None, seq=None):
    n = len(t)
    return [L(t), L(p), L(x), L(y), [1.] * n, [1.] * n, [True] * n if rehome is None else list(rehome), [0] * n if seq is None else [int(s) for s in seq]]


def res(par, t, p, xf, yf, et=0., ep=0.):
    u, v = arm(par, t, p, et, ep)
    return np.hypot(u - xf, v - yf)


def rms(r):
    return float(np.sqrt(np.mean(np.square(r))))


def run(ck):
    ck.rule = "a case is one simulated set of measurements and one mode and option of the fit; distinct by the measured positions"
    ck.assumptions = ["well-posed data: theta and phi both vary, Gaussian noise up to 10 micrometres, true parameters within the bounds",
                      "with some parameters fixed the fit starts within 60 deg of the true theta zero point",
                      "with sequences after a loss of the zero point (EPSILON) the fit starts from the values of the rehomed sequences, as run_best_fits does",
                      "dynamic mode: phi (with its offset) between 15 and 165 deg, where the arm angle is well defined by the position"]
    items = [("static", i, ck.n(8, 110)) for i in range(3)] + [("bounds", i, ck.n(6, 80)) for i in range(2)] + [("eps", i, ck.n(4, 60)) for i in range(3)]
    items += [("outlier", i, ck.n(8, 100)) for i in range(2)] + [("dynamic", i, ck.n(8, 100)) for i in range(2)] + [("flags", i, ck.n(8, 60)) for i in range(2)]
    items += [("tables", i, ck.n(2, 16)) for i in range(4)] + [("short", i, ck.n(6, 24)) for i in range(2)] + [("script", 0, ck.n(1, 4))]
    ck.parallel(chunk, items)
    for m, k in (("reproduces", 20), ("rms-is-that-of-the-points", 40), ("npts", 40), ("in-bounds", 40), ("wrapped", 20), ("fixed", 12), ("fixed-variance", 12), ("order", 12),
                 ("inputs-kept", 40), ("defaults-kept", 40), ("history", 12), ("weights", 8), ("sequences", 8), ("outliers-out", 8), ("dynamic-scale", 10), ("dynamic-fixed", 10),
                 ("stuck", 5), ("not-stuck", 4), ("no-rehome", 5), ("too-few", 5), ("table-values", 3), ("table-windows", 3), ("window-rms", 4), ("short-fitted", 6), ("table-many-sequences", 1), ("table-failed", 2), ("table-same", 20), ("table-errors", 20), ("table-covariances", 20), ("processes", 1)):
        ck.require(m, k)


def chunk(ck, item):
    kind, i, n = item
    g = ck.rng(kind, i)
    for j in range(n):
        globals()[kind](ck, g, j)


def common(ck, a, r, xf, yf, t, p, bounds=None, **wit):
    """statements true of every static fit that succeeded and used all points of sequence 0"""
    from desimeter.posparams import fitter
    par, cov, rm, npts = r
    b = bounds or fitter.default_bounds
    for k in K:
        v = float(par[k])
        lo, hi = b[k]
        okb = lo - 1e-9 <= v <= hi + 1e-9 or (k == "OFFSET_T" and any(lo - 1e-9 <= v + s <= hi + 1e-9 for s in (-360., 360.)))
        ck.ok("in-bounds", okb, param=k, value=v, bounds=(lo, hi), **wit)
    ck.ok("wrapped", -180. <= par["OFFSET_T"] <= 180., value=par["OFFSET_T"], **wit)
    ck.ok("npts", npts == len(t), npts=npts, want=len(t), **wit)
    ck.close("rms-is-that-of-the-points", rm, rms(res(par, t, p, xf, yf)), 1e-6, **wit)
    ck.ok("flags-good", int(par["FLAGS"]) == 0, flags=int(par["FLAGS"]), **wit)


def kept(ck, before, a, kw):
    from desimeter.posparams import fitter
    ck.ok("inputs-kept", repr(before[0]) == repr(a) and repr(before[1]) == repr(kw), keywords=kw)
    ck.ok("defaults-kept", repr(before[2]) == repr((fitter.default_values, fitter.default_bounds)), defaults=fitter.default_values)


def snap(a, kw):
    from desimeter.posparams import fitter
    return copy.deepcopy(a), copy.deepcopy(kw), copy.deepcopy((fitter.default_values, fitter.default_bounds))


def call(ck, a, **kw):
    s = snap(a, kw)
    with ck.guard("fit_params"):
        r = fit(*a, **kw)
    kept(ck, s, a, kw)
    return r


def scene(g, s=None):
    par = truth(g)
    t, p = points(g)
    s = g.choice([0., .002, .005, .01]) if s is None else s
    xf, yf = arm(par, t, p)
    xf, yf = xf + s * g.normal(size=t.size), yf + s * g.normal(size=t.size)
    x, y = to_ptl(xf, yf)
    xf, yf = to_flat(x, y)
    return par, t, p, x, y, xf, yf, s


def static(ck, g, j):
    from desimeter.posparams import fitter
    par, t, p, x, y, xf, yf, s = scene(g)
    ck.case("static", x=x, s=s)
    a = args(t, p, x, y)
    r = call(ck, a)
    common(ck, a, r, xf, yf, t, p, n=len(t), s=s)
    ck.ok("reproduces", r[2] < 1.6 * np.sqrt(2) * s + 2e-3, rms=r[2], s=s, truth=par)
    # the noiseless truth is reproduced too, wherever the arms go inside the sampled range
    u, v = arm(par, t, p)
    ck.ok("truth-reproduced", rms(res(r[0], t, p, u, v)) < 1.6 * s + 3e-3, rms=rms(res(r[0], t, p, u, v)), s=s, truth=par)
    # order of the points
    o = g.permutation(len(t))
    r2 = call(ck, args(t[o], p[o], x[o], y[o]))
    q, w = arm(r[0], t, p)
    ck.ok("order", np.max(res(r2[0], t, p, q, w)) < .2 * s + 3e-3, worst=np.max(res(r2[0], t, p, q, w)), s=s)
    # fixed parameters
    keep = [k for k in K if g.random() < .4] or ["OFFSET_P"]
    keep = keep if len(keep) < 6 else keep[:5]
    nom = dict(fitter.default_values)
    nom.update({k: float(par[k]) + g.normal() * 1e-3 for k in K if k in keep})
    if "OFFSET_T" not in keep:
        nom["OFFSET_T"] = float(wrap(par["OFFSET_T"] + g.uniform(-60, 60)))
    nom["SCALE_T"], nom["SCALE_P"] = g.uniform(.5, 1), g.uniform(.5, 1)
    r3 = call(ck, a, nominals=nom, keep_fixed=list(keep))
    common(ck, a, r3, xf, yf, t, p, keep=keep)
    for k in keep + ["SCALE_T", "SCALE_P"]:
        dv = float(r3[0][k]) - nom[k]
        ck.ok("fixed", (abs(wrap(dv)) < 1e-9 if k == "OFFSET_T" else dv == 0), param=k, got=r3[0][k], want=nom[k])
        ck.ok("fixed-variance", r3[1].get("COV.%s.%s" % (k, k)) == 0., param=k, got=r3[1].get("COV.%s.%s" % (k, k)))
    for k in K:
        if k not in keep:
            ck.ok("fitted-variance", r3[1].get("COV.%s.%s" % (k, k), -1) >= 0 and (s == 0 or r3[1]["COV.%s.%s" % (k, k)] > 0), param=k, got=r3[1].get("COV.%s.%s" % (k, k)))
    if r3[2] > 1.8 * np.sqrt(2) * s + .012:
        ck.ok("reproduces", False, rms=r3[2], s=s, keep=keep, truth=par, nominals=nom)
    # measurement errors: points with a very large error do not matter
    if j % 2 == 0:
        k = int(g.integers(1, 4)); bad = g.choice(len(t), k, replace=False)
        x2, e = x.copy(), np.full(len(t), .005)
        x2[bad] += g.choice([-1, 1], k) * g.uniform(.02, .2, k); e[bad] = 1e4
        good = np.setdiff1d(np.arange(len(t)), bad)
        r4 = call(ck, args(t, p, x2, y), ptlXerr=L(e), ptlYerr=L(e))
        r5 = call(ck, args(t[good], p[good], x[good], y[good]))
        if good.size >= 12:
            q, w = arm(r5[0], t[good], p[good])
            ck.ok("weights", np.max(res(r4[0], t[good], p[good], q, w)) < .4 * s + 3e-3, worst=np.max(res(r4[0], t[good], p[good], q, w)), s=s)
    # other fits in between
    par6, t6, p6, x6, y6 = scene(g)[:5]
    fit(*args(t6, p6, x6, y6, rehome=[k % 2 == 0 for k in range(len(t6))], seq=[k % 2 for k in range(len(t6))]), outlier_rejection=True)
    fit(*args(t6, p6, x6, y6), mode="dynamic", nominals={**fitter.default_values, **par6})
    r6 = call(ck, a)
    same = all(abs(float(r[0][k]) - float(r6[0][k])) < 1e-6 * max(1., abs(float(r[0][k]))) for k in K + ["SCALE_T", "SCALE_P"]) and set(r[0]) == set(r6[0]) and set(r[1]) == set(r6[1])
    ck.ok("history", same, first=r[0], again=r6[0])


def bounds(ck, g, j):
    """truth outside the allowed range, or bounds given by the caller"""
    from desimeter.posparams import fitter
    par, t, p, x, y, xf, yf, s = scene(g)
    b = {k: tuple(v) for k, v in fitter.default_bounds.items()}
    nom = dict(fitter.default_values)
    how = ("tight", "long-arm", "phi")[j % 3]
    if how == "tight":
        for k in ("LENGTH_R1", "LENGTH_R2", "OFFSET_P"):
            h = g.uniform(.001, .05) * (1 if k[0] == "L" else 50)
            c = float(par[k]) + g.uniform(-1.5, 1.5) * h
            b[k] = (c - h, c + h); nom[k] = c
    else:
        if how == "long-arm":
            par["LENGTH_R1"] = g.uniform(3.52, 3.8)
        else:
            par["OFFSET_P"] = g.choice([-1, 1]) * g.uniform(31, 45)
        xf, yf = arm(par, t, p)
        x, y = to_ptl(xf, yf)
        xf, yf = to_flat(x, y)
    ck.case("bounds-" + how, x=x)
    a = args(t, p, x, y)
    r = call(ck, a, **({} if how != "tight" else dict(bounds=b, nominals=nom)))
    common(ck, a, r, xf, yf, t, p, bounds=b, how=how)


def eps(ck, g, j):
    """sequences whose zero points are lost"""
    from desimeter.posparams import fitter
    par = truth(g); s = g.choice([.002, .005])
    ns = int(g.integers(2, 5)); ids = g.choice(40, ns, replace=False)
    E = {int(i): (0., 0.) if k == 0 else (g.uniform(-60, 60), g.uniform(-25, 25)) for k, i in enumerate(ids)}
    T, P, S, X, Y, H = [], [], [], [], [], []
    for k, i in enumerate(E):
        n = int(g.integers(12, 25))
        t = g.uniform(-170, 170, n); p = g.uniform(25, 150, n)
        u, v = arm(par, t, p, *E[i])
        T += L(t); P += L(p); S += [i] * n; X += L(u); Y += L(v); H += [k == 0] * n
    T, P, S, X, Y, H = map(np.array, (T, P, S, X, Y, H))
    X = X + s * g.normal(size=X.size); Y = Y + s * g.normal(size=Y.size)
    ck.case("sequences", x=X, sequences=E)
    x, y = to_ptl(X, Y); xf, yf = to_flat(x, y)
    first = fit(*args(T[H], P[H], x[H], y[H]))[0]
    nom = {**fitter.default_values, **{k: float(first[k]) for k in K}}
    o = g.permutation(len(T))
    a = args(T[o], P[o], x[o], y[o], H[o], S[o])
    r = call(ck, a, nominals=nom)
    et, ep = np.zeros(len(T)), np.zeros(len(T))
    for k, i in enumerate(E):
        if k:
            et[S == i], ep[S == i] = float(r[0]["EPSILON_T_%d" % i]), float(r[0]["EPSILON_P_%d" % i])
    ck.ok("sequence-params", {k for k in r[0] if k.startswith("EPSILON")} == {"EPSILON_%s_%d" % (c, i) for k, i in enumerate(E) if k for c in "TP"}, got=sorted(r[0]))
    q = rms(res(r[0], T, P, xf, yf, et, ep))
    ck.close("rms-is-that-of-the-points", r[2], q, 1e-6, kind="sequences")
    ck.ok("npts", r[3] == len(T), npts=r[3], want=len(T))
    ck.ok("sequences", q < 1.6 * np.sqrt(2) * s + 1e-3, rms=q, s=s, truth=par, sequences=E, got={k: float(v) for k, v in r[0].items()})
    # dynamic fit after it keeps the zero points of the sequences
    rd = call(ck, a, mode="dynamic", nominals={k: float(v) for k, v in r[0].items() if k != "FLAGS"})
    for k in r[0]:
        if k not in ("FLAGS", "SCALE_T", "SCALE_P"):
            ck.ok("dynamic-fixed", abs(wrap(float(rd[0][k]) - float(r[0][k]))) < 1e-9, param=k, got=rd[0][k], want=r[0][k])


def outlier(ck, g, j):
    par, t, p, x, y, xf, yf, s = scene(g)
    n = len(t); k = int(g.integers(1, 4)); bad = np.sort(g.choice(n, k, replace=False))
    if n - k < 14:
        return
    x2, y2 = x.copy(), y.copy()
    ang = g.uniform(0, 2 * np.pi, k); d = g.uniform(.5, 4, k)
    x2[bad] += d * np.cos(ang); y2[bad] += d * np.sin(ang)
    ck.case("outliers", x=x2, k=k)
    xf2, yf2 = to_flat(x2, y2)
    good = np.setdiff1d(np.arange(n), bad)
    r = call(ck, args(t, p, x2, y2), outlier_rejection=True)
    m = r[3]
    q = np.sort(res(r[0], t, p, xf2, yf2))
    # rejection takes the worst point each time, so the points used are normally the m best ones
    clean = m == n - k and set(np.argsort(res(r[0], t, p, xf2, yf2))[n - k:]) == set(bad.tolist())
    if clean:
        ck.close("rms-is-that-of-the-points", r[2], rms(q[:m]), 1e-6, kind="outliers")
        r2 = call(ck, args(t[good], p[good], x[good], y[good]))
        u, v = arm(r2[0], t[good], p[good])
        w = np.max(res(r[0], t[good], p[good], u, v))
        ck.ok("outliers-out", w < .3 * s + 3e-3, worst=w, s=s)
        if s > 0:
            for kk in K:
                c1, c2 = r[1]["COV.%s.%s" % (kk, kk)], r2[1]["COV.%s.%s" % (kk, kk)]
                ck.ok("outlier-variance", c1 >= 0 and c2 >= 0, param=kk)
    ck.ok("outlier-count", n - m >= k - 1 and m >= 6, npts=m, n=n, k=k)
    # a rejected point takes its measurement errors with it: the others keep theirs
    m = int(g.integers(24, 50)); t6, p6 = g.uniform(-175, 175, m), g.uniform(0, 180, m)
    xt, yt = arm(par, t6, p6); e6 = np.where(g.permutation(m) < m // 2, .003, 3.); rough = np.flatnonzero(e6 > 1)
    b = 2. * np.pi * g.random(m); w = np.where(e6 > 1, g.uniform(.03, .1, m), 0.)
    o = g.choice(rough, int(g.integers(1, 4)), replace=False); w[o] = g.uniform(1, 4, o.size)
    a6 = args(t6, p6, *to_ptl(xt + w * np.cos(b), yt + w * np.sin(b)))
    r6 = call(ck, a6, ptlXerr=L(e6), ptlYerr=L(e6), outlier_rejection=True)
    w = np.max(res(r6[0], t6, p6, xt, yt))
    ck.ok("outlier-errors", w < .012, worst=w, outliers=o, npts=r6[3], n=m, truth=par)
    # no rejection asked for
    r3 = call(ck, args(t, p, x2, y2))
    ck.ok("npts", r3[3] == n, npts=r3[3], want=n)
    ck.close("rms-is-that-of-the-points", r3[2], rms(res(r3[0], t, p, xf2, yf2)), 1e-6, kind="no rejection")
    # nothing to reject
    r4, r5 = call(ck, args(t, p, x, y), outlier_rejection=True), call(ck, args(t, p, x, y))
    ck.ok("no-outliers", r4[3] == n and all(abs(float(r4[0][kk]) - float(r5[0][kk])) < 1e-6 * max(1, abs(float(r5[0][kk]))) for kk in K), npts=r4[3], n=n)


def dynamic(ck, g, j):
    from desimeter.posparams import fitter
    par = truth(g); par["OFFSET_P"] = g.uniform(-10, 10)
    ST, SP = g.uniform(.4, 1.), g.uniform(.4, 1.)
    span = 60
    if j % 3 == 2:      # moves of more than half a turn, all the way back
        ST, span = g.uniform(.92, 1.), 330
    n = int(g.integers(15, 40)); s = g.choice([0., .002, .005])
    t, p = [g.uniform(-100, 100)], [g.uniform(50, 120)]
    GT, GP = ([1.] * n, [1.] * n) if j % 2 else (L(g.uniform(.5, 1, n)), L(g.uniform(.5, 1, n)))
    ct, cp = [t[0]], [p[0]]      # tracked
    for i in range(1, n):
        # the tracked angle changes by what the controller believes: shaft turn times gear calibration
        for _ in range(200):
            dt, dp = g.uniform(-span, span), g.uniform(-50, 50)
            nt, npp = t[-1] + dt / GT[i] * ST, p[-1] + dp / GP[i] * SP
            if abs(nt) < 170 and 20 < npp < 150:
                break
        else:
            dt = dp = 0.; nt, npp = t[-1], p[-1]
        t.append(nt); p.append(npp); ct.append(ct[-1] + dt); cp.append(cp[-1] + dp)
    u, v = arm(par, t, p)
    x, y = to_ptl(u + s * g.normal(size=n), v + s * g.normal(size=n))
    ck.case("dynamic", x=x, ST=ST, SP=SP)
    nom = {**fitter.default_values, **{k: float(par[k]) for k in K}}
    a = args(ct, cp, x, y); a[4], a[5] = GT, GP
    r = call(ck, a, mode="dynamic", nominals=nom)
    ck.ok("npts", r[3] == n - 1, npts=r[3], want=n - 1)
    tol = 2e-3 + 1.5 * s
    ck.close("dynamic-scale", [float(r[0]["SCALE_T"]), float(r[0]["SCALE_P"])], [min(ST, 1), min(SP, 1)], tol, s=s, n=n, rms=r[2])
    ck.ok("in-bounds", all(-1e-9 <= float(r[0][k]) <= 1 + 1e-9 for k in ("SCALE_T", "SCALE_P")), got=r[0])
    ck.ok("dynamic-rms", r[2] < 6 * s + 1e-3, rms=r[2], s=s)
    for k in K:
        ck.ok("dynamic-fixed", abs(wrap(float(r[0][k]) - nom[k])) < 1e-9, param=k, got=r[0][k], want=nom[k])
        ck.ok("fixed-variance", r[1].get("COV.%s.%s" % (k, k)) == 0., param=k)
    q = ("SCALE_T", "SCALE_P")[j % 2]
    nom2 = {**nom, q: float(dict(SCALE_T=ST, SCALE_P=SP)[q])}
    r2 = call(ck, a, mode="dynamic", nominals=nom2, keep_fixed=[q])
    ck.ok("fixed", float(r2[0][q]) == nom2[q], param=q, got=r2[0][q], want=nom2[q])
    ck.close("dynamic-scale", [float(r2[0]["SCALE_T"]), float(r2[0]["SCALE_P"])], [ST, SP], tol, s=s, n=n, fixed=q)


def flags(ck, g, j):
    from desimeter.posparams.movemask import movemask as mm
    par, t, p, x, y, xf, yf, s = scene(g, .005)
    F = mm["FAILED_FIT"]
    # theta does not move
    n = 12
    tt, pp = np.linspace(-150, 150, n), np.repeat(g.uniform(40, 150), n)
    u, v = arm(par, np.repeat(g.uniform(-150, 150), n), pp)
    xs, ys = to_ptl(u + .005 * g.normal(size=n), v + .005 * g.normal(size=n))
    ck.case("stuck", x=xs)
    for mode in ("static", "dynamic"):
        r = call(ck, args(tt, pp, xs, ys), mode=mode)
        ck.ok("stuck", int(r[0]["FLAGS"]) == (mm["THETA_STUCK"] | F) and r[3] == 0 and r[1] == {}, got=r)
    # few moves over a part of the range tell it as well, among moves in phi that tell nothing of theta
    n, m = int(g.integers(4, 9)), int(g.integers(0, 5))
    tt = g.permutation(np.linspace(0, g.uniform(30, 90), n)) + g.uniform(-150, 60)
    pp = np.r_[np.repeat(g.uniform(40, 140), n), g.uniform(40, 140, m)]
    u, v = arm(par, np.repeat(g.uniform(-150, 150), n + m), pp)
    xs, ys = to_ptl(u + .005 * g.normal(size=n + m), v + .005 * g.normal(size=n + m))
    ck.case("stuck", x=xs, few=n)
    r = call(ck, args(np.r_[tt, g.uniform(-150, 150, m)], pp, xs, ys))
    ck.ok("stuck", int(r[0]["FLAGS"]) == (mm["THETA_STUCK"] | F) and r[3] == 0 and r[1] == {}, got=r, n=n)
    # a positioner that moves is not stuck, though some arcs are too short to see it move
    q = truth(g); q["LENGTH_R1"], q["LENGTH_R2"], q["OFFSET_P"] = g.uniform(2.95, 3.05), g.uniform(2.95, 3.05), 14.
    t1, t2 = np.linspace(-120, 140, 8), g.uniform(-100, 60) + np.linspace(0, 24, 4)
    t3, p3 = np.r_[t1, t1, t2], np.r_[np.repeat(50., 8), np.repeat(120., 8), np.repeat(158., 4)]
    u, v = arm(q, t3, p3)
    xs, ys = to_ptl(u + .005 * g.normal(size=20), v + .005 * g.normal(size=20))
    o = g.permutation(20) if j % 2 else np.arange(20)
    ck.case("moves", x=xs)
    r = call(ck, args(t3[o], p3[o], xs[o], ys[o]))
    ck.ok("not-stuck", int(r[0]["FLAGS"]) == 0 and r[3] == 20 and r[2] < .015, got=(int(r[0]["FLAGS"]), r[2], r[3]))
    ck.case("no-rehome", x=x)
    r = call(ck, args(t, p, x, y, rehome=[False] * len(t)), mode=("static", "dynamic")[j % 2])
    ck.ok("no-rehome", int(r[0]["FLAGS"]) == F and r[3] == 0, got=r)
    # so many outliers that too few points are left
    for _ in range(12):
        n = int(g.integers(6, 9))
        tr, pr = g.uniform(-170, 170, n), g.uniform(20, 150, n)
        u, v = arm(par, tr, pr)
        u[5:] += g.choice([-1, 1], n - 5) * g.uniform(1, 4, n - 5)
        x, y = to_ptl(u, v)
        r = call(ck, args(tr, pr, x, y), outlier_rejection=True)
        if r[3] < 6:
            break
    ck.case("too-few", x=x)
    if r[3] < 6:
        ck.ok("too-few", bool(int(r[0]["FLAGS"]) & F), got=r)
    else:
        ck.ok("few", r[3] <= n and not int(r[0]["FLAGS"]) & F, got=r)


# -- tables ---------------------------------------------------------------
def table(g, posid, nseq, nre, per, days, petal, s=.004):
    from astropy.table import Table
    from astropy.time import Time
    from desimeter.transform import ptl2fp
    par = truth(g); par["LENGTH_R1"] = g.uniform(2.85, 3.15); par["LENGTH_R2"] = g.uniform(2.85, 3.15); par["OFFSET_P"] = g.uniform(-12, 12)
    T, P, X, Y, E, R = [], [], [], [], [], []
    eps_ = {}
    for q in range(nseq):
        e = (0., 0.) if q < nre else (g.uniform(-30, 30), g.uniform(-8, 8))
        eps_[q] = e
        t, p = g.uniform(-150, 150, per), g.uniform(40, 150, per)
        u, v = arm(par, t, p, *e)
        T += L(t); P += L(p); X += L(u); Y += L(v); E += [1000 + q] * per; R += [int(q < nre)] * per
    n = len(T)
    x, y = to_ptl(np.array(X) + s * g.normal(size=n), np.array(Y) + s * g.normal(size=n))
    xf, yf = ptl2fp.ptl2fp(petal, x, y)[:2]
    tb = Table(dict(POS_ID=[posid] * n, PETAL_LOC=[petal] * n, PETAL_ID=[petal] * n, DEVICE_LOC=[42] * n, POS_T=T, POS_P=P, X_FP=xf, Y_FP=yf,
                    CTRL_ENABLED=[True] * n, EXPOSURE_ID=E, RECENT_REHOME=R, TOTAL_MOVE_SEQUENCES=np.arange(n) + 7, GEAR_CALIB_T=np.ones(n), GEAR_CALIB_P=np.ones(n)))
    tb["DATE"] = [d.replace(" ", "T") + "+00:00" for d in Time(59000 + np.linspace(0, days, n), format="mjd").iso]
    return par, eps_, tb


CASES = [(3, 3, 14, 1, 10**6, 10**6), (3, 1, 15, 1, 10**6, 10**6), (13, 2, 8, 1, 10**6, 10**6), (4, 2, 20, 10, 2, 25), (6, 3, 12, 10, 2, 25), (2, 2, 30, 8, 2, 12)]


def good_table(ck, r, par, eps_, nseq, nre, posid, tb, s):
    from desimeter.transform import ptl2fp
    x, y = ptl2fp.fp2ptl(3 if "PETAL_LOC" not in tb.colnames else int(tb["PETAL_LOC"][0]), np.array(tb["X_FP"]), np.array(tb["Y_FP"]))[:2]
    ck.ok("table-rows", len(r) >= 1 and set(map(str, r["POS_ID"])) == {posid} and np.all(r["FLAGS"] == 0), got=len(r))
    for i in range(len(r)):
        m = {k: float(r[k + "_STATIC"][i]) for k in K}
        d = [m["LENGTH_R1"] - par["LENGTH_R1"], m["LENGTH_R2"] - par["LENGTH_R2"], wrap(m["OFFSET_T"] - par["OFFSET_T"]) / 20, (m["OFFSET_P"] - par["OFFSET_P"]) / 20,
             m["OFFSET_X"] - par["OFFSET_X"], m["OFFSET_Y"] - par["OFFSET_Y"]]
        ck.close("table-values", d, np.zeros(6), .03, window=i, names=K, truth=par)
        ck.ok("table-rms", float(r["FIT_ERROR_STATIC"][i]) < 1.8 * np.sqrt(2) * s, rms=float(r["FIT_ERROR_STATIC"][i]))
        # the gears turn as tracked; moves from one sequence to the next follow from the angles of both
        ck.ok("table-dynamic", float(r["FIT_ERROR_DYNAMIC"][i]) < 8 * s and abs(float(r["SCALE_T_DYNAMIC"][i]) - 1) < .02 and abs(float(r["SCALE_P_DYNAMIC"][i]) - 1) < .02, window=i,
              rms=float(r["FIT_ERROR_DYNAMIC"][i]), scale=(float(r["SCALE_T_DYNAMIC"][i]), float(r["SCALE_P_DYNAMIC"][i])), n=int(r["NUM_POINTS"][i]))
        ck.ok("table-count", int(r["NUM_POINTS"][i]) == int(r["NUM_POINTS_IN_FIT_STATIC"][i]) <= len(tb), got=(int(r["NUM_POINTS"][i]), int(r["NUM_POINTS_IN_FIT_STATIC"][i]), len(tb)))
        ck.ok("in-bounds", 0 <= float(r["SCALE_T_DYNAMIC"][i]) <= 1 + 1e-9, got=float(r["SCALE_T_DYNAMIC"][i]))
        ck.ok("table-dates", float(r["DATA_START_DATE_SEC"][i]) <= float(r["DATA_END_DATE_SEC"][i]), got=i)
    want = {"EPSILON_%s_%d" % (c, q) for q in range(nre, nseq) for c in "TP"}
    got = {k[:-7] for k in r.colnames if k.startswith("EPSILON") and k.endswith("_STATIC")}
    ck.ok("table-sequences", got <= want, got=sorted(got), want=sorted(want))
    return got == want


def same_as_fits(ck, r, tb, petal, e):
    """a table of one window holds the result of the fits of its rows, every value under its own name"""
    from desimeter.posparams import fitter
    from desimeter.transform import ptl2fp
    t = tb.copy(); t.sort("DATE")
    x, y = ptl2fp.fp2ptl(petal, np.array(t["X_FP"]), np.array(t["Y_FP"]))[:2]
    H = np.array(t["RECENT_REHOME"]) > 0
    q = np.unique(np.array(t["EXPOSURE_ID"]), return_inverse=True)[1]
    A = lambda m: args(np.array(t["POS_T"])[m], np.array(t["POS_P"])[m], x[m], y[m], H[m], q[m])
    nom = dict(fitter.default_values)
    if not np.all(H):
        nom.update({k: float(v) for k, v in fit(*A(H), nominals=dict(nom))[0].items() if k in nom})
    out = {}
    out["STATIC"] = fit(*A(H | True), nominals=dict(nom))
    nom = {k: float(v) for k, v in out["STATIC"][0].items() if k != "FLAGS"}
    out["DYNAMIC"] = fit(*A(H | True), nominals=dict(nom), mode="dynamic")
    for mode, (par, cov, rm, n) in out.items():
        ck.ok("table-same", abs(float(r["FIT_ERROR_" + mode][0]) - rm) < .02 * rm + 1e-6 and int(r["NUM_POINTS_IN_FIT_" + mode][0]) == n, mode=mode, got=float(r["FIT_ERROR_" + mode][0]), want=rm)
        keys = [k for k in par if k != "FLAGS"]
        for k in keys:
            ck.ok("table-same", abs(wrap(float(r[k + "_" + mode][0]) - float(par[k]))) < (.02 if k.startswith(("OFFSET_T", "OFFSET_P")) else .3 if k.startswith("EPS") else .003), mode=mode, param=k,
                  got=float(r[k + "_" + mode][0]), want=float(par[k]))
        fitted = [k for k in keys if not k.startswith("EPS")]
        sd = {k: np.sqrt(float(cov.get("COV.%s.%s" % (k, k), 0.))) for k in fitted}
        for k in fitted:      # the scale of an L-BFGS covariance depends on rounding; its order of magnitude does not
            v = float(r["ERR.%s_%s" % (k, mode)][0])
            ck.ok("table-errors", (v == 0) if sd[k] == 0 else sd[k] / 4 < v < 4 * sd[k], mode=mode, param=k, got=v, want=sd[k])
        for i, k in enumerate(fitted):
            for l in fitted[i + 1:]:
                c = float(cov.get("COV.%s.%s" % (k, l), cov.get("COV.%s.%s" % (l, k), 0.)))
                nm = [u for u in ("COV.%s_%s.%s_%s" % (k, mode, l, mode), "COV.%s_%s.%s_%s" % (l, mode, k, mode)) if u in r.colnames]
                v = float(r[nm[0]][0]) if nm else 0.
                ck.ok("table-covariances", abs(v - c) <= 4 * sd[k] * sd[l], mode=mode, params=(k, l), got=v, want=c)


def windows(ck, r, tb, dw, pd, petal):
    """every row tells the dates and the number of the moves of its window, which its parameters reproduce"""
    import dateutil.parser
    from desimeter.transform import ptl2fp
    t = tb.copy(); t.sort("DATE")
    sec = np.array([dateutil.parser.parse(d).timestamp() for d in t["DATE"]])
    x, y = ptl2fp.fp2ptl(petal, np.array(t["X_FP"]), np.array(t["Y_FP"]))[:2]
    xf, yf = to_flat(x, y)
    q = np.unique(np.array(t["EXPOSURE_ID"]), return_inverse=True)[1]
    end = -1.
    for i in range(len(r)):
        a, b = [float(r["DATA_%s_DATE_SEC" % z][i]) for z in ("START", "END")]
        m, n = int(np.argmin(np.abs(sec - a))), int(np.argmin(np.abs(sec - b)))
        ck.ok("window-dates", abs(sec[m] - a) < 1e-3 and abs(sec[n] - b) < 1e-3 and str(r["DATA_START_DATE"][i]) == str(t["DATE"][m]) and str(r["DATA_END_DATE"][i]) == str(t["DATE"][n]),
              window=i, got=[str(r["DATA_%s_DATE" % z][i]) for z in ("START", "END")], want=[str(t["DATE"][m]), str(t["DATE"][n])])
        ck.ok("window-count", int(r["NUM_POINTS"][i]) == n - m + 1, window=i, got=int(r["NUM_POINTS"][i]), want=n - m + 1)
        ck.ok("window-order", b >= end, window=i, got=b, before=end); end = b
        par = {k: float(r[k + "_STATIC"][i]) for k in K}
        e = lambda z: np.array([float(r["EPSILON_%s_%d_STATIC" % (z, u)][i]) if "EPSILON_%s_%d_STATIC" % (z, u) in r.colnames else 0. for u in q[m:n + 1]])
        w = res(par, np.array(t["POS_T"])[m:n + 1], np.array(t["POS_P"])[m:n + 1], xf[m:n + 1], yf[m:n + 1], e("T"), e("P"))
        ck.close("window-rms", rms(w), float(r["FIT_ERROR_STATIC"][i]), 1e-4, window=i)
    # the windows reach from the first move to (less than a period before) the last
    s, e = np.array(r["DATA_START_DATE_SEC"], dtype=float), np.array(r["DATA_END_DATE_SEC"], dtype=float)
    ck.ok("windows-cover", s.min() - sec[0] < 1e-3 and sec[-1] - e.max() <= 86400 * pd + 1e-3, start=s.min() - sec[0], end=sec[-1] - e.max())


def short(ck, g, j):
    """exactly as many moves as needed are enough; one less is not"""
    from astropy.table import Table
    from desimeter.posparams import fithandler
    from desimeter.posparams.movemask import movemask as mm
    with tempfile.TemporaryDirectory(prefix="c24_") as d:
        for less in (0, 1):
            posid = "M%05d" % g.integers(1, 99999)
            petal = int(g.integers(0, 10)); mw = int((10, 14)[j % 2])
            par, e, tb = table(g, posid, 1, 1, 30, 1, petal)
            on = np.sort(g.permutation(30)[:mw - less])
            if j % 3 == 0:      # control switched off in the others
                tb["CTRL_ENABLED"] = np.isin(np.arange(30), on)
            elif j % 3 == 1:    # nothing moved between the others
                tb["TOTAL_MOVE_SEQUENCES"] = 5 + np.maximum(np.searchsorted(on, np.arange(30), side="right"), 1)
                on = [np.nonzero(np.array(tb["TOTAL_MOVE_SEQUENCES"]) == u)[0][0] for u in np.unique(tb["TOTAL_MOVE_SEQUENCES"])]
            else:
                tb = tb[on]; on = np.arange(len(tb))
            f = os.path.join(d, posid + ".csv"); tb.write(f)
            ck.case("short", posid=posid, less=less, how=j % 3)
            with ck.guard("run_best_fits on few moves"), contextlib.redirect_stdout(io.StringIO()):
                fithandler.run_best_fits(posid, f, 10**6, 10**6, d, .05, printf=lambda *a, **k: None, min_window=mw)
            r = Table.read(os.path.join(d, posid + "_paramfits.csv"))
            if less:
                ck.ok("short-flagged", len(r) == 1 and bool(int(r["FLAGS"][0]) & mm["INVALID_AFTER_FILTER"]) and "LENGTH_R1_STATIC" not in r.colnames, how=j % 3, flags=list(r["FLAGS"]), n=mw - 1)
            elif ck.ok("short-fitted", len(r) == 1 and int(r["FLAGS"][0]) == 0 and "LENGTH_R1_STATIC" in r.colnames, how=j % 3, flags=list(r["FLAGS"]), n=mw):
                ck.ok("short-count", int(r["NUM_POINTS"][0]) == mw, how=j % 3, got=int(r["NUM_POINTS"][0]), want=mw)


def tables(ck, g, j):
    from astropy.table import Table
    from desimeter.posparams import fithandler
    from desimeter.posparams.movemask import movemask as mm
    with tempfile.TemporaryDirectory(prefix="c24_") as d:
        for c in g.permutation(len(CASES))[:2] if j else (2, 4):
            nseq, nre, per, days, pd, dw = CASES[c]
            posid = "M%05d" % g.integers(1, 99999)
            petal = int(g.integers(0, 10))
            par, e, tb = table(g, posid, nseq, nre, per, days, petal)
            ck.case("tables", posid=posid, case=int(c), x=np.array(tb["X_FP"]))
            f = os.path.join(d, posid + ".csv")
            tt, note = tb.copy(), None
            if c % 2 == j % 2:      # gears are taken as 1 if not given
                tt.remove_columns(["GEAR_CALIB_T", "GEAR_CALIB_P"][:1 + j % 2])
            if pd >= 100 and g.random() < .8:      # only the rows with the note asked for
                from astropy.table import vstack
                note = str(g.choice(["arc calibration", "calibration & use_desimeter=True", "grid | arc calibration", "arc&desimeter&calib|xyz"]))
                tt["LOG_NOTE"] = "arc calibration; use_desimeter=True; " + posid
                o = tt[g.permutation(len(tt))[:12]]
                o["LOG_NOTE"] = ["xy test", "calibration of moves", "use_desimeter=True", "Arc Calibration"] * 3
                o["X_FP"] += g.uniform(-2, 2, 12); o["TOTAL_MOVE_SEQUENCES"] = -1 - np.arange(12)
                tt = vstack([tt, o]); tt = tt[g.permutation(len(tt))]
            tt.write(f, overwrite=True)
            with ck.guard("run_best_fits"), contextlib.redirect_stdout(io.StringIO()):
                fithandler.run_best_fits(posid, f, pd, dw, d, .05, printf=lambda *a, **k: None, log_note_selection=note)
            r = Table.read(os.path.join(d, posid + "_paramfits.csv"))
            allseq = good_table(ck, r, par, e, nseq, nre, posid, tb, .004)
            if pd < 100:
                ck.ok("table-windows", len(r) >= 2 and len(set(zip(r["DATA_START_DATE_SEC"], r["DATA_END_DATE_SEC"]))) == len(r), rows=len(r))
                ck.ok("table-windows-size", np.all(r["NUM_POINTS"] > dw) and np.all(r["NUM_POINTS"] <= len(tb)), got=list(r["NUM_POINTS"]))
                windows(ck, r, tb, dw, pd, petal)
            else:
                ck.ok("table-one-window", len(r) == 1 and int(r["NUM_POINTS"][0]) == len(tb) and allseq, rows=len(r), n=list(r["NUM_POINTS"]))
                same_as_fits(ck, r, tb, petal, e)
                for q in range(nre, nseq):
                    v = [float(r["EPSILON_%s_%d_STATIC" % (z, q)][0]) for z in "TP"]
                    ck.close("table-many-sequences" if nseq > 10 else "table-epsilon", wrap(np.array(v) - e[q]), [0, 0], .6, sequence=q)
        # unusable tables are flagged, not dropped
        posid = "M%05d" % g.integers(1, 99999)
        par, e, tb = table(g, posid, 2, 2, 10, 1, 3)
        f = os.path.join(d, posid + ".csv")
        how = j % 3
        if how == 0:
            tb["CTRL_ENABLED"] = [k < 6 for k in range(len(tb))]
        elif how == 1:
            tb["TOTAL_MOVE_SEQUENCES"] = [7 + min(k, 5) for k in range(len(tb))]
        else:
            tb["X_FP"], tb["Y_FP"] = tb["X_FP"][0] + .003 * g.normal(size=len(tb)), tb["Y_FP"][0] + .003 * g.normal(size=len(tb)); tb["POS_P"] = 100.
        ck.case("tables-failed", posid=posid, how=how)
        tb.write(f, overwrite=True)
        with ck.guard("run_best_fits on an unusable table"), contextlib.redirect_stdout(io.StringIO()):
            fithandler.run_best_fits(posid, f, 10**6, 10**6, d, .05, printf=lambda *a, **k: None)
        r = Table.read(os.path.join(d, posid + "_paramfits.csv"))
        bit = "INVALID_AFTER_FILTER" if how < 2 else "FAILED_FIT"
        ck.ok("table-failed", len(r) == 1 and str(r["POS_ID"][0]) == posid and bool(int(r["FLAGS"][0]) & mm[bit]), how=how, flags=list(r["FLAGS"]))


def script(ck, g, j):
    """bin/fit_posparams with one and with several processes"""
    from astropy.table import Table
    with tempfile.TemporaryDirectory(prefix="c24_") as d:
        truths = {}
        for i in range(5):
            posid = "M%05d" % (g.integers(1, 999) * 10 + i)
            nseq, nre, per, days = ((3, 3, 10, 1), (3, 1, 12, 1), (12, 2, 6, 1), (2, 1, 14, 1), (3, 2, 12, 1))[i]
            par, e, tb = table(g, posid, nseq, nre, per, days, int(g.integers(0, 10)))
            tb.write(os.path.join(d, posid + ".csv"))
            truths[posid] = (par, e, nseq, nre, tb)
        ck.case("script", posids=sorted(truths), x=np.array(tb["X_FP"]))
        env = dict(os.environ, PYTHONPATH=os.path.join(core.REPO, "py"), PYTHONDONTWRITEBYTECODE="1")
        out = {}
        for npr in (1, 4):
            o = os.path.join(d, "out%d" % npr)
            pr = subprocess.run([sys.executable, os.path.join(core.REPO, "bin", "fit_posparams"), "-i", os.path.join(d, "M*.csv"), "-o", o, "-np", str(npr)],
                                env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
            ck.ok("script-ends", pr.returncode == 0, rc=pr.returncode, err=pr.stderr[-800:])
            out[npr] = {posid: Table.read(os.path.join(o, posid + "_paramfits.csv")) if os.path.exists(os.path.join(o, posid + "_paramfits.csv")) else None for posid in truths}
        for posid, (par, e, nseq, nre, tb) in truths.items():
            a, b = out[1][posid], out[4][posid]
            if not ck.ok("processes-files", a is not None and b is not None, posid=posid, one=a is not None, several=b is not None):
                continue
            good_table(ck, a, par, e, nseq, nre, posid, tb, .004)
            num = lambda t, k: np.array(t[k], dtype=float)
            cols = [k for k in a.colnames if a[k].dtype.kind in "if"]
            same = set(a.colnames) == set(b.colnames) and len(a) == len(b)
            if ck.ok("processes-columns", same, posid=posid, one=sorted(set(a.colnames) - set(b.colnames)), several=sorted(set(b.colnames) - set(a.colnames))):
                vals = [k for k in cols if not k.startswith(("COV", "ERR"))]
                ck.close("processes", [num(a, k)[0] for k in vals], [num(b, k)[0] for k in vals], [1e-5 * max(1, abs(num(a, k)[0])) for k in vals], posid=posid, columns=vals)
