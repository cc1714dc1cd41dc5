"""focal-plane distortion: ray-trace tables and ADC geometry."""
import os
import numpy as np
from vlib import core
from checks.C03 import disk, adc_pair, RTAN

DATA = os.path.join(core.REPO, "py", "desimeter", "data")


def table(name):
    return np.genfromtxt(os.path.join(DATA, name), delimiter=",", names=True)


def run(ck):
    ck.rule = "a case is one ADC pair with a batch of field points (metamorphic) or one tabulated configuration; distinct by ADC pair and points"
    ck.assumptions = ["oracle tables: the shipped ray-trace and plate-scale files"]
    tables(ck)
    between(ck)
    n = ck.n(1200, 20000)
    ck.parallel(meta, [(i, range(i * n // 12, (i + 1) * n // 12)) for i in range(12)])
    plate(ck)
    for m, k in (("raytrace", 19), ("raytrace-inverse", 19), ("periodic", 500), ("equivariant", 500), ("continuous", 500), ("steps", 50), ("near-equal", 100), ("platescale", 2)):
        ck.require(m, k)


def tables(ck):
    from desimeter.transform.tan2fp import tan2fp, fp2tan, raytracefit
    for csv, js in (("raytrace-tan2fp-4957-v18.csv", None), ("raytrace-tan2fp-4957-v18-6560A.csv", "raytrace-tan2fp-6560A.json")):
        t = table(csv)
        if js:
            m = raytracefit.TAN2FP_RayTraceFit.read_jsonfile(os.path.join(DATA, js))
            f, b = m.tan2fp, m.fp2tan
        else:
            f, b = tan2fp, fp2tan
        for a1, a2 in sorted(set(zip(t["ADC1"], t["ADC2"]))):
            s = (t["ADC1"] == a1) & (t["ADC2"] == a2)
            ck.case("table", csv=csv, a1=a1, a2=a2, rows=int(s.sum()))
            for w1, w2 in ((0, 0), (360, 0), (-360, 720)):
                X, Y = f(t["X_TAN"][s].copy(), t["Y_TAN"][s].copy(), float(a1 + w1), float(a2 + w2))
                ck.close("raytrace", np.hypot(X - t["X_FP"][s], Y - t["Y_FP"][s]), 0, 0.010, a1=a1 + w1, a2=a2 + w2, csv=csv)
                x, y = b(t["X_FP"][s].copy(), t["Y_FP"][s].copy(), float(a1 + w1), float(a2 + w2))
                ck.close("raytrace-inverse", np.hypot(x - t["X_TAN"][s], y - t["Y_TAN"][s]) * 206265, 0, 0.12, a1=a1 + w1, a2=a2 + w2, csv=csv)


def between(ck):
    """between tabulated ADC differences: cubic interpolation of the table itself"""
    from scipy.interpolate import CubicSpline
    from desimeter.transform.tan2fp import tan2fp
    t = table("raytrace-tan2fp-4957-v18.csv")
    conf = sorted(set(zip(t["ADC1"], t["ADC2"])), key=lambda c: c[1] - c[0])
    P = {}
    for a1, a2 in conf:
        s = (t["ADC1"] == a1) & (t["ADC2"] == a2)
        P[a2 - a1] = {(round(x, 9), round(y, 9)): (X, Y) for x, y, X, Y in zip(t["X_TAN"][s], t["Y_TAN"][s], t["X_FP"][s], t["Y_FP"][s])}
    common = sorted(set.intersection(*[set(p) for p in P.values()]))
    if len(common) < 50:
        ck.notes["between"] = "tables share only %d sky points" % len(common)
        return
    d = np.array(sorted(P))
    XY = np.array([[P[k][c] for c in common] for k in d])
    sp = CubicSpline(d, XY, axis=0)
    xy = np.array(common)
    g = ck.rng("between")
    for i in range(ck.n(60, 600)):
        dd = float(g.uniform(0, 360))
        mean = float(g.choice([0., g.uniform(-360, 360)]))
        ck.case("between", dadc=dd, mean=mean)
        c, s = np.cos(np.radians(mean)), np.sin(np.radians(mean))
        x, y = c * xy[:, 0] - s * xy[:, 1], s * xy[:, 0] + c * xy[:, 1]
        X, Y = tan2fp(x, y, mean - dd / 2, mean + dd / 2)
        E = sp(dd)
        ck.close("between", np.hypot(X - (c * E[:, 0] - s * E[:, 1]), Y - (s * E[:, 0] + c * E[:, 1])), 0, 0.012, dadc=dd, mean=mean)


def meta(ck, item):
    from desimeter.transform.tan2fp import tan2fp, fp2tan
    c, idx = item
    g = ck.rng("meta", c)
    for j in idx:
        a1, a2 = adc_pair(g)
        x, y = disk(g, 24, RTAN)
        ck.case("meta", a1=a1, a2=a2, x0=x[-1])
        X, Y = tan2fp(x, y, a1, a2)
        x0, y0 = fp2tan(X, Y, a1, a2)
        near = min((a2 - a1) % 360, -(a2 - a1) % 360)
        # periodicity
        k1, k2 = g.integers(-2, 3, 2)
        Xp, Yp = tan2fp(x, y, a1 + 360. * k1, a2 + 360. * k2)
        ck.close("periodic", np.hypot(Xp - X, Yp - Y), 0, 1e-3, a1=a1, a2=a2, k1=int(k1), k2=int(k2))
        xp, yp = fp2tan(X, Y, a1 + 360. * k1, a2 + 360. * k2)
        ck.close("periodic", np.hypot(xp - x0, yp - y0), 0, 7e-8, a1=a1, a2=a2, k1=int(k1), k2=int(k2))
        # common rotation
        th = float(g.choice([90., 180., -90., g.uniform(-360, 360)]))
        cs, sn = np.cos(np.radians(th)), np.sin(np.radians(th))
        Xr, Yr = tan2fp(cs * x - sn * y, sn * x + cs * y, a1 + th, a2 + th)
        ck.close("equivariant", np.hypot(Xr - (cs * X - sn * Y), Yr - (sn * X + cs * Y)), 0, 1e-3, a1=a1, a2=a2, th=th)
        xr, yr = fp2tan(cs * X - sn * Y, sn * X + cs * Y, a1 + th, a2 + th)
        ck.close("equivariant", np.hypot(xr - (cs * x0 - sn * y0), yr - (sn * x0 + cs * y0)), 0, 7e-8, a1=a1, a2=a2, th=th)
        # continuity in each ADC angle: < 20 um per degree of ADC plus 1 um
        for e in (float(10 ** g.uniform(-13, -3)), -float(10 ** g.uniform(-13, -3))):
            Xe, Ye = tan2fp(x, y, a1 + e, a2)
            ck.close("continuous", np.hypot(Xe - X, Ye - Y), 0, 1e-3, a1=a1, a2=a2, e=e)
            Xe, Ye = tan2fp(x, y, a1, a2 + e)
            ck.close("continuous", np.hypot(Xe - X, Ye - Y), 0, 1e-3, a1=a1, a2=a2, e=e)
        # no steps: the change over a small turn is shared by its parts
        if j % 4 == 1:
            n, e = 40, float(g.choice([.2, .02])) * float(g.choice([-1, 1]))
            w = g.random(2)
            P = np.array([tan2fp(x, y, a1 + w[0] * e * q / n, a2 + w[1] * e * q / n) for q in range(n + 1)])
            d = np.hypot(*np.moveaxis(np.diff(P, axis=0), 1, 0))
            ck.close("steps", d.max(), 0, 3e-4 + 3 * float(np.hypot(*(P[-1] - P[0])).max() + 1e-3 * abs(e)) / n, a1=a1, a2=a2, e=e)
        # around coincidence
        if j % 3 == 0:
            k = int(g.integers(-1, 2))
            e = float(g.choice([0., 1., -1.])) * float(10 ** g.uniform(-15, -3))
            Xa, Ya = tan2fp(x, y, a1, a1)
            Xb, Yb = tan2fp(x, y, a1, a1 + 360. * k + e)
            ck.close("near-equal", np.hypot(Xa - Xb, Ya - Yb), 0, 1e-3, a1=a1, k=k, e=e, rem=repr((a1 - (a1 + 360. * k + e)) % 360))
        # continuity in the field point (one-sided Lipschitz bound; plate scale is ~ 14.5 m)
        dx = float(10 ** g.uniform(-12, -6))
        Xe, Ye = tan2fp(x + dx, y, a1, a2)
        ck.close("smooth-field", np.hypot(Xe - X, Ye - Y) / dx, 14700., 1900., a1=a1, a2=a2, dx=dx) if dx > 1e-8 else None


def plate(ck):
    from desimeter.transform.tan2fp import echo22
    t = np.loadtxt(os.path.join(core.REPO, "py/desimeter/transform/tan2fp/data/Echo22Platescale.txt"), usecols=(0, 1))
    t = t[t[:, 0] <= 414]
    ck.case("platescale", rows=len(t))
    ck.close("platescale", echo22.theta2radius(t[:, 1]), t[:, 0], 1.5e-3)
    ck.close("platescale", echo22.radius2theta(t[:, 0]) * 3600, t[:, 1] * 3600, 0.02)
    X, Y = echo22.tan2fp(np.sin(np.radians(t[:, 1])), 0 * t[:, 1])
    ck.close("platescale", X, t[:, 0], 1.5e-3)
