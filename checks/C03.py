"""tangent plane <-> focal plane round trips for all ADC settings."""
import numpy as np

RTAN = 0.0283     # rad: edge of the ray-traced field is 0.0279


def adc_pair(g):
    k = int(g.integers(0, 9))
    a = float(g.uniform(-720, 720))
    if k == 0:
        return 0., 0.
    if k == 1:
        return a, a
    if k == 2:
        return a, a + 180.
    if k == 3:
        return a, -a
    if k == 4:
        return a, a + 360. * int(g.integers(-2, 3))
    if k == 5:
        return float(10 * g.integers(-36, 37)), float(10 * g.integers(-36, 37))
    if k == 6:
        return a, a + float(g.choice([1e-9, -1e-9, 1e-13, 1e-5, -1e-5, 359.999, 20., -20.]))
    return a, float(g.uniform(-720, 720))


def disk(g, n, rmax):
    r = np.sqrt(g.uniform(0, 1, n)) * rmax
    p = g.uniform(0, 2 * np.pi, n)
    x, y = r * np.cos(p), r * np.sin(p)
    if n >= 4:
        x[0] = y[0] = 0.
        x[1], y[1] = rmax, 0.
        x[2], y[2] = 0., -rmax
        x[3], y[3] = -rmax * .7, rmax * .7
    return x, y


def run(ck):
    ck.rule = "a case is one ADC pair and one batch of field points (both directions); distinct by ADC pair and points"
    n = ck.n(1500, 24000)
    ck.parallel(chunk, [(i, range(i * n // 12, (i + 1) * n // 12)) for i in range(12)])
    echo(ck)
    for m, k in (("tan->fp->tan", 400), ("fp->tan->fp", 400), ("alone", 400), ("echo22", 20)):
        ck.require(m, k)


def chunk(ck, item):
    from desimeter.transform.tan2fp import tan2fp, fp2tan
    c, idx = item
    g = ck.rng("chunk", c)
    for j in idx:
        a1, a2 = adc_pair(g)
        n = int(g.choice([1, 2, 3, 50, 300]))
        if g.random() < .2:
            a1, a2 = np.float64(a1), np.float64(a2)
        x, y = disk(g, n, RTAN)
        ck.case("adc", a1=a1, a2=a2, n=n, x0=x[-1])
        with ck.guard("adc", a1=a1, a2=a2, n=n):
            X, Y = tan2fp(x.copy(), y.copy(), a1, a2)
            ck.ok("finite", np.shape(X) == x.shape and np.all(np.isfinite(X)) and np.all(np.isfinite(Y)), a1=a1, a2=a2)
            ck.ok("in-field", np.hypot(X, Y) < 425, a1=a1, a2=a2)
            x2, y2 = fp2tan(X.copy(), Y.copy(), a1, a2)
            # 1 um on the focal plane = 6.5e-8 rad
            ck.close("tan->fp->tan", np.hypot(x2 - x, y2 - y), 0, 6e-8, a1=a1, a2=a2, n=n)
            u, v = disk(g, n, 414.)
            p, q = fp2tan(u.copy(), v.copy(), a1, a2)
            u2, v2 = tan2fp(p, q, a1, a2)
            ck.close("fp->tan->fp", np.hypot(u2 - u, v2 - v), 0, 1e-3, a1=a1, a2=a2, n=n)
            k = int(g.integers(0, n))
            X1, Y1 = tan2fp(x[k:k + 1].copy(), y[k:k + 1].copy(), a1, a2)
            p1, q1 = fp2tan(u[k:k + 1].copy(), v[k:k + 1].copy(), a1, a2)
            ck.close("alone", [X1[0], Y1[0]], [X[k], Y[k]], 1e-6, a1=a1, a2=a2)
            ck.close("alone", [p1[0], q1[0]], [p[k], q[k]], 1e-9, a1=a1, a2=a2)
            perm = g.permutation(n)
            Xp, Yp = tan2fp(x[perm], y[perm], a1, a2)
            ck.close("order", np.hypot(Xp - X[perm], Yp - Y[perm]), 0, 1e-6, a1=a1, a2=a2)
            # a far outside point in the batch must not disturb the others
            if n > 1:
                pu, pv = fp2tan(np.append(u, 430.), np.append(v, 30.), a1, a2)
                ck.close("independent", np.hypot(pu[:-1] - p, pv[:-1] - q), 0, 1e-9, a1=a1, a2=a2)


def echo(ck):
    from desimeter.transform.tan2fp import echo22
    g = ck.rng("echo")
    for i in range(ck.n(60, 600)):
        n = int(g.choice([1, 2, 3, 5, 200]))
        x, y = disk(g, n, np.sin(np.radians(1.62)))
        ck.case("echo22", n=n, x0=x[-1])
        X, Y = echo22.tan2fp(x.copy(), y.copy())
        x2, y2 = echo22.fp2tan(X, Y)
        ck.close("echo22", np.hypot(x2 - x, y2 - y), 0, 7e-8)
        ck.close("echo22-radial", X * y - Y * x, 0, 1e-12)
        u, v = disk(g, n, 413.)
        p, q = echo22.fp2tan(u.copy(), v.copy())
        u2, v2 = echo22.tan2fp(p, q)
        ck.close("echo22", np.hypot(u2 - u, v2 - v), 0, 1e-3)
        k = int(g.integers(0, n))
        a = echo22.tan2fp(float(x[k]), float(y[k]))
        ck.close("echo22-alone", [float(a[0]), float(a[1])], [X[k], Y[k]], 1e-9)
