"""Circle fits against known circles and an independent geometric least-squares solver."""
import contextlib, io
import numpy as np


def gauss_newton(x, y, c):
    """independent geometric least squares (xc, yc, r), started at c"""
    p = np.array(c, float)
    for _ in range(60):
        dx, dy = x - p[0], y - p[1]
        d = np.hypot(dx, dy)
        J = np.array([-dx / d, -dy / d, -np.ones(x.size)]).T
        s = np.linalg.lstsq(J, -(d - p[2]), rcond=None)[0]
        p = p + s
        if np.max(np.abs(s)) < 1e-13:
            break
    return p


def circle(g):
    return float(g.uniform(1.1, 4.9)), g.uniform(-420, 420, 2) * float(g.choice([1, 1, .01]))


def run(ck):
    ck.rule = "a case is one circle with its sampled points; distinct by the points"
    ck.assumptions = ["radii 1-5 mm (the documented validity range); exact points: >= 4 on >= 60 deg; noisy points: >= 8 near-regularly on >= 200 deg with noise <= 5 um; outliers fewer than one point in eight"]
    n = ck.n(4000, 80000)
    ck.parallel(chunk, [(i, n // 8) for i in range(8)])
    for m, k in (("exact", 1000), ("least-squares", 1000), ("within-noise", 1000), ("equivariance", 1000), ("robust", 500), ("robust-flags", 500), ("rejected", 100), ("order", 500)):
        ck.require(m, k)


def chunk(ck, item):
    c, n = item
    g = ck.rng("chunk", c)
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        for i in range(n):
            one(ck, g, i % 4)
            sink.seek(0); sink.truncate()


def one(ck, g, k):
    from desimeter.circles import fit_circle, robust_fit_circle
    r, (xc, yc) = circle(g)
    a0 = g.uniform(0, 2 * np.pi)
    if k == 0:
        m, arc = int(g.choice([4, 5, 6, 9, 12, 40])), g.uniform(60, 360)
        a = a0 + np.radians(arc) * (np.arange(m) / m if g.random() < .5 else np.sort(g.random(m)))
        if np.ptp(a) < np.radians(40) or np.min(np.diff(np.sort(a))) < 1e-3:
            return
        x, y = xc + r * np.cos(a), yc + r * np.sin(a)
        ck.case("exact", x=x, y=y)
        w = dict(x=x, y=y, true=(xc, yc, r))
        with ck.guard("fit_circle", **w):
            q = fit_circle(x, y)
            ck.close("exact", q, [xc, yc, r], 1e-7, **w)
            o = g.permutation(m)
            ck.close("order", fit_circle(x[o], y[o]), [xc, yc, r], 1e-7, **w)
            q2 = robust_fit_circle(x, y)
            ck.close("exact", q2[:3], [xc, yc, r], 1e-7, fn="robust", **w)
            ck.ok("robust-flags", np.asarray(q2[3]).shape == (m,) and np.all(q2[3]), fn="robust", **w)
    elif k == 1:
        m, arc, s = int(g.choice([8, 10, 12, 13, 24, 60])), g.uniform(200, 360), float(g.uniform(.0005, .005))
        a = a0 + np.radians(arc) * (np.arange(m) + g.uniform(-.1, .1, m)) / m
        x, y = xc + r * np.cos(a) + s * g.normal(size=m), yc + r * np.sin(a) + s * g.normal(size=m)
        if not 1.05 < r < 4.9:
            return
        ck.case("noisy", x=x, y=y)
        w = dict(x=x, y=y, true=(xc, yc, r), noise=s)
        with ck.guard("fit_circle", **w):
            q = fit_circle(x, y)
            ck.close("least-squares", q, gauss_newton(x, y, (xc, yc, r)), 1e-5, **w)
            ck.close("within-noise", q, [xc, yc, r], 12 * s, **w)
            # move, turn, mirror and scale the points: the circle follows
            t, f, sh = g.uniform(0, 2 * np.pi), float(g.choice([1, -1])), g.uniform(-100, 100, 2)
            z = float(g.uniform(1.02 / r, 4.95 / r)) if g.random() < .5 else 1.
            T = z * np.array([[np.cos(t), -np.sin(t)], [f * np.sin(t), f * np.cos(t)]])
            X, Y = T @ np.array([x, y]) + sh[:, None]
            e = T @ np.array(q[:2]) + sh
            if 1.02 < z * q[2] < 4.98:
                ck.close("equivariance", fit_circle(X, Y), [e[0], e[1], z * q[2]], 1e-5, **w)
    elif k == 2:
        m = int(g.choice([12, 16, 24, 40, 64]))
        no = int(g.integers(1, max(2, m // 8)))
        s = float(g.choice([0., .002]))
        a = a0 + np.radians(g.uniform(250, 360)) * np.arange(m) / m
        x, y = xc + r * np.cos(a) + s * g.normal(size=m), yc + r * np.sin(a) + s * g.normal(size=m)
        bad = g.choice(m, no, replace=False)
        out = np.zeros(m, bool); out[bad] = True
        f = r + g.uniform(.5, 3, no) * np.where((g.random(no) < .5) & (r > 1.5), -.33, 1)
        x[bad], y[bad] = xc + f * np.cos(a[bad]), yc + f * np.sin(a[bad])
        ck.case("outliers", x=x, y=y)
        w = dict(x=x, y=y, true=(xc, yc, r), outliers=bad)
        with ck.guard("robust_fit_circle", **w):
            q = robust_fit_circle(x, y)
            ck.close("robust", q[:3], [xc, yc, r], .02 if s else .01, **w)
            if not s:
                ck.ok("robust-flags", not np.any(np.asarray(q[3])[out & (np.abs(np.hypot(x - xc, y - yc) - r) > .15)]), flags=q[3], **w)
    else:
        r = float(g.choice([g.uniform(.05, .9), g.uniform(5.2, 60)]))
        m = int(g.choice([6, 10, 24]))
        a = a0 + 2 * np.pi * np.arange(m) / m
        x, y = xc + r * np.cos(a), yc + r * np.sin(a)
        ck.case("bad-radius", x=x, y=y)
        try:
            q = fit_circle(x, y)
            ck.ok("rejected", False, got=q, r=r)
        except ValueError:
            ck.ok("rejected", True)
