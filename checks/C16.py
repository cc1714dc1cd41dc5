"""Planar correction: fit, apply, inverse, rigid variant, object reuse, reload."""
import numpy as np


def rot(deg):
    t = np.radians(deg)
    return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])


def angle(g):
    k = int(g.integers(0, 4))
    if k == 0:
        return float(g.choice([0., 90., 180., 270., 360., 45.]))
    if k == 1:
        return float(g.choice([0., 90., 180., 270.]) + g.choice([-1, 1]) * 10. ** int(g.integers(-13, -1)))
    return float(g.uniform(-180, 360))


def points(g):
    k = int(g.integers(0, 4))
    n = int(g.choice([3, 4, 6, 12, 100]))
    s = 10. ** g.uniform(-2, 2.6)
    if k == 0:
        x, y = g.uniform(-1, 1, (2, n))
    elif k == 1:      # corners of a chip
        x, y = np.array([0., 1, 1, 0]), np.array([0., 0, .5, .5])
    elif k == 2:
        a = 2 * np.pi * np.arange(n) / n
        x, y = np.cos(a), np.sin(a)
    else:
        x, y = g.normal(size=(2, n))
    if np.linalg.cond(np.cov(x, y)) > 1e3:
        x, y = np.array([0., 1, 0, -1]), np.array([0., 0, 1, .3])
    return s * x + s * g.normal() * 2, s * y + s * g.normal() * 2, s


def run(ck):
    ck.rule = "a case is one transform (translation, rotation, scale matrix) with its point set; distinct by values"
    ck.assumptions = ["scale matrix symmetric positive definite (the model); point sets with condition number < 1000"]
    n = ck.n(6000, 120000)
    ck.parallel(chunk, [(i, n // 8) for i in range(8)])
    for m, k in (("fit-maps", 3000), ("parameters", 3000), ("inverse", 6000), ("reuse", 3000), ("solid", 1000), ("least-squares", 500), ("reload", 3000)):
        ck.require(m, k)


def chunk(ck, item):
    from desimeter.simplecorr import SimpleCorr
    c, n = item
    g = ck.rng("chunk", c)
    old = SimpleCorr()
    for it in range(n):
        x, y, s = points(g)
        a = angle(g)
        sc = float(np.exp(g.uniform(-5, 5))) if g.random() < .3 else float(g.uniform(.5, 2))
        kind = int(g.integers(0, 3))
        if kind == 0:
            S = sc * np.eye(2)
        elif kind == 1:
            S = sc * np.diag(g.uniform(.8, 1.25, 2))
        else:
            q, e = rot(g.uniform(0, 180)), g.uniform(.8, 1.25, 2)
            S = sc * q @ np.diag(e) @ q.T
        d = g.normal(size=2) * s * sc * float(g.choice([0, 1, 10]))
        R = rot(a)
        X, Y = S @ R @ np.array([x, y]) + d[:, None]
        L = np.max(np.hypot(x, y)) + s
        tol = 1e-8 * (sc * L + np.max(np.abs(d)))
        ck.case("affine", a=a, S=S, d=d, x=x)
        w = dict(x=x, y=y, angle=a, scale=S, shift=d)
        with ck.guard("fit", **w):
            m = SimpleCorr()
            m.fit(x.copy(), y.copy(), X.copy(), Y.copy())
            P = np.array(m.apply(x, y))
            ck.close("fit-maps", P, [X, Y], tol, **w)
            ck.close("parameters", [m.sxx, m.sxy, m.syy], [S[0, 0], S[0, 1], S[1, 1]], 1e-7 * sc * (1 + L / s), **w)
            ck.close("parameters", (m.rot_deg - a + 180) % 360 - 180, 0, 1e-6 * (1 + L / s), **w)
            ck.close("parameters", [m.dx, m.dy], d, tol * (1 + L / s), **w)
            ck.ok("statistics", m.nmatch == x.size and 0 <= m.rms <= tol, nmatch=m.nmatch, rms=m.rms, **w)
            # an object that already held another fit gives the same
            old.fit(x, y, X, Y)
            pars = lambda o: [o.dx, o.dy, o.sxx, o.syy, o.sxy, o.rms]
            ck.close("reuse", pars(old), pars(m), 1e-9 * (1 + np.abs(pars(m))), **w)
            ck.close("reuse", np.array(old.apply(x, y)), P, tol, **w)
            # inverse, anywhere and for scalars
            u, v = g.uniform(-2, 2, (2, 5)) * L
            p, q = m.apply(*m.apply_inverse(u * sc + d[0], v * sc + d[1]))
            ck.close("inverse", [p, q], [u * sc + d[0], v * sc + d[1]], 20 * tol, **w)
            p, q = m.apply_inverse(*m.apply(u, v))
            ck.close("inverse", [p, q], [u, v], 20 * tol / sc, **w)
            z = S @ R @ np.array([u, v]) + d[:, None]
            ck.close("extrapolate", np.array(m.apply(u, v)), z, 1e-6 * (sc * L + np.max(np.abs(d))) * (1 + L / s), **w)
            k = m.apply(float(u[0]), float(v[0]))
            ck.close("scalar", [float(k[0]), float(k[1])], np.array(m.apply(u, v))[:, 0], tol, **w)
            k2 = m.apply_inverse(float(k[0]), float(k[1]))
            ck.close("scalar", [float(k2[0]), float(k2[1])], [u[0], v[0]], 20 * tol / sc, **w)
            # reload
            r = SimpleCorr.fromjson(m.tojson())
            ck.close("reload", np.array(r.apply(u, v)), np.array(m.apply(u, v)), 1e-12 * (sc * L + np.max(np.abs(d))), **w)
            ck.close("reload", np.array(r.apply_inverse(u, v)), np.array(m.apply_inverse(u, v)), 1e-10 * (L + np.max(np.abs(d))) / sc, **w)
            ck.ok("reload", r.nmatch == m.nmatch and abs(r.rms - m.rms) < 1e-12 and r.tojson() == m.tojson(), **w)
            # noise: the affine least-squares optimum
            if x.size >= 6:
                e = 1e-3 * s * sc
                Xn, Yn = X + e * g.normal(size=x.size), Y + e * g.normal(size=x.size)
                m.fit(x, y, Xn, Yn)
                H = np.array([np.ones(x.size), x, y]).T
                bx, by = np.linalg.lstsq(H, Xn, rcond=None)[0], np.linalg.lstsq(H, Yn, rcond=None)[0]
                A, B = m.apply(x, y)
                # residual least squares, with symmetric scale matrix the model is the full affine map
                ck.close("least-squares", [A, B], [H @ bx, H @ by], 10 * tol + 1e-9 * e, **w)
                ck.close("statistics", m.rms, np.sqrt(np.mean((H @ bx - Xn) ** 2 + (H @ by - Yn) ** 2)), 10 * tol, **w)
            # rigid variant
            Xr, Yr = R @ np.array([x, y]) + d[:, None]
            m = old if it % 2 else SimpleCorr()
            if it % 4 < 2:
                m.fit(x, y, Xr, Yr, solid=True)
            else:
                m.fit_rotoff(x, y, Xr, Yr)
            tr = 1e-8 * (L + np.max(np.abs(d)))
            ck.close("solid", np.array(m.apply(x, y)), [Xr, Yr], tr * (1 + L / s), **w)
            ck.ok("solid", m.sxx == 1 and m.syy == 1 and m.sxy == 0, **w)
            ck.close("inverse", np.array(m.apply_inverse(Xr, Yr)), [x, y], tr * (1 + L / s), **w)
            # rigid stays rigid when the data are stretched
            m.fit(x, y, Xr * 1.01, Yr * 1.01, solid=True)
            A, B = m.apply(x, y)
            D = lambda u, v: np.hypot(u - u[0], v - v[0])
            ck.close("solid", D(A, B), D(x, y), tr * (1 + L / s), what="distances", **w)
