"""Focal surface R,S,Z,N tables, q,s surface coordinates, flat positioner coordinates."""
import csv, os
import numpy as np
from vlib import core

DATA = os.path.join(core.REPO, "py", "desimeter", "data", "focal_surface_lookup.csv")


def design():
    rows = [l for l in open(DATA) if not l.startswith("#")]
    t = list(csv.DictReader(rows))
    return {k: np.array([float(r[k]) for r in t]) for k in "RZSN"}


def interp(x, X, Y):
    """own linear interpolation on a monotonic table, NaN outside"""
    if X[-1] < X[0]:
        X, Y = X[::-1], Y[::-1]
    i = np.clip(np.searchsorted(X, x, side="right") - 1, 0, X.size - 2)
    v = Y[i] + (Y[i + 1] - Y[i]) * (x - X[i]) / (X[i + 1] - X[i])
    return np.where((x < X[0]) | (x > X[-1]), np.nan, v)


def run(ck):
    ck.rule = "a case is one batch of values for one conversion (or one batch of x,y points); distinct by values"
    ck.assumptions = ["the shipped design table is taken as the definition; x,y <-> q,s use fitted polynomials valid for r < 415 mm (0.5 um, 6 um inside 40 mm and beyond 405 mm)"]
    g = ck.rng("main")
    tables(ck, g)
    surface(ck, g)
    for m, k in (("table", 150), ("inverse", 100), ("monotonic", 8), ("qs-inverse", 100), ("surface-table", 50), ("flat", 100), ("out-of-range", 20)):
        ck.require(m, k)


def tables(ck, g):
    from desimeter.transform import rszn_lookups as L
    D = design()
    pairs = [("r2s", "R", "S"), ("s2r", "S", "R"), ("r2z", "R", "Z"), ("z2r", "Z", "R"), ("r2n", "R", "N"), ("n2r", "N", "R"), ("s2n", "S", "N"), ("s2z", "S", "Z"), ("z2s", "Z", "S"), ("n2s", "N", "S")]
    for name, a, b in pairs:
        f = getattr(L, name)
        ck.case("knots", fn=name)
        with ck.guard(name):
            ck.close("table", f(D[a]), D[b], 1e-6, fn=name, what="knots")
            lo, hi = D[a].min(), D[a].max()
            x = np.linspace(lo, hi, 5001)
            y = f(x)
            s = np.sign(D[b][-1] - D[b][0]) * np.sign(D[a][-1] - D[a][0])
            ck.ok("monotonic", np.all(s * np.diff(y) >= -1e-12), fn=name)
            ck.ok("out-of-range", np.all(np.isnan(f(np.array([lo - 1e-3 * (hi - lo), hi + 1e-3 * (hi - lo), hi * 2 + 1])))), fn=name)
            ck.ok("out-of-range", np.isnan(f(hi + 1.)), fn=name)
    inv = {"r2s": "s2r", "r2z": "z2r", "r2n": "n2r", "s2z": "z2s", "s2n": "n2s"}
    for _ in range(ck.n(60, 2000)):
        name, a, b = pairs[int(g.integers(0, len(pairs)))]
        f = getattr(L, name)
        n = int(g.choice([1, 2, 3, 4, 50]))
        i = g.integers(0, D[a].size - 1, n)
        u = g.random(n) * float(g.choice([1, 1e-6]))
        x = D[a][i] * (1 - u) + D[a][i + 1] * u
        ck.case("values", fn=name, x=x)
        with ck.guard(name, x=x):
            y = f(x)
            # composites go through R; linear interpolation of both tables on the same knots is linear again
            ck.close("table", y, interp(x, D[a], D[b]), 1e-6, fn=name, x=x)
            ck.close("table", f(float(x[0])), y[0], 1e-12, fn=name, what="scalar")
            ck.close("table", f(list(map(float, x))), y, 1e-12, fn=name, what="list")
    for name, rev in inv.items():
        a = dict((p[0], p[1]) for p in pairs)
        for _ in range(ck.n(20, 400)):
            x = g.uniform(D[a[name]].min(), D[a[name]].max(), 40)
            x[0], x[1] = D[a[name]].min(), D[a[name]].max()
            ck.case("inverse", fn=name, x=x)
            with ck.guard(name, x=x):
                y = getattr(L, name)(x)
                m = D["R"][1] * 1e-7
                ck.close("inverse", getattr(L, rev)(y), x, 2e-5, fn=name)
                z = g.uniform(D[a[rev]].min(), D[a[rev]].max(), 40)
                ck.close("inverse", getattr(L, name)(getattr(L, rev)(z)), z, 2e-5, fn=rev)


def surface(ck, g):
    from desimeter.transform import xy2qs as Q, rszn_lookups as L, pos2ptl as P
    D = design()
    for k in range(ck.n(150, 4000)):
        n = int(g.choice([1, 2, 3, 4, 100]))
        r, q = np.sqrt(g.random(n)) * 412, g.uniform(-np.pi, np.pi, n)
        if k % 4 == 0:
            q = np.round(q / (np.pi / 2)) * np.pi / 2
        if k % 5 == 0:
            r = g.uniform(0, 45, n)
        x, y = r * np.cos(q), r * np.sin(q)
        r = np.hypot(x, y)
        t = np.where(r < 40, .006, np.where(r < 405, 6e-4, .005))
        ck.case("points", x=x, y=y)
        w = dict(x=x, y=y)
        with ck.guard("xy2qs", **w):
            qq, s = Q.xy2qs(x, y)
            ck.ok("angle-range", np.all(qq >= 0) and np.all(qq <= 360), **w)
            ck.close("angle", np.hypot(np.cos(np.radians(qq)) * r - x, np.sin(np.radians(qq)) * r - y), 0, 1e-9, **w)
            ck.close("surface-table", s, interp(r, D["R"], D["S"]), t, **w)
            ck.ok("s-not-below-r", np.all(s >= r - 1e-4), **w)
            X, Y = Q.qs2xy(qq, s)
            ck.close("qs-inverse", np.hypot(X - x, Y - y), 0, t, **w)
            X, Y = Q.qs2xy(qq + 360. * g.integers(-2, 3), s)
            ck.close("qs-inverse", np.hypot(X - x, Y - y), 0, t, what="wrapped q", **w)
            q2, s2 = Q.xy2qs(*Q.qs2xy(qq, s))
            ck.close("qs-inverse", s2, s, t, **w)
            u, v = Q.xy2uv(x, y)
            ck.close("uv", [np.hypot(u, v), (u * y - v * x) / (1 + r)], [s, 0 * r], 1e-8, **w)
            X, Y = Q.uv2xy(u, v)
            ck.close("qs-inverse", np.hypot(X - x, Y - y), 0, t, what="uv", **w)
            ck.close("r2s", [Q.r2s(r), Q.s2r(interp(r, D["R"], D["S"]))], [interp(r, D["R"], D["S"]), r], np.array([t, t]), **w)
            i = int(g.integers(0, n))
            a = Q.xy2qs(float(x[i]), float(y[i]))
            ck.close("scalar", [float(a[0]), float(a[1])], [qq[i], s[i]], 1e-9, **w)
            a = Q.qs2xy(float(qq[i]), float(s[i]))
            b = Q.qs2xy(qq, s)
            ck.close("scalar", [float(a[0]), float(a[1])], [b[0][i], b[1][i]], 1e-9, **w)
            # positioner flat coordinates
            fx, fy = P.ptl2flat(x, y)
            ck.close("flat", [np.hypot(fx, fy), (fx * y - fy * x) / (1 + r)], [interp(r, D["R"], D["S"]), 0 * r], np.array([t, t]), **w)
            bx, by = P.flat2ptl(fx, fy)
            ck.close("flat", np.hypot(bx - x, by - y), 0, t, **w)
            ck.ok("flat", np.all(fx * x + fy * y >= -1e-6), **w)
