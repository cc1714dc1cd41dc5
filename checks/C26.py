"""Turbulence corrections against known displacement fields and a brute-force Gaussian process."""
import contextlib, io, os, tempfile, logging
import numpy as np

rms = lambda a, b: float(np.sqrt(np.mean(np.asarray(a)**2 + np.asarray(b)**2)))


def field(g, x, y, A, L):
    """gradient of a smooth wavefront, rms A over the given points"""
    dx, dy = np.zeros(x.size), np.zeros(x.size)
    for _ in range(5):
        t, ph, l, a = g.uniform(0, 6.3), g.uniform(0, 6.3), L * g.uniform(1, 2), g.normal()
        s = a * np.sin((x * np.cos(t) + y * np.sin(t)) * 2 * np.pi / l + ph)
        dx += s * np.cos(t); dy += s * np.sin(t)
    r = rms(dx, dy)
    return (dx * A / r, dy * A / r) if A else (0 * x, 0 * x)


def scene(g, n, A, L, s, centre=(0., 0.)):
    R = 6.2 * np.sqrt(n)
    P = np.zeros((0, 2))
    while len(P) < n:
        r, t = R * np.sqrt(g.random(4 * n)), 2 * np.pi * g.random(4 * n)
        for q in np.array([r * np.cos(t), r * np.sin(t)]).T:
            if len(P) < n and (not len(P) or np.min(np.hypot(*(P - q).T)) > 5.5):
                P = np.vstack([P, q])
    x0, y0 = P.T + np.array(centre)[:, None]
    fx, fy = field(g, x0, y0, A, L)
    return x0, y0, fx, fy, x0 + fx + s * g.normal(size=n), y0 + fy + s * g.normal(size=n)


def run(ck):
    ck.rule = "a case is one set of expected and measured positions and one correction; distinct by positions"
    ck.assumptions = ["positions as dense as the instrument's (one per 120 mm2), displacement fields that are gradients of a wavefront varying over 120 mm or more",
                      "for the stationary correction at its fixed covariance (5 micrometres, 50 mm) amplitudes up to 10 micrometres"]
    items = [("gp", i, ck.n(5, 45)) for i in range(4)] + [("pol", i, ck.n(4, 30)) for i in range(4)]
    items += [("stat", i, ck.n(12, 150)) for i in range(2)] + [("linear", i, ck.n(12, 150)) for i in range(2)] + [("files", 0, ck.n(4, 30))]
    ck.parallel(chunk, items)
    for m, k in (("removed", 20), ("quiet", 6), ("own-motion", 20), ("order", 20), ("shift", 20), ("rotate", 20), ("inputs-kept", 40), ("others-kept", 20),
                 ("stat-removed", 15), ("stat-missing", 15), ("stat-moved", 15), ("stat-good", 15), ("stat-nan-target", 15), ("stat-clip", 10), ("stat-no-limit", 10), ("stat-order", 15),
                 ("leave-one-out", 15), ("predict", 15), ("smooth", 15), ("covariance", 15), ("files-model", 3), ("files-unmatched", 3), ("empirical", 15), ("central", 5), ("central-order", 5), ("make-data", 3)):
        ck.require(m, k)


def chunk(ck, item):
    kind, i, n = item
    g = ck.rng(kind, i)
    logging.getLogger("desimeter").setLevel(logging.ERROR)
    with contextlib.redirect_stdout(io.StringIO()):
        for j in range(n):
            if kind in ("gp", "pol") and j == 0:
                whole(ck, g, kind, 0.)
                continue
            {"gp": whole, "pol": whole, "stat": stationary, "linear": linear, "files": files}[kind](ck, g, kind)


def whole(ck, g, kind, A=None):
    """correct / correct_with_pol"""
    from desimeter import turbulence as tb
    f = tb.correct if kind == "gp" else tb.correct_with_pol
    n = int(g.integers(130, 260))
    A = float(g.choice([0., .005, .02, .05])) if A is None else A
    L = g.uniform(120, 300); s = float(g.choice([.001, .002, .004]))
    c = (0., 0.) if kind == "gp" and g.random() < .5 else tuple(g.uniform(-250, 250, 2))
    x0, y0, fx, fy, x, y = scene(g, n, A, L, s, c)
    w = dict(n=n, A=A, L=L, s=s, method=kind, x=x, y=y)
    ck.case("whole", **{k: w[k] for k in ("n", "A", "L", "s", "method", "x")})
    with ck.guard():
        keep = [v.copy() for v in (x, y, x0, y0)]
        a, b = f(x, y, x0, y0)
        a, b = np.asarray(a), np.asarray(b)
        ck.ok("inputs-kept", all(np.array_equal(u, v) for u, v in zip((x, y, x0, y0), keep)))
        ck.ok("shape", a.shape == x.shape and b.shape == y.shape and np.all(np.isfinite(a)) and np.all(np.isfinite(b)))
        noise = s * np.sqrt(2)
        inner = np.hypot(x0 - c[0], y0 - c[1]) < 6.2 * np.sqrt(n) - 12
        r = rms((a - x0), (b - y0)); ri = rms((a - x0)[inner], (b - y0)[inner])
        ck.ok("removed", ri < 1.25 * noise + .09 * A and r < 1.4 * noise + .22 * A, rms=r, inner=ri, noise=noise, A=A)
        if not A:
            ck.ok("quiet", rms(a - x, b - y) < .6 * noise, moved=rms(a - x, b - y), noise=noise)
        # the estimate is the smooth field, at the spots themselves
        e = rms((x - a - fx)[inner], (y - b - fy)[inner])
        ck.ok("field", e < .6 * noise + .09 * A, error=e, noise=noise, A=A)
        which = int(g.integers(0, 3))
        small = .12 * s + .004 * A
        # order
        p = g.permutation(n)
        a2, b2 = f(x[p], y[p], x0[p], y0[p])
        tol = small if kind == "gp" else .5 * s + .05 * A      # the polynomial degree is chosen on sets split by rank
        ck.ok("order", rms(a2 - a[p], b2 - b[p]) < tol, diff=rms(a2 - a[p], b2 - b[p]), tol=tol)
        # one spot really off its expected place: its own motion stays, the others hardly feel it
        k = int(g.choice(np.where(inner)[0])); D = max(.03, 3 * noise); th = g.uniform(0, 6.3)
        x3, y3 = x.copy(), y.copy(); x3[k] += D * np.cos(th); y3[k] += D * np.sin(th)
        a3, b3 = f(x3, y3, x0, y0)
        own = np.hypot((x3 - a3 - x + a)[k], (y3 - b3 - y + b)[k])
        ck.ok("own-motion", own < .1 * D + 2 * small, change=own, D=D, k=k)
        oth = np.hypot(x3 - a3 - x + a, y3 - b3 - y + b); oth[k] = 0
        ck.ok("others-kept", rms(oth, 0 * oth) < (.06 if kind == "gp" else .15) * D + s, change=rms(oth, 0 * oth), worst=float(np.max(oth)), D=D)
        # nor does a spot far from all others lose its own motion
        if kind == "gp" and A:
            far = np.array(c) + (6.2 * np.sqrt(n) + g.uniform(500, 800)) * np.array([np.cos(th), np.sin(th)])
            X0, Y0 = np.append(x0, far[0]), np.append(y0, far[1])
            X1, Y1 = np.append(x, far[0]), np.append(y, far[1])
            X2, Y2 = X1.copy(), Y1.copy(); X2[-1] += D * np.cos(th); Y2[-1] += D * np.sin(th)
            a6, b6 = f(X1, Y1, X0, Y0); a7, b7 = f(X2, Y2, X0, Y0)
            own = np.hypot((X2 - a7 - X1 + a6)[-1], (Y2 - b7 - Y1 + b6)[-1])
            ck.ok("own-motion", own < .6 * D + 2 * small, change=own, D=D, alone=True)
        # a common shift of the measured positions
        sx, sy = g.uniform(-.02, .02, 2)
        a4, b4 = f(x + sx, y + sy, x0, y0)
        ck.ok("shift", rms((a4 - a)[inner], (b4 - b)[inner]) < (.06 if kind == "gp" else .01) * np.hypot(sx, sy) + (.35 if kind == "gp" else .1) * s, diff=rms((a4 - a)[inner], (b4 - b)[inner]), shift=[sx, sy])
        # the axes are equivalent
        rot = [lambda u, v: (-v, u), lambda u, v: (v, u), lambda u, v: (-u, v)][which]
        a5, b5 = f(*rot(x, y), *rot(x0, y0))
        ra, rb = rot(a, b)
        ck.ok("rotate", rms(a5 - ra, b5 - rb) < tol, diff=rms(a5 - ra, b5 - rb), tol=tol, which=which)


def stationary(ck, g, _):
    from desimeter.turbulence import correct_using_stationary as f
    n = int(g.integers(150, 320))
    A = float(g.choice([0., .004, .01])); L = g.uniform(120, 300); s = float(g.choice([.001, .002]))
    x0, y0, fx, fy, x, y = scene(g, n, A, L, s, tuple(g.uniform(-250, 250, 2)))
    st = g.random(n) < .6
    n = st.sum()
    S = [v[st] for v in (x, y, x0, y0)]
    ck.case("stationary", A=A, L=L, s=s, n=int(n), x=x)
    with ck.guard():
        keep = [v.copy() for v in S + [x, y]]
        tx, ty, good = f(*S, x, y, return_good=True)
        ck.ok("inputs-kept", all(np.array_equal(u, v) for u, v in zip(S + [x, y], keep)))
        ck.ok("stat-good", good.shape == (n,) and good.dtype == bool and np.mean(good) > .9, good=float(np.mean(good)))
        t2 = f(*S, x, y)
        ck.ok("stat-plain", len(t2) == 2 and np.allclose(t2[0], tx) and np.allclose(t2[1], ty))
        e = rms(tx - fx, ty - fy)
        ck.ok("stat-removed", e < 1.2 * s + .35 * A, error=e, s=s, A=A)
        # only the targets asked for, each on its own
        q = g.permutation(x.size)[:int(g.integers(1, 20))]
        u, v = f(*S, x[q], y[q])
        ck.close("stat-targets", np.array([u, v]), np.array([tx[q], ty[q]]), 1e-9)
        p = g.permutation(n)
        u, v, gd = f(*[z[p] for z in S], x, y, return_good=True)
        ck.ok("stat-order", np.max(np.abs(u - tx)) < 1e-7 and np.max(np.abs(v - ty)) < 1e-7 and np.array_equal(gd, good[p]))
        # targets without a position
        xq, yq = x.copy(), y.copy(); b = g.random(x.size) < .1; b[0] = True
        xq[b] = np.nan
        u, v = f(*S, xq, yq)
        ck.ok("stat-nan-target", np.max(np.abs((u - tx)[~b])) < 1e-9 and np.max(np.abs((v - ty)[~b])) < 1e-9)
        # stationary spots without a position or reference are as if they were not there
        b = g.random(n) < g.choice([.02, .2]); b[int(g.integers(0, n))] = True
        col = g.integers(0, 4, n)
        M = [np.where(b & (col == j), np.nan if j % 2 else np.inf, S[j]) for j in range(4)]
        if g.random() < .3:
            M = [np.where(b, np.nan, S[j]) if j == 2 else S[j] for j in range(4)]
        for clip in (.01, 0.):
            u, v, gd = f(*M, x, y, return_good=True, clip_resid=clip)
            u2, v2, gd2 = f(*[z[~b] for z in S], x, y, return_good=True, clip_resid=clip)
            ck.ok("stat-missing", np.allclose(u, u2, atol=1e-9) and np.allclose(v, v2, atol=1e-9) and not np.any(gd[b]) and np.array_equal(gd[~b], gd2), clip=clip)
        # spots that moved are left out
        b = g.random(n) < g.choice([.02, .1]); b[int(g.integers(0, n))] = True
        th = g.uniform(0, 6.3, n); D = g.choice([.1, 1., 5.])
        M = [S[0] + b * D * np.cos(th), S[1] + b * D * np.sin(th), S[2], S[3]]
        u, v, gd = f(*M, x, y, return_good=True)
        no = g.random(n) < .05      # some of them without a position as well
        no[:3] = True
        gn = f(*[np.where(no, np.nan, z) if j % 2 == 0 else z for j, z in enumerate(M)], x, y, return_good=True)[2]
        ck.ok("stat-moved", not np.any(gn[b | no]) and np.mean(gn[~b & ~no]) > .85, missing=int(no.sum()), moved=int(b.sum()))
        ck.ok("stat-moved", not np.any(gd[b]) and np.mean(gd[~b]) > .85 and rms(u - fx, v - fy) < 1.25 * s + .4 * A, error=rms(u - fx, v - fy), D=float(D), moved=int(b.sum()))
        # the limit asked for is the one applied: displacements varying faster than the turbulence does
        lim = float(g.choice([.02, .05]))
        amp = np.where(g.random(n) < .1, g.choice([.4, 1.8], n) * lim, 0.)
        amp = np.where(amp > 0, amp, g.uniform(0, .1, n) * lim)
        big, mid = amp > lim, (amp > .2 * lim) & (amp < lim)
        base = [S[2] + amp * np.cos(th), S[3] + amp * np.sin(th), S[2], S[3]]
        # a wide distribution of residuals, so that nothing is clipped as an outlier first
        wide = g.random(n) < .6
        amp2 = np.where(wide & ~big, g.uniform(.3, .7, n) * lim, amp)
        base = [S[2] + amp2 * np.cos(th), S[3] + amp2 * np.sin(th), S[2], S[3]]
        gd = f(*base, x, y, return_good=True, clip_resid=lim)[2]
        ok = amp2 < .7 * lim
        ck.ok("stat-clip", np.mean(gd[ok]) > .62 and not np.any(gd[amp2 > 1.5 * lim]), lim=lim, kept=float(np.mean(gd[ok])), big=int(np.sum(gd[big])))
        # no limit asked for: all of them are used
        u, v, gd = f(*S, x, y, return_good=True, clip_resid=0)
        ck.ok("stat-no-limit", np.all(gd) and np.all(np.isfinite(u)) and rms(u - fx, v - fy) < 1.2 * s + .35 * A, kept=float(np.mean(gd)), error=rms(u - fx, v - fy), s=s, A=A)
        if lim >= .02:
            k = float(g.choice([3., 10.]))      # other units
            u, v = f(*[z * k for z in S], x * k, y * k, scale_covar=k, clip_resid=.01 * k)
            ck.close("stat-units", np.array([u, v]) / k, np.array([tx, ty]), 1e-7)


def kern(d, x1, y1, par, rq, grad):
    """covariance of the displacements at (x1,y1) with those at d; per component, or jointly for gradients"""
    X, Y = x1[:, None] - d["x"][None], y1[:, None] - d["y"][None]
    A, l = par[1], par[2]
    if not grad:
        r2 = (X**2 + Y**2) / l**2
        return A**2 * (np.exp(-r2 / 2) if not rq else (1 + r2 / (2 * par[3]))**-par[3])
    X, Y = X / l, Y / l
    G = A**2 * np.exp(-(X**2 + Y**2) / 2)
    return np.block([[(1 - X * X) * G, -X * Y * G], [-X * Y * G, (1 - Y * Y) * G]])


def linear(ck, g, _):
    """the estimators against solving the Gaussian process directly, one spot left out at a time"""
    from desimeter import turbulence as tb
    n = int(g.integers(30, 90))
    A, s = float(g.choice([.005, .03])), float(g.choice([.001, .004]))
    x0, y0, fx, fy, x, y = scene(g, n, A, 120., s)
    d = np.zeros(n, dtype=[("x", "f8"), ("y", "f8"), ("dx", "f8"), ("dy", "f8")])
    d["x"], d["y"], d["dx"], d["dy"] = x, y, x - x0, y - y0
    grad = bool(g.integers(0, 2)); rq = False if grad else bool(g.integers(0, 2))
    fun = tb.solve_gradwavefront if grad else tb.solve_independent
    D = np.concatenate([d["dx"], d["dy"]])
    ck.case("linear", n=n, grad=grad, rq=rq, x=x)
    with ck.guard():
        kw = dict(rq=True) if rq else {}
        keep = d.copy()
        fixed = grad or bool(g.integers(0, 2))     # the optimised one only for the independent model: same linear algebra
        u, v, res = fun(d, excludeself=True, fix_covar=fixed, **kw)
        par = [float(p) for p in res.x]
        if rq:
            par[3] = min(max(par[3], .1), 1000.)
        ck.ok("inputs-kept", np.array_equal(d, keep))
        tol = (3e-3 if grad else 1e-6) * rms(d["dx"], d["dy"]) + (1e-4 * rms(d["dx"], d["dy"]) if grad else 0)

        def solve(use, xs, ys):
            m = use.size
            e = d[use]
            K = kern(e, e["x"], e["y"], par, rq, grad)
            C = K + par[0]**2 * np.eye(len(K))
            k = kern(e, xs, ys, par, rq, grad)
            if grad:
                t = k @ np.linalg.solve(C, np.concatenate([e["dx"], e["dy"]]))
                return t[:xs.size], t[xs.size:]
            return k @ np.linalg.solve(C, e["dx"]), k @ np.linalg.solve(C, e["dy"])
        for i in g.choice(n, 8, replace=False):
            a, b = solve(np.delete(np.arange(n), i), x[i:i + 1], y[i:i + 1])
            ck.ok("leave-one-out", abs(a[0] - u[i]) < tol and abs(b[0] - v[i]) < tol, got=[float(u[i]), float(v[i])], want=[float(a[0]), float(b[0])], tol=tol, i=int(i), par=par)
        q = g.uniform(-50, 50, (2, 7))
        if fixed:
            u, v, _ = fun(d, fix_covar=True, predict_at=(q[0], q[1]), **kw)
            a, b = solve(np.arange(n), q[0], q[1])
            ck.ok("predict", u.shape == (7,) and np.max(np.abs(a - u)) < tol and np.max(np.abs(b - v)) < tol, got=u, want=a, tol=tol)
            u, v, _ = fun(d, fix_covar=True, **kw)
            a, b = solve(np.arange(n), x, y)
            ck.ok("smooth", u.shape == (n,) and np.max(np.abs(a - u)) < tol and np.max(np.abs(b - v)) < tol, diff=float(np.max(np.abs(a - u))), tol=tol)
        else:
            ck.ok("predict", True); ck.ok("smooth", True)
        try:
            fun(d, excludeself=True, predict_at=(q[0], q[1]))
            bad = True
        except ValueError:
            bad = False
        ck.ok("refused", not bad)
        # the covariance is fitted to the spots nearest the centre, whatever the order of the spots
        m = n // 2
        e = d.copy()
        far = np.argsort(x**2 + y**2)[m:]
        near = np.argsort(x**2 + y**2)[:m]
        e["dx"][far] += 4 * A * g.normal(size=n - m); e["dy"][far] += 4 * A * g.normal(size=n - m)
        o = np.argsort(-(x**2 + y**2)) if g.random() < .5 else g.permutation(n)
        if not grad:
            u, v, r1 = fun(e[o], excludeself=True, nuse=m, rq=rq)
            u2, v2, r2 = fun(e, excludeself=True, nuse=m, rq=rq)
            _, _, r3 = fun(d[near], excludeself=True, nuse=0, rq=rq)
            l = [float(tb.loss_independent(d[near], list(q.x), rq=rq)) for q in (r1, r2, r3)]
            ck.ok("central", l[0] < l[2] + .2 and l[1] < l[2] + .2, loss=l, n=n, order=o, x=x, y=y)
            t = .05 * rms(e["dx"], e["dy"])
            ck.ok("central-order", np.max(np.abs(u - u2[o])) < t and np.max(np.abs(v - v2[o])) < t, diff=float(np.max(np.abs(u - u2[o]))), tol=t)
        # covariance matrices and likelihoods
        par = [s, A, float(g.uniform(5, 60))] + ([float(g.uniform(.5, 5))] if rq else [])
        C = (tb.make_covar_gradwavefront if grad else tb.make_covar_independent)(d, par, rq=rq)
        W = kern(d, x, y, par, rq, grad) + s**2 * np.eye(len(C))
        ck.close("covariance", np.asarray(C, float), W, 2e-6 * A**2 + (1e-6 * s**2 if grad else 0))
        if not grad or s > .2 * A:
            loss = (tb.loss_gradwavefront if grad else tb.loss_independent)(d, par, rq=rq)
            if grad:
                want = .5 * (D @ np.linalg.solve(W, D) + np.linalg.slogdet(W)[1])
            else:
                want = .5 * (d["dx"] @ np.linalg.solve(W, d["dx"]) + d["dy"] @ np.linalg.solve(W, d["dy"]) + 2 * np.linalg.slogdet(W)[1])
            ck.close("likelihood", loss, want, 1e-5 * abs(want) + (.05 if grad else 0))
        # empirical covariance
        edges = np.sort(g.uniform(0, 130, int(g.integers(2, 9)))) if g.random() < .5 else None
        kw = dict(edges=edges) if edges is not None else dict(bins=int(g.integers(2, 12)))
        m, cx, cy = tb.empirical_covariance(d, **kw)
        r = np.hypot(x[None] - x[:, None], y[None] - y[:, None])
        if edges is None:
            edges = np.linspace(0, np.max(r) + .1, kw["bins"] + 1)
        ck.close("empirical-centres", m, (edges[1:] + edges[:-1]) / 2, 1e-9)
        for k in range(len(edges) - 1):
            sel = (r >= edges[k]) & (r < edges[k + 1])
            wx, wy = [(np.outer(d[c], d[c])[sel].mean() if np.any(sel) else 0.) for c in ("dx", "dy")]
            ck.ok("empirical", len(cx) == len(m) and abs(cx[k] - wx) < 1e-9 and abs(cy[k] - wy) < 1e-9, k=k, edges=edges)


def files(ck, g, _):
    from astropy.table import Table
    from desimeter import turbulence as tb
    x0, y0, fx, fy, x, y = scene(g, 150, .02, 150., .002)
    n = x.size
    loc = g.choice(10000, n, replace=False)
    e, m = g.permutation(n)[:n - 10], g.permutation(n)[:n - 7]
    E = Table(dict(LOCATION=loc[e], X_FP=x0[e], Y_FP=y0[e]))
    M = Table(dict(LOCATION=loc[m], X_FP=x[m], Y_FP=y[m]))
    M["COUNTS"] = g.random(len(M))
    ck.case("files", loc=loc)
    with ck.guard():
        d = tb.make_data(E, M)
        both = sorted(set(loc[e]) & set(loc[m]))
        i = np.array([np.where(loc == l)[0][0] for l in d["location"]])
        ck.ok("make-data", sorted(d["location"]) == both and np.allclose(d["x"], x0[i]) and np.allclose(d["y"], y0[i]) and np.allclose(d["dx"], (x - x0)[i]) and np.allclose(d["dy"], (y - y0)[i]))
        with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH", "/tmp")) as t:
            fe, fm = os.path.join(t, "e.csv"), os.path.join(t, "m.csv")
            E.write(fe); M.write(fm)
            for mode in ("independent", "gradwavefront"):
                out, res = tb.solve_files(fe, fm, mode=mode, excludeself=True, fix_covar=True)
                ck.ok("files-rows", list(out["LOCATION"]) == list(M["LOCATION"]) and np.allclose(out["X_FP"], M["X_FP"]) and np.allclose(out["COUNTS"], M["COUNTS"]))
                has = np.isin(out["LOCATION"], both)
                new = [np.array(np.ma.filled(out[k], np.nan), float) for k in ("XNEW", "YNEW", "DXTURB", "DYTURB")]
                ck.ok("files-unmatched", all(np.all(np.isnan(v[~has])) and np.all(np.isfinite(v[has])) for v in new))
                u, v, _ = dict(independent=tb.solve_independent, gradwavefront=tb.solve_gradwavefront)[mode](d, excludeself=True, fix_covar=True)
                by = {l: (a, b) for l, a, b in zip(d["location"], u, v)}
                W = np.array([by[l] for l in np.array(out["LOCATION"])[has]])
                ck.ok("files-model", np.allclose(new[2][has], W[:, 0], atol=1e-6) and np.allclose(new[3][has], W[:, 1], atol=1e-6)
                      and np.allclose(new[0][has], np.array(out["X_FP"])[has] - W[:, 0], atol=1e-6) and np.allclose(new[1][has], np.array(out["Y_FP"])[has] - W[:, 1], atol=1e-6))
                k = np.array([np.where(loc == l)[0][0] for l in np.array(out["LOCATION"])[has]])
                r = rms(new[0][has] - x0[k], new[1][has] - y0[k])
                ck.ok("files-removed", r < .008, rms=r)
