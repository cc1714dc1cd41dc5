"""Two-arm inverse kinematics against an independent enumeration of all solutions."""
import math
import numpy as np


def solutions(x, y, r1, r2, ranges, m=0.0):
    """all in-range (theta, phi) reaching x,y; elbow = circle-circle intersection.  m: margin on the ranges"""
    d2 = x * x + y * y
    d = math.sqrt(d2)
    out = []
    if d == 0:
        return out
    a = (d2 + r1 * r1 - r2 * r2) / (2 * d)
    h2 = r1 * r1 - a * a
    if h2 < 0:
        return out
    h = math.sqrt(h2)
    for s in (1, -1):
        ex, ey = (a * x - s * h * y) / d, (a * y + s * h * x) / d
        t = math.degrees(math.atan2(ey, ex))
        p = math.degrees(math.atan2(y - ey, x - ex)) - t
        (tmin, tmax), (pmin, pmax) = sorted(ranges[0]), sorted(ranges[1])
        for i in range(-4, 5):
            T = t + 360 * i
            if not tmin + m <= T <= tmax - m:
                continue
            for j in range(-4, 5):
                Q = p + 360 * j
                if pmin + m <= Q <= pmax - m:
                    out.append((T, Q))
    return out


def fwd(t, p, r1, r2):
    t, p = math.radians(t), math.radians(p)
    return r1 * math.cos(t) + r2 * math.cos(t + p), r1 * math.sin(t) + r2 * math.sin(t + p)


def ranges_of(g):
    k = int(g.integers(0, 6))
    if k <= 1:
        o, q = g.uniform(-180, 180), g.uniform(-20, 20)
        R = [[-180 + o, 180 + o], [-20 + q, 200 + q]]
    elif k == 2:
        o = g.uniform(-180, 180)
        R = [[-195 + o, 195 + o], [-10., 190.]]
    elif k == 3:
        a = g.uniform(-500, 300)
        b = g.uniform(-300, 200)
        R = [[a, a + g.uniform(20, 700)], [b, b + g.uniform(20, 350)]]
    elif k == 4:
        R = [[-180., 180.], [0., 180.]]
    else:
        o = g.uniform(-180, 180)
        R = [[-200 + o, 200 + o], [-200., 200.]]
    if g.random() < .1:
        R = [R[0][::-1], R[1][::-1]]
    return [[float(v) for v in r] for r in R]


def arms(g):
    k = int(g.integers(0, 4))
    if k == 0:
        return 3.0, 3.0
    if k == 1:
        return float(3 + g.normal() * .05), float(3 + g.normal() * .05)
    return float(g.uniform(.5, 8)), float(g.uniform(.5, 8))


def run(ck):
    ck.rule = "a case is one call (target, arms, ranges, guess); distinct by those values"
    ck.assumptions = ["arm lengths 0.5-8 mm, theta range width < 720 deg; targets closer than 1e-6 deg to a range edge or to a tie of two solutions are not judged for choice"]
    n = ck.n(72000, 1500000)
    ck.parallel(chunk, [(i, n // 12) for i in range(12)])
    for m, k in (("in-range", 5000), ("forward", 5000), ("reachable-reported", 3000), ("unreachable-reported", 1000), ("closest-approach", 500), ("guess", 2000), ("guess-wrapped", 50), ("guess-reflected", 200)):
        ck.require(m, k)


def chunk(ck, item):
    from desimeter.transform.xy2tp import xy2tp, tp2xy
    c, n = item
    g = ck.rng("chunk", c)
    for _ in range(n):
        r1, r2 = arms(g)
        R = ranges_of(g)
        (tmin, tmax), (pmin, pmax) = sorted(R[0]), sorted(R[1])
        k = int(g.integers(0, 7))
        if k <= 3:      # reachable by construction
            T = float(g.uniform(tmin, tmax))
            P = float(g.uniform(pmin, pmax)) if k < 3 else float(min(max(g.choice([0., 180., 1e-7, 179.999999, 90.]), pmin), pmax))
            x, y = fwd(T, P, r1, r2)
        elif k == 4:
            x, y = g.uniform(-1.2, 1.2, 2) * (r1 + r2)
        elif k == 5:
            q = g.uniform(-np.pi, np.pi)
            h = float(g.choice([r1 + r2, abs(r1 - r2), (r1 + r2) * (1 + 10 ** g.uniform(-9, 0)), abs(r1 - r2) * g.uniform(0, 1), (r1 + r2) * (1 - 10 ** g.uniform(-9, -1))]))
            x, y = h * np.cos(q), h * np.sin(q)
        else:
            x, y = [(0., r1), (r1, 0.), (-r1, 0.), (0., -r1), (0., 0.), (0., r1 + r2 + 1)][int(g.integers(0, 6))]
        x, y = float(x), float(y)
        kw, guess, tol = {}, None, 30.0
        if g.random() < .6:
            sols = solutions(x, y, r1, r2, R)
            if sols and g.random() < .8:
                guess = sols[int(g.integers(0, len(sols)))][0] + float(g.choice([0., g.normal() * 3, g.uniform(-45, 45)]))
            else:
                guess = float(g.uniform(tmin - 100, tmax + 100))
            kw["t_guess"] = guess
            if g.random() < .5:
                tol = float(g.choice([1., 5., 60., 400.]))
                kw["t_guess_tol"] = tol
        ck.case("target", x=x, y=y, r=(r1, r2), R=R, kw=kw)
        w = dict(x=x, y=y, r1=r1, r2=r2, ranges=R, **kw)
        with ck.guard("xy2tp", **w):
            (t, p), un = xy2tp([x, y], [r1, r2], R, **kw)
            ck.ok("in-range", tmin - 1e-9 <= t <= tmax + 1e-9 and pmin - 1e-9 <= p <= pmax + 1e-9, t=t, p=p, **w)
            fx, fy = tp2xy([t, p], [r1, r2])
            ck.close("tp2xy", [fx, fy], fwd(t, p, r1, r2), 1e-12, t=t, p=p, **w)
            d = math.hypot(fx - x, fy - y)
            if not un:
                ck.close("forward", d, 0, 1e-6, t=t, p=p, **w)
            inner = solutions(x, y, r1, r2, R, 1e-6)
            h = math.hypot(x, y)
            if any(1e-6 < q < 180 - 1e-6 for _, q in inner) and abs(r1 - r2) + 1e-6 < h < r1 + r2 - 1e-6:
                ck.ok("reachable-reported", not un, sols=inner, **w)
            e = 1e-9 * (r1 + r2)
            if h > r1 + r2 + e or h < abs(r1 - r2) - e:
                ck.ok("unreachable-reported", un, **w)
                # nearest point: arms straight (phi=0) or folded (phi=180), theta towards/away from the target
                if h > 0:
                    a = math.degrees(math.atan2(y, x))
                    if h > r1 + r2:
                        T, P = a, 0.
                    else:
                        T, P = (a if r1 >= r2 else a + 180), 180.
                    okT = any(tmin + 1e-4 < T + 360 * i < tmax - 1e-4 for i in range(-4, 5))
                    okP = pmin + 1e-4 < P < pmax - 1e-4
                    if okT and okP and guess is None and abs(r1 - r2) > 1e-3:
                        best = h - (r1 + r2) if h > r1 + r2 else abs(r1 - r2) - h
                        ck.close("closest-approach", d, best, 1e-6, **w)
            elif not solutions(x, y, r1, r2, R, -1e-6) and h > 1e-6 and abs(r1 - r2) + 1e-6 < h < r1 + r2 - 1e-6:
                ck.ok("unreachable-reported", un, t=t, p=p, **w)
            if guess is not None and inner and abs(r1 - r2) + 1e-6 < h < r1 + r2 - 1e-6:
                loose = solutions(x, y, r1, r2, R, -1e-6)
                dl = sorted(abs(s[0] - guess) for s in loose)
                best = min(inner, key=lambda s: abs(s[0] - guess))
                db = abs(best[0] - guess)
                others = [v for v in (abs(s[0] - guess) for s in loose) if abs(v - db) > 1e-9]
                if db < tol - 1e-6 and dl[0] > db - 1e-9 and (not others or min(others) > db + 1e-6):
                    same = [s for s in loose if abs(abs(s[0] - guess) - db) < 1e-9]
                    if len({round(s[0], 6) for s in same}) == 1:
                        ck.ok("guess", not un, want=best, **w)
                        ck.close("guess", t, best[0], 1e-5, p=p, want=best, **w)
                        if best[1] % 360 > 180:
                            ck.ok("guess-reflected", True)
                        if abs(best[0]) > 180:
                            ck.ok("guess-wrapped", True)
