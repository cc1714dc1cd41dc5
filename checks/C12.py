"""Directed angle differences: rule-by-rule oracle."""
import numpy as np


def oracle(u0, u1, d):
    """value by value, from the documented rules"""
    n = u1 - u0
    s = np.sign(n)
    if d == 0 or d == s:
        return n
    if n % 360 == 0:
        return abs(n) * d
    m = n % 360          # in (0, 360)
    return m if d > 0 else m - 360


def angle(g):
    k = int(g.integers(0, 6))
    if k == 0:
        return float(g.choice([0, 90, 180, -180, 179, -179, 360, 720, -360, 400, 800, 185, -185]))
    if k == 1:
        return float(g.integers(-800, 800))
    if k == 2:
        return float(g.choice([0., 180., 360.]) + g.choice([-1, 1]) * 10.0 ** int(g.integers(-9, -1)))
    return float(g.uniform(-1500, 1500) if k == 3 else g.uniform(-200, 200))


def shape(g, v):
    """present values as scalar / list / tuple / array"""
    if len(v) == 1:
        return [lambda: v[0], lambda: [v[0]], lambda: np.array(v), lambda: (v[0],), lambda: np.float64(v[0])][int(g.integers(0, 5))]()
    return [lambda: list(v), lambda: tuple(v), lambda: np.array(v)][int(g.integers(0, 3))]()


def run(ck):
    from desimeter.transform.pos2ptl import delta_angle
    ck.rule = "a case is one call with its start, final and direction arguments; distinct by values and shapes"
    ck.assumptions = ["a near-exact turn (to rounding) may be treated as an exact one"]
    g = ck.rng("main")
    for i in range(ck.n(20000, 400000)):
        n = int(g.choice([1, 1, 2, 3, 4, 5, 20]))
        a = [angle(g) for _ in range(n)]
        b = [angle(g) for _ in range(n)]
        if g.random() < .2:
            b = [u + 360 * int(g.integers(-3, 4)) for u in a]
        if g.random() < .1:
            a, b = [int(u) for u in a], [int(u) for u in b]
        dirs = [int(v) for v in g.integers(-1, 2, n)]
        if g.random() < .1:
            dirs = [v * int(g.integers(1, 5)) for v in dirs]
        # scalar/vector mixes
        mix = g.integers(0, 2, 3) if n > 1 else (1, 1, 1)
        A, B, D = (a if mix[0] else a[:1], b if mix[1] else b[:1], dirs if mix[2] else dirs[:1])
        args = [shape(g, v) for v in (A, B, D)]
        form = [str(type(v).__name__) for v in args]
        ck.case("call", a=A, b=B, d=D, form=form)
        keep = [np.array(v).copy() for v in args]
        w = dict(start=A, final=B, direction=D, form=form)
        N = max(len(A), len(B), len(D))
        bc = lambda v: np.broadcast_to(np.array(v, float), (N,)) if len(v) == 1 else np.array(v, float)
        ea, eb, ed = bc(A), bc(B), np.sign(bc(D))
        with ck.guard("delta_angle", **w):
            if not any(D) and g.random() < .5:
                r = delta_angle(args[0], args[1])
                N = max(len(A), len(B))
                ea, eb, ed = ea[:N], eb[:N], ed[:N]
            elif g.random() < .5:
                r = delta_angle(u_start=args[0], u_final=args[1], direction=args[2])
            else:
                r = delta_angle(*args)
            r = np.asarray(r, float)
            ck.ok("shape", r.shape == (N,), got=r.shape, **w)
            nat = eb - ea
            q = (r - nat) / 360
            ck.close("congruent", q, np.round(q), 1e-9, **w)
            exp = np.array([oracle(x, y, d) for x, y, d in zip(ea, eb, ed)])
            # values a rounding error away from an exact turn may fall on either side
            near = np.abs(nat / 360 - np.round(nat / 360)) < 1e-12
            judge = ~near | (nat % 360 == 0)
            ck.close("value", r[judge], exp[judge], 1e-9, **w)
            ck.ok("sign", np.all(r[ed > 0] >= 0) and np.all(r[ed < 0] <= 0), got=r, **w)
            ck.close("no-direction", r[ed == 0], nat[ed == 0], 0, **w)
            opp = (ed != 0) & (np.sign(nat) != ed) & (nat % 360 != 0)
            ck.ok("below-turn", np.all(np.abs(r[opp]) <= 360), got=r, **w)
            ck.count("opposite", int(opp.sum()))
            ck.ok("inputs-kept", all(np.array_equal(k, np.array(v)) for k, v in zip(keep, args)), **w)
            # anti-symmetry: swapping ends and direction flips the sign
            s = np.asarray(delta_angle(args[1], args[0], -np.array(D)), float)
            ex2 = np.array([oracle(y, x, -d) for x, y, d in zip(ea, eb, np.sign(bc(D))[:N])])
            ck.close("swap", s[:N][judge], ex2[judge], 1e-9, **w)
    ck.require("value", 10000)
    ck.require("below-turn", 10000)
