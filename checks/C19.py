"""Field rotation, its rate, and sidereal time."""
import numpy as np
from vlib import ref

# telescope-reported sidereal times quoted in time.py and known to the instrument team
TCS = [(58789.135177, (22 + 32 / 60. + 4.726 / 3600.) * 15.), (58865.540489, (13 + 16 / 60. + 57.957 / 3600.) * 15.)]


def gmst_deg(mjd):
    """IAU 1982 mean sidereal time at Greenwich"""
    T = (mjd - 51544.5) / 36525.
    d = np.floor(mjd)
    T0 = (d - 51544.5) / 36525.
    g0 = 24110.54841 + 8640184.812866 * T0 + 0.093104 * T0 ** 2 - 6.2e-6 * T0 ** 3
    ratio = 1.002737909350795 + 5.9006e-11 * T0
    return (g0 / 240. + (mjd - d) * 360. * ratio) % 360.


def wrap(a):
    return (np.asarray(a) + 180.) % 360. - 180.


def cubic(ra, dec, lst):
    h = wrap(np.asarray(lst, float) - np.asarray(ra, float))
    x, y = h / 60., (np.asarray(dec, float) - 30) / 30.
    c = {(0, 0): -0.447, (1, 0): 0.065, (0, 1): -0.067, (2, 0): 0.382, (1, 1): 0.021, (0, 2): -0.121, (3, 0): -0.031, (2, 1): 0.196, (1, 2): 0.096, (0, 3): -0.043}
    r = sum(v * x ** i * y ** j for (i, j), v in c.items())
    return np.clip(r, -1.5, 1.5)


def run(ck):
    ck.rule = "a case is one pointing/date (field rotation), one batch of pointings (rates) or one batch of dates (sidereal time); distinct by values"
    ck.assumptions = ["reference: independent sky chain of vlib/ref.py, inverted numerically; rate polynomial coefficients as published (S. Kent, 2022-09-14)",
                      "sidereal time: IAU 1982 mean sidereal time at longitude -111.59989 deg with the constant of the telescope's own clock (-0.16035 deg); UT1-UTC neglected"]
    ck.parallel(rotation, [(i, ck.n(40, 900)) for i in range(8)])
    rates(ck)
    lst(ck)
    for m, k in (("fieldrot", 250), ("physical-rate", 60), ("empirical-rate", 200), ("rate-batching", 200), ("lst", 100), ("lst-range", 100), ("lst-rate", 50), ("lst-tcs", 2), ("rejected", 10)):
        ck.require(m, k)


def rotation(ck, item):
    from desimeter.fieldmodel import fieldrot, dfieldrotdt_physical_model
    c, n = item
    g = ck.rng("rot", c)
    k = 0
    while k < n:
        ha, dec = g.uniform(-75, 75), g.uniform(-30, 85)
        if k % 7 == 0:
            ha = float(g.choice([0., 1e-8, -1e-8, 30.]))
        if ref.alt_of(ref.unit(ha, dec)) < 18:
            continue
        k += 1
        mjd, l = float(g.uniform(50000, 66000)), float(g.uniform(0, 360))
        if g.random() < .2:
            l = float(wrap(ha + g.choice([0, .1, -.1])))
        ra = float((l - ha) % 360.) if g.random() < .7 else float(l - ha + 360 * g.integers(-1, 2))
        hx = float(g.choice([0., g.uniform(-1, 1), g.uniform(-30, 30)]))
        ck.case("fieldrot", ra=ra, dec=dec, mjd=mjd, lst=l, hexrot=hx)
        w = dict(ra=ra, dec=dec, mjd=mjd, lst=l, hexrot=hx)
        t = 1 / max(np.cos(np.radians(dec)), .05)
        with ck.guard("fieldrot", **w):
            got = fieldrot(ra=ra, dec=dec, mjd=mjd, lst_deg=l, hexrot_deg=hx)
            want = ref.fieldrot(ra, dec, mjd, l, hx)
            ck.close("fieldrot", got, want, 2e-5 * t, **w)
            ck.close("wraps", fieldrot(ra + 360., dec, mjd, l, hx), got, 1e-7 * t, **w)
            ck.close("wraps", fieldrot(ra, dec, mjd, l - 360., hx), got, 1e-7 * t, **w)
            if k % 3 == 0:
                r = dfieldrotdt_physical_model(ra, dec, mjd, l)
                q = 3600 * (ref.fieldrot(ra, dec, mjd, l + .25, 0.) - ref.fieldrot(ra, dec, mjd, l, 0.))
                ck.close("physical-rate", r, q, 0.002 * t, **w)


def rates(ck):
    from desimeter.fieldmodel import dfieldrotdt_empirical_model, dfieldrotdt
    g = ck.rng("rates")
    for k in range(ck.n(500, 8000)):
        sh = [(), (1,), (5,), (3, 4), (200,)][int(g.integers(0, 5))]
        S = []
        for lo, hi in ((-360, 720), (-90, 90), (-360, 720)):
            s = sh if g.random() < .7 else ()
            v = g.uniform(lo, hi, s)
            if g.random() < .2:
                v = np.round(v / 30) * 30
            S.append(float(v) if s == () else v)
        if g.random() < .5:      # inside the fitted domain
            S[0] = S[2] + g.uniform(-60, 60, np.shape(S[0]) if np.shape(S[2]) in ((), np.shape(S[0])) else np.shape(S[2]))
            if np.shape(S[0]) == ():
                S[0] = float(S[0])
        ra, dec, l = S
        h = wrap(np.asarray(l) - np.asarray(ra))
        if np.any(np.abs(np.abs(h) - 180) < 1e-6):
            continue
        ck.case("rates", ra=ra, dec=dec, lst=l)
        keep = [np.copy(v) for v in S]
        want = cubic(ra, dec, l)
        shape = np.broadcast_shapes(np.shape(ra), np.shape(dec), np.shape(l))
        with ck.guard("rates", ra=ra, dec=dec, lst=l):
            got = dfieldrotdt_empirical_model(ra, dec, l)
            ck.ok("shape", np.shape(got) == shape or np.size(got) == int(np.prod(shape)), got=np.shape(got), want=shape)
            ck.close("empirical-rate", np.reshape(got, shape), want, 1e-9, ra=ra, dec=dec, lst=l)
            ck.close("rate-dispatch", np.reshape(dfieldrotdt(ra, dec, float(g.uniform(50000, 60000)), l), shape), want, 1e-9)
            B = [np.broadcast_to(v, shape).ravel() for v in S]
            one = [dfieldrotdt_empirical_model(float(a), float(b), float(c)) for a, b, c in list(zip(*B))[:12]]
            ck.close("rate-batching", one, np.ravel(want)[:12], 1e-9, ra=ra, dec=dec, lst=l)
            ck.ok("inputs-kept", all(np.array_equal(a, b) for a, b in zip(keep, S)))
    for dec in (90.001, -90.5, 120., np.array([10., -91.]), np.array([[20., 200.]])):
        for ra in (0., np.zeros(np.shape(dec))):
            try:
                r = dfieldrotdt_empirical_model(ra, dec, 10.)
                ck.ok("rejected", False, dec=dec, got=r)
            except ValueError:
                ck.ok("rejected", True)


def lst(ck):
    from desimeter.time import mjd2lst
    g = ck.rng("lst")
    for k in range(ck.n(300, 5000)):
        sh = [(), (1,), (50,), (4, 5)][k % 4]
        m = g.uniform(44000, 69000, sh)
        if k % 5 == 0:
            m = np.round(m)
        m = float(m) if sh == () else m
        ck.case("lst", mjd=m)
        with ck.guard("lst", mjd=m):
            s = mjd2lst(m)
            ck.ok("lst-range", np.shape(s) == sh and np.all(np.asarray(s) >= 0) and np.all(np.asarray(s) < 360), mjd=m)
            want = gmst_deg(np.asarray(m)) - 111.59989 - 0.16035388
            ck.close("lst", wrap(np.asarray(s) - want) * 3600, 0, 2.0, mjd=m)
            dt = g.uniform(0, 1, sh)
            adv = wrap(np.asarray(mjd2lst(m + dt)) - np.asarray(s) - 360.98564737 * dt) * 3600
            ck.close("lst-rate", adv, 0, 0.01, mjd=m)
            if sh != ():
                ck.close("lst-batching", wrap([mjd2lst(float(v)) for v in np.ravel(m)[:5]] - np.ravel(s)[:5]), 0, 1e-9)
    for m, s in TCS:
        ck.case("tcs", mjd=m)
        ck.close("lst-tcs", wrap(mjd2lst(m) - s) * 3600, 0, 5.0, mjd=m)
