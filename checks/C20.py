"""Fibre assignment sky <-> focal plane."""
import numpy as np
from vlib import ref

PM_LAT = 31.9634


def adc_of(ha, dec):
    """PlateMaker's ADC angles from hour angle and declination"""
    h = ref.unit(np.array(float(ha)), np.array(float(dec)))
    p = np.radians(PM_LAT)
    zen = np.array([np.cos(p), 0, np.sin(p)])
    zd = np.degrees(np.arctan2(np.linalg.norm(np.cross(h, zen)), h @ zen))
    # parallactic angle: from the direction of the pole to the zenith
    _, west, north = ref.axes(ha, dec)
    psi = np.degrees(np.arctan2(-(zen @ west), zen @ north))
    t = np.tan(np.radians(min(zd, 60.)))
    d = np.degrees(2 * (-0.0183 - 0.3795 * t - 0.1939 * t ** 2))
    return psi + d / 2, psi - d / 2


def measured_rot(ra, dec, tra, tdec, X, Y):
    ok = np.isfinite(X + Y + ra + dec) & (np.hypot(X, Y) > 10)
    x2, y2 = ref.hadec2xy(-ra[ok], dec[ok], -tra, tdec)
    return np.degrees(np.mean((Y[ok] * x2 - X[ok] * y2) / np.hypot(X[ok], Y[ok]) / np.hypot(x2, y2)))


def model(ra, dec, C, a1, a2, pm):
    """step by step with the independent sky chain: pointing such that the tile centre is at the origin, then rotation"""
    from desimeter.transform.tan2fp import tan2fp
    from desimeter.transform.dm2pm import DM2PM
    from desimeter.io import dm2pm_filename
    lst = C["ha"] + C["ra"]
    tra, tdec = C["ra"], C["dec"]
    c0 = np.array([C["ra"]]), np.array([C["dec"]])

    def at(p, q):
        u, v = ref.radec2tan(*c0, p, q, C["mjd"], lst, 0.)
        x, y = tan2fp(u, v, a1, a2)
        return np.array([x[0], y[0]])
    h = 5e-4
    for _ in range(3):
        f = at(tra, tdec)
        J = np.array([(at(tra + h, tdec) - at(tra - h, tdec)) / (2 * h), (at(tra, tdec + h) - at(tra, tdec - h)) / (2 * h)]).T
        d = np.linalg.solve(J, -f)
        tra, tdec = tra + d[0], tdec + d[1]
    u, v = ref.radec2tan(ra, dec, tra, tdec, C["mjd"], lst, 0.)
    X, Y = tan2fp(u, v, a1, a2)
    if pm:
        X, Y = DM2PM.read(dm2pm_filename()).dm2pm(X, Y)
    r = np.radians(C["fieldrot"] - measured_rot(ra, dec, C["ra"], C["dec"], X, Y))
    return np.cos(r) * X - np.sin(r) * Y, np.sin(r) * X + np.cos(r) * Y


def tile(g):
    while True:
        ha, dec = g.uniform(-60, 60), g.uniform(-20, 78)
        k = int(g.integers(0, 8))
        if k == 0:
            ha = 0.
        elif k == 1:
            ha, dec = g.normal() * 10. ** g.uniform(-5, 0), PM_LAT + g.normal() * 10. ** g.uniform(-5, 0)
        elif k == 2:
            ha, dec = float(g.choice([0., 1., -1.])), float(g.choice([0., 30., 31.9634, 60., -10.]))
        if ref.alt_of(ref.unit(ha, dec)) > 25:
            break
    ra = float(g.choice([g.uniform(0, 360), 0., 359.5, 0.7]))
    return dict(ra=ra, dec=float(dec), ha=float(ha), mjd=float(g.uniform(55000, 64000)), fieldrot=float(g.choice([0., g.uniform(-.3, .3), g.uniform(-1, 1)])))


def targets(g, C, n, rmax=1.55):
    r, p = rmax * np.sqrt(g.random(n)), g.uniform(0, 2 * np.pi, n)
    if n > 3:
        r[0] = 0.
    u, v = np.radians(r) * np.cos(p), np.radians(r) * np.sin(p)
    t, e, nn = ref.axes(C["ra"], C["dec"])
    q = np.sqrt(1 - u ** 2 - v ** 2)[:, None] * t + u[:, None] * e + v[:, None] * nn
    ra, dec = np.degrees(np.arctan2(q[:, 1], q[:, 0])), np.degrees(np.arcsin(q[:, 2]))
    if n > 3:
        ra[0], dec[0] = C["ra"], C["dec"]
    return ra % 360. if g.random() < .7 else ra, dec


def run(ck):
    ck.rule = "a case is one tile (centre, hour angle, date, field rotation, ADC, options) with its targets; distinct by values"
    ck.assumptions = ["tiles with altitude > 25 deg and |Dec| < 78, requested field rotation within 1 deg; at least 4 targets spread over the field (the field rotation is measured on them)",
                      "model: independent sky chain of vlib/ref.py with the tangent-plane/focal-plane conversion checked in C03/C04 and the platemaker map of C31"]
    ck.parallel(chunk, [(i, ck.n(18, 400)) for i in range(8)])
    rejects(ck)
    adc(ck)
    for m, k in (("radec->xy->radec", 140), ("xy->radec->xy", 140), ("model", 140), ("centre", 140), ("fieldrot", 140), ("flat", 140), ("options-inverse", 100), ("order", 100), ("nan-targets", 50), ("wraps", 100), ("rejected", 8), ("adc-default", 100), ("polmis", 20), ("directions", 20)):
        ck.require(m, k)


def chunk(ck, item):
    from desimeter.fiberassign import fiberassign_radec2xy_cs5 as fwd, fiberassign_cs5_xy2radec as inv, fiberassign_radec2xy_flat as ffwd, fiberassign_flat_xy2radec as finv
    c, n = item
    g = ck.rng("tile", c)
    for k in range(n):
        C = tile(g)
        A = (C["ra"], C["dec"], C["mjd"], C["ha"], C["fieldrot"])
        m = int(g.choice([6, 40, 400]))
        ra, dec = targets(g, C, m)
        pm = bool(g.random() < .6)
        kw, a1, a2 = {}, *adc_of(C["ha"], C["dec"])
        custom = g.random() < .4
        if custom:
            a1, a2 = [float(v) for v in g.uniform(0, 360, 2)]
            if k % 3 == 0:                                        # angles that are zero are angles too
                z = int(g.integers(3))
                a1, a2 = (0. if z != 1 else a1), (0. if z != 0 else a2)
            kw = dict(adc1=a1, adc2=a2)
        elif np.hypot(C["ha"], C["dec"] - PM_LAT) < 1e-2:      # the parallactic angle is ill-defined at the zenith
            from desimeter.fiberassign import pm_get_adc_angles
            a1, a2 = pm_get_adc_angles(C["ha"], C["dec"])
        fk, ik = dict(kw, to_platemaker=pm), dict(kw, from_platemaker=pm)
        w = dict(C, n=m, custom_adc=custom, pm=pm, adc=(a1, a2))
        ck.case("tile", **C, adc1=a1, adc2=a2, targets=ra, pm=pm)
        tx = 1 / np.cos(np.radians(C["dec"]))
        with ck.guard("tile", **w):
            r0, d0 = ra.copy(), dec.copy()
            X, Y = fwd(ra, dec, *A, **fk)
            ck.ok("inputs-kept", np.array_equal(ra, r0) and np.array_equal(dec, d0), **w)
            ck.ok("shape", np.shape(X) == ra.shape and np.shape(Y) == ra.shape, **w)
            MX, MY = model(ra, dec, C, a1, a2, pm)
            ck.close("model", np.hypot(X - MX, Y - MY), 0, 0.001 * tx, **w)     # mm; 70 um/arcsec
            ck.close("centre", np.hypot(X[0], Y[0]), 0, 0.02 if pm else 0.002, **w)
            ck.close("fieldrot", measured_rot(ra, dec, C["ra"], C["dec"], X, Y), C["fieldrot"], 1e-4 + abs(C["fieldrot"]) ** 3 * 2e-3 + 2e-4, **w)
            R, D = inv(X, Y, *A, **ik)
            ck.close("radec->xy->radec", ref.sep_arcsec(R, D, ra, dec), 0, 0.04 * tx, **w)
            # arbitrary focal plane points
            s, p = 405 * np.sqrt(g.random(m)), g.uniform(0, 2 * np.pi, m)
            U, V = s * np.cos(p), s * np.sin(p)
            if m > 6:
                R, D = inv(U, V, *A, **ik)
                U2, V2 = fwd(R, D, *A, **fk)
                ck.close("xy->radec->xy", np.hypot(U2 - U, V2 - V), 0, 0.003 * tx, **w)
            else:
                R, D = inv(X, Y, *A, **ik)
                U2, V2 = fwd(R, D, *A, **fk)
                ck.close("xy->radec->xy", np.hypot(U2 - X, V2 - Y), 0, 0.003 * tx, **w)
            # flat coordinates: same polar angle, radius = path length along the focal surface
            F, G = ffwd(ra, dec, *A, **fk)
            from desimeter.transform.pos2ptl import ptl2flat
            PX, PY = ptl2flat(X, Y)
            ck.close("flat", [F, G], [PX, PY], 1e-6, **w)
            R, D = finv(F, G, *A, **ik)
            ck.close("flat", ref.sep_arcsec(R, D, ra, dec), 0, 0.04 * tx + 0.1, **w)
            # the platemaker option is the dm2pm map composed with the plain result (up to the rotation convention), small and undone by the inverse option
            Xa, Ya = fwd(ra, dec, *A, **dict(kw, to_platemaker=False))
            Xb, Yb = fwd(ra, dec, *A, **dict(kw, to_platemaker=True))
            MA, MB = model(ra, dec, C, a1, a2, False), model(ra, dec, C, a1, a2, True)
            ck.close("options", [Xb - Xa, Yb - Ya], [MB[0] - MA[0], MB[1] - MA[1]], 0.002 * tx, **w)
            Ra, Da = inv(Xa, Ya, *A, **dict(kw, from_platemaker=False))
            Rb, Db = inv(Xb, Yb, *A, **dict(kw, from_platemaker=True))
            ck.close("options-inverse", ref.sep_arcsec(Ra, Da, Rb, Db), 0, 0.04 * tx, **w)
            if k % 4 == 0:    # documented defaults
                Xd, Yd = fwd(ra, dec, *A, **kw)
                ck.close("options", [Xd, Yd], [Xb, Yb], 1e-9, **w)
                Rd, Dd = inv(X, Y, *A, **kw)
                Re, De = inv(X, Y, *A, **dict(kw, from_platemaker=True))
                ck.close("options", ref.sep_arcsec(Rd, Dd, Re, De), 0, 1e-9, **w)
                Fd, Gd = ffwd(ra, dec, *A, **kw)
                ck.close("options", [Fd, Gd], ptl2flat(Xb, Yb), 1e-6, **w)
            # order, wraps
            o = g.permutation(m)
            Xo, Yo = fwd(ra[o], dec[o], *A, **fk)
            ck.close("order", [Xo, Yo], [X[o], Y[o]], 1e-6, **w)
            Ro, Do = inv(X[o], Y[o], *A, **ik)
            Ri, Di = inv(X, Y, *A, **ik)
            ck.close("order", ref.sep_arcsec(Ro, Do, Ri[o], Di[o]), 0, 1e-5, **w)
            z = 360. * g.integers(-1, 2, m)
            Xo, Yo = fwd(ra + z, dec, *A, **fk)
            ck.close("wraps", [Xo, Yo], [X, Y], 1e-5 * tx, **w)
            B = (C["ra"] + 360. * int(g.choice([-1, 1])),) + A[1:]
            Xo, Yo = fwd(ra, dec, *B, **fk)
            ck.close("wraps", [Xo, Yo], [X, Y], 1e-5 * tx, **w)
            Ro, Do = inv(X, Y, *B, **ik)
            ck.close("wraps", ref.sep_arcsec(Ro, Do, Ri, Di), 0, 1e-3 * tx, **w)
            if custom:
                Xo, Yo = fwd(ra, dec, *A, adc1=a1 - 360., adc2=a2 + 720., to_platemaker=pm)
                ck.close("wraps", [Xo, Yo], [X, Y], 1e-5, **w)
            # targets without coordinates do not disturb the others
            if k % 2:
                j = g.random(m) < .2
                j[-1] = True
                j[1:3] = False
                r2, d2 = ra.copy(), dec.copy()
                r2[j] = np.nan
                if g.random() < .5:
                    d2[j] = np.nan
                Xn, Yn = fwd(r2, d2, *A, **fk)
                E, H = fwd(ra[~j], dec[~j], *A, **fk)
                ck.ok("nan-targets", np.all(np.isnan(Xn[j])) and np.all(np.isnan(Yn[j])), **w)
                ck.close("nan-targets", [Xn[~j], Yn[~j]], [E, H], 1e-6, **w)
            # with the requested rotation zero, increasing Dec is +y and increasing RA is -x
            if abs(C["fieldrot"]) < .3 and m > 6:
                dd = (dec - C["dec"]) * 3600
                dr = ((ra - C["ra"] + 180) % 360 - 180) * np.cos(np.radians(dec))
                b = np.hypot(dd / 3600, dr) > .3
                # sign test along each axis for targets well off the axes
                sx = b & (np.abs(dr) > .25)
                sy = b & (np.abs(dd / 3600) > .25)
                ck.ok("directions", np.all(np.sign(X[sx]) == -np.sign(dr[sx])) and np.all(np.sign(Y[sy]) == np.sign(dd[sy])), **w)
                r = np.hypot(X, Y)
                ck.ok("directions", np.all(r[b] > 60) and np.all(r < 430), **w)
            if k % 3 == 0:
                Xh, Yh = fwd(ra, dec, *A, use_hardcoded_polmis_rotmat=True, **fk)
                ck.close("polmis", np.hypot(Xh - X, Yh - Y), 0, 0.003 * tx, **w)
                Rh, Dh = inv(Xh, Yh, *A, use_hardcoded_polmis_rotmat=True, **ik)
                ck.close("radec->xy->radec", ref.sep_arcsec(Rh, Dh, ra, dec), 0, 0.04 * tx, **w)


def adc(ck):
    from desimeter.fiberassign import pm_get_adc_angles, fiberassign_radec2xy_cs5 as fwd
    g = ck.rng("adc")
    for k in range(ck.n(300, 3000)):
        C = tile(g)
        ck.case("adc", ha=C["ha"], dec=C["dec"])
        w = dict(ha=C["ha"], dec=C["dec"])
        with ck.guard("adc", **w):
            a, b = pm_get_adc_angles(C["ha"], C["dec"])
            e, f = adc_of(C["ha"], C["dec"])
            near = 1e-6 / max(np.hypot(C["ha"], C["dec"] - PM_LAT), 1e-9)
            wr = lambda v: (v + 180.) % 360 - 180
            if np.hypot(C["ha"], C["dec"] - PM_LAT) > 1e-4:
                ck.close("adc-default", [wr(a - e), wr(b - f)], 0, 1e-3 + near, **w)
            else:
                ck.close("adc-default", wr((a - b) - (e - f)), 0, 1e-3, **w)
    # exactly at the zenith the answer is finite
    for ha, dec in ((0., PM_LAT), (1e-9, PM_LAT), (0., PM_LAT + 1e-9), (-1e-8, PM_LAT), (0., PM_LAT - 1e-8)):
        C = dict(ra=20., dec=dec)
        ra, dd = targets(g, C, 30)
        with ck.guard("zenith", ha=ha, dec=dec):
            ck.case("zenith", ha=ha, dec=dec)
            a, b = pm_get_adc_angles(ha, dec)
            X, Y = fwd(ra, dd, 20., dec, 59000., ha, 0.)
            ck.ok("zenith-finite", np.isfinite(a + b) and np.all(np.isfinite(X + Y)), ha=ha, dec=dec, got=(a, b))


def rejects(ck):
    from desimeter import fiberassign as F
    g = ck.rng("rejects")
    C = dict(ra=20., dec=30.)
    ra, dec = targets(g, C, 20)
    x, y = g.uniform(-300, 300, (2, 20))
    for f, a in ((F.fiberassign_radec2xy_cs5, (ra, dec)), (F.fiberassign_cs5_xy2radec, (x, y)), (F.fiberassign_radec2xy_flat, (ra, dec)), (F.fiberassign_flat_xy2radec, (x, y))):
        for kw in (dict(adc1=10.), dict(adc2=10.), dict(adc1=0.), dict(adc2=0.)):
            try:
                f(*a, 20., 30., 59000., 5., 0., **kw)
                ck.ok("rejected", False, fn=f.__name__, kw=kw)
            except ValueError:
                ck.ok("rejected", True)
        with ck.guard("adc zero", fn=f.__name__):
            ck.ok("rejected", np.all(np.isfinite(f(*a, 20., 30., 59000., 5., 0., adc1=0., adc2=0.))))
