"""Tangent-plane coordinates against an independent model of the chain."""
import itertools
import numpy as np
from vlib import ref
from checks.C01 import pointing


def stars(g, ra0, dec0, n):
    th = np.radians(np.sqrt(g.uniform(0, 1, n)) * 1.7)
    ph = g.uniform(0, 2 * np.pi, n)
    c = ref.unit(ra0, dec0)
    e = np.array([-c[1], c[0], 0.]) / np.hypot(c[0], c[1])
    nn = np.cross(c, e)
    v = np.cos(th)[:, None] * c + np.sin(th)[:, None] * (np.cos(ph)[:, None] * e + np.sin(ph)[:, None] * nn)
    return np.degrees(np.arctan2(v[:, 1], v[:, 0])) % 360, np.degrees(np.arcsin(v[:, 2]))


def run(ck):
    ck.rule = "a case is one pointing/date/LST/hexapod setting with one switch combination and a star field; distinct by its parameters"
    ck.assumptions = ["reference: the same physical constants, coded as vector rotations in vlib/ref.py"]
    n = ck.n(3600, 60000)
    ck.parallel(chunk, [(i, range(i * n // 12, (i + 1) * n // 12)) for i in range(12)])
    ck.parallel(components, range(ck.n(12, 100)))
    ck.require("equals-model", 500)
    ck.require("astropy-variant", 5)
    ck.require("hardcoded-variant", 50)
    ck.require("wrap", 200)


def chunk(ck, item):
    import desimeter.transform.radec2tan as R
    c, idx = item
    g = ck.rng("model", c)
    combos = list(itertools.product([True, False], repeat=3))
    for j in idx:
        ra0, dec0, mjd, lst, hexrot = pointing(g)
        p, a, m = combos[0] if j % 3 == 0 else combos[int(g.integers(0, 8))]
        ra, dec = stars(g, ra0, dec0, int(g.choice([1, 2, 3, 4, 12, 12, 40])))
        ra[0], dec[0] = ra0, dec0
        sw = dict(precession=p, aberration=a, polar_misalignment=m)
        kw = dict(tel_ra=ra0, tel_dec=dec0, mjd=mjd, lst_deg=lst, hexrot_deg=hexrot)
        ck.case("model", ra=ra0, dec=dec0, mjd=mjd, lst=lst, hexrot=hexrot, sw=sw)
        cd = np.cos(np.radians(np.max(np.abs(dec))))
        tol = 1e-9 + (2e-9 / cd if m else 0)
        x, y = R.radec2tan(ra, dec, **kw, **sw)
        X, Y = ref.radec2tan(ra, dec, ra0, dec0, mjd, lst, hexrot, **sw)
        ck.close("equals-model", np.hypot(x - X, y - Y), 0, tol, **kw, **sw)
        ck.close("boresight", np.hypot(x[0], y[0]), 0, 1e-11, **kw)
        # wraps of RA, LST, hexapod
        w = 360. * g.integers(-2, 3, size=ra.shape)
        kk = dict(kw)
        which = g.integers(0, 4)
        if which == 0:
            kk["tel_ra"] += 360.
        elif which == 1:
            kk["lst_deg"] -= 360.
        elif which == 2:
            kk["hexrot_deg"] += 720.
        x2, y2 = R.radec2tan(ra + w, dec, **kk, **sw)
        ck.close("wrap", np.hypot(x2 - x, y2 - y), 0, 1e-10, which=int(which), **kw)
        # one star alone
        k = int(g.integers(0, ra.size))
        x1, y1 = R.radec2tan(float(ra[k]), float(dec[k]), **kw, **sw)
        ck.close("alone", [float(np.squeeze(x1)), float(np.squeeze(y1))], [x[k], y[k]], 1e-11, **kw)
        perm = g.permutation(ra.size)
        xp, yp = R.radec2tan(ra[perm], dec[perm], **kw, **sw)
        ck.close("order", np.hypot(xp - x[perm], yp - y[perm]), 0, 1e-12, **kw)
        # hexapod rotation is exactly a rotation
        x0, y0 = R.radec2tan(ra, dec, ra0, dec0, mjd, lst, 0., **sw)
        h = np.radians(hexrot)
        ck.close("hexapod", np.hypot(np.cos(h) * x0 - np.sin(h) * y0 - x, np.sin(h) * x0 + np.cos(h) * y0 - y), 0, 1e-11, **kw)
        # defaults: all three corrections on, no hard-coded matrix
        if p and a and m:
            xd, yd = R.radec2tan(ra, dec, ra0, dec0, mjd, lst, hexrot)
            ck.close("defaults", np.hypot(xd - x, yd - y), 0, 1e-12, **kw)
        if m and cd > np.cos(np.radians(80)):
            xh, yh = R.radec2tan(ra, dec, **kw, **sw, use_hardcoded_polmis_rotmat=True)
            ck.close("hardcoded-variant", np.hypot(xh - x, yh - y) * ref.ARC, 0, 0.02, **kw)
        if j % 60 == 0 and (p or a) and cd > np.cos(np.radians(78)) and 50000 < mjd < 62000:
            xa, ya = R.radec2tan(ra, dec, **kw, **sw, use_astropy=True)
            ck.close("astropy-variant", np.hypot(xa - x, ya - y) * ref.ARC, 0, 0.2, **kw, **sw)
        # inverse against the model: model(tan2radec(x,y)) = x,y
        ri, di = R.tan2radec(x, y, **kw, **sw)
        Xi, Yi = ref.radec2tan(ri, di, ra0, dec0, mjd, lst, hexrot, **sw)
        t = 1 / cd
        if cd > 0.02:
            ck.close("inverse-model", np.hypot(Xi - x, Yi - y) * ref.ARC, 0, 0.015 + 0.005 * t + 0.0006 * t * t, **kw, **sw)


def components(ck, i):
    import desimeter.transform.radec2tan as R
    g = ck.rng("components", i)
    n = 200
    ha, dec = g.uniform(-400, 400, n), g.uniform(-89, 89, n)
    ck.case("components", i=i, h=ha[0])
    alt, az = R.hadec2altaz(ha, dec)
    v = ref.unit(ha, dec)
    up = ref.alt_of(v) > 0.01          # stars above the horizon
    ck.close("altitude", alt[up], ref.alt_of(v)[up], 1e-9)
    la = np.radians(ref.LAT)
    north = np.array([-np.sin(la), 0, np.cos(la)])
    east = np.array([0, -1., 0])
    azr = np.degrees(np.arctan2(v @ east, v @ north))
    ck.close("azimuth", ((az - azr + 180) % 360 - 180) * np.cos(np.radians(alt)), 0, 1e-9)
    h2, d2 = R.altaz2hadec(alt, az)
    ck.close("hadec", ref.sep_arcsec(h2, d2, ha, dec), 0, 2e-3)
    a = g.uniform(5, 90, n)
    ck.close("refraction", (R.apply_refraction(a.copy()) - a) * 3600, 79 * np.tan(np.pi / 6) / np.tan(np.radians(a)), 1e-7)
    # astropy agreement of the elementary steps
    mjd = g.uniform(51000, 61000)
    ra = g.uniform(0, 360, n)
    d = g.uniform(-80, 80, n)
    if i < 3 or ck.thorough:
        p1, p2 = R.apply_precession_from_icrs(ra, d, mjd), R.apply_precession_from_icrs(ra, d, mjd, use_astropy=True)
        ck.close("astropy-precession", ref.sep_arcsec(*p1, *p2), 0, 1.0, mjd=mjd)
        p1, p2 = R.apply_aberration(ra, d, mjd), R.apply_aberration(ra, d, mjd, use_astropy=True)
        ck.close("astropy-aberration", ref.sep_arcsec(*p1, *p2), 0, 0.6, mjd=mjd)
    yr = (mjd - ref.MJD2000) / ref.YEAR
    u = ref.precess(ref.unit(ra, d), yr)
    p = R.apply_precession_from_icrs(ra, d, mjd)
    ck.close("model-precession", np.linalg.norm(ref.unit(*p) - u, axis=1), 0, 1e-10)
    p = R.undo_precession_from_icrs(ra, d, mjd)
    ck.close("model-precession", np.linalg.norm(ref.unit(*p) - ref.precess(ref.unit(ra, d), -yr), axis=1), 0, 1e-10)
    p = R.apply_aberration(ra, d, mjd)
    ck.close("model-aberration", np.linalg.norm(ref.unit(*p) - ref.aberrate(ref.unit(ra, d), mjd), axis=1), 0, 1e-10)
