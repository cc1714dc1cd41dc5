"""Sky <-> tangent plane round trips."""
import itertools
import numpy as np
from vlib import ref


def pointing(g):
    """hostile mix of pointings above 15 deg elevation"""
    while True:
        k = g.integers(0, 8)
        ha, dec = g.uniform(-75, 75), g.uniform(-30, 80)
        if k == 0:
            dec = g.uniform(80, 87.5)
        elif k == 1:
            ha = float(g.choice([0., -1e-9, 1e-7, 90., -90.]))
        elif k == 2:
            dec = ref.LAT + g.normal() * 10 ** g.uniform(-6, 0)   # near the zenith
            ha = g.normal() * 10 ** g.uniform(-6, 0)
        elif k == 3:
            dec = float(g.choice([0., 30., 60., -20.]))
        h = ref.unit(ha, dec)
        if ref.alt_of(h) > 17.5:
            break
    mjd = g.uniform(47892, 66154)
    lst = g.uniform(0, 360)
    if g.random() < 0.3:
        lst = ha + g.choice([0., 1e-6, -1e-6, 0.3, -0.3])         # RA near 0/360
    ra = lst - ha
    w = g.integers(0, 4)
    if w < 2:
        ra %= 360
    elif w == 2:
        ra += 360 * g.integers(-2, 3)
    lst += 360 * g.integers(-1, 2) if g.random() < 0.2 else 0
    hexrot = float(g.choice([0., g.uniform(-1, 1), g.uniform(-180, 180), g.uniform(-720, 720)]))
    return float(ra), float(dec), float(mjd), float(lst), hexrot


def field(g, n, rmax=0.0297):
    r = np.sqrt(g.uniform(0, 1, n)) * rmax
    p = g.uniform(0, 2 * np.pi, n)
    x, y = r * np.cos(p), r * np.sin(p)
    x[0] = y[0] = 0.
    if n > 2:
        x[1], y[1] = rmax, 0.
        x[2], y[2] = 0., -rmax
    return x, y


def tol_arcsec(dec, sw):
    t = np.abs(np.tan(np.radians(dec)))
    if sw["aberration"] or sw["use_astropy"]:
        return 0.015 + 0.005 * t + 0.0006 * t ** 2
    return 0.006 + 0.001 * t


SWITCH = [dict(precession=p, aberration=a, polar_misalignment=m, use_astropy=False, use_hardcoded_polmis_rotmat=h)
          for p, a, m, h in itertools.product([True, False], repeat=4) if not (h and not m)]
SWITCH += [dict(precession=True, aberration=False, polar_misalignment=True, use_astropy=True, use_hardcoded_polmis_rotmat=False)]


def run(ck):
    ck.rule = ("a case is one pointing/date/LST/hexapod/switch setting with a field of points, distinct by its parameters; "
               "all are non-trivial (points away from boresight are present)")
    ck.assumptions = ["pointing altitude > 17.5 deg so that the whole field is above 15 deg", "|Dec| of the boresight <= 87.5 deg"]
    n = ck.n(3000, 60000)
    chunks = [(i, range(i * n // 12, (i + 1) * n // 12)) for i in range(12)]
    ck.parallel(chains, chunks)
    ck.parallel(steps, range(ck.n(12, 100)))
    for m in ("tan->sky->tan", "sky->tan->sky", "scalar==array", "altaz", "xyhadec", "refraction", "precession", "aberration", "rotmat"):
        ck.require(m, 5)


def chains(ck, item):
    import desimeter.transform.radec2tan as R
    c, idx = item
    g = ck.rng("chain", c)
    for j in idx:
        ra0, dec0, mjd, lst, hexrot = pointing(g)
        sw = SWITCH[int(g.integers(0, len(SWITCH)))] if j % 2 else SWITCH[0]
        if sw["use_astropy"] and j % 5:
            sw = SWITCH[1]
        npt = int(g.choice([1, 2, 3, 4, 7, 40]))
        x, y = field(g, npt)
        if g.random() < 0.3:
            x, y = -x, y
        ck.case("chain" + ("-astropy" if sw["use_astropy"] else ""), ra=ra0, dec=dec0, mjd=mjd, lst=lst, hexrot=hexrot, npt=npt, sw=sw)
        kw = dict(tel_ra=ra0, tel_dec=dec0, mjd=mjd, lst_deg=lst, hexrot_deg=hexrot, **sw)
        with ck.guard("round trip", **kw):
            ra, dec = R.tan2radec(x.copy(), y.copy(), **kw)
            ck.ok("shape", np.shape(ra) == x.shape and np.shape(dec) == x.shape, **kw)
            decmax = np.max(np.abs(dec))
            if decmax > 89.3:
                ck.count("skipped_over_pole")
                continue
            tol = tol_arcsec(decmax, sw) / ref.ARC
            x2, y2 = R.radec2tan(ra, dec, **kw)
            ck.close("tan->sky->tan", np.hypot(x2 - x, y2 - y), 0, tol, **kw)
            # and starting from the sky (RA given in another turn)
            wrap = 360. * g.integers(-1, 2)
            ras = ra % 360 if g.random() < .5 else ra + wrap
            x3, y3 = R.radec2tan(ras, dec, **kw)
            ra4, dec4 = R.tan2radec(x3, y3, **kw)
            ck.close("sky->tan->sky", ref.sep_arcsec(ra4, dec4, ra, dec), 0, tol * ref.ARC, **kw)
            # scalar calls give the same values as the array call
            k = int(g.integers(0, npt))
            xs, ys = R.radec2tan(float(ra[k]), float(dec[k]), **kw)
            ck.close("scalar==array", [float(np.squeeze(xs)), float(np.squeeze(ys))], [x2[k], y2[k]], 1e-10, **kw)
            rs, ds = R.tan2radec(float(x[k]), float(y[k]), **kw)
            ck.close("scalar==array", ref.sep_arcsec(float(np.squeeze(rs)), float(np.squeeze(ds)), ra[k], dec[k]), 0, 1e-4, **kw)


def steps(ck, i):
    import desimeter.transform.radec2tan as R
    g = ck.rng("steps", i)
    n = 400
    # every step on arrays
    alt, az = g.uniform(1, 89.5, n), g.uniform(-360, 720, n)
    ck.case("step-altaz", i=i, a=alt[0])
    ha, dec = R.altaz2hadec(alt, az)
    alt2, az2 = R.hadec2altaz(ha, dec)
    ck.close("altaz", ref.sep_arcsec(az2, alt2, az, alt), 0, 2e-3 )
    ha, dec = g.uniform(-360, 720, n), g.uniform(-88, 89, n)
    alt, az = R.hadec2altaz(ha, dec)
    ha2, dec2 = R.altaz2hadec(alt, az)
    ck.close("altaz", ref.sep_arcsec(ha2, dec2, ha, dec), 0, 2e-3)
    # tangent plane on both sides
    for _ in range(12):
        tha, tdec = g.uniform(-360, 720), g.uniform(-89, 89)
        x, y = field(g, 30, rmax=float(g.choice([0.03, 0.5, 0.9])))
        ck.case("step-tangent", ha=tha, dec=tdec)
        h, d = R.xy2hadec(x.copy(), y.copy(), tha, tdec)
        x2, y2 = R.hadec2xy(h, d, tha, tdec)
        ck.close("xyhadec", np.hypot(x2 - x, y2 - y), 0, 3e-8)
        h1, d1 = R.xy2hadec(float(x[5]), float(y[5]), tha, tdec)
        ck.close("xyhadec", ref.sep_arcsec(float(np.squeeze(h1)), float(np.squeeze(d1)), h[5], d[5]), 0, 1e-3)
        ck.close("xyhadec", ref.sep_arcsec(h[0], d[0], tha, tdec), 0, 1e-2)
    # refraction: mas above 25 deg, growing to 0.05 arcsec at 12 deg
    alt = g.uniform(12, 89.9, n)
    ck.case("step-refraction", i=i, a=alt[0])
    tol = np.where(alt > 25, 0.001, 0.05) / 3600.
    ck.close("refraction", R.undo_refraction(R.apply_refraction(alt.copy())), alt, tol)
    ck.close("refraction", R.apply_refraction(R.undo_refraction(alt.copy())), alt, tol)
    for a in alt[:5]:
        ck.close("refraction", R.undo_refraction(R.apply_refraction(float(a))), a, 0.05 / 3600. if a < 25 else 0.001 / 3600)
    # precession / aberration
    ra, dec = g.uniform(-180, 540, n), np.degrees(np.arcsin(g.uniform(-1, 1, n)))
    dec = np.clip(dec, -88.5, 88.5)
    for asy in ((False, True) if i == 0 else (False,)):
        mjd = g.uniform(47892, 66154)
        ck.case("step-precession", mjd=mjd, astropy=asy)
        r1, d1 = R.apply_precession_from_icrs(ra, dec, mjd, use_astropy=asy)
        r2, d2 = R.undo_precession_from_icrs(r1, d1, mjd, use_astropy=asy)
        ck.close("precession", ref.sep_arcsec(r2, d2, ra, dec), 0, 2e-3)
        r1, d1 = R.undo_precession_from_icrs(ra, dec, mjd, use_astropy=asy)
        r2, d2 = R.apply_precession_from_icrs(r1, d1, mjd, use_astropy=asy)
        ck.close("precession", ref.sep_arcsec(r2, d2, ra, dec), 0, 2e-3)
        r1, d1 = R.apply_aberration(ra, dec, mjd, use_astropy=asy)
        r2, d2 = R.undo_aberration(r1, d1, mjd, use_astropy=asy)
        t = np.abs(np.tan(np.radians(dec)))
        ck.close("aberration", ref.sep_arcsec(r2, d2, ra, dec), 0, 0.015 + 0.005 * t + 0.0006 * t ** 2)
        k = int(g.integers(0, n))
        s = R.apply_precession(float(ra[k]), float(dec[k]), 12.5)
        v = R.apply_precession(ra[k:k + 2], dec[k:k + 2], 12.5)
        ck.close("precession", ref.sep_arcsec(float(s[0]), float(s[1]), v[0][0], v[1][0]), 0, 1e-4)
        e = R.eclip2radec(*R.radec2eclip(ra, dec))
        ck.close("precession", ref.sep_arcsec(e[0], e[1], ra, dec), 0, 2e-3)
    # polar misalignment matrices are rotations, forward and inverse undo each other
    A = R.compute_polar_misalignment_rotation_matrix(me_arcsec=R.ME_ARCSEC, ma_arcsec=R.MA_ARCSEC)
    Ai = R.compute_polar_misalignment_rotation_matrix(me_arcsec=-R.ME_ARCSEC, ma_arcsec=-R.MA_ARCSEC)
    H, Hi = R.get_hardcoded_polmis_rotmat(), R.get_hardcoded_polmis_rotmat(inverse=True)
    for M, Mi in ((A, Ai), (H, Hi), (A, Hi)):
        ck.close("rotmat", M @ M.T, np.eye(3), 1e-12)
        ck.close("rotmat", M @ Mi, np.eye(3), 5e-8)
    me, ma = g.uniform(-300, 300), g.uniform(-300, 300)
    B = R.compute_polar_misalignment_rotation_matrix(me_arcsec=me, ma_arcsec=ma)
    ck.close("rotmat", B @ B.T, np.eye(3), 1e-12)
    ck.close("rotmat", np.linalg.det(B), 1, 1e-12)
