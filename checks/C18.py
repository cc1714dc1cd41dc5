"""Guide-star field model and tangent-plane correction on a simulated telescope."""
import os
import numpy as np
from vlib import ref
from checks.C01 import pointing

TMP = os.environ.get("VERIF_SCRATCH", "/tmp")


def smat(T):
    t = np.radians(T["rot"])
    R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
    return np.array([[T["sxx"], T["sxy"]], [T["sxy"], T["syy"]]]) @ R


def petals():
    from desimeter.io import load_metrology
    m = load_metrology()
    s = np.array(m["DEVICE_TYPE"]).astype(str) == "GFA"
    return sorted(set(int(p) for p in m["PETAL_LOC"][s]))


def simulate_stars(g, T, sw, per=5, noise=0.0, pets=None):
    """catalogue: stars on the guide CCDs of the true telescope T.  Sky side by the independent model."""
    from astropy.table import Table
    from desimeter.transform.gfa2fp import gfa2fp, fp2gfa
    from desimeter.transform.tan2fp import fp2tan, tan2fp
    M = smat(T)
    rows = []
    for p in (pets if pets is not None else petals()):
        n = per
        x, y = g.uniform(50, 2000, n), g.uniform(50, 980, n)
        X, Y = gfa2fp(p, x, y)
        u, v = fp2tan(X, Y, T["adc1"], T["adc2"])
        us, vs = M @ np.array([u, v])
        ra, dec = ref.tan2radec(us, vs, T["ra"], T["dec"], T["mjd"], T["lst"], T["hexrot"], **sw)
        rows += [(a, b, c, d, p) for a, b, c, d in zip(x, y, ra, dec)]
    t = Table(rows=rows, names=("xcentroid", "ycentroid", "ra_gaia", "dec_gaia", "petal_loc"))
    if noise:     # pixels of 0.2 arcsec
        t["xcentroid"] = t["xcentroid"] + noise * g.normal(size=len(t))
        t["ycentroid"] = t["ycentroid"] + noise * g.normal(size=len(t))
    return t, M


def sky_of(T, sw, X, Y):
    from desimeter.transform.tan2fp import fp2tan
    u, v = fp2tan(X, Y, T["adc1"], T["adc2"])
    a, b = smat(T) @ np.array([u, v])
    return ref.tan2radec(a, b, T["ra"], T["dec"], T["mjd"], T["lst"], T["hexrot"], **sw)


def truth(g):
    while True:
        ra, dec, mjd, lst, hexrot = pointing(g)
        if abs(dec) < 80:
            break
    if g.random() < .1:       # zero sidereal time
        ra, lst = (ra - lst) % 360, 0.
    return dict(ra=ra, dec=dec, mjd=mjd, lst=lst, hexrot=float(g.choice([0., g.uniform(-1.5, 1.5)])),
                adc1=float(g.uniform(0, 360)), adc2=float(g.uniform(0, 360)),
                sxx=float(1 + 1e-3 * g.normal()), syy=float(1 + 1e-3 * g.normal()), sxy=float(5e-4 * g.normal()), rot=float(g.normal() * .4))


def run(ck):
    ck.rule = "a case is one true telescope state with one guide catalogue (field model), or one tangent-plane transform with its points; distinct by values"
    ck.assumptions = ["simulated telescope: sky side from vlib/ref.py, instrument side from the checked gfa2fp/fp2tan; pointing errors < 2 arcmin, rotations < 2 deg, scale changes < 0.5%, |Dec| < 80"]
    ck.parallel(field, [(i, ck.n(14, 250)) for i in range(8)])
    ck.parallel(tancorr, [(i, ck.n(150, 3000)) for i in range(8)])
    catalog(ck)
    for m, k in (("recover", 50), ("recover-noise", 10), ("round-trip", 80), ("star-order", 50), ("fieldrot", 50), ("circumstances", 5), ("tancorr-recover", 500), ("tancorr-inverse", 500), ("tancorr-reuse", 300), ("catalog", 20)):
        ck.require(m, k)


def make(T, sw, ra, dec):
    from desimeter.fieldmodel import FieldModel
    f = FieldModel()
    f.ra, f.dec, f.mjd, f.lst, f.hexrot_deg, f.adc1, f.adc2 = ra, dec, T["mjd"], T["lst"], T["hexrot"], T["adc1"], T["adc2"]
    for k, v in sw.items():
        setattr(f, k, v)
    return f


def field(ck, item):
    c, n = item
    g = ck.rng("field", c)
    from desimeter.fieldmodel import FieldModel
    for k in range(n):
        T = truth(g)
        if k % 5 == 4:        # sidereal time left to the code
            from desimeter.time import mjd2lst
            lst = float(mjd2lst(T["mjd"]))
            T["ra"], T["lst"] = (T["ra"] - T["lst"] + lst) % 360, lst
        sw = dict(precession=True, aberration=True, polar_misalignment=True)
        if k % 4 == 3:
            sw = {a: bool(g.random() < .5) for a in sw}
        noise = float(g.choice([0., 0., .3]))
        pets = petals()
        if k % 3 == 2:
            pets = sorted(int(p) for p in g.choice(pets, 4, replace=False))
            # keep leverage: not all in one half
        cat, M = simulate_stars(g, T, sw, per=int(g.choice([2, 5, 10])), noise=noise, pets=pets)
        off = g.normal(size=2) * 10 ** g.uniform(-1, 1.5) / 3600.
        off = np.clip(off, -.03, .03)
        ra0, dec0 = T["ra"] + off[0] / np.cos(np.radians(T["dec"])), T["dec"] + off[1]
        w = dict(T=T, sw=sw, off=off * 3600, noise=noise, petals=pets)
        ck.case("field", **{k2: v for k2, v in T.items()}, off=off, n=len(cat))
        keep = cat.copy()
        with ck.guard("field", **w):
            f = make(T, sw, ra0, dec0)
            how = k % 3
            if k % 5 == 4:      # time from the catalogue or the object, sidereal time from it
                f.lst = None
                if how == 1:
                    f.mjd, f.hexrot_deg = None, None
                    cat["mjd_obs"] = T["mjd"] + g.permutation(np.linspace(-1e-4, 1e-4, len(cat)))
                    keep = cat.copy()
                    f.fit_tancorr(cat, hexrot_deg=T["hexrot"])
                elif how == 2:
                    f.mjd = 50000.
                    f.fit_tancorr(cat, mjd=T["mjd"])
                else:
                    f.fit_tancorr(cat)
                ck.close("circumstances", [f.mjd, f.lst, f.hexrot_deg], [T["mjd"], T["lst"], T["hexrot"]], [1e-7, 1e-4, 1e-9], **w)
            elif k % 7 == 3:    # date given, the other ones known to the object
                f.mjd = None if how else 50000.
                f.fit_tancorr(cat, mjd=T["mjd"])
            elif how == 1:      # circumstances given as arguments
                f.mjd, f.lst, f.hexrot_deg = None, None, None
                f.fit_tancorr(cat, mjd=T["mjd"], hexrot_deg=T["hexrot"], lst=T["lst"])
            elif how == 2:    # arguments take precedence over what the object held
                f.mjd, f.lst, f.hexrot_deg = 50000., 12., float(g.choice([9., .3, 0.]))
                f.fit_tancorr(cat, mjd=T["mjd"], hexrot_deg=T["hexrot"], lst=T["lst"])
            else:
                f.fit_tancorr(cat)
            ck.ok("catalog-kept", cat.colnames == keep.colnames and all(np.array_equal(cat[q], keep[q]) for q in cat.colnames), **w)
            r, p = 405 * np.sqrt(g.random(200)), g.uniform(0, 2 * np.pi, 200)
            X, Y = r * np.cos(p), r * np.sin(p)
            rt, dt = sky_of(T, sw, X, Y)
            rm, dm = f.fp2radec(X, Y)
            e = ref.sep_arcsec(rm, dm, rt, dt)
            half = len(pets) < 6
            if noise == 0:
                ck.close("recover", e, 0, 0.04, **w)
                ck.close("statistics", [f.nstars, f.rms_arcsec], [len(cat), 0.], [0.1, 0.02], **w)
            else:
                s = noise * .21 / np.sqrt(len(cat) / 6.)
                ck.close("recover-noise", e, 0, (5 if not half else 25) * s + .05, **w)
                ck.ok("statistics", f.nstars == len(cat) and f.rms_arcsec < noise * .21 * 1.414 * 2, got=f.rms_arcsec, **w)
            tx = 1.0 / max(np.cos(np.radians(T["dec"])), .1)
            X2, Y2 = f.radec2fp(rm, dm)
            ck.close("round-trip", np.hypot(X2 - X, Y2 - Y), 0, 0.003 * tx, **w)
            a2, d2 = f.fp2radec(*f.radec2fp(rt, dt))
            ck.close("round-trip", ref.sep_arcsec(a2, d2, rt, dt), 0, 0.03 * tx, **w)
            # one by one
            q = int(g.integers(0, 200))
            a1, d1 = f.fp2radec(X[q:q + 1], Y[q:q + 1])
            ck.close("alone", ref.sep_arcsec(a1, d1, rm[q:q + 1], dm[q:q + 1]), 0, 1e-5, **w)
            # field rotation of the fitted model
            Tm = dict(T, sxx=f.sxx, syy=f.syy, sxy=f.sxy, rot=f.fieldrot_zp_deg)
            S = smat(Tm)
            fr = ref.fieldrot(f.ra, f.dec, T["mjd"], T["lst"], T["hexrot"], inst2sky=lambda u, v: S @ np.array([u, v]), **sw)
            ck.close("fieldrot", f.fieldrot_deg, fr, 1e-4 * tx, **w)
            ck.close("fieldrot", f.compute_fieldrot(), fr, 1e-4 * tx, **w)
            # order of stars; RA wraps
            o = g.permutation(len(cat))
            c2 = cat[o]
            f2 = make(T, sw, ra0, dec0)
            f2.fit_tancorr(c2)
            ck.close("star-order", ref.sep_arcsec(*f2.fp2radec(X, Y), rm, dm), 0, 1e-4 if len(cat) > 3 else 1e-3, **w)
            f3 = make(T, sw, ra0 + 360. * int(g.choice([-1, 1])), dec0)
            f3.fit_tancorr(cat)
            ck.close("wraps", ref.sep_arcsec(*f3.fp2radec(X, Y), rm, dm), 0, 1e-3, **w)
            # stars of petals without metrology do not count
            c5 = cat.copy()
            for pl in ((-1,), (-1, 12), (10,))[k % 3]:
                for _ in range(int(g.integers(1, 4))):
                    c5.insert_row(int(g.integers(0, len(c5) + 1)), dict({n: c5[n][0] for n in c5.colnames}, petal_loc=pl, xcentroid=g.uniform(0, 2000), ycentroid=g.uniform(0, 1000)))
            f5 = make(T, sw, ra0, dec0)
            f5.fit_tancorr(c5)
            ck.close("unknown-petal", ref.sep_arcsec(*f5.fp2radec(X, Y), rm, dm), 0, 1e-4 if len(cat) > 3 else 1e-3, **w)
            ck.ok("unknown-petal", f5.nstars == len(cat), got=f5.nstars, **w)
            # an object used before for another field
            f4 = make(truth(g), sw, 10., 20.)
            f4.sxx, f4.sxy, f4.fieldrot_zp_deg = 1.3, .2, 40.
            f4.ra, f4.dec, f4.adc1, f4.adc2 = ra0, dec0, T["adc1"], T["adc2"]
            f4.fit_tancorr(cat, mjd=T["mjd"], hexrot_deg=T["hexrot"], lst=T["lst"])
            ck.close("reuse", ref.sep_arcsec(*f4.fp2radec(X, Y), rm, dm), 0, 1e-3, **w)


def tancorr(ck, item):
    from desimeter.fieldmodel import TanCorr
    c, n = item
    g = ck.rng("tancorr", c)
    for k in range(n):
        m = int(g.choice([6, 10, 40, 200]))
        R = float(g.choice([.005, .028]))
        x, y = R * g.uniform(-1, 1, (2, m))
        if k % 5 == 0:
            p = g.uniform(0, 2 * np.pi, m)
            x, y = R * np.cos(p), R * np.sin(p)
        if np.linalg.cond(np.cov(x, y)) > 30:
            continue
        T = TanCorr()
        T.dha, T.ddec = [float(v) for v in g.normal(size=2) * 10 ** g.uniform(-5, -1.7)]      # up to ~1 arcmin
        T.sxx, T.syy, T.sxy = float(1 + .005 * g.normal()), float(1 + .005 * g.normal()), float(.003 * g.normal())
        T.rot_deg = float(g.choice([0., g.normal(), 1e-6 * g.normal(), .01 * g.normal()]))
        P = dict(dha=T.dha, ddec=T.ddec, sxx=T.sxx, syy=T.syy, sxy=T.sxy, rot=T.rot_deg)
        ck.case("tancorr", **P, x=x, y=y)
        # independent forward model: points are directions; the telescope moves by dha,ddec; then rotation and scale
        w3 = np.array([np.sqrt(1 - x ** 2 - y ** 2), x, y]).T          # pointing at ha=dec=0; x west (increasing HA)
        ha, dec = np.degrees(np.arctan2(w3[:, 1], w3[:, 0])), np.degrees(np.arcsin(w3[:, 2]))
        a, b = ref.hadec2xy(ha, dec, T.dha, T.ddec)
        X, Y = smat(dict(P)) @ np.array([a, b])
        with ck.guard("tancorr", **P):
            ck.close("tancorr-apply", T.apply(x, y), [X, Y], 1e-11, **P)
            ck.close("tancorr-inverse", T.apply_inverse(*T.apply(x, y)), [x, y], 1e-11, **P)
            ck.close("tancorr-inverse", T.apply(*T.apply_inverse(x, y)), [x, y], 1e-11, **P)
            F = TanCorr()
            if k % 2:       # holds something else
                F.dha, F.ddec, F.sxx, F.syy, F.sxy, F.rot_deg = [float(v) for v in g.normal(size=6)]
            x0, y0 = x.copy(), y.copy()
            F.fit(x, y, X, Y)
            ck.ok("tancorr-inputs", np.array_equal(x, x0) and np.array_equal(y, y0))
            d = 1e-4 / 206265
            lever = 1e-4 * np.hypot(P["dha"], P["ddec"]) + 1e-9
            ck.close("tancorr-recover", F.apply(x, y), [X, Y], 0.2 / 206265, **P)
            ck.close("tancorr-parameters", [(F.dha - T.dha) * 3600, (F.ddec - T.ddec) * 3600], 0, 0.15 + 0.03 * 3600 * np.hypot(P["dha"], P["ddec"]), **P)
            ck.close("tancorr-parameters", [F.sxx, F.syy, F.sxy], [T.sxx, T.syy, T.sxy], 2e-5, **P)
            ck.close("tancorr-parameters", (F.rot_deg - T.rot_deg + 180) % 360 - 180, 0, 1e-3, **P)
            ck.ok("tancorr-statistics", F.nstars == m and 0 <= F.rms_arcsec < .06, got=F.rms_arcsec, **P)
            o = g.permutation(m)
            G = TanCorr()
            G.fit(x[o], y[o], X[o], Y[o])
            pa = [getattr(F, q) for q in ("dha", "ddec", "sxx", "syy", "sxy")]
            pb = [getattr(G, q) for q in ("dha", "ddec", "sxx", "syy", "sxy")]
            ck.close("tancorr-order", pa, pb, 1e-9, **P)
            F.fit(x, y, X + 1e-4, Y - 2e-4)
            H = TanCorr()
            H.fit(x, y, X + 1e-4, Y - 2e-4)
            ck.close("tancorr-reuse", [getattr(F, q) for q in ("dha", "ddec", "sxx", "syy", "sxy", "rot_deg", "rms_arcsec")],
                     [getattr(H, q) for q in ("dha", "ddec", "sxx", "syy", "sxy", "rot_deg", "rms_arcsec")], 1e-9, **P)
            # with noise the fit is the least-squares optimum: residuals orthogonal to 1, x, y
            s = 1. / 206265
            X2, Y2 = X + s * g.normal(size=m), Y + s * g.normal(size=m)
            F.fit(x, y, X2, Y2)
            ax, ay = F.apply(x, y)
            hat = np.array([np.ones(m), a, b])
            q = np.linalg.qr(hat.T)[0]
            ck.close("tancorr-optimum", np.array([q.T @ (X2 - ax), q.T @ (Y2 - ay)]) * 206265, 0, .5, **P)
            r = np.sqrt(np.mean((X2 - ax) ** 2 + (Y2 - ay) ** 2)) * 206265
            ck.close("tancorr-statistics", F.rms_arcsec, r, .05, **P)


def catalog(ck):
    """reading a guide-star catalogue: selection by separation, proper motion"""
    from astropy.table import Table
    from desimeter.fieldmodel import FieldModel
    g = ck.rng("catalog")
    for k in range(ck.n(40, 400)):
        n = int(g.choice([3, 20, 60]))
        ra0, dec0 = float(g.choice([g.uniform(5, 355), 0., 359.99])), float(g.uniform(-30, 80))
        dec = dec0 + g.uniform(-1.5, 1.5, n)
        cd = np.cos(np.radians(dec))
        ra = (ra0 + g.uniform(-1.5, 1.5, n) / cd) % 360
        pm = k % 2 == 0
        sep = np.where(g.random(n) < .7, g.uniform(0, 1.8, n), g.uniform(2.2, 20, n))
        sep[0] = .5
        lim = 2.
        if k % 3 == 0:
            lim = float(g.choice([1., 5.]))
            sep = np.where(np.abs(sep - lim) < .1, lim + .2, sep)
            sep[0] = .5
        th = g.uniform(0, 2 * np.pi, n)
        mjd = float(g.uniform(57500, 61500))
        yr = 2000. + (mjd - 51544.5) / 365.25
        pmra, pmdec = g.normal(size=n) * 200, g.normal(size=n) * 200        # mas/yr
        bad = g.random(n) < .2
        pmra[bad], pmdec[bad] = np.nan, np.nan
        if k % 5 == 1:          # only one of the two is unknown
            pmra[g.random(n) < .3] = np.nan
            pmdec[g.random(n) < .3] = np.nan
        ep = np.full(n, 2015.5) if g.random() < .5 else g.uniform(2000, 2016, n)
        z = lambda v: np.where(np.isfinite(v), v, 0)
        # true position now = measured position displaced by the chosen separation; gaia position = now minus proper motion
        dn, rn = dec + sep * np.sin(th) / 3600, ra + sep * np.cos(th) / 3600 / cd
        t = Table()
        t["xcentroid"], t["ycentroid"] = g.uniform(0, 2048, n), g.uniform(0, 1032, n)
        t["ra"], t["dec"] = ra, dec
        if pm:
            t["dec_gaia"] = dn - (yr - ep) * z(pmdec) / 3.6e6
            t["ra_gaia"] = rn - (yr - ep) * z(pmra) / 3.6e6 / cd
            t["pmra"], t["pmdec"], t["ref_epoch"] = pmra, pmdec, ep
        else:
            t["ra_gaia"], t["dec_gaia"] = rn, dn
        t["ra_gaia"] = t["ra_gaia"] % 360
        t["petal_loc"] = g.integers(0, 10, n)
        has = k % 4 < 2
        if has:
            t["mjd_obs"] = np.full(n, mjd)
        fn = os.path.join(TMP, "cat.csv" if k % 10 in (1, 4, 6) else "cat.fits")
        t.write(fn, overwrite=True)
        ck.case("catalog", ra=ra, dec=dec, sep=sep)
        w = dict(ra0=ra0, pm=pm, limit=lim)
        with ck.guard("catalog", **w):
            f = FieldModel()
            if not has:
                f.mjd = mjd
            elif k % 8 == 1:        # used before for another exposure
                f.mjd = mjd - 3000.
            r = f.read_guide_stars_catalog(fn, lim) if k % 3 == 0 else f.read_guide_stars_catalog(fn)
            want = np.where(sep < lim)[0]
            ck.ok("catalog", len(r) == len(want) and np.allclose(np.array(r["xcentroid"]), np.array(t["xcentroid"])[want]), got=len(r), want=len(want), **w)
            ck.close("catalog-mjd", f.mjd, mjd, 1e-6, **w)
            cn = "_with_pm" if pm else ""
            if len(r) == len(want):
                ck.close("catalog-position", ref.sep_arcsec(np.array(r["ra_gaia" + cn]), np.array(r["dec_gaia" + cn]), rn[want], dn[want]), 0, 0.002, **w)
    # nothing matched is an error
    fn = os.path.join(TMP, "cat.fits")
    t["ra_gaia"] = (t["ra_gaia"] + 1) % 360
    t.write(fn, overwrite=True)
    for tab, m in ((t, mjd), (None, None)):
        f = FieldModel()
        f.mjd = mjd
        if tab is None:
            t.remove_column("xcentroid")
            t.write(fn, overwrite=True)
        try:
            f.read_guide_stars_catalog(fn)
            ck.ok("rejected", False)
        except RuntimeError:
            ck.ok("rejected", True)
