"""Sky-side scripts: predicted field rotation, and the field model of a guide star catalogue, for the circumstances of a header."""
import json, os, re, subprocess, sys, tempfile
import numpy as np
from vlib import core, ref
from checks.C18 import truth, simulate_stars, sky_of
from checks.C19 import gmst_deg, wrap


def run(ck):
    ck.rule = "a case is one run of a script with one set of circumstances; distinct by values"
    ck.assumptions = ["sky side from vlib/ref.py, sidereal time from the IAU 1982 formula at the telescope's longitude and clock", "printed values have 3 decimals"]
    items = [(w, i, n) for w, m, n in (("predict", 4, ck.n(6, 60)), ("guide", 4, ck.n(4, 40))) for i in range(m)]
    ck.parallel(chunk, items)
    for m, k in (("ends", 30), ("fieldrot", 20), ("rate", 20), ("refused", 1), ("model", 10), ("model-header", 10), ("model-stars", 10)):
        ck.require(m, k)


def chunk(ck, item):
    what, i, n = item
    g = ck.rng(what, i)
    for j in range(n):
        with tempfile.TemporaryDirectory(prefix="c36_") as d:
            globals()[what](ck, g, d, i, j)


def call(ck, name, args, d, good=0):
    e = dict(os.environ, PYTHONPATH=os.path.join(core.REPO, "py"), MPLBACKEND="Agg", MPLCONFIGDIR=d, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(core.REPO, "bin", name)] + [str(a) for a in args], env=e, cwd=d, capture_output=True, text=True, timeout=600)
    if good == 0:
        ck.ok("ends", p.returncode == 0, script=name, args=args, rc=p.returncode, err=(p.stdout[-300:] + p.stderr)[-900:])
    return p


def lst_of(mjd):
    return float((gmst_deg(mjd) - 111.59989 - 0.16035) % 360.)


def circumstances(g):
    while True:
        mjd = float(np.round(g.uniform(57000, 62000), 8))
        ha, dec = g.uniform(-60, 60), g.uniform(-20, 78)
        if ref.alt_of(ref.unit(ha, dec)) > 25:
            return mjd, float(ha), float(dec)


def hms(deg):
    s = deg / 15. * 3600
    h, m = int(s // 3600), int(s % 3600 // 60)
    return "%02d:%02d:%06.3f" % (h, m, s - 3600 * h - 60 * m)


def header(d, g, name, **kw):
    """the cards in the primary header or in the first extension"""
    import fitsio
    f = os.path.join(d, name)
    kw = [dict(name=k.replace("_", "-"), value=v) for k, v in kw.items() if v is not None]
    with fitsio.FITS(f, "rw", clobber=True) as h:
        if g.random() < .5:
            h.write(None, header=kw)
            h.write(np.zeros((4, 4)), extname="GUIDE0")
        else:
            h.write(None, header=[dict(name="NOTHING", value=1)])
            h.write(np.zeros((4, 4)), header=kw, extname="GUIDE")
    return f


def predict(ck, g, d, i, j):
    from desimeter.fieldmodel import dfieldrotdt
    mjd, ha, dec = circumstances(g)
    how = ["lst", "ha", "mjd", "header", "header-lst", "header-nohex"][j % 6]
    hx = float(g.choice([0., g.uniform(-300, 300), g.uniform(-3000, 3000)]))
    tol = 1e-3
    l = lst_of(mjd)
    if how in ("lst", "ha", "header-lst", "header-nohex"):
        l = float((l + g.uniform(-20, 20)) % 360.) if g.random() < .5 else l
    ra = float((l - ha) % 360.)
    if how == "ha":
        a = ["--ra=%.10f" % ra, "--dec=%.10f" % dec, "--ha=%.10f" % ha, "--mjd=%.8f" % mjd, "--hexrot-arcsec=%.6f" % hx]
    elif how == "lst":
        a = ["--ra=%.10f" % ra, "--dec=%.10f" % dec, "--lst=%.10f" % l, "--mjd=%.8f" % mjd, "--hexrot-arcsec=%.6f" % hx]
    elif how == "mjd":
        a = ["--ra=%.10f" % ra, "--dec=%.10f" % dec, "--mjd=%.8f" % mjd, "--hexrot-arcsec=%.6f" % hx]
    else:
        pos = "1500.1,-20.5,%.1f,10.2,-3.3,%.3f" % (g.uniform(-900, 900), hx)
        hx = float("%.3f" % hx)
        a = ["--fits-header", header(d, g, "h.fits", TARGTRA=ra, TARGTDEC=dec, MJD_OBS=mjd, EXPID=12, TCSST=hms(l) if how != "header" else None, FOCUS=pos if how != "header-nohex" else None, HEXPOS=pos if how == "header" else None)]
        if how == "header-nohex":
            hx = 0.
    if how in ("mjd", "header"):
        tol += 2e-4         # sidereal time within a fraction of an arcsecond times the rate
    ck.case("predict", how=how, ra=ra, dec=dec, lst=l, mjd=mjd, hexrot=hx)
    w = dict(how=how, args=a, hexrot_arcsec=hx, lst=l)
    p = call(ck, "desi_predict_fieldrot", a, d)
    r = re.search(r"FIELDROT\s*=\s*([-+.\deE]+|nan)\s*deg", p.stdout)
    q = re.search(r"DFIELDROTDT\s*=\s*([-+.\deE]+|nan)\s*arcsec/min", p.stdout)
    ck.ok("ends", r and q, out=p.stdout[-400:], **w)
    if r and q:
        ck.close("fieldrot", float(r.group(1)), float(ref.fieldrot(ra, dec, mjd, l, hx / 3600.)), tol, **w)
        ck.close("rate", float(q.group(1)), float(dfieldrotdt(ra=ra, dec=dec, lst_deg=l, mjd=mjd)), 1e-3, **w)
    if j % 6 == 2:          # no answer without the circumstances
        k = str(g.choice(["--ra", "--dec", "--mjd"]))
        p = call(ck, "desi_predict_fieldrot", [v for v in a if not v.startswith(k + "=")], d, None)
        ck.ok("refused", p.returncode != 0 and "FIELDROT " not in p.stdout, missing=k, out=p.stdout[-300:])


def guide(ck, g, d, i, j):
    from desimeter.fieldmodel import FieldModel
    T = truth(g)
    mjd, ha, dec = circumstances(g)
    source = ["MJD-OBS", "TCSMJD", "catalog", "both"][int(g.integers(4))]
    T["mjd"], T["lst"], T["dec"] = mjd, lst_of(mjd), dec
    T["ra"] = float((T["lst"] - ha) % 360.)
    T["hexrot"] = float("%.3f" % g.choice([0., g.uniform(-600, 600)])) / 3600.
    sw = dict(precession=True, aberration=True, polar_misalignment=True)
    cat, M = simulate_stars(g, T, sw, per=int(g.choice([4, 10])))
    n = len(cat)
    true = cat.copy()
    cat["ra"] = cat["ra_gaia"] + .3 * g.normal(size=n) / 3600. / np.cos(np.radians(cat["dec_gaia"]))
    cat["dec"] = cat["dec_gaia"] + .3 * g.normal(size=n) / 3600.
    bad = g.random(n) < .1          # wrong identifications, of another star some arcseconds away
    b, s = g.uniform(0, 2 * np.pi, n), g.uniform(3.5, 20, n) / 3600.
    cat["ra_gaia"] = np.where(bad, cat["ra_gaia"] + s * np.cos(b) / np.cos(np.radians(cat["dec_gaia"])), cat["ra_gaia"])
    cat["dec_gaia"] = np.where(bad, cat["dec_gaia"] + s * np.sin(b), cat["dec_gaia"])
    pm = g.random() < .5
    if pm:              # the catalogue positions are those of another epoch
        yr = 2000. + (mjd - 51544.5) / 365.25
        ep = np.where(g.random(n) < .5, 2015.5, 2016.)
        pa, pd = 60 * g.normal(size=n), 60 * g.normal(size=n)
        pa[g.random(n) < .1] = 0.
        cat["pmra"], cat["pmdec"], cat["ref_epoch"] = pa, pd, ep
        cat["ra_gaia"] = cat["ra_gaia"] - (yr - ep) * pa / 3.6e6 / np.cos(np.radians(cat["dec_gaia"]))
        cat["dec_gaia"] = cat["dec_gaia"] - (yr - ep) * pd / 3.6e6
    h = dict(MJD_OBS=mjd)
    if source == "TCSMJD":
        h = dict(TCSMJD=mjd)
    elif source == "catalog":
        h = dict()
    elif source == "both":
        h = dict(MJD_OBS=mjd, TCSMJD=mjd + .013)
    if source == "catalog" or g.random() < .3:
        cat["mjd_obs"] = mjd + np.linspace(-1e-4, 1e-4, n)
    cat = cat[g.permutation(n)]
    f = os.path.join(d, str(g.choice(["cat.csv", "cat.fits"])))
    cat.write(f)
    off = np.clip(g.normal(size=2) * 10 ** g.uniform(-1, 1.5), -60, 60) / 3600.
    exp = int(g.integers(1, 200000))
    ra0, dec0 = T["ra"] + off[0] / np.cos(np.radians(dec)), dec + off[1]
    pos = "%.1f,%.1f,%.1f,10.2,-3.3,%.3f" % (*g.uniform(-900, 900, 3), T["hexrot"] * 3600)
    hd = header(d, g, "h.fits", TARGTRA=float(ra0), TARGTDEC=float(dec0), EXPID=exp, FOCUS=pos, HEXPOS=pos, ADC1PHI=T["adc1"], ADC2PHI=T["adc2"], **h)
    sub = j % 2
    out = os.path.join(d, "new", "dir", "out.json") if sub else os.path.join(d, "out.json")
    ck.case("guide", **T, off=off.tolist(), source=source, pm=pm)
    w = dict(T=T, off=off * 3600, source=source, pm=pm, bad=int(bad.sum()))
    call(ck, "desi_fit_guide_star_coordinates", ["-i", f, "-o", out, "--fits-header", hd] + (["--make-directory"] if sub else []), d)
    if not os.path.exists(out):
        return
    with open(out) as q:
        m = FieldModel.fromjson(q.read())
    t = 1. / np.cos(np.radians(dec))
    r, p = 405 * np.sqrt(g.random(200)), g.uniform(0, 2 * np.pi, 200)
    X, Y = r * np.cos(p), r * np.sin(p)
    rt, dt = sky_of(T, sw, X, Y)
    rm, dm = m.fp2radec(X, Y)
    ck.close("model", ref.sep_arcsec(rm, dm, rt, dt), 0, .06, **w)
    ck.close("model-header", [m.expid, wrap(m.adc1 - T["adc1"]), wrap(m.adc2 - T["adc2"]), m.mjd - mjd, wrap(m.lst - T["lst"]), m.hexrot_deg - T["hexrot"]], [exp, 0, 0, 0, 0, 0], 1e-3, **w)
    ck.close("model-stars", [m.nstars, m.rms_arcsec], [n - bad.sum(), 0], [.1, .03], **w)
