"""Fitting the camera model on simulated fiducials."""
import json
import numpy as np
from vlib import zb
from checks.C31 import zb_ids  # noqa: F401  (shared list of the default terms)

_METRO = None


def metrology():
    global _METRO
    if _METRO is None:
        from desimeter.io import load_metrology
        t = load_metrology()
        _METRO = t
    return _METRO


def fiducials():
    t = metrology()
    return t[np.array(t["PINHOLE_ID"]) > 0]


def simulate(g, d, extra=0, keep=1.0, noise=0.0, shuffle=True, positioners=0):
    """spots table as the pipeline would hand it to the fit; truth = X,Y of every spot"""
    from astropy.table import Table
    f = fiducials()
    loc, pin = np.array(f["LOCATION"]), np.array(f["PINHOLE_ID"])
    X, Y = np.array(f["X_FP"], float), np.array(f["Y_FP"], float)
    if keep < 1:
        s = g.random(len(loc)) < keep
        loc, pin, X, Y = loc[s], pin[s], X[s], Y[s]
    if extra:
        r, p = 410 * np.sqrt(g.random(extra)), g.uniform(0, 2 * np.pi, extra)
        loc = np.append(loc, np.full(extra, -1)); pin = np.append(pin, g.choice([0, -1], extra))
        X, Y = np.append(X, r * np.cos(p)), np.append(Y, r * np.sin(p))
    if positioners:
        r, p = 410 * np.sqrt(g.random(positioners)), g.uniform(0, 2 * np.pi, positioners)
        loc = np.append(loc, g.integers(100, 9999, positioners)); pin = np.append(pin, np.zeros(positioners, int))
        X, Y = np.append(X, r * np.cos(p)), np.append(Y, r * np.sin(p))
    x, y = zb.fp2fvc(d, X, Y)
    if shuffle:
        o = g.permutation(len(loc))
        loc, pin, X, Y, x, y = loc[o], pin[o], X[o], Y[o], x[o], y[o]
    if noise:
        x, y = x + g.normal(size=x.size) * noise, y + g.normal(size=y.size) * noise
    t = Table()
    t["XPIX"], t["YPIX"], t["LOCATION"], t["PINHOLE_ID"] = x, y, loc.astype(int), pin.astype(int)
    t["COUNTS"] = np.full(len(loc), 1e4)
    return t, (X, Y)


def true_model(g, distort):
    d = dict(xfvc_scale=-3000., yfvc_scale=3000., xfvc_offset=3000., yfvc_offset=3000.,
             scale=float(g.uniform(.9, 1.15)), rotation=float(g.choice([g.uniform(-.03, .03), g.uniform(-np.pi, np.pi), np.pi / 2])),
             offset_x=float(g.uniform(-.04, .04)), offset_y=float(g.uniform(-.04, .04)), zbpolids=[], zbcoeffs=[])
    if distort:
        d["zbpolids"] = [5, 6, 9, 20, 28, 29, 30]
        d["zbcoeffs"] = [float(v) for v in g.normal(size=7) * np.array([1, 1, 60, 1, 1, 1, 1]) * 1e-4]
    return d


def disk(g, n, rmax):
    r, p = np.sqrt(g.uniform(0, 1, n)) * rmax, g.uniform(0, 2 * np.pi, n)
    return r * np.cos(p), r * np.sin(p)


def run(ck):
    ck.rule = "a case is one simulated camera (scale, rotation, offset, distortion) with one spot list; distinct by camera and spot list"
    ck.assumptions = ["oracle: forward camera model coded independently in vlib/zb.py; metrology file as shipped (or a randomly altered copy)"]
    ck.parallel(recover, range(ck.n(48, 600)))
    ck.parallel(fixed, range(ck.n(24, 300)))
    ck.parallel(assoc, range(ck.n(24, 300)))
    ck.parallel(kept_values, range(ck.n(24, 200)))
    for m, k in (("recover-noiseless", 15), ("recover-noisy", 10), ("metro-columns", 20), ("order", 20), ("fixed-zb", 20), ("fixed-scale-rotation", 10), ("unmatched-ignored", 20)):
        ck.require(m, k)


def recover(ck, i):
    from desimeter.transform.fvc2fp import FVC2FP, fit
    g = ck.rng("recover", i)
    distort, noisy = i % 4 != 0, i % 3 == 2
    d = true_model(g, distort)
    noise = 0.02 if noisy else 0.
    keep = float(g.choice([1., .8, .6]))
    spots, (X, Y) = simulate(g, d, extra=int(g.choice([0, 5, 500])), keep=keep, noise=noise, positioners=int(g.choice([0, 300])))
    ck.case("recover", **d, n=len(spots), noise=noise, keep=keep)
    w = dict(camera=d, noise=noise, keep=keep)
    with ck.guard("fit", **w):
        m = FVC2FP()
        m.fit(spots, update_spots=True)
        px, py = disk(g, 400, 405.)
        x, y = zb.fp2fvc(d, px, py)
        X2, Y2 = m.fvc2fp(x, y)
        e = np.hypot(X2 - px, Y2 - py)
        if noisy:
            # 0.02 pix = 2.8 um per coordinate; few hundred pinholes
            ck.close("recover-noisy", e, 0, 0.006, **w)
        else:
            ck.close("recover-noiseless", e, 0, 0.002 if distort else 0.0005, **w)
        # columns of every spot
        Xs, Ys = np.array(spots["X_FP"]), np.array(spots["Y_FP"])
        ck.close("spots-xyfp", np.hypot(Xs - X, Ys - Y), 0, 0.03 if noisy else 0.002, **w)
        check_metro(ck, spots, w)
        fid = (np.array(spots["LOCATION"]) > 0) & (np.array(spots["PINHOLE_ID"]) > 0)
        r = 1000 * np.hypot(Xs - np.array(spots["X_FP_METRO"]), Ys - np.array(spots["Y_FP_METRO"]))[fid]
        ck.close("statistics", [m.rmsdistance, m.meandistance, m.mediandistance, m.nmatch],
                 [np.sqrt(np.mean(r ** 2)), np.mean(r), np.median(r), fid.sum()], 1e-6 + 1e-6 * np.mean(r), **w)
        # order of the spots
        o = g.permutation(len(spots))
        sp2 = spots[o]
        m2 = fit(sp2, update_spots=True)
        A, B = m2.fvc2fp(x, y)
        ck.close("order", np.hypot(A - X2, B - Y2), 0, 1e-4, **w)
        ck.close("order", np.array(sp2["X_FP_METRO"]), np.array(spots["X_FP_METRO"])[o], 1e-9, **w)
        # unknown spots do not influence
        s = (np.array(spots["LOCATION"]) >= 0) & (np.array(spots["PINHOLE_ID"]) > 0)
        m3 = FVC2FP()
        m3.fit(spots[s])
        A, B = m3.fvc2fp(x, y)
        ck.close("unmatched-ignored", np.hypot(A - X2, B - Y2), 0, 1e-4, **w)
        # refit of an object that already holds a fit
        m.fit(spots)
        A, B = m.fvc2fp(x, y)
        ck.close("refit", np.hypot(A - X2, B - Y2), 0, 0.001, **w)


def check_metro(ck, spots, w):
    from desimeter.io import load_metrology
    key = {(int(r["LOCATION"]), int(r["PINHOLE_ID"])): (r["X_FP"], r["Y_FP"], r["Z_FP"]) for r in metrology()}
    exp = np.array([key[(int(l), int(p))] if l > 0 and p > 0 else (0., 0., 0.) for l, p in zip(spots["LOCATION"], spots["PINHOLE_ID"])])
    got = np.array([spots["X_FP_METRO"], spots["Y_FP_METRO"], spots["Z_FP_METRO"]]).T
    ck.close("metro-columns", got, exp, 1e-9, **w)


def fixed(ck, i):
    """distortion kept: only scale, rotation and offset adapt"""
    from desimeter.transform.fvc2fp import FVC2FP
    from desimeter.io import fvc2fp_filename
    g = ck.rng("fixed", i)
    base = json.load(open(fvc2fp_filename()))
    d = dict(base)
    small = i % 2 == 0
    d["scale"] = base["scale"] * (1 + float(g.uniform(-.02, .02)))
    d["rotation"] = base["rotation"] + float(g.uniform(-.02, .02) if small else g.uniform(-np.pi, np.pi))
    d["offset_x"] = float(g.uniform(-.03, .03)); d["offset_y"] = float(g.uniform(-.03, .03))
    d = {k: d[k] for k in ("scale", "rotation", "offset_x", "offset_y", "zbpolids", "zbcoeffs", "xfvc_scale", "yfvc_scale", "xfvc_offset", "yfvc_offset")}
    spots, (X, Y) = simulate(g, d, extra=30, keep=.8)
    m = FVC2FP.read(fvc2fp_filename())
    ids0, co0 = list(m.zbpolids), list(m.zbcoeffs)
    w = dict(camera=d)
    px, py = disk(g, 300, 405.)
    x, y = zb.fp2fvc(d, px, py)
    ck.case("fixed", **{k: d[k] for k in ("scale", "rotation", "offset_x", "offset_y")})
    with ck.guard("fixed", **w):
        m.fit(spots, update_spots=True, zbfit=False)
        ck.ok("fixed-zb", list(m.zbpolids) == ids0 and list(m.zbcoeffs) == co0, **w)
        A, B = m.fvc2fp(x, y)
        ck.close("fixed-zb", np.hypot(A - px, B - py), 0, 0.01, **w)
        check_metro(ck, spots, w)
        # keep scale and/or rotation
        for fs, fr in ((True, False), (False, True), (True, True)):
            m = FVC2FP.read(fvc2fp_filename())
            m.fit(spots, zbfit=False)       # (a model which was fitted before)
            if fs:
                m.scale = d["scale"]
            if fr:
                m.rotation = d["rotation"]
            s0, r0 = m.scale, m.rotation
            m.fit(spots, zbfit=False, fixed_scale=fs, fixed_rotation=fr)
            ck.ok("fixed-scale-rotation", (not fs or m.scale == s0) and (not fr or m.rotation == r0), fs=fs, fr=fr, **w)
            A, B = m.fvc2fp(x, y)
            ck.close("fixed-scale-rotation", np.hypot(A - px, B - py), 0, 0.01, fs=fs, fr=fr, **w)


def kept_values(ck, i):
    """a scale or rotation held fixed stays what it is, whatever its value and however far from the best one"""
    from desimeter.transform.fvc2fp import FVC2FP
    g = ck.rng("kept", i)
    d = true_model(g, i % 2 == 0)
    r0 = float([0., 0., -0., 1e-3, np.pi, 1.][i % 6])
    s0 = float([1., .97, 1.05][i % 3])
    if i % 4 == 0:
        d["rotation"] = r0
    spots, (X, Y) = simulate(g, d, keep=.7)
    for fs, fr in ((False, True), (True, True), (True, False)):
        m = FVC2FP()
        m.scale, m.rotation = s0, r0
        w = dict(camera=d, fs=fs, fr=fr, scale=s0, rotation=r0)
        ck.case("kept", **w)
        with ck.guard("kept", **w):
            m.fit(spots, zbfit=False, fixed_scale=fs, fixed_rotation=fr, update_spots=True)
            ck.ok("fixed-scale-rotation", (not fs or m.scale == s0) and (not fr or m.rotation == r0), got=(m.scale, m.rotation), **w)
            # and it is used: the map turns and stretches by just these
            p = m.fvc2fp(np.array([3000., 3300.]), np.array([3000., 3000.]))
            u = np.array([p[0][1] - p[0][0], p[1][1] - p[1][0]]) / (-.1 * 420)
            if fr and (fs or m.scale > 0):
                ck.close("fixed-scale-rotation", np.arctan2(u[1], u[0]) - np.arctan2(np.sin(r0), np.cos(r0)), [0.], 1e-6, what="direction", **w) if abs(abs(r0) - np.pi) > .1 else None
            if fs:
                ck.close("fixed-scale-rotation", np.hypot(*u), s0, 1e-6, what="length", **w)


def assoc(ck, i):
    """a metrology table handed in is used, in any row order, and tables are not altered"""
    from desimeter.transform.fvc2fp import FVC2FP
    g = ck.rng("assoc", i)
    M = metrology().copy()
    n = len(M)
    M["X_FP"] = np.array(M["X_FP"]) + g.normal(size=n) * .05
    M["Y_FP"] = np.array(M["Y_FP"]) + g.normal(size=n) * .05
    M = M[g.permutation(n)]
    keep = M.copy()
    d = true_model(g, True)
    spots, (X, Y) = simulate(g, d, extra=50, keep=.9, noise=.05)
    orig = spots.copy()
    ck.case("assoc", seed=i, n=len(spots))
    with ck.guard("assoc"):
        m = FVC2FP()
        m.fit(spots, metrology=M)
        ck.ok("inputs-untouched", spots.colnames == orig.colnames and all(np.array_equal(spots[c], orig[c]) for c in orig.colnames))
        m.fit(spots, metrology=M, update_spots=True)
        ck.ok("inputs-untouched", all(np.array_equal(spots[c], orig[c]) for c in orig.colnames))
        ck.ok("inputs-untouched", all(np.array_equal(np.array(M[c]).astype(str), np.array(keep[c]).astype(str)) for c in ("LOCATION", "PINHOLE_ID", "X_FP", "Y_FP")))
        key = {(int(r["LOCATION"]), int(r["PINHOLE_ID"])): (r["X_FP"], r["Y_FP"]) for r in keep}
        exp = np.array([key[(int(l), int(p))] if l > 0 and p > 0 else (0., 0.) for l, p in zip(spots["LOCATION"], spots["PINHOLE_ID"])])
        ck.close("metro-columns", np.array([spots["X_FP_METRO"], spots["Y_FP_METRO"]]).T, exp, 1e-9)
        # least squares: residuals of the fit are orthogonal to the linear modes
        f = (np.array(spots["LOCATION"]) > 0) & (np.array(spots["PINHOLE_ID"]) > 0)
        rx, ry = (np.array(spots["X_FP"]) - exp[:, 0])[f], (np.array(spots["Y_FP"]) - exp[:, 1])[f]
        ck.close("least-squares", [np.mean(rx), np.mean(ry)], 0, 2e-5)
        # without a table, the shipped metrology is the reference, also for an object which was given one before
        m.fit(spots, update_spots=True)
        check_metro(ck, spots, dict(after="own table"))
        m2 = FVC2FP()
        m2.fit(orig.copy())
        px, py = g.uniform(500, 5500, (2, 50))
        ck.close("default-metrology", [*m.fvc2fp(px, py)], [*m2.fvc2fp(px, py)], 2e-3)
