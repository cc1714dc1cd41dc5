"""Arm angles measured on simulated front-illuminated images with known orientations."""
import contextlib, io, os, subprocess, sys, tempfile
import numpy as np
from vlib import core, zb

TEMPLATE = os.path.join(core.REPO, "py", "desimeter", "data", "fiber_arm_outline.fits")
TOL = 3.5          # degrees: pixelisation of the outline, 1 deg steps
_arm = None


def silhouette():
    """bright arm: the area inside the shipped outline, slightly blurred; fibre at the centre, knee at -90 deg"""
    global _arm
    if _arm is None:
        import fitsio
        from scipy import ndimage as nd
        t = fitsio.read(TEMPLATE).astype(float)
        _arm = nd.gaussian_filter(nd.binary_fill_holes(t > 0).astype(float), .7)
    return _arm


def paint(im, x, y, a, amp):
    """a: direction from the fibre to the knee in pixel coordinates, radians"""
    from scipy import ndimage as nd
    F = silhouette()
    n = 46
    cx, cy = int(round(x)), int(round(y))
    y0, y1, x0, x1 = max(0, cy - n), min(im.shape[0], cy + n + 1), max(0, cx - n), min(im.shape[1], cx + n + 1)
    yy, xx = np.mgrid[y0:y1, x0:x1]
    r = a + np.pi / 2
    dx, dy = xx - x, yy - y
    im[y0:y1, x0:x1] += amp * nd.map_coordinates(F, [31 - np.sin(r) * dx + np.cos(r) * dy, 31 + np.cos(r) * dx + np.sin(r) * dy], order=1, cval=0)


def scatter(g, shape, n, sep, border):
    P = []
    for _ in range(4000):
        x, y = g.uniform(border, shape[1] - 1 - border), g.uniform(border, shape[0] - 1 - border)
        if all(np.hypot(x - a, y - b) > sep for a, b in P):
            P.append((x, y))
        if len(P) == n:
            break
    return np.array(P)


off = lambda a, b: (np.degrees(np.asarray(a) - np.asarray(b)) + 180) % 360 - 180


def run(ck):
    ck.rule = "a case is one simulated image and one call; distinct by the orientations and positions in it"
    ck.assumptions = ["arms of the shape of the shipped template, uniformly bright, at least 40 times brighter than the noise, 75 pixels from one another",
                      "next to the image edge: at least 60 % of the arm inside (fibre 6 pixels or more inside, arm turned to the inside)"]
    chunk(ck, ("many", 0, ck.n(4, 40)))       # makes processes of its own
    ck.parallel(chunk, [("one", i, ck.n(14, 200)) for i in range(4)] + [("script", 0, 1)] + [("script", i, 1) for i in range(1, ck.n(1, 4))])
    for m, k in (("angle", 50), ("knee-direction", 30), ("image-kept", 50), ("template-kept", 50), ("scale", 10), ("again", 10), ("other-template", 8), ("edge", 10), ("alone", 4), ("order", 4), ("processes", 4), ("file-kept", 4), ("rows-kept", 4),
                 ("script-angle", 20), ("script-identity", 20)):
        ck.require(m, k)


def chunk(ck, item):
    kind, i, n = item
    g = ck.rng(kind, i)
    for j in range(n):
        with contextlib.redirect_stdout(io.StringIO()):
            globals()[kind](ck, g, j + 100 * i)


def one(ck, g, j):
    from desimeter.brightimage import detect_phi_arm
    import fitsio
    T = fitsio.read(TEMPLATE).astype(float)
    shape = (int(g.integers(120, 200)), int(g.integers(120, 200)))
    edge = j % 4 == 3
    x, y = g.uniform(45, shape[1] - 46), g.uniform(45, shape[0] - 46)
    a = g.uniform(-np.pi, np.pi)
    if edge:
        side = int(g.integers(4))
        m = g.uniform(6, 28)
        a = np.radians([0, 180, 90, 270][side] + g.uniform(-50, 50))
        x, y = [(m, y), (shape[1] - 1 - m, y), (x, m), (x, shape[0] - 1 - m)][side]
    bg, amp = float(g.choice([0., 100., 3000., 3e4])), float(10**g.uniform(2.2, 4.5))
    s = amp * float(g.choice([0., .005, .02]))
    im = np.full(shape, bg)
    if j % 5 == 1:
        im += np.linspace(0, .1 * amp, shape[1])[None, :]
    paint(im, x, y, a, amp)
    im += s * g.normal(size=shape)
    ck.case("edge" if edge else "one", x=x, y=y, a=a, amp=amp)
    w = dict(x=x, y=y, true=np.degrees(a), shape=shape, background=bg, amplitude=amp, noise=s)
    i0, t0 = im.copy(), T.copy()
    with ck.guard("detect_phi_arm"):
        r = detect_phi_arm(x, y, im, T)
    ck.ok("image-kept", np.array_equal(im, i0), **w)
    ck.ok("template-kept", np.array_equal(T, t0), **w)
    if edge:
        ck.ok("edge", abs(off(r[0], a)) < 2 * TOL, got=np.degrees(r[0]), **w)
        return
    ck.ok("angle", abs(off(r[0], a)) < TOL, got=np.degrees(r[0]), **w)
    d = np.array([np.cos(r[0]), np.sin(r[0])]) * 22
    # the arm is bright along the reported direction only
    val = lambda q: float(im[int(round(y + d[1] * q)), int(round(x + d[0] * q))] - bg)
    ck.ok("knee-direction", val(.9) > .6 * amp - 6 * s and val(-1) < .5 * amp + 6 * s, there=val(.9), opposite=val(-1), **w)
    ck.ok("ccf", .25 < r[1] <= 1 + 1e-9, ccf=r[1], **w)
    # same answer whatever the scale, the zero level and the type of the image, and where the stamp is in it
    q = g.integers(4)
    if q == 0:
        im2, x2, y2 = im * 7.5 + 321., x, y
    elif q == 1:
        k = int(g.integers(3, 30)); im2, x2, y2 = np.pad(im, ((k, 0), (2 * k, 5)), mode="edge"), x + 2 * k, y + k
    elif q == 2:
        im2, x2, y2 = im.astype(">f8"), x, y
    else:
        im2, x2, y2 = np.asfortranarray(im), x, y
    r2 = detect_phi_arm(x2, y2, im2, T * (3. if q == 0 else 1.))
    ck.ok("scale", abs(off(r2[0], r[0])) < 1.01 and abs(r2[1] - r[1]) < .05, got=np.degrees(r2[0]), first=np.degrees(r[0]), how=int(q), ccf=(r[1], r2[1]), **w)
    if j % 2:
        r3 = detect_phi_arm(x, y, im, T)
        ck.ok("again", abs(off(r3[0], r[0])) < 1e-6 and abs(r3[1] - r[1]) < 1e-9, got=np.degrees(r3[0]), first=np.degrees(r[0]), **w)
    # the angle is the one with respect to the template of this call
    if j % 3 == 1:
        r5 = detect_phi_arm(x, y, im, np.ascontiguousarray(T[::-1, ::-1]))
        ck.ok("other-template", abs(off(r5[0], r[0] + np.pi)) < 1.01, got=np.degrees(r5[0]), first=np.degrees(r[0]), **w)
    # a finer scan agrees
    if j % 3 == 0:
        r4 = detect_phi_arm(x, y, im, T, ang_step=.5)
        ck.ok("angle", abs(off(r4[0], a)) < TOL, got=np.degrees(r4[0]), ang_step=.5, **w)


def many(ck, g, j):
    from astropy.table import Table
    from desimeter.brightimage import detect_phi_arms
    import fitsio
    shape = (int(g.integers(450, 600)), int(g.integers(450, 700)))
    P = scatter(g, shape, 12, 75, 34)
    # and some next to the edges, pointing inside
    a = g.uniform(-np.pi, np.pi, len(P))
    im = np.full(shape, float(g.choice([0, 1000])))
    for (x, y), q in zip(P, a):
        paint(im, x, y, q, float(g.uniform(300, 3000)))
    im += 4 * g.normal(size=shape)
    n = len(P)
    with tempfile.TemporaryDirectory(prefix="c27_") as d:
        f = os.path.join(d, "front.fits"); tf = os.path.join(d, "template.fits")
        with fitsio.FITS(f, "rw", clobber=True) as fx:
            if j % 2:
                fx.write(None)
            fx.write(np.round(im).astype(np.int32) if j % 2 else im.astype(np.float32))
            if j % 3 != 1:      # other things the file may hold
                fx.write({"A": np.arange(3)}, extname="NOTES")
                fx.write(np.zeros(shape, dtype=np.int16), extname="MASK")
        fitsio.write(tf, fitsio.read(TEMPLATE))
        sha = [open(v, "rb").read() for v in (f, tf)]
        tab = lambda o: Table({"XPIX": P[o, 0], "YPIX": P[o, 1], "NAME": np.asarray(o)})
        ck.case("many", a=a, P=P)
        res = {}
        for how, o, k in (("serial", np.arange(n), 1), ("processes", np.arange(n), 3), ("more-processes", np.arange(n), 7), ("order", g.permutation(n), 1), ("order-processes", g.permutation(n), 2)):
            t = tab(o)
            with ck.guard("detect_phi_arms " + how):
                detect_phi_arms(t, f, tf, nproc=k)
            ck.ok("rows-kept", np.array_equal(t["NAME"], o) and np.array_equal(t["XPIX"], P[o, 0]) and np.array_equal(t["YPIX"], P[o, 1]), how=how)
            ck.close("angle", off(np.array(t["ANGLE"]), a[o]), 0 * a, TOL, how=how)
            res[how] = {c: np.array(t[c])[np.argsort(o)] for c in ("ANGLE", "CCF", "MCCF", "RMSCCF", "MIMAGE", "NORM")}
        for how in list(res)[1:]:
            m = "processes" if how.endswith("processes") else "order"
            ck.close(m, off(res[how]["ANGLE"], res["serial"]["ANGLE"]), 0 * a, 1e-6, how=how)
            for c in ("CCF", "MCCF", "RMSCCF", "MIMAGE", "NORM"):
                ck.close(m, res[how][c], res["serial"][c], 1e-7 * (1 + np.abs(res["serial"][c])), how=how, column=c)
        for k in g.choice(n, 3, replace=False):
            t = tab([k])
            detect_phi_arms(t, f, tf)
            ck.close("alone", off(np.array(t["ANGLE"])[0], res["serial"]["ANGLE"][k]), 0, 1e-6, spot=int(k))
            ck.close("alone", float(t["CCF"][0]), res["serial"]["CCF"][k], 1e-7, spot=int(k))
        ck.ok("file-kept", [open(v, "rb").read() for v in (f, tf)] == sha and sorted(os.listdir(d)) == ["front.fits", "template.fits"], got=sorted(os.listdir(d)))


def script(ck, g, j):
    """bin/analyze_bright_image: arm angles, knees and the positioners they belong to"""
    from astropy.table import Table
    from scipy.spatial import cKDTree
    from checks import C22
    import fitsio
    cam = C22.camera(g)
    m = C22.metrology(); p = m[np.array(m["DEVICE_TYPE"]) == "POS"]
    n = 50
    X0, Y0 = np.array(p["X_FP"], float), np.array(p["Y_FP"], float)
    sel = []
    _, pin, PX, PY = C22.pinholes()
    far = cKDTree(np.array([PX, PY]).T).query(np.array([X0, Y0]).T)[0] > 16
    for k in g.permutation(len(p)):
        if far[k] and all(np.hypot(X0[k] - X0[q], Y0[k] - Y0[q]) > 25 for q in sel):
            sel.append(k)
        if len(sel) == n:
            break
    sel = np.array(sel); n = len(sel)
    t = g.uniform(0, 2 * np.pi, n); r1 = 3 + .03 * g.normal(size=n)
    KX, KY = X0[sel] + r1 * np.cos(t), Y0[sel] + r1 * np.sin(t)
    ph = t + g.uniform(0, np.pi, n)
    X, Y = KX + 3 * np.cos(ph), KY + 3 * np.sin(ph)
    q = g.choice(np.flatnonzero(pin <= 4), 60, replace=False)
    X_, Y_ = np.concatenate([X, PX[q]]), np.concatenate([Y, PY[q]])
    px, py = zb.fp2fvc(cam, X_, Y_)
    kx, ky = zb.fp2fvc(cam, KX, KY)
    a = np.arctan2(ky - py[:n], kx - px[:n])
    im = np.full((6000, 6000), 100., np.float32)
    im += 5 * g.standard_normal(size=im.shape, dtype=np.float32)
    for i in range(n):
        paint(im, px[i], py[i], a[i], 1000.)
    o = g.permutation(len(px))
    ck.case("script", a=a, x=px)
    with tempfile.TemporaryDirectory(prefix="c27_") as d:
        Table({"XPIX": px[o], "YPIX": py[o], "COUNTS": np.full(len(o), 5e4), "X_FP": X_[o], "Y_FP": Y_[o], "NAME": o}).write(os.path.join(d, "spots.csv"))
        fitsio.write(os.path.join(d, "front.fits"), im)
        env = dict(os.environ, PYTHONPATH=os.path.join(core.REPO, "py"), MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR=d)
        pr = subprocess.run([sys.executable, os.path.join(core.REPO, "bin", "analyze_bright_image"), "--front-illuminated", os.path.join(d, "front.fits"), "--back-illuminated", os.path.join(d, "spots.csv"),
                             "-o", os.path.join(d, "out.csv"), "--nproc", "2"], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        if not ck.ok("script-ends", pr.returncode == 0, rc=pr.returncode, err=pr.stderr[-800:]):
            return
        r = Table.read(os.path.join(d, "out.csv"))
    at = {int(v): i for i, v in enumerate(r["NAME"])}
    loc = np.array(p["LOCATION"])[sel]
    for i in range(n):
        if not ck.ok("script-rows", i in at, spot=i, xy=(X[i], Y[i])):
            continue
        k = at[i]
        ck.ok("script-angle", abs(off(float(r["ANGLE"][k]), a[i])) < TOL, got=np.degrees(float(r["ANGLE"][k])), true=np.degrees(a[i]))
        ck.ok("script-knee", np.hypot(float(r["X_FP_KNEE"][k]) - KX[i], float(r["Y_FP_KNEE"][k]) - KY[i]) < .3, got=(float(r["X_FP_KNEE"][k]), float(r["Y_FP_KNEE"][k])), want=(KX[i], KY[i]))
        ck.ok("script-identity", int(r["LOCATION"][k]) == int(loc[i]), got=int(r["LOCATION"][k]), want=int(loc[i]))
