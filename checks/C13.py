"""Spot detection on synthetic scenes with known content."""
import numpy as np
from vlib import fvcimg as F


def pair(ck, mon, t, x, y, tol, **w):
    """one entry per true spot and nothing else; returns index of the entry of every true spot"""
    X, Y = np.array(t["XPIX"], float), np.array(t["YPIX"], float)
    if not ck.ok(mon, len(X) == len(x), got=len(X), want=len(x), **w):
        return None
    if not ck.ok(mon, np.all(np.isfinite(X)) and np.all(np.isfinite(Y)), **w):
        return None
    if len(x) == 0:
        return np.zeros(0, int)
    d = np.hypot(X[None, :] - x[:, None], Y[None, :] - y[:, None])
    j = np.argmin(d, 1)
    if not ck.ok(mon, len(set(j)) == len(x), lost=int(len(x) - len(set(j))), **w):
        return None
    ck.close(mon + "-position", d[np.arange(len(x)), j], 0, tol, **w)
    return j


def run(ck):
    ck.rule = "a case is one synthetic image with its list of spots; distinct by spot positions"
    ck.assumptions = ["isolated: separations of 10 pixels or more; gaussian spots of sigma 1 pixel (0.9 to 1.5 for the option test); peaks at least twice the threshold; white noise"]
    ck.parallel(chunk, [(i, ck.n(9, 160)) for i in range(8)])
    fits(ck)
    limits(ck)
    for m, k in (("found", 70), ("found-position", 70), ("flux", 60), ("errors", 10), ("orientation", 60), ("shift", 60), ("background", 60), ("dtype", 60), ("repeat", 60), ("border", 100), ("bad-region", 30), ("threshold", 30), ("none", 5), ("many", 2), ("close", 20), ("width", 60), ("fit", 200)):
        ck.require(m, k)


def chunk(ck, item):
    c, n = item
    g = ck.rng("scene", c)
    for k in range(n):
        with ck.guard("scene", chunk=c, k=k):
            scene(ck, g, k)


def scene(ck, g, k):
    from desimeter.detectspots import detectspots
    shape = tuple(int(v) for v in g.integers(120, 700, 2))
    if k % 9 == 8 and ck.thorough:
        shape = (2000, 1500)
    if k % 4 == 1:
        shape = (int(g.integers(120, 220)), int(g.integers(500, 800)))
    elif k % 4 == 3:
        shape = (int(g.integers(500, 800)), int(g.integers(120, 220)))
    noise, bg = float(10 ** g.uniform(.5, 1.7)), float(g.choice([0., 100., 1000., 20000.]))
    n = int(g.choice([1, 2, 10, shape[0] * shape[1] // 900]))
    x, y = F.scatter(g, shape, n, 10.)
    if k % 3 == 0:      # exact subpixel phases
        x, y = np.round(x * 2) / 2 + g.choice([0, 0, 1e-4], x.size), np.round(y * 2) / 2
        keep = np.ones(x.size, bool)
        for i in range(x.size):
            keep[i] = not np.any(keep[:i] & (np.hypot(x[:i] - x[i], y[:i] - y[i]) < 9.5))
        x, y = x[keep], y[keep]
    lo = max(20000., 60 * noise * 12)
    flux = lo * 10 ** g.uniform(0, .9, x.size)
    img = F.image(g, shape, x, y, flux, 1., bg, noise)
    ck.case("scene", x=x, y=y, shape=shape)
    w = dict(shape=shape, n=x.size, noise=noise, background=bg, lowest=lo)
    keep = img.copy()
    t = detectspots(img)
    ck.ok("image-kept", np.array_equal(img, keep), **w)
    # centroid noise: 2 sigma^2/flux sqrt(pi)... ~ 3.6*noise/flux
    sx = 5.0 * noise / flux
    tol = np.maximum(.003, 8 * sx)
    j = pair(ck, "found", t, x, y, tol, **w)
    if j is None:
        return
    C = np.array(t["COUNTS"], float)[j]
    ck.close("flux", C / flux, 1, .004 + 8 * 5.5 * noise / flux, **w)
    if x.size > 40:
        pull = np.concatenate([(np.array(t["XPIX"])[j] - x) / np.array(t["XERR"])[j], (np.array(t["YPIX"])[j] - y) / np.array(t["YERR"])[j]])
        ck.ok("errors", .7 < np.std(pull) < 1.5, got=np.std(pull), **w)
    # the detection again
    t2 = detectspots(img)
    ck.ok("repeat", len(t2) == len(t), **w)
    ck.close("repeat", [t2["XPIX"], t2["YPIX"]], [t["XPIX"], t["YPIX"]], .002, **w)
    X, Y = np.array(t["XPIX"])[j], np.array(t["YPIX"])[j]
    # orientations
    n0, n1 = shape
    for name, im, u, v in (("T", img.T, Y, X), ("lr", img[:, ::-1], n1 - 1 - X, Y), ("ud", img[::-1], X, n0 - 1 - Y), ("rot", np.rot90(img), Y, n1 - 1 - X)):
        if g.random() < .5:
            continue
        r = detectspots(im)
        q = pair(ck, "orientation", r, u, v, .003, how=name, **w)
        if q is not None:
            ck.close("orientation", np.array(r["COUNTS"])[q] / C, 1, .002, how=name, **w)
    # integer shifts: the same scene inside a larger frame
    a, b = (int(v) for v in g.integers(0, 40, 2))
    big = g.normal(bg, noise, (n0 + a + int(g.integers(0, 30)), n1 + b + int(g.integers(0, 30))))
    big[a:a + n0, b:b + n1] = img
    r = detectspots(big)
    q = pair(ck, "shift", r, X + b, Y + a, .003, shift=(b, a), **w)
    # constant background
    r = detectspots(img + float(g.choice([-300., 500., 7777.])))
    q = pair(ck, "background", r, X, Y, .003, **w)
    if q is not None:
        ck.close("background", np.array(r["COUNTS"])[q] / C, 1, .002, **w)
    # pixel types as read from files
    dt = str(g.choice(["<u2", ">u2", ">i4", "<i4", "<f4", ">f4", ">f8", ">i2"]))
    im = np.clip(np.round(img + (3000 if bg < 1 else 0)), 0, 32767 if dt[1:] == "i2" else 65535)
    sat = (im >= 32767).any()
    if not sat:
        r = detectspots(im.astype(dt))
        q = pair(ck, "dtype", r, X, Y, .004 + 2. / flux, dtype=dt, **w)
        if q is not None:
            ck.close("dtype", np.array(r["COUNTS"])[q] / C, 1, .003, dtype=dt, **w)
    else:
        r = detectspots(img.astype("<f4" if dt[0] == "<" else ">f4"))
        q = pair(ck, "dtype", r, X, Y, .004, dtype="f4", **w)
    # spots next to the edges of the frame
    for _ in range(2):
        u = float(g.choice([g.uniform(1, 4), n1 - 1 - g.uniform(1, 4), g.uniform(10, n1 - 11)]))
        v = float(g.choice([g.uniform(1, 4), n0 - 1 - g.uniform(1, 4)]))
        far = np.hypot(x - u, y - v) > 14
        im = F.image(g, shape, np.append(x[far], u), np.append(y[far], v), np.append(flux[far], 1e5 + 3000 * noise), 1., bg, noise)
        r = detectspots(im)
        q = pair(ck, "border", r, np.append(x[far], u), np.append(y[far], v), np.append(tol[far], .05), edge=(u, v), **w)
        if q is not None and noise < 30:     # less is known of the coordinate along which the spot is cut
            a, b = cut_errors(u, v, shape)
            got = np.log(r["XERR"][q[-1]] / r["YERR"][q[-1]])
            ck.ok("border-errors", abs(got - np.log(a / b)) < .01 + .4 * abs(np.log(a / b)), got=float(got), want=float(np.log(a / b)), edge=(u, v), **w)
    # a dead region elsewhere does not change the other spots
    if n > 5:
        m0, m1 = int(g.integers(8, 25)), int(g.integers(8, 25))
        part = k % 2 and bg >= 1000         # a part of the detector
        if part:
            if k % 4 == 1:
                m0, m1 = (n0, int(n1 * g.uniform(.2, .4)))
            else:
                m0, m1 = (int(n0 * g.uniform(.2, .4)), n1)
        p0, p1 = [int(g.integers(0, max(1, q)) * (g.random() < (.3 if part else .9))) for q in (n0 - m0, n1 - m1)]
        im = img.copy()
        im[p0:p0 + m0, p1:p1 + m1] = 0. if bg <= 1000 else bg
        # a spot cut by the region (or the filter's ringing next to it) is out of scope: 12 pixels around it are not judged
        near = lambda u, v, m: (u > p1 - m) & (u < p1 + m1 - 1 + m) & (v > p0 - m) & (v < p0 + m0 - 1 + m)
        out = ~near(x, y, 12)
        r = detectspots(im)
        R = np.array([r["XPIX"], r["YPIX"]]).T
        ck.ok("bad-region", np.all(np.isfinite(R)), **w)
        if out.any():
            d = np.hypot(R[:, 0][None] - X[out][:, None], R[:, 1][None] - Y[out][:, None])
            ck.close("bad-region", d.min(1), 0, .004, region=(p1, p0, m1, m0), **w)
        clear = ~near(R[:, 0], R[:, 1], 12.1)
        d = np.hypot(R[clear, 0][:, None] - X[None], R[clear, 1][:, None] - Y[None])
        ck.ok("bad-region", clear.sum() <= out.sum() and np.all(d.min(1) < .01), region=(p1, p0, m1, m0), **w)


def cut_errors(u, v, shape, hw=3, sigma=1.):
    """uncertainties of x and y (up to a factor) of a fit of flux, x and y in the pixels of the stamp inside the frame"""
    from scipy.special import erf
    i, j = int(round(v)), int(round(u))
    I, J = np.mgrid[max(0, i - hw):min(shape[0], i + hw + 1), max(0, j - hw):min(shape[1], j + hw + 1)]

    def f(u, v):
        e = lambda z: erf(z / np.sqrt(2) / sigma)
        return .25 * (e(J + .5 - u) - e(J - .5 - u)) * (e(I + .5 - v) - e(I - .5 - v))
    h = 1e-4
    H = np.array([f(u, v), (f(u + h, v) - f(u - h, v)) / 2 / h, (f(u, v + h) - f(u, v - h)) / 2 / h]).reshape(3, -1)
    C = np.linalg.inv(H.dot(H.T))
    return np.sqrt(C[1, 1]), np.sqrt(C[2, 2])


def fits(ck):
    """the centroid fit of one stamp, from any starting offset inside the peak pixel"""
    from desimeter import detectspots as D
    g = ck.rng("fits")
    for k in range(ck.n(400, 6000)):
        dx, dy, f = g.uniform(-.5, .5), g.uniform(-.5, .5), 10 ** g.uniform(4, 6)
        if k % 5 == 0:
            dx, dy = float(g.choice([-.5, 0, .5])), float(g.choice([-.5, 0, .5]))
        s = F.add_spots(np.zeros((7, 7)), [3 + dx], [3 + dy], [f])
        ck.case("fit", dx=dx, dy=dy, flux=f)
        w = dict(dx=dx, dy=dy, flux=f)
        with ck.guard("fit", **w):
            x, y, ex, ey, c = D.fitcentroid(s, noise=10.)
            ck.close("fit", [x, y], [dx, dy], 2e-3, **w)
            ck.close("fit", c / f, 1, 2e-3, **w)
            ck.ok("fit-errors", 0 < ex < 1000. / f and 0 < ey < 1000. / f, got=(ex, ey), **w)
            x2, y2, ex2, ey2, c2 = D.fitcentroid(s * 3, noise=10.)
            ck.close("fit-scaling", [x2, y2, c2 / (3 * c), ex2 * 3 / ex, ey2 * 3 / ey], [x, y, 1, 1, 1], 3e-3, **w)
            x3, y3, ex3, ey3, c3 = D.fitcentroid(s.T, noise=10.)
            ck.close("fit-scaling", [y3, x3, c3 / c], [x, y, 1], 1e-6, **w)


def limits(ck):
    """thresholds as documented; images without spots; psf option"""
    from desimeter.detectspots import detectspots
    g = ck.rng("limits")
    for k in range(ck.n(24, 300)):
        shape = (int(g.integers(200, 400)), int(g.integers(200, 400)))
        x, y = F.scatter(g, shape, 40, 14.)
        flux = np.where(np.arange(x.size) % 2, g.uniform(2e4, 6e4, x.size), g.uniform(1.2e5, 3e5, x.size))
        noise = 10.
        img = F.image(g, shape, x, y, flux, 1., 1000., noise)
        ck.case("limits", x=x, y=y)
        hi = flux > 1e5
        with ck.guard("limits"):
            t = detectspots(img, min_counts_per_spot=9e4)
            pair(ck, "threshold", t, x[hi], y[hi], .01, option="min_counts_per_spot")
            t = detectspots(img, min_counts_per_pixel=6500., min_counts_per_spot=0)      # 0.08*6e4 = 4800 at most; 0.08*1.2e5*0.8 = 7700 at least
            pair(ck, "threshold", t, x[hi], y[hi], .01, option="min_counts_per_pixel")
            # faint spots with the noise-driven threshold
            f2 = np.where(hi, 3000., 40000.)
            im2 = F.image(g, shape, x, y, f2, 1., 1000., noise)
            t = detectspots(im2, min_counts_per_pixel=None, min_counts_per_spot=0, nsig=12)
            pair(ck, "threshold", t, x, y, .15, option="nsig")
            t = detectspots(im2)
            pair(ck, "threshold", t, x[~hi], y[~hi], .02, option="defaults")
            # noise so high that it sets the default threshold (7 rms of the convolved image, 0.28 rms of the pixels each)
            big = float(g.uniform(600, 3000))
            im4 = F.image(g, shape, x, y, np.where(hi, 120., 5.) * big, 1., 1000., big)
            t = detectspots(im4, min_counts_per_pixel=100., min_counts_per_spot=0)
            pair(ck, "threshold", t, x[hi], y[hi], .4, option="noise", noise=big)
            # broader spots with the matching option
            s = float(g.choice([.9, 1.2, 1.5]))
            im3 = F.image(g, shape, x, y, flux, s, 1000., noise)
            t = detectspots(im3, psf_sigma=s)
            j = pair(ck, "psf-option", t, x, y, .05, sigma=s)
            if j is not None:
                r = np.array(t["COUNTS"])[j] / flux
                ck.ok("psf-option-flux", np.std(r) / np.mean(r) < .05, sigma=s, got=np.std(r) / np.mean(r))
            # the width asked for is the one used, whatever was asked for before
            s1, s2 = [(1., 1.3), (1.3, 1.), (1.4, 1.6), (1.7, 2.)][k % 4]
            from desimeter.detectspots import gaussian_convolve
            one = np.zeros((61, 61))
            one[30, 30] = 1.
            i, j = np.mgrid[-30:31, -30:31]
            for s in (s1, s2, s1):
                h = int(3 * s)
                ker = np.where((abs(i) <= h) & (abs(j) <= h), np.exp(-(i ** 2 + j ** 2) / 2. / s ** 2), 0)
                ck.close("width", gaussian_convolve(one, s), ker / ker.sum(), 1e-4, sigma=s)
            # spots closer to one another, but apart
            u, v = F.scatter(g, shape, 60, 6.5)
            t = detectspots(F.image(g, shape, u, v, g.uniform(4e4, 8e4, u.size), 1., 1000., noise))
            pair(ck, "close", t, u, v, .3)
    # a full focal plane, and more
    for n in (6000, 9500):
        m = int(np.ceil(np.sqrt(n)))
        q = np.arange(n)
        x, y = 8 + 12. * (q % m) + g.uniform(-.5, .5, n), 8 + 12. * (q // m) + g.uniform(-.5, .5, n)
        ck.case("many", n=n, x=x)
        with ck.guard("many"):
            img = g.normal(1000., 10., (12 * m + 6, 12 * m + 9))
            i0, j0 = np.floor(y + .5).astype(int), np.floor(x + .5).astype(int)
            for a in range(-5, 6):
                for b in range(-5, 6):
                    img[i0 + a, j0 + b] += 5e4 * F.cell(i0 + a - y, 1.) * F.cell(j0 + b - x, 1.)
            pair(ck, "many", detectspots(img), x, y, .03)
    for k in range(6):
        img = g.normal(1000., 20., (150, 200))
        if k % 2:
            img = F.add_spots(img, [60.], [70.], [1500.])
        ck.case("none", k=k)
        try:
            t = detectspots(img)
            ck.ok("none", len(t) == 0, got=len(t))
        except RuntimeError:
            ck.ok("none", True)
