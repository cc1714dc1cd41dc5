"""FVC pixels <-> focal plane round trips and forward model."""
import json, os
import numpy as np
from vlib import core, zb

DATA = os.path.join(core.REPO, "py", "desimeter", "data")
SHIPPED = ["init-fvc2fp.json", "single-lens-fvc2fp.json", "canon-lens-fvc2fp.json"]
LINEAR = (0, 1, 2, 3, 4, 27)


def shipped(name):
    d = dict(xfvc_scale=-3000., yfvc_scale=3000., xfvc_offset=3000., yfvc_offset=3000.)
    d.update(json.load(open(os.path.join(DATA, name))))
    if d["version"] == "1":
        d["zbpolids"], d["version"] = [2, 5, 6, 9, 20, 28, 29, 30], "2"
    return d


def random_model(g):
    d = dict(shipped(SHIPPED[int(g.integers(0, 3))]))
    k = int(g.integers(0, 6))
    if k == 0:
        return d
    d["scale"] = float(g.uniform(0.85, 1.2))
    d["rotation"] = float(g.choice([g.uniform(-.02, .02), g.uniform(-np.pi, np.pi), np.pi / 2, np.pi]))
    d["offset_x"], d["offset_y"] = [float(v) for v in g.uniform(-.05, .05, 2)]
    if k >= 2:
        d["zbpolids"] = sorted(int(i) for i in g.choice(33, size=int(g.integers(1, 25)), replace=False))
        if k % 2:       # terms may be listed in any order
            d["zbpolids"] = [int(i) for i in g.permutation(d["zbpolids"])]
        d["zbcoeffs"] = [float(g.normal() * (0.01 if i in LINEAR else 5e-4)) for i in d["zbpolids"]]
    if k >= 4:
        d["xfvc_scale"] = float(g.choice([-1, 1]) * g.uniform(2500, 3500))
        d["yfvc_scale"] = float(g.choice([-1, 1]) * g.uniform(2500, 3500))
        d["xfvc_offset"], d["yfvc_offset"] = [float(v) for v in g.uniform(2800, 3200, 2)]
    return d


def disk(g, n, rmax):
    r = np.sqrt(g.uniform(0, 1, n)) * rmax
    p = g.uniform(0, 2 * np.pi, n)
    x, y = r * np.cos(p), r * np.sin(p)
    if n > 3:
        x[0] = y[0] = 0
        x[1], y[1] = rmax, 0
        x[2], y[2] = 0, -rmax
    return x, y


def run(ck):
    ck.rule = "a case is one camera model (shipped, perturbed or fitted) with batches of pixels and focal-plane points; distinct by model and points"
    ck.assumptions = ["distortions small enough for the mapping to be invertible (|terms| <~ 1e-2), focal-plane radius < 420 mm"]
    n = ck.n(1200, 16000)
    ck.parallel(chunk, [(i, range(i * n // 12, (i + 1) * n // 12)) for i in range(12)])
    fitted(ck)
    for m, k in (("fp->fvc->fp", 500), ("fvc->fp->fvc", 500), ("forward-model", 500), ("alone", 500), ("fitted", 10)):
        ck.require(m, k)


def exercise(ck, g, m, d, tag=None, **w):
    n = int(g.choice([1, 2, 3, 4, 30, 400]))
    X, Y = disk(g, n, 420.)
    x, y = m.fp2fvc(X.copy(), Y.copy())
    ck.ok("finite", np.shape(x) == X.shape and np.all(np.isfinite(x)) and np.all(np.isfinite(y)), **w)
    X2, Y2 = m.fvc2fp(x.copy(), y.copy())
    ck.close(tag or "fp->fvc->fp", np.hypot(X2 - X, Y2 - Y), 0, 1e-3, model=d, **w)
    # pixels of the camera frame that see the focal plane
    px, py = g.uniform(0, 6000, 4 * n), g.uniform(0, 6000, 4 * n)
    RX, RY = zb.fvc2fp(d, px, py)
    s = np.hypot(RX, RY) < 420
    px, py, RX, RY = px[s], py[s], RX[s], RY[s]
    if px.size:
        QX, QY = m.fvc2fp(px.copy(), py.copy())
        ck.close("forward-model", np.hypot(QX - RX, QY - RY), 0, 1e-6, model=d, **w)
        p2, q2 = m.fp2fvc(QX, QY)
        ck.close(tag or "fvc->fp->fvc", np.hypot(p2 - px, q2 - py), 0, 1e-3, model=d, **w)
        k = int(g.integers(0, px.size))
        a, b = m.fvc2fp(px[k:k + 1].copy(), py[k:k + 1].copy())
        ck.close("alone", [a[0], b[0]], [QX[k], QY[k]], 1e-9, model=d, **w)
        perm = g.permutation(px.size)
        a, b = m.fvc2fp(px[perm], py[perm])
        ck.close("alone", np.hypot(a - QX[perm], b - QY[perm]), 0, 1e-9, model=d, **w)
    k = int(g.integers(0, n))
    a, b = m.fp2fvc(X[k:k + 1].copy(), Y[k:k + 1].copy())
    ck.close("alone", [a[0], b[0]], [x[k], y[k]], 1e-5, model=d, **w)
    a, b = m.fp2fvc(np.append(X, 600.), np.append(Y, -500.))
    ck.close("alone", np.hypot(a[:-1] - x, b[:-1] - y), 0, 1e-5, model=d, **w)


def chunk(ck, item):
    from desimeter.transform.fvc2fp import FVC2FP
    c, idx = item
    g = ck.rng("chunk", c)
    for j in idx:
        if j < 3:
            d = shipped(SHIPPED[j])
            m = FVC2FP.read(os.path.join(DATA, SHIPPED[j]))
        else:
            d = random_model(g)
            m = FVC2FP.fromjson(json.dumps(d))
        d = {k: d[k] for k in ("scale", "rotation", "offset_x", "offset_y", "zbpolids", "zbcoeffs", "xfvc_scale", "yfvc_scale", "xfvc_offset", "yfvc_offset")}
        ck.case("model", **d)
        with ck.guard("model", model=d):
            exercise(ck, g, m, d)
            exercise(ck, g, m, d)


def fitted(ck):
    from desimeter.transform.fvc2fp import FVC2FP
    from checks.C06 import simulate
    g = ck.rng("fitted")
    for i in range(ck.n(8, 60)):
        d = random_model(g)
        d["xfvc_scale"], d["yfvc_scale"], d["xfvc_offset"], d["yfvc_offset"] = -3000., 3000., 3000., 3000.
        spots, truth = simulate(g, d, extra=20)
        m = FVC2FP()
        m.fit(spots)
        dd = json.loads(m.tojson())
        ck.case("fitted", **{k: dd[k] for k in ("scale", "rotation", "offset_x", "offset_y")})
        exercise(ck, g, m, dd, tag="fitted")
