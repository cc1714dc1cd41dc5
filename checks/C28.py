"""External spot matcher: a recording stand-in is put in its place."""
import contextlib
import io
import json
import os
import shutil
import tempfile
import threading
import numpy as np
from vlib import zb
from vlib.core import VERIF
from checks.C06 import metrology
from checks.C15 import pinholes
from checks.C22 import camera, default_camera

SCR = os.environ.get("VERIF_SCRATCH", "/tmp")
NUM = {1: 515, 2: 1027, 3: 259, 4: 771}


def run(ck):
    ck.rule = "a case is one call of the matcher with its spots, expectations, camera and program behaviour; distinct by inputs"
    ck.assumptions = ["the external program is replaced by a stand-in (it is not available outside of the instrument): what it receives and what it reports is what is judged"]
    ck.parallel(chunk, range(ck.n(6, 36)))
    for m, k in (("targets", 15), ("measured", 15), ("references", 15), ("options", 15), ("rows", 15), ("devices", 15), ("pinhole-ids", 15), ("failure", 15), ("leftovers", 15), ("concurrent", 6), ("old-program", 5)):
        ck.require(m, k)


class World:
    def __init__(self, d):
        self.d = d
        self.log = os.path.join(d, "log")
        self.tmp = os.path.join(d, "tmp")
        os.makedirs(self.log)
        os.makedirs(self.tmp)
        self.conf("match")

    def conf(self, mode, sleep=0., centers=True, last=False):
        f = os.path.join(self.d, "conf.json")
        json.dump(dict(mode=mode, sleep=sleep, log=self.log, centers=centers, last=last), open(f, "w"))
        os.environ["FAKE_MATCH_CONF"] = f

    def runs(self):
        out = []
        for r in sorted(os.listdir(self.log)):
            d = os.path.join(self.log, r)
            q = {"opt": json.load(open(os.path.join(d, "args.json")))}
            for k in os.listdir(d):
                if k == "out.json":
                    q["out"] = json.load(open(os.path.join(d, k)))
                elif k != "args.json":
                    q[k] = [l.split() for l in open(os.path.join(d, k))]
            out.append(q)
            shutil.rmtree(d)
        return out


def chunk(ck, i):
    g = ck.rng("chunk", i)
    d = os.path.join(SCR, "c28-%d" % i)
    os.makedirs(d)
    old = os.environ["PATH"], tempfile.tempdir
    try:
        W = World(d)
        os.environ["PATH"] = os.path.join(VERIF, "vlib", "fakebin") + ":" + old[0]
        tempfile.tempdir = W.tmp
        for k in range(5):
            with ck.guard("call", chunk=i, k=k):
                call(ck, g, W, k)
        with ck.guard("failures", chunk=i):
            failures(ck, g, W)
        with ck.guard("concurrent", chunk=i):
            concurrent(ck, g, W)
    finally:
        os.environ["PATH"], tempfile.tempdir = old
        shutil.rmtree(d, ignore_errors=True)


def quiet(*a, **k):
    from desimeter.spotmatch import spotmatch
    with contextlib.redirect_stdout(io.StringIO()):
        return spotmatch(*a, **k)


def scene(g, cam, n=None):
    """measured pixels: fibres near their expected position, pinholes, ghosts"""
    m = metrology()
    p = m[np.array(m["DEVICE_TYPE"]) == "POS"]
    s = g.permutation(len(p))[:n or int(g.choice([30, 700, 5000]))]
    X, Y, L = np.array(p["X_FP"], float)[s], np.array(p["Y_FP"], float)[s], np.array(p["LOCATION"])[s]
    return X, Y, L


def call(ck, g, W, k):
    default = default_camera()
    custom = k in (1, 3)
    cam = camera(g) if custom else default
    tx = None
    if custom:
        from desimeter.transform.fvc2fp import FVC2FP
        f = os.path.join(W.d, "cam.json")
        json.dump(cam, open(f, "w"))
        tx = FVC2FP.read_jsonfile(f)
    with_exp = k != 2
    X, Y, L = scene(g, cam)
    if with_exp:
        X, Y = X + g.uniform(-3, 3, len(X)), Y + g.uniform(-3, 3, len(X))
    on = g.random(len(X)) < .9
    l, h, PX, PY = pinholes()
    ps = (h <= 4) & (g.random(len(h)) < .97)
    x, y = zb.fp2fvc(cam, np.concatenate([X[on], PX[ps]]), np.concatenate([Y[on], PY[ps]]))
    gx, gy = g.uniform(0, 6000, 20), g.uniform(0, 6000, 20)
    x, y = np.append(x, gx) + g.normal(size=len(x) + 20) * .3, np.append(y, gy) + g.normal(size=len(y) + 20) * .3
    o = g.permutation(len(x))
    x, y = x[o], y[o]
    radius = float(g.choice([3., 12., 40.]))
    verbose = int(g.choice([0, 1]))
    W.conf("match", centers=bool(k % 2))
    kw = dict(verbose=verbose, match_radius_pixels=radius)
    if custom:
        kw["fvc2fp"] = tx
    if with_exp:
        kw.update(expected_x_fp=X, expected_y_fp=Y, expected_location=L)
    ck.case("call", x=x, y=y, custom=custom, with_exp=with_exp, radius=radius)
    w = dict(n=len(x), n_expected=len(X), custom=custom, with_exp=with_exp, radius=radius, k=k)
    cp = [v.copy() for v in (x, y, X, Y, L)]
    before = set(os.listdir(W.tmp))
    t = quiet(x, y, **kw)
    ck.ok("leftovers", set(os.listdir(W.tmp)) == before, left=sorted(set(os.listdir(W.tmp)) - before)[:5], **w)
    ck.ok("inputs-kept", all(np.array_equal(a, b) for a, b in zip(cp, (x, y, X, Y, L))), **w)
    r = W.runs()
    if not ck.ok("one-run", len(r) == 1, found=len(r), **w):
        return
    r = r[0]
    received(ck, r, w, x, y, X if with_exp else None, Y, L, cam, default, radius, verbose)
    returned(ck, t, r["out"], w)


def centres():
    """mean of the pinholes of every fiducial"""
    l, h, PX, PY = pinholes()
    u = np.unique(l)
    return u, np.array([PX[l == q].mean() for q in u]), np.array([PY[l == q].mean() for q in u])


def received(ck, r, w, x, y, X, Y, L, cam, default, radius, verbose):
    m = metrology()
    p = m[np.array(m["DEVICE_TYPE"]) == "POS"]
    if X is None:
        X, Y, L = np.array(p["X_FP"], float), np.array(p["Y_FP"], float), np.array(p["LOCATION"])
    cl, cx, cy = centres()

    def table(rows, ncol):
        return all(len(q) == ncol for q in rows)
    # targets
    T = r["target_pos_file"]
    ck.ok("format", table(T, 6) and table(r["measured_pos_file"], 5) and table(r["device_centers_file"], 6) and table(r["reference_pos_file"], 7) and table(r["fiducial_config_file"], 7), **w)

    def judge(mon, T, locs, fx, fy, flags, cams):
        got = {(int(q[0]), int(q[-1])): (float(q[1]), float(q[2])) for q in T}
        want = set(zip((int(v) for v in locs), flags))
        if not ck.ok(mon, len(T) == len(got) == len(want) and set(got) == want, found=len(T), wanted=len(want), **w):
            return
        gxy = np.array([got[(int(a), b)] for a, b in zip(locs, flags)])
        best = min((np.max(np.abs(gxy - np.array(zb.fp2fvc(c, fx, fy)).T)) for c in cams))
        ck.close(mon, best, 0, .0025, **w)
    n = len(X)
    judge("targets", T, np.append(L, cl), np.append(X, cx), np.append(Y, cy), [4] * n + [8] * len(cl), [cam])
    P = np.array(p["LOCATION"])
    judge("device-centers", r["device_centers_file"], np.append(P, cl), np.append(np.array(p["X_FP"], float), cx), np.append(np.array(p["Y_FP"], float), cy), [4] * len(P) + [8] * len(cl), [cam, default])
    # measured spots
    M = r["measured_pos_file"]
    ck.ok("measured", len(M) == len(x) and sorted(int(q[3]) for q in M) == list(range(1, len(x) + 1)), **w)
    if len(M) == len(x):
        i = np.array([int(q[3]) for q in M]) - 1
        ck.close("measured", np.array([[float(q[1 - 1]), float(q[1])] for q in M]), np.array([x[i], y[i]]).T, .00051, **w)
    # pinholes
    l, h, PX, PY = pinholes()
    k = h <= 4
    judge2 = {(int(q[0]), int(q[4])): (float(q[1]), float(q[2])) for q in r["reference_pos_file"]}
    want = {(int(a), NUM[int(b)]) for a, b in zip(l[k], h[k])}
    if ck.ok("references", set(judge2) == want and len(r["reference_pos_file"]) == len(want) and all(q[-1] == "pinhole" for q in r["reference_pos_file"]), found=len(judge2), **w):
        gxy = np.array([judge2[(int(a), NUM[int(b)])] for a, b in zip(l[k], h[k])])
        ck.close("references", min(np.max(np.abs(gxy - np.array(zb.fp2fvc(c, PX[k], PY[k])).T)) for c in (cam, default)), 0, .0025, **w)
    # shape of fiducials
    C = {(int(q[0]), int(q[5]), int(q[6])): (float(q[1]), float(q[2])) for q in r["fiducial_config_file"]}
    want = {}
    for a, u, v in zip(cl, cx, cy):
        want[(int(a), 0, 8)] = (0., 0.)
        for b in np.where((l == a) & k)[0]:
            want[(int(a), int(h[b]), 2)] = (PX[b] - u, PY[b] - v)
    if ck.ok("fiducials", set(C) == set(want) and len(r["fiducial_config_file"]) == len(want), found=len(C), wanted=len(want), **w):
        ck.close("fiducials", [C[q] for q in sorted(want)], [want[q] for q in sorted(want)], .00051, **w)
    # options
    o = r["opt"]
    e = .1
    a = np.array(zb.fvc2fp(cam, np.array([3000., 3000. + e, 3000.]), np.array([3000., 3000., 3000. + e])))
    J = (a[:, 1:] - a[:, :1]) / e
    s = np.sqrt(abs(np.linalg.det(J)))
    ck.close("options", float(o["exp_pixel_scale"]) / s, 1, 1e-5, **w)
    ck.close("options", float(o["match_radius"]), radius, 1e-9, **w)
    if "positioner_reach" in o:
        ck.close("options", float(o["positioner_reach"]), 6.6 / s, 2e-3, **w)
    ck.ok("options", int(o["verbose"]) == verbose, got=o["verbose"], **w)


def returned(ck, t, out, w):
    m = metrology()
    info = {int(a): (str(b), int(c), int(d), str(e)) for a, b, c, d, e in zip(m["LOCATION"], m["DEVICE_TYPE"], m["PETAL_LOC"], m["DEVICE_LOC"], m["DEVICE_ID"])}
    if not ck.ok("rows", len(t) == len(out), got=len(t), want=len(out), **w):
        return
    loc = np.array([int(q[0]) for q in out])
    kind = np.array([q[6] for q in out])
    xy = np.array([[float(q[1]), float(q[2])] for q in out])
    # rows may come in any order: pair by pixel
    o1 = np.lexsort((np.array(t["YPIX"]), np.array(t["XPIX"])))
    o2 = np.lexsort((xy[:, 1], xy[:, 0]))
    t, loc, kind, xy = t[o1], loc[o2], kind[o2], xy[o2]
    flag, err = np.array([float(q[4]) for q in out])[o2], np.array([float(q[5]) for q in out])[o2]
    ck.close("rows", np.array([t["XPIX"], t["YPIX"]]).T, xy, 1e-9, **w)
    L = np.array(t["LOCATION"])
    k = loc >= 0
    ck.ok("rows", np.array_equal(L[k], loc[k]) and np.all(L[~k] < 0), **w)
    ck.ok("rows", np.array_equal(np.array(t["SPOTMATCH_DEVICE_TYPE"]).astype(str), kind), **w)
    ck.close("rows", [t["FLAG"], t["ERR"]], [flag, err], 1e-9, **w)
    for c, f in (("DEVICE_TYPE", lambda v: v[0]), ("PETAL_LOC", lambda v: v[1]), ("DEVICE_LOC", lambda v: v[2]), ("DEVICE_ID", lambda v: v[3])):
        got, want = [str(v) for v in np.array(t[c])[k]], [str(f(info[int(v)])) for v in loc[k]]
        ck.ok("devices", got == want, column=c, first=[(a, b) for a, b in zip(got, want) if a != b][:3], **w)
    ck.ok("unmatched", all(str(v) in ("unknown", "-1") for c in ("DEVICE_TYPE", "PETAL_LOC", "DEVICE_LOC", "DEVICE_ID") for v in np.array(t[c])[~k]), **w)
    P = np.array(t["PINHOLE_ID"])
    ck.ok("pinhole-ids", np.all(P[kind == "positioner"] == 0) and np.all(P[kind == "fiducial"] == 99) and np.all(P[~k] == 0), **w)
    ph = (kind == "pinhole") & k
    good = True
    for l in np.unique(loc[ph]):
        v = sorted(P[ph & (loc == l)])
        good &= v == list(range(10, 10 + len(v)))
    ck.ok("pinhole-ids", good, **w)


def small(g, n=60):
    c = default_camera()
    X, Y, L = scene(g, c, n)
    x, y = zb.fp2fvc(c, X, Y)
    return x, y, X, Y, L


def failures(ck, g, W):
    x, y, X, Y, L = small(g)
    kw = dict(expected_x_fp=X, expected_y_fp=Y, expected_location=L)
    for mode in ("match", "fail", "nothing", "crash", "missing", "old-fail", "old", "match"):
        W.conf("match" if mode == "missing" else mode)
        before = set(os.listdir(W.tmp))
        path = os.environ["PATH"]
        err = res = None
        ck.case("program", mode=mode, x=x)
        try:
            if mode == "missing":
                os.environ["PATH"] = "/usr/bin:/bin"
            res = quiet(x, y, **kw)
        except Exception as e:
            err = e
        finally:
            os.environ["PATH"] = path
        r = W.runs()
        w = dict(mode=mode, error=repr(err)[:200])
        ck.ok("leftovers", set(os.listdir(W.tmp)) == before, left=sorted(set(os.listdir(W.tmp)) - before)[:5], **w)
        if mode in ("match", "old"):
            ck.ok("failure", err is None, **w)
            if res is not None:
                last = r[-1]
                returned(ck, res, last["out"], w)
                d = default_camera()
                received(ck, last, w, x, y, X, Y, L, d, d, 70, 0)
                if mode == "old":
                    ck.ok("old-program", len(r) == 2 and "positioner_reach" in r[0]["opt"] and "positioner_reach" not in last["opt"], found=len(r), **w)
                    a, b = dict(r[0]["opt"]), dict(last["opt"])
                    a.pop("positioner_reach", None)
                    ck.ok("old-program", a == b, **w)
        else:
            ck.ok("failure", err is not None and res is None, **w)


def concurrent(ck, g, W):
    """several matchings at the same time, each with its own spots"""
    W.conf("match", sleep=.15)
    jobs = [small(g, int(g.integers(20, 60))) for _ in range(4)]
    res = [None] * len(jobs)
    ck.case("concurrent", x=jobs[0][0])
    from desimeter.spotmatch import spotmatch

    def work(q):
        x, y, X, Y, L = jobs[q]
        try:
            res[q] = spotmatch(x, y, expected_x_fp=X, expected_y_fp=Y, expected_location=L)
        except BaseException as e:
            res[q] = e
    before = set(os.listdir(W.tmp))
    with contextlib.redirect_stdout(io.StringIO()):
        th = [threading.Thread(target=work, args=(q,)) for q in range(len(jobs))]
        [t.start() for t in th]
        [t.join() for t in th]
    W.runs()
    for q, (x, y, X, Y, L) in enumerate(jobs):
        t = res[q]
        good = not isinstance(t, BaseException) and t is not None and len(t) == len(x)
        if ck.ok("concurrent", good, got=repr(t)[:200], want=len(x)):
            o, p = np.argsort(np.array(t["XPIX"])), np.argsort(x)
            ck.close("concurrent", np.array(t["XPIX"])[o], x[p], .00051)
            ck.ok("concurrent", np.array_equal(np.array(t["LOCATION"])[o], L[p]))
    ck.ok("leftovers", set(os.listdir(W.tmp)) == before)
