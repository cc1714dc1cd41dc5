"""FVC processing end to end: spot lists and images of a known focal plane."""
import contextlib
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from vlib import zb, fvcimg as F
from vlib.core import REPO
from checks.C06 import metrology
from checks.C15 import pinholes

SCR = os.environ.get("VERIF_SCRATCH", "/tmp")


def run(ck):
    ck.rule = "a case is one simulated focal plane and camera processed to a table; distinct by camera, spots and options"
    ck.assumptions = ["distortion as in the default model unless it is refitted; true camera within 60 pixels, 0.003 rad, 1% of it; fibres within 3 mm of their expected position (or of their positioner) (1.1 mm with an expected-positions file) and 2.4 mm or more from one another",
                      "images: gaussian spots of sigma 1 pixel, white noise; frames of 2400x2400 pixels show one corner of the focal plane"]
    ck.parallel(chunk, [("csv", i) for i in range(6)] + [("image", i) for i in range(ck.n(6, 40))])
    script(ck)
    for m, k in (("pinholes", 20), ("fibres", 20), ("position", 20), ("transform", 10), ("expected", 10), ("ghost", 5), ("files", 20), ("image-alone", 6), ("bad-image", 3), ("unreadable", 3), ("field-model", 3), ("script", 1), ("again", 5), ("turbulence", 40), ("spotmatch", 20), ("spotmatch-expected", 20), ("nomatch", 5), ("detection", 24), ("fixed", 6), ("limits", 5), ("distance", 18), ("sequence-limits", 1)):
        ck.require(m, k)


def chunk(ck, item):
    kind, i = item
    g = ck.rng(kind, i)
    with tmpdir(kind + str(i)) as d:
        if kind == "csv":
            ran = []
            for k in range(ck.n(6, 60)):
                with ck.guard("csv", chunk=i, k=k):
                    ran.append(csv_case(ck, g, d, k))
            with ck.guard("distance", chunk=i):
                distance_case(ck, g, d, i)
            with ck.guard("turbulence", chunk=i):
                for k in range(ck.n(1, 6)):
                    turbulence_case(ck, g, d, i + k)
            with ck.guard("spotmatch", chunk=i):
                for k in range(ck.n(1, 8)):
                    spotmatch_case(ck, g, d, i + k)
            # the same calls again, after all the others
            for r in ran[:2]:
                if r is not None:
                    with ck.guard("again"):
                        rc, t = proc(r[0])
                        ck.ok("again", rc == 0 and same(t, r[1], 1e-9))
        else:
            with ck.guard("image", chunk=i):
                image_case(ck, g, d, i)
            with ck.guard("detection", chunk=i):
                detection_case(ck, g, d, i)


@contextlib.contextmanager
def tmpdir(name):
    d = os.path.join(SCR, "c22-" + name)
    os.makedirs(d)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def proc(argv):
    """fvc_proc in this process; returns (code, table)"""
    from astropy.table import Table
    from desimeter.processfvc import get_parser, fvc_proc
    from desimeter.log import get_logger
    out = argv[argv.index("-o") + 1]
    with contextlib.redirect_stdout(io.StringIO()):
        rc = fvc_proc(get_parser().parse_args(argv), get_logger())
    return rc, (Table.read(out) if os.path.exists(out) else None)


def same(a, b, tol):
    if a is None or b is None or len(a) != len(b) or a.colnames != b.colnames:
        return False
    for c in a.colnames:
        u, v = np.ma.filled(np.ma.array(a[c]), 0), np.ma.filled(np.ma.array(b[c]), 0)
        if u.dtype.kind == "f" or v.dtype.kind == "f":
            if not np.all(np.abs(u.astype(float) - v.astype(float)) <= tol):
                return False
        elif not np.array_equal(u, v):
            return False
    return True


def default_camera():
    from desimeter.io import fvc2fp_filename
    return json.load(open(fvc2fp_filename()))


def camera(g, zbfit=False):
    d = dict(default_camera())
    d["offset_x"] += float(g.uniform(-.02, .02))
    d["offset_y"] += float(g.uniform(-.02, .02))
    d["rotation"] += float(g.uniform(-.003, .003))
    d["scale"] *= float(g.uniform(.99, 1.01))
    if zbfit:
        d["zbcoeffs"] = [v + float(g.normal()) * 5e-5 for v in d["zbcoeffs"]]
    return d


def focal_plane(g, dmax, lit=.9):
    """fibre positions: location, X, Y (2 mm apart or more) and device id"""
    from scipy.spatial import cKDTree
    m = metrology()
    p = m[np.array(m["DEVICE_TYPE"]) == "POS"]
    r, a = dmax * np.sqrt(g.random(len(p))), g.uniform(0, 2 * np.pi, len(p))
    X, Y = np.array(p["X_FP"]) + r * np.cos(a), np.array(p["Y_FP"]) + r * np.sin(a)
    on = g.random(len(p)) < lit
    _, _, PX, PY = pinholes()
    on &= cKDTree(np.array([PX, PY]).T).query(np.array([X, Y]).T)[0] > 3.
    for i, j in cKDTree(np.array([X, Y]).T).query_pairs(2.4):       # also from fibres that are not lit but expected
        on[i] = on[j] = False
    return p, X, Y, on


def expected_file(g, p, X, Y, f, err, form):
    """expected positions, rows in random order, including fibres that are not lit"""
    from astropy.table import Table
    from vlib import ref  # noqa: F401
    q = g.permutation(len(p))
    t = Table()
    t["PETAL_LOC"], t["DEVICE_LOC"] = np.array(p["PETAL_LOC"])[q], np.array(p["DEVICE_LOC"])[q]
    ex, ey = X[q] + err * g.uniform(-1, 1, len(q)), Y[q] + err * g.uniform(-1, 1, len(q))
    if form == "qs":
        from desimeter.transform.xy2qs import xy2qs
        t["EXP_Q_0"], t["EXP_S_0"] = xy2qs(ex, ey)
    elif form == "exp":
        t["X_FP_EXP"], t["Y_FP_EXP"] = ex, ey
    else:
        t["X_FP"], t["Y_FP"] = ex, ey
        t["DEVICE_ID"] = np.array(p["DEVICE_ID"]).astype(str)[q]
        t["LOCATION"] = np.array(p["LOCATION"])[q]
        t["PINHOLE_ID"] = np.zeros(len(t), int)
        l, h, a, b = pinholes()     # rows of pinholes are not for fibres
        from astropy.table import vstack
        e = Table({"PETAL_LOC": l // 1000, "DEVICE_LOC": l % 1000, "X_FP": a, "Y_FP": b, "DEVICE_ID": np.repeat("P000", len(l)), "LOCATION": l, "PINHOLE_ID": h})
        t = vstack([t, e])
    t.write(f, overwrite=True)
    o = np.argsort(q)
    return ex[o], ey[o]


def verify(ck, t, w, truth, p, X, Y, on, ex, ey, noise, cam, ghosts=0, frame=None, expect_ids=True):
    """identity and coordinates of every row"""
    loc, pin, PX, PY = pinholes()
    L, P = np.array(t["LOCATION"]).astype(int), np.array(t["PINHOLE_ID"]).astype(int)
    x, y = np.array(t["XPIX"], float), np.array(t["YPIX"], float)
    XF, YF = np.array(t["X_FP"], float), np.array(t["Y_FP"], float)
    tl, tp, tx, ty, tX, tY = truth        # location (-1 ghosts), pinhole, pixel, focal plane of the spots in the image
    from scipy.spatial import cKDTree
    d, j = cKDTree(np.array([x, y]).T).query(np.array([tx, ty]).T)
    if not ck.ok("rows", len(t) == len(tx) and len(set(j)) == len(tx) and np.all(d < .5 + 10 * noise), got=len(t), want=len(tx), **w):
        return
    fid, fib, gho = tp > 0, (tp == 0) & (tl >= 0), tl < 0
    four = np.isin(tl, [k for k in np.unique(tl[fid]) if np.sum(tl[fid] == k) >= 4]) & fid
    ck.ok("pinholes", np.array_equal(L[j][four], tl[four]) and np.array_equal(P[j][four], tp[four]), n=int(four.sum()), wrong=int(np.sum((L[j] != tl) & four)), **w)
    ck.ok("fibres", np.array_equal(L[j][fib], tl[fib]) and np.all(P[j][fib] == 0), wrong=int(np.sum((L[j] != tl) & fib)), first=list(zip(L[j][fib & (L[j] != tl)][:4], tl[fib & (L[j] != tl)][:4])), **w)
    ck.ok("columns", np.array_equal(np.array(t["PETAL_LOC"])[j][fib | four].astype(int), tl[fib | four] // 1000) and np.array_equal(np.array(t["DEVICE_LOC"])[j][fib | four].astype(int), tl[fib | four] % 1000), **w)
    if gho.any():
        ck.ok("ghost", np.all(L[j][gho] == -1) and np.all(P[j][gho] == 0), **w)
    tol = .004 + 7 * noise * .16
    ck.close("position", np.hypot(XF[j] - tX, YF[j] - tY), 0, tol, **w)
    i = {int(l): k for k, l in enumerate(np.array(p["LOCATION"]))}
    k = np.array([i[int(l)] for l in tl[fib]], int)
    ck.close("expected", [np.array(t["X_FP_EXP"])[j][fib], np.array(t["Y_FP_EXP"])[j][fib]], [ex[k], ey[k]], 2e-3 if w.get("mode") == "qs" else 1e-6, **w)
    if "DEVICE_ID" in t.colnames and expect_ids:
        ck.ok("device", np.array_equal(np.array(t["DEVICE_ID"]).astype(str)[j][fib], np.array(p["DEVICE_ID"]).astype(str)[k]), **w)
    key = {(a, b): (c, e) for a, b, c, e in zip(loc, pin, PX, PY)}
    mt = np.array([key[(a, b)] for a, b in zip(tl[four], tp[four])])
    if four.any():
        for a, b in (("X_FP_METRO", "Y_FP_METRO"), ("X_FP_EXP", "Y_FP_EXP")):
            ck.close("metrology", np.array([np.array(t[a])[j][four], np.array(t[b])[j][four]]).T, mt, 1e-6, **w)


def spots_of(g, cam, p, X, Y, on, dead, ghosts, window=None):
    """truth of what the camera sees"""
    loc, pin, PX, PY = pinholes()
    seen = (pin <= 4) & ~np.isin(loc, dead)
    tl = np.concatenate([loc[seen], np.array(p["LOCATION"])[on]])
    tp = np.concatenate([pin[seen], np.zeros(on.sum(), int)])
    tX, tY = np.concatenate([PX[seen], X[on]]), np.concatenate([PY[seen], Y[on]])
    if ghosts:
        gx, gy = np.array(ghosts).T
        tl, tp, tX, tY = np.append(tl, np.full(len(gx), -1)), np.append(tp, np.zeros(len(gx), int)), np.append(tX, gx), np.append(tY, gy)
    tx, ty = zb.fp2fvc(cam, tX, tY)
    if window:
        k = (tx > 6) & (ty > 6) & (tx < window[1] - 7) & (ty < window[0] - 7)
        # a spot just outside would be seen as well
        half = ((tx > -9) & (ty > -9) & (tx < window[1] + 9) & (ty < window[0] + 9)) & ~k
        for l in np.unique(tl[half & (tp > 0)]):
            k &= ~((tl == l) & (tp > 0))
        tl, tp, tX, tY, tx, ty = (v[k] for v in (tl, tp, tX, tY, tx, ty))
    o = g.permutation(len(tl))
    return tuple(v[o] for v in (tl, tp, tx, ty, tX, tY))


def ghosts_for(g, n, ex, ey, X, Y):
    """positions 2 mm or more away from everything expected and from every spot"""
    from scipy.spatial import cKDTree
    _, _, PX, PY = pinholes()
    k = cKDTree(np.array([np.concatenate([ex, X, PX]), np.concatenate([ey, Y, PY])]).T)
    out = []
    while len(out) < n:
        r, a = 380 * np.sqrt(g.random()), g.uniform(0, 2 * np.pi)
        q = (r * np.cos(a), r * np.sin(a))
        if k.query(q)[0] > 2. and all(np.hypot(q[0] - u, q[1] - v) > 3 for u, v in out):
            out.append(q)
    return out


def csv_case(ck, g, d, k):
    from astropy.table import Table
    zbfit = k % 5 == 4
    cam = camera(g, zbfit)
    mode = ("centers", "expected", "exp", "qs", "ghosts")[k % 5] if k % 7 else "expected"
    p, X, Y, on = focal_plane(g, 3.0 if mode == "centers" else 5.5, float(g.choice([1., .9, .3])))
    sub = os.path.join(d, "k%d" % k)
    os.makedirs(os.path.join(sub, "in"))
    argv = ["-i", os.path.join(sub, "in", "spots.csv"), "-o", os.path.join(sub, "out.csv")]
    if mode == "centers":
        ex, ey = np.array(p["X_FP"], float), np.array(p["Y_FP"], float)
    else:
        err = .2 if mode == "ghosts" else .8
        f = os.path.join(sub, "in", "expected." + ("fits" if mode == "qs" else "csv"))
        ex, ey = expected_file(g, p, X, Y, f, err, {"qs": "qs", "exp": "exp"}.get(mode, "fp"))
        argv += ["--expected-positions", f]
    gh = []
    if mode == "ghosts":
        gh = ghosts_for(g, 30, ex, ey, X, Y)
        argv += ["--max-match-distance", "0.5"]
    noise = float(g.choice([0., .01, .02]))
    dead = g.choice(np.unique(pinholes()[0]), int(g.choice([0, 3, 20])), replace=False)
    tr = spots_of(g, cam, p, X, Y, on, dead, gh)
    t = Table()
    t["XPIX"], t["YPIX"], t["COUNTS"] = tr[2] + noise * g.normal(size=len(tr[2])), tr[3] + noise * g.normal(size=len(tr[2])), g.uniform(2e4, 1e5, len(tr[2]))
    t.write(argv[1])
    outs = {"out.csv"}
    if zbfit:
        argv += ["--zbfit"]
    if k % 2:
        tf = os.path.join(sub, "tx", "model.json") if k % 4 == 1 else os.path.join(sub, "model.json")
        argv += ["--output-transform", tf, "--make-directory"] if k % 4 == 1 else ["--output-transform", tf]
        outs.add(os.path.relpath(tf, sub))
    fm = None
    if k % 3 == 2:
        fm = os.path.join(sub, "in", "fm.json")
        open(fm, "w").write(field_model(g))
        argv += ["--field-model", fm]
    if k % 4 == 2:
        argv[3] = os.path.join(sub, "deep", "er", "out.csv")
        outs = {"deep/er/out.csv" if o == "out.csv" else o for o in outs}
        argv += ["--make-directory"]
    w = dict(mode=mode, noise=noise, zbfit=zbfit, n_dead=len(dead), argv=[a.replace(d, "") for a in argv])
    ck.case("csv", cam=json.dumps(cam), x=tr[2], options=str(w["argv"]))
    before = tree(sub)
    cwd, own = os.getcwd(), tempfile.mkdtemp(prefix="c22cwd_")      # of this process alone
    os.chdir(own)
    try:
        rc, r = proc(argv)
    finally:
        os.chdir(cwd)
    left = os.listdir(own)
    shutil.rmtree(own)
    ck.ok("code", rc == 0, got=rc, **w)
    after = tree(sub)
    new = set(after) - set(before)
    ck.ok("files", new == outs, got=sorted(new), want=sorted(outs), **w)
    ck.ok("files", all(after.get(q) == v for q, v in before.items()) and not left, left=left, **w)
    if r is None:
        return
    verify(ck, r, w, tr, p, X, Y, on, ex, ey, noise if not zbfit else noise + .003, cam)
    if k % 2 and os.path.exists(tf):
        dd = json.load(open(tf))
        from desimeter.transform.fvc2fp import FVC2FP
        u, v = FVC2FP.read_jsonfile(tf).fvc2fp(np.array(r["XPIX"]), np.array(r["YPIX"]))
        ck.close("transform", [r["X_FP"], r["Y_FP"]], [u, v], 1e-6, **w)
        if dd.get("zbpolids") is not None:
            u, v = zb.fvc2fp(dd, np.array(r["XPIX"]), np.array(r["YPIX"]))
            ck.close("transform", [r["X_FP"], r["Y_FP"]], [u, v], 1e-6, **w)
    if fm:
        from desimeter.fieldmodel import FieldModel
        m = FieldModel.fromjson(open(fm).read())
        ra, dec = m.fp2radec(np.array(r["X_FP"]), np.array(r["Y_FP"]))
        ck.close("field-model", (np.array(r["RA"]) - ra + 180) % 360 - 180, 0, 1e-7, **w)
        ck.close("field-model", np.array(r["DEC"]), dec, 1e-7, **w)
    if k % 3 == 1:      # detections only; limits on the number of spots
        o = os.path.join(sub, "plain.csv")
        rc, q = proc(["-i", argv[1], "-o", o, "--nomatch"])
        ck.ok("nomatch", rc == 0 and q is not None and len(q) == len(t) and "LOCATION" not in q.colnames, **w)
        ck.close("nomatch", [q["XPIX"], q["YPIX"], q["COUNTS"]], [t["XPIX"], t["YPIX"], t["COUNTS"]], 1e-6, **w)
        for a, n, wrote in (("--min-spots", len(t) + 1, False), ("--max-spots", len(t) - 1, False), ("--min-spots", len(t), True), ("--max-spots", len(t), True)):
            o = os.path.join(sub, "limit%s%d.csv" % (a, n))
            proc(["-i", argv[1], "-o", o, "--nomatch", a, str(n)])
            ck.ok("limits", os.path.exists(o) == wrote, option=a, n=n, spots=len(t), **w)
            if not wrote or a == "--max-spots":      # also when the spots are to be identified
                o = os.path.join(sub, "limit2%s%d.csv" % (a, n))
                proc(["-i", argv[1], "-o", o, a, str(n)])
                ck.ok("limits", os.path.exists(o) == wrote, option=a, n=n, spots=len(t), identified=True, **w)
    if k % 3 == 2:      # parameters of the camera kept as they are
        from desimeter.io import fvc2fp_filename
        from desimeter.transform.fvc2fp import FVC2FP
        init = json.load(open(fvc2fp_filename()))
        for opts, kept in ((["--fixed-scale"], ["scale"]), (["--fixed-rotation"], ["rotation"]), (["--fixed-rotation", "--fixed-scale"], ["scale", "rotation"])):
            o = os.path.join(sub, "fixed%d.csv" % len(kept))
            j = os.path.join(sub, "fixed%d.json" % len(kept))
            rc, q = proc(["-i", argv[1], "-o", o, "--output-transform", j] + opts + ["--zbfit"] * zbfit)
            if not ck.ok("fixed", rc == 0 and q is not None and os.path.exists(j), rc=rc, options=opts, **w):
                continue
            dd = json.load(open(j))
            ck.ok("fixed", all((abs(float(dd[a]) - float(init[a])) < 1e-12) == (a in kept) for a in ("scale", "rotation")), options=opts, got=[dd["scale"], dd["rotation"]], init=[init["scale"], init["rotation"]], **w)
            m = FVC2FP.read_jsonfile(j)
            u, v = m.fvc2fp(np.array(q["XPIX"]), np.array(q["YPIX"]))
            ck.close("fixed", [q["X_FP"], q["Y_FP"]], [u, v], 1e-6, options=opts, **w)
            os.unlink(o), os.unlink(j)
    return argv, r


def distance_case(ck, g, d, k):
    """few fibres, far from where they are expected: the maximum distance is the one asked for"""
    from astropy.table import Table
    from scipy.spatial import cKDTree
    sub = os.path.join(d, "far%d" % k)
    os.makedirs(sub)
    cam = camera(g)
    p, X, Y, on = focal_plane(g, 3.0, 1.)
    pick = []
    for i in g.permutation(np.where(on)[0]):
        if len(pick) < 60 and all(np.hypot(X[i] - X[j], Y[i] - Y[j]) > 45 for j in pick):
            pick.append(i)
    on = np.isin(np.arange(len(p)), pick)
    dist = np.where(np.arange(len(p)) % 3 == 0, g.uniform(0, 3.5, len(p)), np.where(np.arange(len(p)) % 3 == 1, g.uniform(4.2, 6.7, len(p)), g.uniform(7.3, 9.7, len(p))))
    a = g.uniform(0, 2 * np.pi, len(p))
    ex, ey = X + dist * np.cos(a), Y + dist * np.sin(a)
    tr = spots_of(g, cam, p, X, Y, on, [], [])
    f = os.path.join(sub, "spots.csv")
    Table({"XPIX": tr[2], "YPIX": tr[3], "COUNTS": np.full(len(tr[2]), 5e4)}).write(f)
    e = os.path.join(sub, "exp.csv")
    Table({"LOCATION": np.array(p["LOCATION"])[on], "PETAL_LOC": np.array(p["PETAL_LOC"])[on], "DEVICE_LOC": np.array(p["DEVICE_LOC"])[on], "X_FP": ex[on], "Y_FP": ey[on]}).write(e)
    dd = dict(zip(np.array(p["LOCATION"]).tolist(), dist))
    for opt, lim in (([], 7.), (["--max-match-distance", "4"], 4.), (["--max-match-distance", "10"], 10.)):
        out = os.path.join(sub, "o%d.csv" % lim)
        ck.case("distance", k=k, limit=lim, x=tr[2])
        rc, t = proc(["-i", f, "-o", out, "--expected-positions", e] + opt)
        if not ck.ok("distance", rc == 0 and t is not None and len(t) == len(tr[2]), rc=rc, limit=lim):
            continue
        _, j = cKDTree(np.array([t["XPIX"], t["YPIX"]]).T).query(np.array([tr[2], tr[3]]).T)
        fib = tr[1] == 0
        want = np.array([l if dd[int(l)] < lim else -1 for l in tr[0][fib]])
        got = np.array(t["LOCATION"])[j][fib].astype(int)
        ck.ok("distance", np.array_equal(got, want), limit=lim, n=int(fib.sum()), wrong=[(int(x), int(y), round(float(dd[int(z)]), 2)) for x, y, z in zip(got, want, tr[0][fib]) if x != y][:4])


def turbulence_case(ck, g, d, k):
    """the turbulence options change the coordinates of the identified fibres, as the correction functions do, and nothing else"""
    from astropy.table import Table
    from desimeter.turbulence import correct, correct_with_pol
    cam = camera(g)
    p, X, Y, on = focal_plane(g, 3., float(g.choice([.12, .2])))
    sub = os.path.join(d, "turb%d" % k)
    os.makedirs(sub)
    a, b, c = g.uniform(0, 2 * np.pi, 3)
    amp = float(g.uniform(.01, .02))
    u = X * np.cos(c) + Y * np.sin(c)
    dx, dy = amp * np.sin(u / 70. + a), amp * np.cos(u / 90. + b)
    ef = os.path.join(sub, "expected.csv")
    ex, ey = expected_file(g, p, X, Y, ef, .003, "fp")
    gh = ghosts_for(g, 20, ex, ey, X, Y)
    tl, tp, tx, ty, tX, tY = spots_of(g, cam, p, X + dx, Y + dy, on, [], gh)
    t = Table()
    t["XPIX"], t["YPIX"], t["COUNTS"] = tx, ty, g.uniform(2e4, 1e5, len(tx))
    f = os.path.join(sub, "spots.csv")
    t.write(f)
    common = ["-i", f, "--expected-positions", ef, "--max-match-distance", "0.5"]
    if k % 3 == 0:
        fm = os.path.join(sub, "fm.json")
        open(fm, "w").write(field_model(g))
        common += ["--field-model", fm]
    w = dict(amp=amp, k=k, fibres=int(on.sum()))
    ck.case("turbulence", x=tx, **w)
    rc, r0 = proc(common + ["-o", os.path.join(sub, "plain.csv")])
    pol = k % 2 == 1
    rc1, r1 = proc(common + ["-o", os.path.join(sub, "corr.csv"), "--turbulence-correction-with-pol" if pol else "--turbulence-correction"])
    if not ck.ok("turbulence", rc == 0 and rc1 == 0 and r0 is not None and r1 is not None and len(r0) == len(r1) and r0.colnames == r1.colnames, **w):
        return
    L, P = np.array(r0["LOCATION"]).astype(int), np.array(r0["PINHOLE_ID"]).astype(int)
    fib = (L >= 0) & (P == 0)
    ck.ok("turbulence", fib.sum() == on.sum(), **w)
    for q in r0.colnames:
        if q not in ("X_FP", "Y_FP", "RA", "DEC"):
            ck.ok("turbulence", same(r0[[q]], r1[[q]], 1e-9), column=q, **w)
    A, B = (np.array([r["X_FP"], r["Y_FP"]]) for r in (r0, r1))
    ck.close("turbulence", B[:, ~fib], A[:, ~fib], 1e-9, **w)
    E = np.array([r0["X_FP_EXP"], r0["Y_FP_EXP"]])[:, fib]
    W = np.array((correct_with_pol if pol else correct)(A[0, fib], A[1, fib], E[0], E[1]))
    ck.close("turbulence", B[:, fib], W, 2e-5, pol=pol, **w)
    i = {int(l): n for n, l in enumerate(np.array(p["LOCATION"]))}
    n = np.array([i[int(l)] for l in L[fib]])
    before, after = (np.sqrt(np.mean((v[:, fib] - [X[n], Y[n]]) ** 2)) for v in (A, B))
    ck.ok("turbulence", after < .6 * before, before=before, after=after, pol=pol, **w)
    if "RA" in r1.colnames:
        from desimeter.fieldmodel import FieldModel
        m = FieldModel.fromjson(open(fm).read())
        ra, dec = m.fp2radec(B[0], B[1])
        ck.close("field-model", (np.array(r1["RA"]) - ra + 180) % 360 - 180, 0, 1e-7, **w)
        ck.close("field-model", np.array(r1["DEC"]), dec, 1e-7, **w)
    # without expected positions the option has no effect
    if k % 2:
        o = [q for q in common if q not in ("--expected-positions", ef)]
        _, s0 = proc(o + ["-o", os.path.join(sub, "a.csv")])
        _, s1 = proc(o + ["-o", os.path.join(sub, "b.csv"), "--turbulence-correction"])
        ck.ok("turbulence", same(s0, s1, 1e-9), without=True, **w)


def spotmatch_case(ck, g, d, k):
    """identification by the external program: a stand-in that matches spots to the targets it is given"""
    import tempfile
    from astropy.table import Table
    from checks.C28 import World
    from vlib.core import VERIF
    sub = os.path.join(d, "spm%d" % k)
    os.makedirs(os.path.join(sub, "w"))
    cam = dict(default_camera())
    # close enough to the default camera for the stand-in, which takes the nearest target
    cam["offset_x"] += float(g.uniform(-3e-4, 3e-4)); cam["offset_y"] += float(g.uniform(-3e-4, 3e-4))
    cam["rotation"] += float(g.uniform(-1e-4, 1e-4)); cam["scale"] *= float(g.uniform(.9998, 1.0002))
    p, X, Y, on = focal_plane(g, 5., float(g.choice([1., .6])))
    # nothing is expected on top of a fiducial, or of another fibre
    from scipy.spatial import cKDTree
    a, b = pinholes()[2:]
    keep = cKDTree(np.array([a, b]).T).query(np.array([X, Y]).T)[0] > 3.
    for i, j in cKDTree(np.array([X, Y]).T).query_pairs(2.4):
        keep[i] = keep[j] = False
    p, X, Y, on = p[keep], X[keep], Y[keep], on[keep]
    f, ef = os.path.join(sub, "spots.csv"), os.path.join(sub, "expected.csv")
    ex, ey = expected_file(g, p, X, Y, ef, .1, "fp")
    gh = ghosts_for(g, 20, ex, ey, X, Y)
    dead = g.choice(np.unique(pinholes()[0]), int(g.choice([0, 10])), replace=False)
    tl, tp, tx, ty, tX, tY = spots_of(g, cam, p, X, Y, on, dead, gh)
    t = Table()
    t["XPIX"], t["YPIX"], t["COUNTS"] = tx, ty, np.ones(len(tx))
    t.write(f)
    out, tf = os.path.join(sub, "out.csv"), os.path.join(sub, "tx.json")
    argv = ["-i", f, "-o", out, "--use-spotmatch", "--output-transform", tf, "--spotmatch-match-radius-pixels", "8"] + ["--expected-positions", ef]
    w = dict(k=k, n_dead=len(dead))
    ck.case("spotmatch", x=tx, **w)
    old = os.environ["PATH"], tempfile.tempdir
    try:
        W = World(os.path.join(sub, "w"))
        W.conf("full", last=bool(k % 2))
        os.environ["PATH"] = os.path.join(VERIF, "vlib", "fakebin") + ":" + old[0]
        tempfile.tempdir = W.tmp
        rc, r = proc(argv)
    finally:
        os.environ["PATH"], tempfile.tempdir = old
    if not ck.ok("spotmatch", rc == 0 and r is not None, rc=rc, **w):
        return
    L, P = np.array(r["LOCATION"]).astype(int), np.array(r["PINHOLE_ID"]).astype(int)
    A = np.array([r["X_FP"], r["Y_FP"]])
    E, M = np.array([r["X_FP_EXP"], r["Y_FP_EXP"]]), np.array([r["X_FP_METRO"], r["Y_FP_METRO"]])
    from desimeter.transform.fvc2fp import FVC2FP
    ck.close("spotmatch", A, FVC2FP.read_jsonfile(tf).fvc2fp(np.array(r["XPIX"]), np.array(r["YPIX"])), 1e-6, **w)
    i = {int(l): n for n, l in enumerate(np.array(p["LOCATION"]))}
    fib = (L >= 0) & (P == 0)
    ck.ok("spotmatch", sorted(L[fib]) == sorted(np.array(p["LOCATION"])[on]), got=int(fib.sum()), want=int(on.sum()), **w)
    n = np.array([i[int(l)] for l in L[fib]])
    ck.close("spotmatch-position", A[:, fib], [X[n], Y[n]], .012, **w)
    ck.close("spotmatch-expected", E[:, fib], [ex[n], ey[n]], 1e-6, **w)
    ck.ok("spotmatch-expected", np.array_equal(np.array(r["DEVICE_LOC"])[fib], L[fib] % 1000) and np.array_equal(np.array(r["PETAL_LOC"])[fib], L[fib] // 1000) and np.array_equal(np.array(r["DEVICE_ID"]).astype(str)[fib], np.array(p["DEVICE_ID"]).astype(str)[n]), **w)
    from checks.C28 import centres
    c = {int(l): (a, b) for l, a, b in zip(*centres())}
    cen = P == 99
    ck.ok("spotmatch", sorted(L[cen]) == sorted(set(tl[tp > 0])), fiducials=len(set(tl[tp > 0])), got=int(cen.sum()), wrong=sorted(set(L[cen]) ^ set(tl[tp > 0]))[:4], **w)
    want = np.array([c[int(l)] for l in L[cen]]).T
    ck.close("spotmatch-position", A[:, cen], want, .02, **w)
    ck.close("spotmatch-expected", E[:, cen], want, 1e-6, **w)
    ck.close("spotmatch-expected", M[:, cen], want, 1e-6, **w)
    if gh:
        ck.ok("spotmatch", np.sum(L < 0) == len(gh) and np.all(E[:, L < 0] == 0), **w)


def field_model(g):
    from desimeter.fieldmodel import FieldModel
    m = FieldModel()
    m.ra, m.dec = float(g.uniform(0, 360)), float(g.uniform(-20, 70))
    m.mjd, m.lst, m.hexrot_deg, m.adc1, m.adc2 = 59000.3, (m.ra + float(g.uniform(-30, 30))) % 360, float(g.uniform(-.3, .3)), float(g.uniform(0, 360)), float(g.uniform(0, 360))
    m.expid, m.nstars, m.rms_arcsec = 1234, 30, .1
    m.fieldrot_zp_deg = m.fieldrot_deg = 0.
    return m.tojson()


def tree(d):
    out = {}
    for a, b, fs in os.walk(d):
        for f in fs:
            q = os.path.join(a, f)
            out[os.path.relpath(q, d)] = (os.path.getsize(q), os.stat(q).st_mtime_ns)
    return out


def frame_truth(g, size, i):
    """one corner of a focal plane as an image"""
    cam = camera(g)
    # bring a random part of the focal plane into the frame
    cx, cy = float(g.uniform(-.25, .75)), float(g.uniform(-.75, .25))
    return cam


def image_of(g, tr, shape, bg, noise, level=None):
    flux = g.uniform(6e4, 1.5e5, len(tr[2]))
    im = F.image(g, shape, tr[2], tr[3], flux, 1., bg, noise)
    return im if level is None else im + level


def image_case(ck, g, d, i):
    import fitsio
    n = 2400 if i % 13 != 12 else 6000
    shape = (n, n) if n == 6000 else (2400, int(g.integers(2200, 2600)))
    k = 3 if n < 6000 else 1
    p, X, Y, on = focal_plane(g, 5.5, .95)
    cams = [camera(g) for _ in range(k)]
    trs = [spots_of(g, c, p, X, Y, on, [], [], shape) for c in cams]
    noise, bg = float(g.choice([5., 15.])), float(g.choice([0., 500., 2000.]))
    ims = [image_of(g, tr, shape, bg, noise) for tr in trs]
    ef = os.path.join(d, "expected.csv")
    ex, ey = expected_file(g, p, X, Y, ef, .3, "fp")
    # optional master bias
    opts = ["--expected-positions", ef]
    bias = None
    if i % 3 == 1:
        bias = 300 * np.sin(np.arange(shape[1]) / 3.)[None, :] * np.ones((shape[0], 1)) + (g.random(shape) < 1e-5) * 5e4
        fitsio.write(os.path.join(d, "b.fits"), bias)
        opts += ["--bias", os.path.join(d, "b.fits")]
        ims = [v + bias for v in ims]
    else:
        opts += ["--no-bias"] if i % 2 else []
    pix = 6e-2 * noise / 15.
    w0 = dict(i=i, shape=shape, noise=noise, background=bg, bias=bias is not None)
    # a sequence, with a bad image in the middle
    bad = ("dark", "fibres", None)[i % 3] if k > 1 else None
    seq = list(ims)
    names = ["F%04d" % q for q in range(len(ims))]
    if bad:
        b = g.normal(bg, noise, shape)
        if bad == "fibres":
            s = trs[0][1] == 0
            b = image_of(g, tuple(v[s] for v in trs[0]), shape, bg, noise)
        if bias is not None:
            b = b + bias
        pos = 1
        seq.insert(pos, b)
        names = ["F%04d" % q for q in range(len(seq))]
    # images may be missing from the sequence, other extensions come along
    if i % 5 < 3:
        names = ["F%04d" % q for q in np.cumsum(g.integers(1, 4 if i % 5 else 40, len(seq))) - 1]
    extra = ["COORDS", "F", "FVC"][i % 3] if i % 4 == 3 and not i % 2 else None
    f = os.path.join(d, "seq.fits" + (".fz" if i % 2 else ""))
    dt = np.float32 if i % 2 else [np.float64, np.float32][i % 4 // 2]
    with fitsio.FITS(f, "rw", clobber=True) as fx:
        if i % 2:
            for nm, v in zip(names, seq):
                fx.write(np.round(np.clip(v + 2000, 0, None)).astype(np.int32), extname=nm, compress="rice", tile_dims=[1, shape[1]])
        else:
            fx.write(None)
            for nm, v in zip(names, seq):
                fx.write(v.astype(dt), extname=nm)
        if extra:
            fx.write(np.zeros((3, 3)), extname=extra)
    out = os.path.join(d, "o", "seq.csv")
    before = tree(d)
    rc, _ = proc(["-i", f, "-o", out, "--sequence", "--make-directory"] + opts)
    from astropy.table import Table
    good = [q for q in range(len(seq)) if not (bad and q == 1)]
    res = {}
    new = set(tree(d)) - set(before)
    want = {"o/seq-%s.csv" % names[q] for q in good}
    ck.ok("files", {v.lower() for v in new} == {v.lower() for v in want}, got=sorted(new), want=sorted(want), **w0)
    if bad:
        ck.ok("bad-image", rc != 0, bad=bad, rc=rc, **w0)
        ck.ok("bad-image", {v.lower() for v in new} == {v.lower() for v in want}, bad=bad, **w0)
    else:
        ck.ok("code", rc == 0, got=rc, **w0)
    by = {v.lower(): v for v in new}
    for c, q in enumerate(good):
        s = by.get(("o/seq-%s.csv" % names[q]).lower())
        w = dict(w0, image=names[q], container=os.path.basename(f))
        ck.case("image", x=trs[c][2], noise=noise, i=i, q=q)
        if s is None:
            continue
        t = Table.read(os.path.join(d, s))
        res[q] = t
        verify(ck, t, w, trs[c], p, X, Y, on, ex, ey, pix, cams[c])
    # an image with too few spots is left out, and only that one
    if bad == "fibres" and len(res) == len(good):
        o2 = os.path.join(d, "limits", "seq.csv")
        proc(["-i", f, "-o", o2, "--sequence", "--make-directory", "--min-spots", str(min(len(v) for v in res.values()))] + opts)
        got = sorted(v.lower() for v in os.listdir(os.path.dirname(o2))) if os.path.isdir(os.path.dirname(o2)) else []
        ck.ok("sequence-limits", got == sorted(("seq-%s.csv" % names[q]).lower() for q in good), got=got, **w0)
    # each alone
    for c, q in enumerate(good):
        if q not in res:
            continue
        w = dict(w0, image=names[q])
        if c == 0:        # by extension name
            rc, t = proc(["-i", f, "-o", os.path.join(d, "one.csv"), "--extname", names[q]] + opts)
        elif c == 1:      # alone in its file
            f1 = os.path.join(d, "alone.fits")
            fitsio.write(f1, np.round(np.clip(seq[q] + 2000, 0, None)).astype(np.int32) if i % 2 else seq[q].astype(dt), clobber=True)
            rc, t = proc(["-i", f1, "-o", os.path.join(d, "two.csv")] + opts)
        else:             # the last one
            rc, t = proc(["-i", f, "-o", os.path.join(d, "three.csv"), "--extname", "last"] + opts)
            if q != len(seq) - 1:
                continue
        ck.ok("image-alone", rc == 0 and t is not None and len(t) == len(res[q]), **w)
        if t is None or len(t) != len(res[q]):
            continue
        from scipy.spatial import cKDTree
        dd, j = cKDTree(np.array([t["XPIX"], t["YPIX"]]).T).query(np.array([res[q]["XPIX"], res[q]["YPIX"]]).T)
        ck.close("image-alone", dd, 0, .002, **w)
        ck.close("image-alone", [t["X_FP"][j], t["Y_FP"][j]], [res[q]["X_FP"], res[q]["Y_FP"]], 5e-4, **w)
        ck.ok("image-alone", np.array_equal(np.array(t["LOCATION"])[j], np.array(res[q]["LOCATION"])) and np.array_equal(np.array(t["PINHOLE_ID"])[j], np.array(res[q]["PINHOLE_ID"])), **w)
    # unreadable inputs: no table, existing ones untouched
    keep = tree(d)
    for how in ("missing", "truncated", "garbage", "other"):
        u = os.path.join(d, "bad-%s.%s" % (how, "txt" if how == "other" else "fits"))
        if how == "truncated":
            open(u, "wb").write(open(f, "rb").read()[:5000])
        elif how != "missing":
            open(u, "wb").write(bytes(g.integers(0, 256, 4000).astype(np.uint8)))
        o = os.path.join(d, "bad-%s.csv" % how)
        rc = None
        try:
            rc, t = proc(["-i", u, "-o", o] + opts)
        except Exception as e:
            rc = repr(e)[:80]
        ck.ok("unreadable", rc != 0 and not os.path.exists(o), how=how, rc=rc, **w0)
    now = tree(d)
    ck.ok("unreadable", all(now.get(a) == b for a, b in keep.items()), **w0)
    rc, t = (proc(["-i", f, "-o", os.path.join(d, "result.txt")] + opts))
    ck.ok("unreadable", rc != 0 and not os.path.exists(os.path.join(d, "result.txt")), how="output not csv", **w0)


def detection_case(ck, g, d, i):
    """the thresholds and the spot size asked for are those of the detection"""
    import fitsio
    from desimeter.detectspots import detectspots
    shape = (int(g.integers(300, 400)), int(g.integers(300, 400)))
    x, y = F.scatter(g, shape, 24, 25., 15.)
    hi = g.random(len(x)) < .5
    hi[:4] = [0, 1, 0, 1]
    flux = np.where(hi, g.uniform(1.2e5, 2e5, len(x)), g.uniform(3e4, 6e4, len(x)))
    for s, opts, sel in ((1., ["--min-counts", "90000"], hi), (1., ["--min-counts-per-pixel", "6500"], hi), (1., ["--min-counts", "1000"], hi | True), (float(g.choice([1.3, 1.6])), None, hi | True)):
        im = F.image(g, shape, x, y, flux, s, 800., 10.)
        if opts is None:
            opts = ["--fvc-psf-sigma", repr(s)]
        ck.case("detection", x=x, y=y, options=opts)
        f, o = os.path.join(d, "detect.fits"), os.path.join(d, "detect.csv")
        fitsio.write(f, im, clobber=True)
        if os.path.exists(o):
            os.unlink(o)
        rc, t = proc(["-i", f, "-o", o, "--nomatch", "--no-bias"] + opts)
        if not ck.ok("detection", rc == 0 and t is not None and len(t) == sel.sum(), rc=rc, got=None if t is None else len(t), want=int(sel.sum()), options=opts):
            continue
        q = np.argmin(np.hypot(np.array(t["XPIX"])[:, None] - x[sel], np.array(t["YPIX"])[:, None] - y[sel]), axis=0)
        ck.close("detection", [np.array(t["XPIX"])[q], np.array(t["YPIX"])[q]], [x[sel], y[sel]], .05, options=opts)
        if s != 1.:
            u = detectspots(im, psf_sigma=s)
            ck.close("detection", [t["XPIX"], t["YPIX"], np.log(t["COUNTS"])], [u["XPIX"], u["YPIX"], np.log(u["COUNTS"])], 1e-4, options=opts)
        os.unlink(f), os.unlink(o)


def script(ck):
    """the command itself, and the function that wraps it"""
    from astropy.table import Table
    import fitsio
    g = ck.rng("script")
    with tmpdir("script") as d:
        cam = camera(g)
        p, X, Y, on = focal_plane(g, 3., .9)
        shape = (2400, 2400)
        tr = spots_of(g, cam, p, X, Y, on, [], [], shape)
        im = image_of(g, tr, shape, 1000., 10.)
        name = "verif-%d-%d.fits" % (os.getpid(), int(g.integers(1e9)))
        f = os.path.join(d, name)
        fitsio.write(f, im.astype(np.float32))
        env = dict(os.environ, PATH=os.path.join(REPO, "bin") + ":" + os.path.dirname(sys.executable) + ":" + os.environ["PATH"])
        out = os.path.join(d, "out.csv")
        r = subprocess.run([sys.executable, os.path.join(REPO, "bin", "desi_fvc_proc"), "-i", f, "-o", out], cwd=d, env=env, capture_output=True, text=True)
        ck.case("script", x=tr[2])
        ck.ok("script", r.returncode == 0 and os.path.exists(out), rc=r.returncode, err=r.stderr[-500:])
        ex, ey = np.array(p["X_FP"], float), np.array(p["Y_FP"], float)
        verify(ck, Table.read(out), dict(how="script"), tr, p, X, Y, on, ex, ey, .04, cam)
        ck.ok("script", set(os.listdir(d)) == {name, "out.csv"}, got=os.listdir(d))
        r = subprocess.run([sys.executable, os.path.join(REPO, "bin", "desi_fvc_proc"), "-i", os.path.join(d, "none.fits"), "-o", os.path.join(d, "none.csv")], cwd=d, env=env, capture_output=True, text=True)
        ck.ok("script", r.returncode != 0 and not os.path.exists(os.path.join(d, "none.csv")), rc=r.returncode)
        from desimeter import processfvc as M
        o = M.get_outfilename(f)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                t = M.process_fvc(f, use_subprocess=False)
                verify(ck, t, dict(how="process_fvc"), tr, p, X, Y, on, ex, ey, .04, cam)
                t2 = M.process_fvc(f, overwrite=False, use_subprocess=False)
                ck.ok("script", same(t, t2, 1e-12))
                t3 = M.process_fvc(out)
                ck.ok("script", same(t3, Table.read(out), 1e-12))
        finally:
            if os.path.basename(o).startswith("verif-") and os.path.exists(o):
                os.remove(o)
