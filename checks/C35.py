"""Calibration scripts: circles, camera transforms from circle centers or fitted offsets, metrology tables."""
import json, os, shutil, subprocess, sys, tempfile
import numpy as np
from vlib import core, zb


def run(ck):
    ck.rule = "a case is one run of a script (or a chain of them) on generated tables; distinct by the tables"
    ck.assumptions = ["a device moves if its spots spread along both axes by well over 1 mm, or not at all", "outliers are a small part of the centers", "offsets from the expected position are not within rounding of 3 mm"]
    items = [(w, i, n) for w, m, n in (("circles", 3, ck.n(1, 8)), ("centers", 3, ck.n(2, 12)), ("params", 2, ck.n(2, 12)), ("patch", 2, ck.n(2, 15)), ("metro", 2, ck.n(1, 5)), ("average", 1, ck.n(3, 20)), ("raytrace", 1, ck.n(3, 12)), ("alignments", 1, ck.n(3, 12)), ("gfapatch", 1, 1)) for i in range(m)]
    ck.parallel(chunk, items)
    for m, k in (("ends", 12), ("circle-rows", 3), ("circle-center", 200), ("pinhole-median", 60), ("expected", 300), ("camera", 4), ("other-metrology", 1), ("patch-moves", 1), ("patch-update", 100), ("patch-rest", 2), ("metrology-shipped", 1), ("metrology-rows", 2), ("metrology-values", 2), ("average", 2), ("raytrace", 20), ("raytrace-default", 18), ("alignments", 3), ("gfa-patch", 1), ("gfa-plane", 20)):
        ck.require(m, k)


def chunk(ck, item):
    what, i, n = item
    g = ck.rng(what, i)
    for j in range(n):
        with tempfile.TemporaryDirectory(prefix="c35_") as d:
            globals()[what](ck, g, d, i, j)


def call(ck, name, args, d, py=None):
    e = dict(os.environ, PYTHONPATH=py or os.path.join(core.REPO, "py"), MPLBACKEND="Agg", MPLCONFIGDIR=d, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(core.REPO, "bin", name)] + [str(a) for a in args], env=e, cwd=d, capture_output=True, text=True, timeout=600)
    ck.ok("ends", p.returncode == 0, script=name, args=args, rc=p.returncode, err=p.stderr[-900:])
    return p.returncode == 0


def data(name):
    from desimeter.io import desimeter_data_dir
    return os.path.join(desimeter_data_dir(), name)


def metrology():
    from astropy.table import Table
    m = Table.read(data("fp-metrology.csv"))
    m = m[np.isin(np.array(m["DEVICE_TYPE"]), ["POS", "FIF", "GIF"])]
    return m[np.isfinite(np.array(m["X_FP"], dtype=float))]


# ------------------------------------------------------------------------------------------------ circles
def circles(ck, g, d, i, j):
    from astropy.table import Table
    from desimeter.transform.xy2qs import xy2uv, uv2xy
    m = metrology()
    pos = np.flatnonzero(np.array(m["DEVICE_TYPE"]) == "POS")
    fid = np.flatnonzero(np.array(m["DEVICE_TYPE"]) != "POS")
    sel = np.concatenate([g.choice(pos, int(g.integers(120, 300)), replace=False), g.choice(fid, int(g.integers(40, 90)), replace=False)])
    sel = sel[g.permutation(len(sel))]
    nf = int(g.integers(7, 14))
    n = len(sel)
    loc, pin = np.array(m["LOCATION"])[sel], np.array(m["PINHOLE_ID"])[sel]
    ex, ey = np.array(m["X_FP"], dtype=float)[sel], np.array(m["Y_FP"], dtype=float)[sel]
    key = loc * 10 + pin
    u, first = np.unique(key, return_index=True)
    keep = np.zeros(n, bool)
    keep[first] = True
    loc, pin, ex, ey, key = loc[keep], pin[keep], ex[keep], ey[keep], key[keep]
    n = len(key)
    ispos = pin == 0
    off = g.choice([.3, 1.5, 2.8, 3.3, 6.], n, p=[.5, .2, .1, .1, .1])
    a = g.uniform(0, 2 * np.pi, n)
    cx, cy = ex + off * np.cos(a), ey + off * np.sin(a)
    still = ispos & (g.random(n) < .15)
    r = np.where(ispos, g.uniform(1.2, 4.8, n), 0)
    r[still] = 0
    cu, cv = xy2uv(cx, cy)
    X, Y = np.zeros((nf, n)), np.zeros((nf, n))
    th0 = g.uniform(0, 2 * np.pi, n)
    for f in range(nf):
        th = th0 + 2 * np.pi * f / nf + g.uniform(-.1, .1, n)
        X[f], Y[f] = uv2xy(cu + r * np.cos(th), cv + r * np.sin(th))
    fixed = r == 0
    X[:, fixed] += 2e-3 * g.normal(size=(nf, fixed.sum()))
    Y[:, fixed] += 2e-3 * g.normal(size=(nf, fixed.sum()))
    stray = np.flatnonzero(~ispos & (g.random(n) < .3))       # a pinhole taken for another once: the median does not mind
    for k in stray:
        X[int(g.integers(nf)), k] += 2 * g.choice([-1, 1])
    # which files see which device
    seen = np.ones((nf, n), bool)
    for k in np.flatnonzero(g.random(n) < .4):
        seen[g.choice(nf, int(g.integers(1, nf)), replace=False), k] = False
    seen[0, g.random(n) < .1] = False
    twice = np.zeros((nf, n), bool)                          # two spots matched to one device
    twice[g.random((nf, n)) < .01] = True
    twice &= seen
    files = []
    for f in range(nf):
        k = np.concatenate([np.flatnonzero(seen[f]), np.flatnonzero(twice[f])])
        x, y = X[f][k].copy(), Y[f][k].copy()
        x[seen[f].sum():] += .7
        junk = int(g.integers(0, 30))
        t = Table({"LOCATION": np.r_[loc[k], -np.ones(junk, int)], "PINHOLE_ID": np.r_[pin[k], np.zeros(junk, int)], "X_FP": np.r_[x, g.uniform(-400, 400, junk)], "Y_FP": np.r_[y, g.uniform(-400, 400, junk)],
                   "X_FP_EXP": np.r_[ex[k], np.zeros(junk)], "Y_FP_EXP": np.r_[ey[k], np.zeros(junk)]})
        files.append(os.path.join(d, "f%d.csv" % f))
        t[g.permutation(len(t))].write(files[-1])
    out = os.path.join(d, "out.csv")
    ck.case("circles", loc=loc.tolist(), cx=cx.tolist())
    if not call(ck, "desi_fit_circles", ["-i"] + files + ["-o", out], d):
        return
    t = Table.read(out)
    got = {int(q["LOCATION"]) * 10 + int(q["PINHOLE_ID"]): q for q in t}
    ck.ok("circle-rows", len(got) == len(t), rows=len(t), devices=len(got))
    use = seen & ~twice
    want = 0
    for k in range(n):
        nu = use[:, k].sum()
        xs, ys = X[use[:, k], k], Y[use[:, k], k]
        w = None
        if nu >= 6 and not still[k]:
            if ispos[k]:
                if np.std(xs) < 1.1:
                    if np.std(xs) > .5:
                        continue        # a short arc
                    w = None
                else:
                    w = cx[k], cy[k]
            else:
                w = np.median(xs), np.median(ys)
        if w is not None:
            dr = np.hypot(w[0] - ex[k], w[1] - ey[k])
            if abs(dr - 3) < .02:
                continue
            if dr > 3:
                w = None
        ck.ok("circle-rows", (int(key[k]) in got) == (w is not None), loc=loc[k], pinhole=pin[k], listed=int(key[k]) in got, points=nu, still=still[k], offset=off[k])
        if w is not None and int(key[k]) in got:
            q = got[int(key[k])]
            want += 1
            ck.close("circle-center" if ispos[k] else "pinhole-median", [float(q["X_FP"]), float(q["Y_FP"])], w, 2e-3 if ispos[k] else 1e-9, loc=loc[k], pinhole=pin[k])
            ck.close("expected", [float(q["X_FP_METRO"]), float(q["Y_FP_METRO"])], [ex[k], ey[k]], 1e-9, loc=loc[k], pinhole=pin[k])
    ck.ok("circle-rows", set(got) <= set(key.tolist()), extra=sorted(set(got) - set(key.tolist()))[:5])


# ------------------------------------------------------------------------------------------------ camera transforms
def camera():
    from desimeter.io import fvc2fp_filename
    with open(fvc2fp_filename()) as f:
        return json.load(f)


def hidden(g, c):
    h = json.loads(json.dumps(c))
    h["scale"] *= 1 + 2e-4 * g.normal()
    h["rotation"] += .02 * g.normal()
    h["offset_x"] += 5e-4 * g.normal()
    h["offset_y"] += 5e-4 * g.normal()
    h["zbcoeffs"] = [v + 1e-4 * g.normal() if p not in (0, 1, 2, 27) else v for p, v in zip(h["zbpolids"], h["zbcoeffs"])]
    return h


def judge(ck, out, h, g, x, y, mon="camera", tol=3e-3, **wit):
    """the transform written maps pixels as the hidden camera does, over the area of the centers used"""
    with open(out) as f:
        t = json.load(f)
    px, py = zb.fp2fvc(h, x, y)
    gx, gy = zb.fvc2fp(t, px, py)
    e = np.hypot(gx - x, gy - y)
    ck.ok(mon, np.all(e < tol), worst_mm=e.max(), tol=tol, hidden=h, **wit)


def subset(g, m, n):
    k = g.choice(len(m), n, replace=False)
    return k


def centers(ck, g, d, i, j):
    from astropy.table import Table
    m = metrology()
    key = np.array(m["LOCATION"]) * 10 + np.array(m["PINHOLE_ID"])
    _, f = np.unique(key, return_index=True)
    m = m[np.sort(f)]
    n = int(g.integers(800, 2500))
    k = g.permutation(len(m))[:n]
    c = camera()
    h = hidden(g, c)
    ids = "0,1,2,3,4,5,6,9,20,27,28,29,30"
    if set(c["zbpolids"]) != set(int(v) for v in ids.split(",")) or g.random() < .5:
        ids = ",".join(str(v) for v in sorted(set(c["zbpolids"]) | set(g.choice(10, int(g.integers(0, 4)), replace=False).tolist())))
    x, y = np.array(m["X_FP"], dtype=float)[k], np.array(m["Y_FP"], dtype=float)[k]      # where the devices are
    mx, my = x, y
    other = (i + j) % 2 == 1
    args = []
    gone = np.zeros(n, bool)
    if other:           # the metrology of the circles is not the right one
        o = m.copy()
        gone = g.random(n) < g.choice([.003, .05, .2])
        mx, my = x + .3 * g.normal(size=n), y + .3 * g.normal(size=n)
        f = os.path.join(d, "other.csv")
        rest = np.ones(len(o), bool)
        rest[k[gone]] = False
        o = o[rest]
        o[g.permutation(len(o))].write(f)
        args = ["--other-metrology", f]
    px, py = zb.fp2fvc(h, x, y)
    cx, cy = zb.fvc2fp(c, px, py)
    sig = float(g.choice([0, 2e-3, 8e-3]))
    cx, cy = cx + sig * g.normal(size=n), cy + sig * g.normal(size=n)
    bad = g.random(n) < .01
    b = g.uniform(0, 2 * np.pi, n)
    r = g.uniform(.25, 1.5, n)
    cx, cy = cx + bad * r * np.cos(b), cy + bad * r * np.sin(b)
    t = Table({"LOCATION": np.array(m["LOCATION"])[k], "PINHOLE_ID": np.array(m["PINHOLE_ID"])[k], "X_FP_METRO": mx, "Y_FP_METRO": my, "X_FP": cx, "Y_FP": cy})
    cut = np.sort(g.choice(np.arange(1, n), int(g.integers(0, 3)), replace=False))
    files = []
    for q, part in enumerate(np.split(np.arange(n), cut)):
        files.append(os.path.join(d, "c%d.csv" % q))
        t[part].write(files[-1])
    out = os.path.join(d, "out.json")
    ck.case("centers", hidden=h, ids=ids, other=other, gone=int(gone.sum()), noise=sig, files=len(files))
    if call(ck, "desi_fit_fvc2fp_using_theta_centers", ["-i"] + files + ["-o", out, "--zbpolids", ids] + args, d):
        judge(ck, out, h, g, x, y, "other-metrology" if other else "camera", 3e-3 + 60 * sig / np.sqrt(n), gone=int(gone.sum()), ids=ids)


def params(ck, g, d, i, j):
    from astropy.table import Table
    from desimeter.transform.pos2ptl import ptl2flat
    from desimeter.transform.ptl2fp import fp2ptl
    m = metrology()
    pos = m[np.array(m["DEVICE_TYPE"]) == "POS"]
    n = int(g.integers(800, 2500))
    k = g.permutation(len(pos))[:n]
    c = camera()
    h = hidden(g, c)
    ids = ",".join(str(v) for v in sorted(set(c["zbpolids"])))
    x, y = np.array(pos["X_FP"], dtype=float)[k], np.array(pos["Y_FP"], dtype=float)[k]
    args = []
    if (i + j) % 2:         # another metrology table
        o = m.copy()
        o["X_FP"] = o["X_FP"] + .2 * g.normal(size=len(o))
        o = o[g.permutation(len(o))]
        f = os.path.join(d, "other.csv")
        o.write(f)
        args = ["--other-metrology", f]
        at = {str(p): float(v) for p, v in zip(o["DEVICE_ID"], o["X_FP"])}
        x = np.array([at[str(p)] for p in pos["DEVICE_ID"][k]])
    px, py = zb.fp2fvc(h, x, y)
    cx, cy = zb.fvc2fp(c, px, py)
    bad = g.random(n) < .15          # worthless fits, marked by the flags or by the error of the fit
    cx[bad] += g.uniform(-3, 3, bad.sum())
    why = g.random(n) < .5
    lim = float(g.choice([.02, .05]))
    err = g.uniform(.001, lim * .95, n)
    flags = np.zeros(n, int)
    flags[bad & why] = 1 << g.integers(0, 6, (bad & why).sum())
    err[bad & ~why] = g.uniform(lim * 1.05, lim * 5, (bad & ~why).sum())
    loc = np.array(pos["PETAL_LOC"])[k]
    fx, fy = np.zeros(n), np.zeros(n)
    for p in np.unique(loc):
        s = loc == p
        u, v, _ = fp2ptl(int(p), cx[s], cy[s])
        fx[s], fy[s] = ptl2flat(u, v)
    t = Table({"POS_ID": np.array(pos["DEVICE_ID"])[k], "FIT_ERROR_STATIC": err, "FLAGS": flags})
    s = "_STATIC" if g.random() < .5 else ""
    t["OFFSET_X" + s], t["OFFSET_Y" + s] = fx, fy
    cut = np.sort(g.choice(np.arange(1, n), int(g.integers(0, 3)), replace=False))
    files = []
    for q, part in enumerate(np.split(np.arange(n), cut)):
        files.append(os.path.join(d, "p%d.csv" % q))
        t[part].write(files[-1])
    out, po = os.path.join(d, "out.json"), os.path.join(d, "patch.csv")
    ck.case("params", hidden=h, n=n, limit=lim, other=bool(args))
    if not call(ck, "desi_fit_fvc2fp_using_posparams", ["-i"] + files + ["-o", out, "--zbpolids", ids, "--max-fit-rms", lim] + args + (["--output-metrology-patch", po] if j % 2 else []), d):
        return
    judge(ck, out, h, g, x, y, n=n)
    if j % 2:           # the pinholes keep their pixels
        a, b = Table.read(data("fp-metrology-patch.csv")), Table.read(po)
        with open(out) as f:
            o = json.load(f)
        px, py = zb.fp2fvc(c, np.array(a["X_FP"], dtype=float), np.array(a["Y_FP"], dtype=float))
        wx, wy = zb.fvc2fp(o, px, py)
        same = len(a) == len(b) and all(list(np.ma.filled(a[q], -9)) == list(np.ma.filled(b[q], -9)) for q in ("LOCATION", "PINHOLE_ID", "DEVICE_TYPE"))
        ck.ok("patch-moves", same and np.hypot(b["X_FP"] - wx, b["Y_FP"] - wy).max() < 2e-3, rows=[len(a), len(b)], worst_mm=np.hypot(b["X_FP"] - wx, b["Y_FP"] - wy).max() if len(a) == len(b) else None)


# ------------------------------------------------------------------------------------------------ tables of the metrology
def patch(ck, g, d, i, j):
    """the pinholes named get the median of their new positions, all other entries stay"""
    from astropy.table import Table
    a = Table.read(data("fp-metrology-patch.csv"))
    nf = int(g.integers(1, 6))
    key = [(int(l), int(p)) for l, p in zip(a["LOCATION"], a["PINHOLE_ID"])]
    new = {}
    files = []
    for f in range(nf):
        k = np.flatnonzero(g.random(len(a)) < .6)
        loc, pin = np.array(a["LOCATION"])[k], np.array(a["PINHOLE_ID"])[k]
        _, o = np.unique(loc * 10 + pin, return_index=True)
        loc, pin = loc[o], pin[o]
        x, y = g.uniform(-400, 400, len(loc)), g.uniform(-400, 400, len(loc))
        rep = g.choice(len(loc), int(g.integers(0, 6)), replace=False)           # twice in this table: of no use
        for q in range(len(loc)):
            if q not in rep:
                new.setdefault((int(loc[q]), int(pin[q])), []).append((x[q], y[q]))
        loc, pin, x, y = np.r_[loc, loc[rep]], np.r_[pin, pin[rep]], np.r_[x, x[rep] + 1], np.r_[y, y[rep] - 1]
        z = int(g.integers(0, 50))          # positioners and unmatched spots
        loc, pin, x, y = np.r_[loc, g.integers(0, 10000, z), -np.ones(5, int)], np.r_[pin, np.zeros(z + 5, int)], np.r_[x, g.uniform(-400, 400, z + 5)], np.r_[y, g.uniform(-400, 400, z + 5)]
        if g.random() < .5:
            t = Table({"LOCATION": loc, "PINHOLE_ID": pin, "X_FP": x, "Y_FP": y})
        else:
            t = Table({"PETAL_LOC": loc // 1000, "DEVICE_LOC": loc % 1000, "PINHOLE_ID": pin, "X_FP": x, "Y_FP": y})
        files.append(os.path.join(d, "u%d.csv" % f))
        t[g.permutation(len(t))].write(files[-1])
    out = os.path.join(d, "out.csv")
    ck.case("patch", n=nf, keys=[str(q) for q in new][:50], j=j, i=i)
    if not call(ck, "update_focal_plane_metrology_patch", ["-i"] + files + ["-o", out], d):
        return
    b = Table.read(out)
    ck.ok("patch-rest", len(b) == len(a) and b.colnames == a.colnames, rows=[len(a), len(b)], columns=b.colnames)
    if len(a) != len(b):
        return
    for q in a.colnames:
        if q not in ("X_FP", "Y_FP"):
            ck.ok("patch-rest", all(str(u) == str(v) or (a[q].dtype.kind == "f" and abs(u - v) < 1e-9) for u, v in zip(a[q], b[q])), column=q)
    for q, kk in enumerate(key):
        w = np.median(np.array(new[kk]), axis=0) if kk in new else [a["X_FP"][q], a["Y_FP"][q]]
        ck.close("patch-update", [b["X_FP"][q], b["Y_FP"][q]], w, 1e-9, pinhole=kk, new=len(new.get(kk, [])))


def metro(ck, g, d, i, j):
    """the metrology table: the petal metrology moved by the alignments, patches and identifiers applied entry by entry"""
    from astropy.table import Table
    py = os.path.join(d, "py")
    shutil.copytree(os.path.join(core.REPO, "py"), py, ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "test", "raytrace-*.csv", "lbl-*"))
    dd = os.path.join(py, "desimeter", "data")
    out = os.path.join(d, "out.csv")
    noreplace = False
    if i or j:          # other patches, other identifiers
        p = Table.read(os.path.join(dd, "fp-metrology-patch.csv"))
        p = p[g.permutation(len(p))[:int(g.integers(50, len(p)))]]
        p["X_FP"] = p["X_FP"] + .1 * g.normal(size=len(p))
        p["Y_FP"] = p["Y_FP"] + .1 * g.normal(size=len(p))
        p.write(os.path.join(dd, "fp-metrology-patch.csv"), overwrite=True)
        c = Table.read(os.path.join(dd, "fp-metrology-cheat-patch.csv"))
        c = c[g.permutation(len(c))[:int(g.integers(5, len(c)))]]
        c["X_FP"] = c["X_FP"] + .1 * g.normal(size=len(c))
        c.write(os.path.join(dd, "fp-metrology-cheat-patch.csv"), overwrite=True)
        t = Table.read(os.path.join(dd, "desi_positioner_indexes.csv"))
        o = g.permutation(len(t))
        for q in ("DEVICE_ID", "BUS_ID", "CAN_ID"):
            t[q] = t[q][g.permutation(len(t))]
        t[o].write(os.path.join(dd, "desi_positioner_indexes.csv"), overwrite=True)
        noreplace = g.random() < .3
    shipped = Table.read(os.path.join(dd, "fp-metrology.csv"))
    os.unlink(os.path.join(dd, "fp-metrology.csv"))
    ck.case("metro", i=i, j=j, noreplace=noreplace, seed=int(g.integers(1 << 30)))
    if not call(ck, "write_focal_plane_metrology", ["-o", out] + (["--no-replacement"] if noreplace else []), d, py):
        return
    t = Table.read(out)
    if not i and not j:
        ck.ok("metrology-shipped", len(t) == len(shipped) and set(shipped.colnames) == set(t.colnames), rows=[len(t), len(shipped)])
        if len(t) == len(shipped):
            for q in shipped.colnames:
                a, b = shipped[q], t[q]
                if a.dtype.kind == "f":
                    a, b = np.ma.filled(a.astype(float), -1e9), np.ma.filled(b.astype(float), -1e9)
                    ck.ok("metrology-shipped", np.all(np.abs(a - b) < 1e-6), column=q, rows=np.flatnonzero(~(np.abs(a - b) < 1e-6))[:5])
                else:
                    ck.ok("metrology-shipped", all(str(u) == str(v) for u, v in zip(a, b)), column=q)
    model(ck, t, dd, noreplace)


def model(ck, t, dd, noreplace):
    from astropy.table import Table
    import yaml
    al = yaml.safe_load(open(os.path.join(dd, "petal-alignments.yaml")))
    s = Table.read(os.path.join(dd, "UMT-DESI-5421.csv"), format="csv")
    s = s[np.array(s["PETAL_LOC"]) < 10]
    want = {}
    order = []
    for q in s:
        x, y, z = [float(np.ma.filled(q[c], np.nan)) for c in ("X_PTL", "Y_PTL", "Z_PTL")]
        if not np.hypot(x, y) > 1:
            continue
        pid = str(q["PINHOLE_ID"])
        pid = int(pid[1]) if pid[0] == "M" else int(pid) if pid.lstrip("-").isdigit() else 0
        a = al[int(q["PETAL_LOC"])]
        v = rot(a) @ [x, y, z] + [a["Tx"], a["Ty"], a["Tz"]]
        dl = q["DEVICE_LOC"]
        k = (str(q["DEVICE_TYPE"]), int(q["PETAL_LOC"]), None if np.ma.is_masked(dl) else int(dl), pid)
        want.setdefault(k, []).append([v[0], v[1], x, y])
    for q in Table.read(os.path.join(dd, "fp-metrology-patch.csv")):
        k = (str(q["DEVICE_TYPE"]), int(q["PETAL_LOC"]), int(q["DEVICE_LOC"]), int(q["PINHOLE_ID"]))
        same = [w for w in want if w[1:] == k[1:]]
        if not same:
            want[k] = [[float(q["X_FP"]), float(q["Y_FP"]), None, None]]
        elif not noreplace:
            for w in same:
                if w != k:
                    want[k] = want.pop(w)
                for r in want[k]:
                    r[:] = [float(q["X_FP"]), float(q["Y_FP"]), None, None]
    gfa = Table.read(os.path.join(dd, "fp-metrology-gfa_patch.csv"))
    for q in gfa:
        if np.isnan(float(np.ma.filled(q["X_PTL"], np.nan))):
            for w in [w for w in want if w[0] == "GFA" and w[1] == int(q["PETAL_LOC"])]:
                want.pop(w)
    for q in gfa:
        want.setdefault(("GFA", int(q["PETAL_LOC"]), None, int(q["PINHOLE_ID"])), []).append([float(q["X_FP"]), float(q["Y_FP"]), None, None])
    for q in Table.read(os.path.join(dd, "fp-metrology-cheat-patch.csv")):
        for w in want:
            if w[0] == str(q["DEVICE_TYPE"]) and w[1] == int(q["PETAL_LOC"]) and w[3] == int(q["PINHOLE_ID"]):
                for r in want[w]:
                    r[:2] = [float(q["X_FP"]), float(q["Y_FP"])]
    got = {}
    for q in t:
        dl = q["DEVICE_LOC"]
        got.setdefault((str(q["DEVICE_TYPE"]), int(q["PETAL_LOC"]), None if np.ma.is_masked(dl) or int(dl) < 0 else int(dl), int(q["PINHOLE_ID"])), []).append(q)
    diff = [w for w in set(got) | set(want) if len(got.get(w, [])) != len(want.get(w, []))]
    ck.ok("metrology-rows", not diff, differ=[(w, len(got.get(w, [])), len(want.get(w, []))) for w in diff[:6]])
    bad = []
    for w in want:
        if w in got and len(got[w]) == len(want[w]):
            a = sorted([r[0], r[1]] for r in want[w])
            b = sorted([float(r["X_FP"]), float(r["Y_FP"])] for r in got[w])
            if np.abs(np.subtract(a, b)).max() > 2e-6:
                bad.append((w, a, b))
    ck.ok("metrology-values", not bad, n=len(bad), first=bad[:3])
    ids = {(int(q["PETAL_LOC"]), int(q["DEVICE_LOC"])): q for q in Table.read(os.path.join(dd, "desi_positioner_indexes.csv"))}
    pet = {}
    for (p, _), q in ids.items():
        pet.setdefault(p, int(q["PETAL_ID"]))
    bad = []
    for w in got:
        for r in got[w]:
            ok = int(r["PETAL_ID"]) == pet[w[1]]
            if w[0] in ("POS", "FIF", "GIF"):
                q = ids[w[1], w[2]]
                ok &= all(str(r[c]).strip() == str(q[c]).strip() for c in ("DEVICE_ID", "BUS_ID", "CAN_ID")) and int(r["LOCATION"]) == w[1] * 1000 + w[2]
            else:
                ok &= str(r["DEVICE_ID"]).strip() == "unknown" or w[2] is not None
            if not ok:
                bad.append(w)
    ck.ok("metrology-values", not bad, identifiers=bad[:6], n=len(bad))


def rot(a):
    """petal to focal plane: turn about z by gamma, about y by beta, about x by alpha"""
    def r(k, v):
        c, s = np.cos(v), np.sin(v)
        m = np.eye(3)
        p, q = [(1, 2), (2, 0), (0, 1)][k]
        m[p, p] = m[q, q] = c
        m[p, q], m[q, p] = -s, s
        return m
    return r(2, a["gamma"]) @ r(1, a["beta"]) @ r(0, a["alpha"])


# ------------------------------------------------------------------------------------------------ averages
def average(ck, g, d, i, j):
    """spots present in all images: the average place, in the frame of the first image"""
    from astropy.table import Table
    n = int(g.integers(80, 400))
    gr = int(np.ceil(np.sqrt(2 * n)))
    cell = g.choice(gr * gr, n, replace=False)
    x, y = 40. * (cell % gr) + g.uniform(0, 15, n), 40. * (cell // gr) + g.uniform(0, 15, n)
    xk, yk = [("XPIX", "YPIX"), ("X_FP", "Y_FP")][j % 2]
    nf = int(g.integers(2, 6))
    tabs, files = [], []
    seen = g.random((nf, n)) < .97
    seen[0] = True
    sig = .01
    noise = sig * g.normal(size=(nf, 2, n))
    for f in range(nf):
        k = np.flatnonzero(seen[f])
        o = k if f == 0 else g.permutation(k)
        sh = np.zeros(2) if f == 0 else g.uniform(-1, 1, 2)
        t = Table({xk: x[o] + noise[f, 0, o] + sh[0], yk: y[o] + noise[f, 1, o] + sh[1], "FLUX": 1. + o})
        files.append(os.path.join(d, "a%d.csv" % f))
        t.write(files[-1])
    out = os.path.join(d, "out.csv")
    ck.case("average", x=x.tolist(), files=nf)
    if not call(ck, "average_coordinates", ["-i"] + files + ["-o", out] + (["--xkey", xk, "--ykey", yk] if xk != "XPIX" else []), d):
        return
    t = Table.read(out)
    ck.ok("average", len(t) == n and np.array_equal(np.array(t["FLUX"]), 1. + np.arange(n)), rows=len(t), n=n)
    if len(t) != n:
        return
    every = seen.all(axis=0)
    sh = (noise[:, :, every].mean(axis=2) - noise[0][:, every].mean(axis=1))      # each image is brought on the first
    w = np.array([(noise[:, c] - sh[:, c, None]).mean(axis=0) for c in (0, 1)])
    e = np.hypot(t[xk] - x - w[0], t[yk] - y - w[1])
    ck.ok("average", np.all(e[every] < sig), worst=e[every].max(), files=nf)
    e = np.hypot(t[xk] - x - noise[0, 0], t[yk] - y - noise[0, 1])
    ck.ok("average", np.all(e[~every] < 1e-6), worst=e[~every].max() if (~every).any() else 0)


# ------------------------------------------------------------------------------------------------ table of ray tracing
def raytrace(ck, g, d, i, j):
    """the fitted transform gives back the table"""
    from astropy.table import Table
    from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit
    t = Table.read(data("raytrace-tan2fp-4957-v18.csv"))
    args = []
    a1 = np.array(t["ADC1"], dtype=float)
    tol = 8e-3
    if j:           # another corrector: distortions which depend smoothly on the setting; rows in any order
        r = np.hypot(t["X_TAN"], t["Y_TAN"]) / .028
        s, c = np.cos(np.deg2rad(2 * a1)) * g.uniform(-1, 1) + g.uniform(-1, 1), np.cos(np.deg2rad(a1))      # both prisms turned by 180 degrees: the same, turned
        k = 1 + 2e-3 * s * r**2
        x, y = np.array(t["X_FP"]) * k + .3 * c * g.uniform(-1, 1), np.array(t["Y_FP"]) * k + .3 * c * g.uniform(-1, 1)
        t["X_FP"], t["Y_FP"] = x, y
        t = t[g.random(len(t)) < g.uniform(.4, 1)]
        t = t[g.permutation(len(t))]
        a1 = np.array(t["ADC1"], dtype=float)
        args = ["-i", os.path.join(d, "in.csv")]
        t.write(args[1])
        tol = .015
    out = os.path.join(d, "out.json")
    ck.case("raytrace", j=j, rows=len(t), x=np.array(t["X_FP"])[:10].tolist())
    if not call(ck, "fit_raytrace_tan2fp", args + ["-o", out] + (["--test"] if g.random() < .5 else []), d):
        return
    tx = TAN2FP_RayTraceFit.read_jsonfile(out)
    for a in np.unique(a1):
        k = a1 == a
        b = float(t["ADC2"][k][0])
        x, y, p, q = (np.array(t[c][k], dtype=float) for c in ("X_TAN", "Y_TAN", "X_FP", "Y_FP"))
        u, v = tx.tan2fp(x, y, a, b)
        w, z = tx.fp2tan(p, q, a, b)
        e, f = np.hypot(u - p, v - q).max(), np.rad2deg(np.hypot(w - x, z - y).max()) * 3600
        ck.ok("raytrace" if j else "raytrace-default", e < tol and f < tol * 14.5, adc=[a, b], mm=e, arcsec=f)


# ------------------------------------------------------------------------------------------------ petal alignments
def alignments(ck, g, d, i, j):
    """the alignments of the latest snapshot, each quantity of each petal under its name"""
    import yaml
    n = int(g.integers(2, 7))
    vers = [int(v) for v in g.choice(np.arange(1, 120), n, replace=False)]
    ver = max(vers)
    # what the two queries of the script return from the database of constants
    rows = []
    names = ("petal_offset_x", "petal_offset_y", "petal_offset_z", "petal_rot_1", "petal_rot_2", "petal_rot_3")
    for v in vers:
        for p in g.permutation(10)[:int(g.integers(1, 11))]:
            rows.append([v, str(p), {k: float(g.normal()) for k in g.permutation(names)}])
    fake = os.path.join(d, "psycopg2")
    os.makedirs(fake)
    with open(os.path.join(fake, "rows.json"), "w") as f:
        json.dump([vers, rows], f)
    with open(os.path.join(fake, "__init__.py"), "w") as f:
        f.write(CONSTANTS)
    out = os.path.join(d, "al.yaml")
    ck.case("alignments", versions=vers, rows=len(rows))
    if not call(ck, "load_petal_alignments_from_db", ["-o", out], d, d + ":" + os.path.join(core.REPO, "py")):
        return
    got = yaml.safe_load(open(out))
    want = {int(p): dict(zip(("Tx", "Ty", "Tz", "alpha", "beta", "gamma"), [q[k] for k in names])) for v, p, q in rows if v == ver}
    ck.ok("alignments", set(got) == set(want) and all(set(got[p]) == set(want[p]) and all(abs(got[p][k] - want[p][k]) < 1e-12 for k in want[p]) for p in want), got=got, expected=want)


CONSTANTS = r'''import json, os, re
V, ROWS = json.load(open(os.path.join(os.path.dirname(__file__), "rows.json")))


class Cursor:
    def execute(self, op, *a):
        m = re.search(r"snapshot_version\s*=\s*'?(\d+)", op)
        self.rows = [(p, q) for v, p, q in sorted(ROWS, key=lambda r: r[1]) if v == int(m[1])] if m else [(v,) for v in V]

    def fetchall(self):
        return self.rows

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def close(self):
        pass


class Connection:
    def cursor(self):
        return Cursor()

    def close(self):
        pass


def connect(**kw):
    return Connection()
'''


# ------------------------------------------------------------------------------------------------ corners of the guide cameras
def gfapatch(ck, g, d, i, j):
    """the shipped table is what the script writes, and its corners are those of a chip"""
    from astropy.table import Table
    dd = os.path.join(d, "data")
    shutil.copytree(os.path.dirname(data("fp-metrology.csv")), dd, ignore=shutil.ignore_patterns("raytrace-*.csv", "lbl-*"))
    shipped = Table.read(os.path.join(dd, "fp-metrology-gfa_patch.csv"))
    os.unlink(os.path.join(dd, "fp-metrology-gfa_patch.csv"))
    ck.case("gfapatch")
    os.environ["DESIMETER_DATA"] = dd
    try:
        ran = call(ck, "write_gfa_patch", [], d)
    finally:
        del os.environ["DESIMETER_DATA"]
    if not ran:
        return
    t = Table.read(os.path.join(dd, "fp-metrology-gfa_patch.csv"))
    ok = len(t) == len(shipped) and t.colnames == shipped.colnames
    if ok:
        for q in t.colnames:
            a, b = t[q], shipped[q]
            if a.dtype.kind == "f":
                a, b = np.ma.filled(a.astype(float), np.nan), np.ma.filled(b.astype(float), np.nan)
                ok &= bool(np.allclose(a, b, atol=1e-6, rtol=0, equal_nan=True))
            else:
                ok &= all(str(u) == str(v) for u, v in zip(a, b))
    ck.ok("gfa-patch", ok, rows=[len(t), len(shipped)])
    # a rigid chip of 2048 x 1032 pixels of 15 microns
    for p in np.unique(t["PETAL_LOC"]):
        k = t["PETAL_LOC"] == p
        x, y = (np.array(t[c][k], dtype=float)[np.argsort(t["PINHOLE_ID"][k])] for c in ("X_FP", "Y_FP"))
        for a, b, s in ((0, 1, 2047), (1, 2, 1031), (2, 3, 2047), (3, 0, 1031)):
            e = np.hypot(x[a] - x[b], y[a] - y[b])
            ck.ok("gfa-plane", abs(e - .015 * s) < .02 * .015 * s, petal=int(p), side=[a, b], mm=e, pixels=s)
