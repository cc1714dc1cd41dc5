"""Save / reload histories of every JSON-able transform, compared by behaviour."""
import json, os, subprocess, sys
import numpy as np
from vlib import core, zb
from checks.C05 import random_model, disk
from checks.C06 import simulate, true_model

TMP = os.environ.get("VERIF_SCRATCH", "/tmp")


def classes():
    from desimeter.transform.fvc2fp import FVC2FP
    from desimeter.transform.dm2pm import DM2PM
    from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit
    from desimeter.fieldmodel import FieldModel, TanCorr
    from desimeter.simplecorr import SimpleCorr
    return dict(FVC2FP=FVC2FP, DM2PM=DM2PM, RAYTRACE=TAN2FP_RayTraceFit, FIELD=FieldModel, TANCORR=TanCorr, SIMPLE=SimpleCorr)


# ---- generation of fitted / loaded / hand-set models ----------------------------------------------
def gen(kind, g, k):
    C = classes()[kind]
    if kind == "FVC2FP":
        d = random_model(g)
        if k % 3 == 0:
            m = C()
            if k % 2:
                for a in ("xfvc_scale", "yfvc_scale", "xfvc_offset", "yfvc_offset"):
                    setattr(m, a, float(getattr(m, a) * g.uniform(.9, 1.1)))
            sp, _ = simulate(g, true_model(g, True), keep=.5, noise=.02)
            m.fit(sp)
            return m
        if k % 6 == 1:      # version 1 files
            ids = [2, 5, 6, 9, 20, 28, 29, 30]
            d = dict(method="Zhao-Burge", version="1", scale=d["scale"], rotation=d["rotation"], offset_x=d["offset_x"], offset_y=d["offset_y"], zbcoeffs=[float(v) for v in g.normal(size=8) * 1e-3])
        m = C.fromjson(json.dumps(d))
        if k % 6 != 1 and k % 2:      # set directly
            m = C()
            for a in ("scale", "rotation", "offset_x", "offset_y", "xfvc_scale", "yfvc_scale", "xfvc_offset", "yfvc_offset"):
                setattr(m, a, d.get(a, getattr(m, a, None)))
            m.zbpolids, m.zbcoeffs = np.array(d["zbpolids"]), np.array(d["zbcoeffs"])
        if k % 5 == 0:
            sp, _ = simulate(g, true_model(g, False), keep=.5)
            m.fit(sp, zbfit=False)
        return m
    if kind == "DM2PM":
        m = C()
        if k % 3 == 0:
            m = C.read(os.path.join(core.REPO, "py", "desimeter", "data", "dm2pm.json"))
        elif k % 3 == 1:
            x, y = disk(g, 300, 400.)
            m.fit(x, y, x + .05 * g.normal(size=300) + .1, y * (1 + 1e-4))
        else:
            ids = g.choice(33, int(g.integers(1, 33)), replace=False)
            if g.random() < .5:
                ids = np.sort(ids)
            m.zbpolids = ids
            m.dm2pm_zbcoeffs, m.pm2dm_zbcoeffs = g.normal(size=(2, ids.size)) * 1e-4
        return m
    if kind == "RAYTRACE":
        from desimeter.transform.tan2fp.raytracefit import get_raytracefit
        m = C.fromjson(get_raytracefit().tojson())
        if k % 3 == 1:
            m.zbcoeffs = m.zbcoeffs + 1e-5 * g.normal(size=m.zbcoeffs.shape)
            m.scale = m.scale * (1 + 1e-4 * g.normal(size=m.scale.shape))
            m.rotation = m.rotation + 1e-4 * g.normal(size=m.scale.shape)
            m.offset_x = m.offset_x + 1e-4 * g.normal(size=m.scale.shape)
            m.offset_y = m.offset_y + 1e-4 * g.normal(size=m.scale.shape)
            if g.random() < .5:     # the layout of arrays in memory is no part of the model
                m.zbcoeffs = np.asfortranarray(m.zbcoeffs)
            if g.random() < .5:
                m.zbcoeffs = m.zbcoeffs[:, ::-1][:, ::-1]
            if g.random() < .3:
                m.scale = np.repeat(m.scale, 2)[::2]
        elif k % 3 == 2:      # a real fit to a synthetic ray trace
            import contextlib, io
            from astropy.table import Table
            rows = []
            for a1, a2 in ((0, 0), (0, 90), (0, 180), (0, 270), (0, 360)):
                x, y = disk(g, 60, .027)
                d = 1 + .02 * np.cos(np.radians(a2))
                rows += [(a1, a2, u, v, 14000 * u * d + 1e4 * u ** 2, 14000 * v + 3 * a2 * u) for u, v in zip(x, y)]
            t = Table(rows=rows, names=("ADC1", "ADC2", "X_TAN", "Y_TAN", "X_FP", "Y_FP"))
            m = C()
            with contextlib.redirect_stdout(io.StringIO()):
                m.fit(t)
        return m
    if kind == "FIELD":
        m = C()
        m.ra, m.dec = float(g.uniform(0, 360)), float(g.uniform(-20, 75))
        m.mjd = float(g.uniform(55000, 63000)); m.lst = float((m.ra + g.uniform(-50, 50)) % 360)
        m.hexrot_deg = float(g.choice([0., g.uniform(-2, 2)]))
        m.adc1, m.adc2 = [float(v) for v in g.uniform(0, 360, 2)]
        m.sxx, m.syy, m.sxy = float(1 + .01 * g.normal()), float(1 + .01 * g.normal()), float(.01 * g.normal())
        m.fieldrot_zp_deg, m.fieldrot_deg = float(g.normal()), float(g.normal())
        m.expid, m.nstars, m.rms_arcsec = int(g.integers(0, 10 ** 6)), int(g.integers(0, 50)), float(g.random())
        if k % 2:
            for a in ("precession", "aberration", "polar_misalignment"):
                setattr(m, a, bool(g.random() < .5))
        if k % 3 == 0:        # really fitted
            from checks.C18 import simulate_stars
            t = simulate_stars(g, dict(ra=m.ra, dec=m.dec, mjd=m.mjd, lst=m.lst, hexrot=m.hexrot_deg, adc1=m.adc1, adc2=m.adc2, sxx=1.001, syy=.999, sxy=3e-4, rot=.2),
                               dict(precession=m.precession, aberration=m.aberration, polar_misalignment=m.polar_misalignment), 6)[0]
            m.fit_tancorr(t)
        return m
    m = C()
    x, y = g.uniform(-1, 1, (2, 20)) * (.03 if kind == "TANCORR" else 300.)
    if k % 2 == 0:
        m.sxx, m.syy, m.sxy = float(1 + .05 * g.normal()), float(1 + .05 * g.normal()), float(.02 * g.normal())
        m.rot_deg = float(g.uniform(0, 360) if kind == "SIMPLE" else g.uniform(-3, 3))
        if kind == "SIMPLE":
            m.dx, m.dy = [float(v) for v in g.normal(size=2) * 100]
            m.nmatch, m.rms = int(g.integers(0, 99)), float(g.random())
        else:
            m.dha, m.ddec = [float(v) for v in g.normal(size=2) * .05]
            m.nstars, m.rms_arcsec = int(g.integers(0, 99)), float(g.random())
    else:
        t = np.radians(g.uniform(0, 360) if kind == "SIMPLE" else g.uniform(-2, 2))
        s = 1 + .01 * g.normal()
        o = (.0005 if kind == "TANCORR" else 50.) * g.normal(size=2)
        x2, y2 = s * (np.cos(t) * x - np.sin(t) * y) + o[0], s * (np.sin(t) * x + np.cos(t) * y) * 1.001 + o[1]
        if kind == "SIMPLE" and k % 4 == 1:
            m.fit(x, y, x2, y2, solid=True)
        else:
            m.fit(x, y, x2 + 1e-6 * g.normal(size=20), y2)
    return m


ATTR = dict(FVC2FP=("meandistance", "mediandistance", "rmsdistance", "nmatch"), FIELD=("ra", "dec", "mjd", "lst", "hexrot_deg", "adc1", "adc2", "fieldrot_deg", "fieldrot_zp_deg", "expid", "nstars", "rms_arcsec"),
            TANCORR=("dha", "ddec", "nstars", "rms_arcsec"), SIMPLE=("nmatch", "rms"), DM2PM=(), RAYTRACE=())


ZERO = dict(FVC2FP=("meandistance", "mediandistance", "rmsdistance", "nmatch", "rotation", "offset_x", "offset_y", "xfvc_offset", "yfvc_offset"),
            FIELD=("ra", "dec", "lst", "hexrot_deg", "adc1", "adc2", "fieldrot_deg", "fieldrot_zp_deg", "expid", "nstars", "rms_arcsec", "sxy", "precession", "aberration", "polar_misalignment"),
            TANCORR=("dha", "ddec", "sxy", "rot_deg", "nstars", "rms_arcsec"), SIMPLE=("dx", "dy", "sxy", "rot_deg", "nmatch", "rms"), DM2PM=(), RAYTRACE=())


def behaviour(kind, m, seed):
    """everything the object computes on fixed probes"""
    g = np.random.default_rng(seed)
    X, Y = disk(g, 40, 405.)
    u, v = disk(g, 40, .027)
    if kind == "FVC2FP":
        px, py = g.uniform(300, 5700, (2, 40))
        r = [*m.fvc2fp(px, py), *m.fp2fvc(X, Y)]
    elif kind == "DM2PM":
        r = [*m.dm2pm(X, Y), *m.pm2dm(X, Y)]
    elif kind == "RAYTRACE":
        r = []
        for a, b in g.uniform(0, 360, (3, 2)):
            r += [*m.tan2fp(u, v, a, b), *m.fp2tan(X, Y, a, b)]
    elif kind == "FIELD":
        a, b = m.fp2radec(X, Y)
        r = [a, b, *m.radec2fp(a, b), np.array([m.compute_fieldrot()]), *m.tancorr_inst2sky(u, v), *m.tancorr_sky2inst(u, v)]
    elif kind == "TANCORR":
        r = [*m.apply(u, v), *m.apply_inverse(u, v)]
    else:
        r = [*m.apply(X, Y), *m.apply_inverse(X, Y)]
    at = [getattr(m, a, None) for a in ATTR[kind]]
    return [np.asarray(q, float) for q in r], [None if a is None else float(a) for a in at]


def compare(ck, mon, a, b, **w):
    ck.ok(mon, len(a[0]) == len(b[0]), **w)
    for i, (p, q) in enumerate(zip(a[0], b[0])):
        ck.close(mon, p, q, 1e-9 * (1 + np.abs(q)), probe=i, **w)
    for i, (p, q) in enumerate(zip(a[1], b[1])):
        ck.ok(mon + "-attributes", (p is None and q is None) or (p is not None and q is not None and (p == q or abs(p - q) <= 1e-12 * abs(q))), attr=i, got=p, want=q, **w)


def same_text(a, b):
    def eq(p, q):
        if isinstance(p, dict):
            return isinstance(q, dict) and p.keys() == q.keys() and all(eq(p[k], q[k]) for k in p)
        if isinstance(p, list):
            return isinstance(q, list) and len(p) == len(q) and all(map(eq, p, q))
        if isinstance(p, float) or isinstance(q, float):
            return not isinstance(p, (str, list, dict)) and not isinstance(q, (str, list, dict)) and abs(p - q) <= 1e-12 * abs(q)
        return p == q
    return eq(json.loads(a), json.loads(b))


def shuffled(g, text):
    d = json.loads(text)
    ks = list(d)
    g.shuffle(ks)
    return json.dumps({k: d[k] for k in ks}, indent=int(g.integers(0, 5)) or None)


def run(ck):
    ck.rule = "a case is one model with one history of saves and loads; distinct by saved content"
    ck.assumptions = ["behaviour compared on 40 probes per direction; 1e-9 relative"]
    kinds = ["FVC2FP", "DM2PM", "RAYTRACE", "FIELD", "TANCORR", "SIMPLE"]
    ck.parallel(chunk, [(k, c, ck.n(12, 150)) for c in range(3) for k in kinds])
    processes(ck, kinds)
    cross(ck, kinds)
    shipped(ck)
    for k in kinds:
        ck.require("reload-" + k, 20)
    for m, k in (("save-twice", 150), ("key-order", 100), ("other-process", 12), ("other-kind", 60), ("source-unchanged", 100), ("refit", 10), ("independent", 100)):
        ck.require(m, k)


def chunk(ck, item):
    kind, c, n = item
    g = ck.rng(kind, c)
    for k in range(n):
        with ck.guard("history", kind=kind, k=k):
            history(ck, g, kind, k + c)


def history(ck, g, kind, k):
    C = classes()[kind]
    m = gen(kind, g, k)
    if g.random() < .4:       # zero is a value as any other
        for a in ZERO[kind]:
            if g.random() < .5 and isinstance(getattr(m, a, None), (int, float, bool, np.floating)):
                setattr(m, a, type(getattr(m, a))(0))
    seed = int(g.integers(0, 2 ** 31))
    b0 = behaviour(kind, m, seed)
    t0 = m.tojson()
    ck.case(kind, text=t0)
    w = dict(kind=kind, text=t0)
    t1 = m.tojson()
    ck.ok("save-twice", same_text(t0, t1), **w)
    ck.ok("save-twice", isinstance(json.loads(t0), dict), **w)
    compare(ck, "source-unchanged", behaviour(kind, m, seed), b0, **w)
    cur = m
    for step in range(int(g.integers(1, 4))):
        way = int(g.integers(0, 5))
        if way >= 1 and hasattr(C, "read_jsonfile"):
            fn = os.path.join(TMP, "t%d_%d.json" % (os.getpid(), int(g.integers(0, 3))))   # sometimes overwrites an older file
            if way == 2 and hasattr(cur, "write"):
                cur.write(fn); new = C.read(fn)
            elif way == 3 and kind == "FVC2FP":
                from desimeter.transform.fvc2fp import read_jsonfile
                cur.write_jsonfile(fn); new = read_jsonfile(fn)
            else:
                cur.write_jsonfile(fn); new = C.read_jsonfile(fn)
        else:
            new = C.fromjson(cur.tojson())
        compare(ck, "reload-" + kind, behaviour(kind, new, seed), b0, **w)
        ck.ok("save-twice", same_text(new.tojson(), t0), got=new.tojson(), **w)
        cur = new
    new = C.fromjson(shuffled(g, t0))
    compare(ck, "key-order", behaviour(kind, new, seed), b0, **w)
    # two objects read from one text do not share state
    a, b = C.fromjson(t0), C.fromjson(t0)
    other = gen(kind, g, k + 1)
    for at, v in list(vars(a).items()):
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            v += 1e-3
        elif isinstance(v, float):
            setattr(a, at, v + 1e-3)
    compare(ck, "independent", behaviour(kind, b, seed), b0, **w)
    compare(ck, "independent", behaviour(kind, C.fromjson(t0), seed), b0, **w)
    # a reloaded object can be fitted again like the original
    if kind in ("SIMPLE", "TANCORR"):
        x, y = g.uniform(-1, 1, (2, 15)) * .01
        x2, y2 = x * 1.001 + 1e-4, y + 1e-3 * x
        m.fit(x, y, x2, y2); cur.fit(x, y, x2, y2)
        compare(ck, "refit", behaviour(kind, cur, seed), behaviour(kind, m, seed), **w)
    elif kind == "FVC2FP" and k % 4 == 0:
        sp, _ = simulate(g, true_model(g, True), keep=.4, noise=.02)
        m.fit(sp, zbfit=False); cur.fit(sp, zbfit=False)
        A, B = behaviour(kind, cur, seed), behaviour(kind, m, seed)
        for p, q in zip(A[0], B[0]):
            ck.close("refit", p, q, 1e-3, **w)


READER = r"""
import sys, json
import numpy as np
sys.path.insert(0, %r); sys.path.insert(0, %r)
from checks import C07
out = []
for kind, text, seed in json.load(open(sys.argv[1])):
    m = C07.classes()[kind].fromjson(text)
    a, b = C07.behaviour(kind, m, seed)
    out.append([[v.tolist() for v in a], b, m.tojson()])
json.dump(out, open(sys.argv[2], "w"))
"""


def processes(ck, kinds):
    """a fresh interpreter reads what this one saved"""
    g = ck.rng("processes")
    jobs, want = [], []
    for kind in kinds:
        for k in range(ck.n(4, 40)):
            m = gen(kind, g, k)
            seed = int(g.integers(0, 2 ** 31))
            jobs.append((kind, m.tojson(), seed))
            want.append(behaviour(kind, m, seed))
    a, b = os.path.join(TMP, "jobs.json"), os.path.join(TMP, "out.json")
    json.dump(jobs, open(a, "w"))
    p = subprocess.run([sys.executable, "-c", READER % (core.VERIF, os.path.join(core.REPO, "py")), a, b], capture_output=True, text=True)
    if not ck.ok("other-process", p.returncode == 0, err=p.stderr[-2000:]):
        return
    for (kind, text, seed), w, (r, at, t2) in zip(jobs, want, json.load(open(b))):
        ck.case("process-" + kind, text=text)
        compare(ck, "other-process", ([np.array(v) for v in r], at), w, kind=kind)
        ck.ok("other-process", same_text(t2, text), kind=kind)


def cross(ck, kinds):
    """text of one kind is not accepted by another; unknown versions and damaged texts neither"""
    g = ck.rng("cross")
    texts = {k: [gen(k, g, j).tojson() for j in range(3)] for k in kinds}
    CL = classes()

    def rejects(kind, text, **w):
        try:
            CL[kind].fromjson(text)
            ck.ok("other-kind", False, reader=kind, text=text, **w)
        except Exception:
            ck.ok("other-kind", True)
    for k in kinds:
        for j in kinds:
            if j != k:
                for t in texts[j]:
                    rejects(k, t, writer=j)
        for t in texts[k]:
            rejects(k, t[:len(t) // 2], damaged="truncated")
            d = json.loads(t)
            rejects(k, json.dumps(dict(d, version="99")), damaged="version")
            key = "method" if "method" in d else "name"
            rejects(k, json.dumps(dict(d, **{key: "Something else"})), damaged="label")
            rejects(k, json.dumps({q: v for q, v in d.items() if q != key}), damaged="label")
    # file names: only json files
    for C in (CL["FVC2FP"], CL["DM2PM"]):
        for bad in ("x.fits", "model"):
            try:
                C.read(os.path.join(TMP, bad))
                ck.ok("other-kind", False, file=bad)
            except Exception:
                ck.ok("other-kind", True)


def shipped(ck):
    """the shipped files load, and mean the same after a save/load cycle; old field models keep their default switches"""
    CL = classes()
    D = os.path.join(core.REPO, "py", "desimeter", "data")
    for f in ("init-fvc2fp.json", "single-lens-fvc2fp.json", "canon-lens-fvc2fp.json"):
        m = CL["FVC2FP"].read(os.path.join(D, f))
        d = json.load(open(os.path.join(D, f)))
        ck.case("shipped", file=f)
        ck.close("reload-FVC2FP", [m.scale, m.rotation, m.offset_x, m.offset_y], [d["scale"], d["rotation"], d["offset_x"], d["offset_y"]], 1e-12, file=f)
        compare(ck, "reload-FVC2FP", behaviour("FVC2FP", CL["FVC2FP"].fromjson(m.tojson()), 5), behaviour("FVC2FP", m, 5), file=f)
