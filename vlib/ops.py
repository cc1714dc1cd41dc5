"""Catalogue of the public operations of desimeter, for the purity (C30) and concurrency (C25) monitors.

An operation is a name, the path of a function ("module:attr.attr"), a generator of (args, kwargs) from a
random stream, the arguments that are also outputs, the columns it is documented to add to them, and the
relative tolerance within which a repetition must agree.  Arguments are plain picklable values."""
import contextlib, importlib, io, json, os, pickle, sys, tempfile
import numpy as np

OPS = {}


class Op:
    def __init__(self, name, fn, make, tol, out, adds, heavy, slow, absent):
        self.name, self.fn, self.make, self.tol, self.out, self.adds, self.heavy, self.slow, self.absent = name, fn, make, tol, out, adds, heavy, slow, absent

    def resolve(self):
        m, a = self.fn.split(":")
        o = importlib.import_module(m)
        for p in a.split("."):
            o = getattr(o, p)
        return o

    def call(self, args, kw):
        """result and outputs, flattened"""
        r = self.resolve()(*args, **kw)
        return r


def op(fn, tol=1e-9, out=(), adds=None, name=None, heavy=False, slow=False):
    """heavy: loads tables or fits; slow: more than 0.1 s"""
    def deco(make):
        n = name or make.__name__
        assert n not in OPS, n
        OPS[n] = Op(n, "desimeter." + fn, make, tol, tuple(out), adds or {}, heavy, slow, None)
        return make
    return deco


# ---- flattening --------------------------------------------------------------------------------------
def leaves(v, path="", out=None):
    """list of (path, leaf): arrays, strings, numbers, None, ..."""
    if out is None:
        out = []
    t = type(v)
    if v is None or isinstance(v, (str, bytes, bool, int, float, complex, np.generic)):
        out.append((path, v))
    elif hasattr(v, "colnames"):
        for c in v.colnames:
            out.append((path + "[%s]" % c, v[c]))
        leaves(dict(v.meta), path + ".meta", out)
    elif isinstance(v, np.ndarray):
        out.append((path, v))
    elif isinstance(v, dict):
        for k in sorted(v, key=str):
            leaves(v[k], path + "{%s}" % (k,), out)
    elif isinstance(v, (list, tuple)):
        if len(v) > 30 and all(isinstance(q, (int, float, np.generic)) for q in v):
            out.append((path, np.array(v)))
        else:
            out.append((path + ".len", len(v)))
            for i, q in enumerate(v):
                leaves(q, path + "[%d]" % i, out)
    elif isinstance(v, (set, frozenset)):
        out.append((path, repr(sorted(v))))
    elif hasattr(v, "__dict__"):
        out.append((path + ".class", t.__name__))
        leaves({k: q for k, q in vars(v).items()}, path, out)
    else:
        out.append((path, repr(v)))
    return out


def plain(q):
    """masked values -> filled, structured -> list of fields"""
    a = np.ma.filled(q, np.nan if np.ma.asarray(q).dtype.kind == "f" else None) if np.ma.isMaskedArray(q) else np.asarray(q)
    return a


def differ(a, b, tol, path=""):
    """None if equal within tol (relative to the largest value), else a text"""
    A, B = leaves(a), leaves(b)
    if [p for p, _ in A] != [p for p, _ in B]:
        x, y = {p for p, _ in A}, {p for p, _ in B}
        return "different structure: only first %s, only second %s" % (sorted(x - y)[:4], sorted(y - x)[:4])
    for (p, u), (_, v) in zip(A, B):
        if u is None or v is None or isinstance(u, (str, bytes)) or isinstance(v, (str, bytes)):
            if u != v:
                return "%s: %r != %r" % (p, str(u)[:80], str(v)[:80])
            continue
        u, v = plain(u), plain(v)
        if u.shape != v.shape:
            return "%s: shape %s != %s" % (p, u.shape, v.shape)
        if u.dtype.names:
            for n in u.dtype.names:
                d = differ(np.ascontiguousarray(u[n]), np.ascontiguousarray(v[n]), tol)
                if d:
                    return "%s.%s%s" % (p, n, d)
            continue
        if u.dtype.kind in "OUSVbM" or v.dtype.kind in "OUSVbM":
            if not np.array_equal(u.astype(str), v.astype(str)):
                return "%s: %s != %s" % (p, str(u)[:80], str(v)[:80])
            continue
        if u.size == 0:
            continue
        with np.errstate(all="ignore"):
            nan = np.isnan(u.astype(complex)) | np.isnan(v.astype(complex))
            if not np.array_equal(np.isnan(u.astype(complex)), np.isnan(v.astype(complex))):
                return "%s: NaN in one only" % p
            d = np.where(nan | (u == v), 0, np.abs(u.astype(complex) - v))
            s = np.max(np.abs(np.where(nan | ~np.isfinite(u.astype(complex)), 0, u)))
        if not np.max(d) <= tol * max(s, 1e-3):
            i = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            return "%s[%d]: %r != %r" % (p, i, np.ravel(u)[i], np.ravel(v)[i])
    return None


def snapshot(v):
    """deep copy with types, to see any modification"""
    return pickle.dumps([(p, exact(q)) for p, q in leaves(v)]), [(p, exact(q)) for p, q in leaves(v)]


def exact(q):
    if isinstance(q, np.ndarray):
        m = np.ma.getmaskarray(q).tobytes() if np.ma.isMaskedArray(q) else b""
        a = np.ma.getdata(q)
        return (type(q).__name__, str(a.dtype), a.shape, np.ascontiguousarray(a).tobytes() if a.dtype.kind != "O" else repr(a.tolist()), m)
    return (type(q).__name__, repr(q))


def changed(before, v, skip=()):
    """path of the first leaf that is not what it was (skip: allowed prefixes), or None"""
    old, new = dict(before[1]), {p: exact(q) for p, q in leaves(v)}
    for p in sorted(set(old) | set(new)):
        if any(p.startswith(s) for s in skip):
            continue
        if old.get(p) != new.get(p):
            return p if p in old and p in new else p + (" (added)" if p in new else " (removed)")
    return None


def allowed(o):
    """paths of the arguments that an operation is documented to write"""
    s = []
    for i, cols in o.adds.items():
        for c in cols:
            s.append("[%d]%s" % (i, c))
    return s


def imports():
    """import everything (and call nothing), so that forked processes start quickly"""
    import astropy.table, astropy.time, astropy.coordinates, astropy.io.ascii, astropy.io.fits, fitsio, scipy.optimize, scipy.interpolate, scipy.spatial, scipy.ndimage, scipy.signal  # noqa: F401
    for o in OPS.values():
        o.resolve()


@contextlib.contextmanager
def quiet():
    import logging
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            yield
    finally:
        logging.disable(logging.NOTSET)


# ---- argument helpers -------------------------------------------------------------------------------
def disk(g, n, r):
    q, t = r * np.sqrt(g.random(n)), g.uniform(0, 2 * np.pi, n)
    return q * np.cos(t), q * np.sin(t)


def size(g):
    return int(g.choice([1, 2, 7, 40]))


def pointing(g):
    lst = float(g.uniform(0, 360)); ha = float(g.uniform(-50, 50)); dec = float(g.uniform(-10, 70))
    return (lst - ha) % 360, dec, float(g.uniform(54000, 62000)), lst, float(g.uniform(-1, 1))


def stars(g, ra, dec, n):
    return (ra + g.uniform(-1.4, 1.4, n) / np.cos(np.radians(dec))) % 360, dec + g.uniform(-1.4, 1.4, n)


def adc(g):
    return float(g.choice([0., g.uniform(0, 360)])), float(g.choice([0., g.uniform(0, 360)]))


def repo_data(name):
    import desimeter
    return os.path.join(os.path.dirname(desimeter.__file__), "data", name)


_M = None


def metrology():
    global _M
    if _M is None:
        from astropy.table import Table
        _M = Table.read(repo_data("fp-metrology.csv"))
    return _M.copy()


def camera(name="init-fvc2fp.json"):
    from desimeter.transform.fvc2fp import FVC2FP
    return FVC2FP.read_jsonfile(repo_data(name))


S = "transform.radec2tan:"


# ---- sky to tangent plane ---------------------------------------------------------------------------
@op(S + "radec2tan")
def radec2tan(g):
    ra, dec, mjd, lst, hx = pointing(g); a, d = stars(g, ra, dec, size(g))
    return [a, d, ra, dec, mjd, lst, hx], dict(precession=bool(g.integers(2)), aberration=bool(g.integers(2)), polar_misalignment=bool(g.integers(2)), use_hardcoded_polmis_rotmat=bool(g.integers(2)))


@op(S + "radec2tan", heavy=True)
def radec2tan_astropy(g):
    ra, dec, mjd, lst, hx = pointing(g); a, d = stars(g, ra, dec, size(g))
    return [a, d, ra, dec, mjd, lst, hx], dict(use_astropy=True)


@op(S + "tan2radec")
def tan2radec(g):
    ra, dec, mjd, lst, hx = pointing(g); x, y = disk(g, size(g), .028)
    return [x, y, ra, dec, mjd, lst, hx], dict(precession=bool(g.integers(2)), aberration=bool(g.integers(2)), polar_misalignment=bool(g.integers(2)))


@op(S + "tan2radec", heavy=True)
def tan2radec_astropy(g):
    ra, dec, mjd, lst, hx = pointing(g); x, y = disk(g, size(g), .028)
    return [x, y, ra, dec, mjd, lst, hx], dict(use_astropy=True)


def _pair(fn, third):
    def make(g):
        n = size(g)
        return [g.uniform(0, 360, n), g.uniform(-60, 80, n)] + ([float(g.uniform(54000, 62000))] if third else []), {}
    op(S + fn, name=fn)(make)
    if third:
        op(S + fn, name=fn + "_astropy", heavy=True)(lambda g: (make(g)[0], dict(use_astropy=True)))


for _f in ("apply_precession_from_icrs", "undo_precession_from_icrs", "apply_aberration", "undo_aberration"):
    _pair(_f, True)
for _f in ("hadec2altaz", "altaz2hadec", "radec2eclip", "eclip2radec"):
    _pair(_f, False)


@op(S + "apply_refraction")
def apply_refraction(g):
    return [g.uniform(15, 90, size(g))], {}


@op(S + "undo_refraction")
def undo_refraction(g):
    return [g.uniform(15, 90, size(g))], {}


@op(S + "hadec2xy")
def hadec2xy(g):
    ra, dec, _, _, _ = pointing(g); a, d = stars(g, ra, dec, size(g))
    return [a, d, ra, dec], {}


@op(S + "xy2hadec")
def xy2hadec(g):
    ra, dec, _, _, _ = pointing(g); x, y = disk(g, size(g), .028)
    return [x, y, ra, dec], {}


@op(S + "compute_polar_misalignment_rotation_matrix")
def polar_misalignment(g):
    return [float(g.uniform(-200, 200)), float(g.uniform(-200, 200))], {}


@op(S + "get_hardcoded_polmis_rotmat")
def hardcoded_polmis(g):
    return [], dict(inverse=bool(g.integers(2)))


# ---- tangent plane to focal plane -------------------------------------------------------------------
@op("transform.tan2fp:tan2fp", heavy=True)
def tan2fp(g):
    x, y = disk(g, size(g), .028)
    return [x, y, *adc(g)], {}


@op("transform.tan2fp:fp2tan", heavy=True)
def fp2tan(g):
    x, y = disk(g, size(g), 410)
    return [x, y, *adc(g)], {}


@op("transform.tan2fp.echo22:tan2fp", heavy=True)
def echo22_tan2fp(g):
    return list(disk(g, size(g), .028)), {}


@op("transform.tan2fp.echo22:fp2tan", heavy=True)
def echo22_fp2tan(g):
    return list(disk(g, size(g), 410)), {}


@op("transform.tan2fp.raytracefit:TAN2FP_RayTraceFit.read_jsonfile", heavy=True)
def raytrace_read(g):
    return [repo_data(str(g.choice(["raytrace-tan2fp.json", "raytrace-tan2fp-6560A.json"])))], {}


@op("transform.tan2fp.raytracefit:average_angles_adc")
def adc_average(g):
    return list(adc(g)), {}


# ---- distortions ------------------------------------------------------------------------------------
@op("transform.zhaoburge:getZhaoBurgeXY")
def zb_xy(g):
    n = int(g.integers(1, 8))
    return [g.choice(33, n, replace=False), g.normal(size=n) * 1e-3, *disk(g, size(g), 1.)], {}


@op("transform.zhaoburge:getZhaoBurgeTerm")
def zb_term(g):
    return [int(g.integers(33)), *disk(g, size(g), 1.)], {}


@op("transform.zhaoburge:transform")
def zb_transform(g):
    n = int(g.integers(1, 8))
    return [*disk(g, size(g), 1.), float(g.uniform(.8, 1.2)), float(g.uniform(-3, 3)), .01, -.02], dict(zbpolids=g.choice(33, n, replace=False), zbcoeffs=g.normal(size=n) * 1e-3)


@op("transform.zhaoburge:fit_scale_rotation_offset", tol=1e-6, heavy=True)
def zb_fit_sro(g):
    x, y = disk(g, 60, 1.); r = g.uniform(-1, 1)
    return [x, y, 1.01 * (np.cos(r) * x - np.sin(r) * y) + .01, 1.01 * (np.sin(r) * x + np.cos(r) * y)], dict(fitzb=bool(g.integers(2)))


@op("transform.zhaoburge:fitZhaoBurge", tol=1e-7)
def zb_fit(g):
    x, y = disk(g, 60, 1.)
    return [x, y, x + 1e-3 * g.normal(size=60), y + 1e-3 * g.normal(size=60)], dict(polids=np.sort(g.choice(33, 5, replace=False)) if g.random() < .5 else None)


@op("transform.dm2pm:DM2PM.dm2pm")
def dm2pm(g):
    from desimeter.transform.dm2pm import DM2PM
    return [DM2PM.read(repo_data("dm2pm.json")), *disk(g, size(g), 410)], {}


@op("transform.dm2pm:DM2PM.pm2dm")
def pm2dm(g):
    from desimeter.transform.dm2pm import DM2PM
    return [DM2PM.read(repo_data("dm2pm.json")), *disk(g, size(g), 410)], {}


@op("transform.dm2pm:DM2PM.read", heavy=True)
def dm2pm_read(g):
    return [repo_data("dm2pm.json")], {}


@op("transform.dm2pm:DM2PM.fit", tol=1e-6, out=(0,), adds={0: [""]})
def dm2pm_fit(g):
    from desimeter.transform.dm2pm import DM2PM
    x, y = disk(g, 120, 410)
    m = DM2PM.read(repo_data("dm2pm.json"))
    u, v = m.dm2pm(x, y)
    return [m, x, y, u + .001 * g.normal(size=120), v], {}


# ---- camera ----------------------------------------------------------------------------------------
@op("transform.fvc2fp:FVC2FP.fvc2fp")
def fvc2fp(g):
    n = size(g)
    return [camera(str(g.choice(["init-fvc2fp.json", "single-lens-fvc2fp.json", "canon-lens-fvc2fp.json"]))), g.uniform(1000, 5000, n), g.uniform(1000, 5000, n)], {}


@op("transform.fvc2fp:FVC2FP.fp2fvc")
def fp2fvc(g):
    return [camera(str(g.choice(["init-fvc2fp.json", "single-lens-fvc2fp.json"]))), *disk(g, size(g), 400)], {}


@op("transform.fvc2fp:FVC2FP.read", heavy=True)
def fvc2fp_read(g):
    return [repo_data(str(g.choice(["init-fvc2fp.json", "single-lens-fvc2fp.json", "canon-lens-fvc2fp.json"])))], {}


@op("transform.fvc2fp:FVC2FP.tojson")
def fvc2fp_tojson(g):
    return [camera()], {}


def _spots(g, extra=30):
    from checks import C06
    d = json.load(open(repo_data("init-fvc2fp.json")))
    t, _ = C06.simulate(g, _small(d, g), extra=extra, noise=.02)
    return t


def _small(d, g):
    d = {k: d[k] for k in ("xfvc_scale", "yfvc_scale", "xfvc_offset", "yfvc_offset", "scale", "rotation", "offset_x", "offset_y", "zbpolids", "zbcoeffs")}
    d["rotation"] += float(g.uniform(-.002, .002)); d["scale"] *= float(g.uniform(.998, 1.002))
    return d


@op("transform.fvc2fp:FVC2FP.fit", tol=1e-6, out=(0, 1), adds={0: [""], 1: ["[X_FP", "[Y_FP", "[Z_FP", "[X_FP_METRO", "[Y_FP_METRO", "[Z_FP_METRO", ".meta"]}, heavy=True, slow=True)
def fvc2fp_fit(g):
    m = metrology()
    k = int(g.integers(3))
    return [camera(), _spots(g)], dict(update_spots=bool(g.integers(2)), zbfit=bool(g.integers(2)), **(dict(metrology=m) if k else {}), **(dict(fixed_scale=True) if k == 2 else {}))


# ---- petals, positioners, guide cameras ------------------------------------------------------------
@op("transform.gfa2fp:gfa2fp", heavy=True)
def gfa2fp(g):
    n = size(g)
    return [int(g.choice([0, 2, 3, 5, 7, 8])), g.uniform(0, 2048, n), g.uniform(0, 1032, n)], {}


@op("transform.gfa2fp:fp2gfa", heavy=True)
def fp2gfa(g):
    return [int(g.choice([0, 2, 3, 5, 7, 8])), *disk(g, size(g), 400)], {}


@op("transform.gfa2fp:fit_gfa2fp", heavy=True, slow=True)
def fit_gfa2fp(g):
    return [metrology()], {}


@op("transform.ptl2fp:ptl2fp", heavy=True)
def ptl2fp(g):
    x, y = disk(g, size(g), 400)
    return [int(g.integers(10)), x, y] + ([g.uniform(-20, 0, len(x))] if g.random() < .5 else []), {}


@op("transform.ptl2fp:fp2ptl", heavy=True)
def fp2ptl(g):
    x, y = disk(g, size(g), 400)
    return [int(g.integers(10)), x, y] + ([g.uniform(-20, 0, len(x))] if g.random() < .5 else []), {}


@op("transform.ptl2fp:apply_ptl2fp", out=(0,), adds={0: ["[X_FP", "[Y_FP", "[Z_FP"]}, heavy=True)
def apply_ptl2fp(g):
    from astropy.table import Table
    n = size(g); x, y = disk(g, n, 400)
    return [Table(dict(PETAL_LOC=g.integers(0, 10, n), X_PTL=x, Y_PTL=y, Z_PTL=g.uniform(-20, 0, n)))], {}


for _a in "rszn":
    for _b in "rszn":
        if _a + _b in ("rs", "sr", "rz", "zr", "rn", "nr", "sn", "sz", "zs", "ns"):
            def _mk(g, a=_a):
                n = size(g)
                v = {"r": g.uniform(0, 410, n), "s": g.uniform(0, 410, n), "z": g.uniform(-17, 0, n), "n": g.uniform(.1, 5, n)}[a]
                return [v], {}
            op("transform.rszn_lookups:%s2%s" % (_a, _b), name="lookup_%s2%s" % (_a, _b), heavy=True)(_mk)


def _two(fn, r=400):
    op("transform.xy2qs:" + fn, name=fn)(lambda g: (list(disk(g, size(g), r)), {}))


for _f in ("xy2qs", "xy2uv", "uv2xy"):
    _two(_f)


@op("transform.xy2qs:qs2xy")
def qs2xy(g):
    n = size(g)
    return [g.uniform(-180, 180, n), g.uniform(0, 410, n)], {}


@op("transform.xy2tp:xy2tp")
def xy2tp(g):
    r = [float(g.uniform(2.7, 3.3)), float(g.uniform(2.7, 3.3))]
    return [[float(v[0]) for v in disk(g, 1, 6)], r, [[-180., 180.], [-20., 200.]]], dict(t_guess=float(g.uniform(-180, 180)) if g.random() < .5 else None)


@op("transform.xy2tp:tp2xy")
def tp2xy(g):
    return [[float(g.uniform(-180, 180)), float(g.uniform(0, 180))], [3.1, 2.9]], {}


def _cal(g, n):
    return dict(r1=g.uniform(2.8, 3.2, n).tolist(), r2=g.uniform(2.8, 3.2, n).tolist(), t_offset=g.uniform(-170, 170, n).tolist(), p_offset=g.uniform(-5, 5, n).tolist(),
                x_offset=g.uniform(50, 380, n).tolist(), y_offset=g.uniform(-90, 90, n).tolist())


PP = "transform.pos2ptl:"


@op(PP + "int2ptl")
def int2ptl(g):
    n = size(g); c = _cal(g, n)
    t, p = g.uniform(-170, 170, n), g.uniform(0, 180, n)
    if g.random() < .5:
        t, p = t.tolist(), p.tolist()
    return [t, p, c["r1"], c["r2"], c["t_offset"], c["p_offset"], c["x_offset"], c["y_offset"]], {}


@op(PP + "ptl2int")
def ptl2int(g):
    n = size(g); c = _cal(g, n)
    dx, dy = disk(g, n, 5.5)
    x, y = np.array(c["x_offset"]) + dx, np.array(c["y_offset"]) + dy
    return [x.tolist(), y.tolist(), c["r1"], c["r2"], c["t_offset"], c["p_offset"], c["x_offset"], c["y_offset"]], dict(t_int_guess=g.uniform(-170, 170, n).tolist() if g.random() < .5 else None)


@op(PP + "loc2ext")
def loc2ext(g):
    n = size(g); c = _cal(g, n); x, y = disk(g, n, 5.5)
    return [x, y, np.array(c["r1"]), np.array(c["r2"]), np.array(c["t_offset"]), np.array(c["p_offset"])], {}


@op(PP + "ext2loc")
def ext2loc(g):
    n = size(g)
    return [g.uniform(-180, 180, n), g.uniform(0, 180, n), g.uniform(2.8, 3.2, n), g.uniform(2.8, 3.2, n)], {}


@op(PP + "int2loc")
def int2loc(g):
    n = size(g); c = _cal(g, n)
    return [g.uniform(-180, 180, n), g.uniform(0, 180, n), c["r1"], c["r2"], c["t_offset"], c["p_offset"]], {}


@op(PP + "loc2int")
def loc2int(g):
    n = size(g); c = _cal(g, n); x, y = disk(g, n, 5.5)
    return [x, y, c["r1"], c["r2"], c["t_offset"], c["p_offset"]], dict(t_int_guess=g.uniform(-170, 170, n) if g.random() < .5 else None)


for _f in ("flat2loc", "loc2flat", "ext2int", "int2ext"):
    def _mk(g):
        n = size(g)
        u = g.uniform(-170, 170, n)
        return [u.tolist() if g.random() < .5 else u, g.uniform(-10, 10, n) if g.random() < .5 else float(g.uniform(-10, 10))], {}
    op(PP + _f, name=_f)(_mk)


@op(PP + "ptl2flat")
def ptl2flat(g):
    x, y = disk(g, size(g), 400)
    return ([x.tolist(), y.tolist()] if g.random() < .5 else [x, y]), {}


@op(PP + "flat2ptl")
def flat2ptl(g):
    x, y = disk(g, size(g), 400)
    return ([x.tolist(), y.tolist()] if g.random() < .5 else [x, y]), {}


@op(PP + "delta_angle")
def delta_angle(g):
    n = size(g)
    return [g.uniform(-400, 400, n), g.uniform(-400, 400, n)], dict(direction=g.choice([-1, 0, 1], n))


@op("io:load_nominal_positioner_locations", heavy=True)
def nominal_locations(g):
    return [], {}


@op("io:load_metrology", heavy=True)
def load_metrology(g):
    return [], {}


@op("io:load_petal_alignement", heavy=True)
def petal_alignments(g):
    return [], {}


@op("io:read_hexrot_deg")
def hexrot(g):
    h = "%f,%f,%f,%f,%f,%f" % tuple(g.uniform(-100, 100, 6))
    return [dict(FOCUS=h if g.random() < .5 else tuple(float(v) for v in h.split(",")))], {}


# ---- utilities -------------------------------------------------------------------------------------
@op("util:parse_fibers")
def parse_fibers(g):
    a = int(g.integers(50))
    return ["%d,%d:%d,%d..%d" % (a, a + 3, a + 9, a + 20, a + 25)], {}


@op("time:mjd2lst")
def mjd2lst(g):
    return [g.uniform(50000, 62000, size(g))], {}


@op("trig:average_angles_deg")
def average_angles(g):
    n = size(g)
    return [g.uniform(0, 360, n), g.uniform(0, 360, n)], {}


@op("trig:put360")
def put360(g):
    return [g.uniform(-700, 700, size(g))], {}


@op("trig:sincosd")
def sincosd(g):
    return [g.uniform(-700, 700, size(g))], {}


@op("posparams.posflags_mask:posflags_mask.names")
def flag_names(g):
    from desimeter.posparams.posflags_mask import POSITIONER_FLAGS_BITS
    b = list(POSITIONER_FLAGS_BITS.values())
    return [int(sum(1 << int(i) for i in g.choice(b, 3, replace=False)))], {}


# ---- circles, matching, fiducials ------------------------------------------------------------------
def _arc(g, n, noise):
    t = g.uniform(0, 5, n); r = g.uniform(2, 4)
    return [r * np.cos(t) + 10 + noise * g.normal(size=n), r * np.sin(t) - 5 + noise * g.normal(size=n)]


@op("circles:fit_circle", tol=1e-7)
def fit_circle(g):
    return _arc(g, int(g.integers(4, 30)), .003), {}


@op("circles:robust_fit_circle", tol=1e-7)
def robust_fit_circle(g):
    a = _arc(g, int(g.integers(10, 30)), .003)
    a[0][3] += .7
    return a, {}


@op("match:match_same_system")
def match_same_system(g):
    x, y = disk(g, 40, 400); o = g.permutation(40)[:30]
    return [x, y, x[o] + .1 * g.normal(size=30), y[o]], dict(remove_duplicates=bool(g.integers(2)))


@op("match:match_arbitrary_translation_dilatation")
def match_triangles(g):
    x, y = disk(g, 12, 100); o = g.permutation(12)
    return [x, y, 1.1 * x[o] + 4, 1.1 * y[o] - 3], {}


@op("match:compute_triangles_with_fixed_orientation")
def triangles_fixed(g):
    return list(disk(g, 8, 100)), {}


@op("match:compute_triangles_with_arbitrary_orientation")
def triangles_any(g):
    return list(disk(g, 8, 100)), {}


@op("findfiducials:findfiducials", out=(0,), adds={0: ["[LOCATION", "[PETAL_LOC", "[DEVICE_LOC", "[PINHOLE_ID", ".meta"]}, heavy=True, slow=True)
def findfiducials(g):
    from astropy.table import Table
    t = _spots(g, extra=100)
    return [Table(dict(XPIX=t["XPIX"], YPIX=t["YPIX"], COUNTS=t["COUNTS"]))], dict(input_transform=str(g.choice([repo_data("init-fvc2fp.json")])) if g.random() < .5 else None)


@op("match_positioners:match_positioners", heavy=True, slow=True)
def match_positioners(g):
    from checks import C23
    s = C23.scene(g, 0)
    f, q, c, _, _ = C23.tables(g, s, 80000.)
    return [f, q, c], dict(return_alternatives=bool(g.integers(2)))


@op("match_positioners:match2d")
def match2d(g):
    x, y = disk(g, 50, 100)
    return [x, y, x + .1, y - .1, 1.], {}


@op("averagecoord:average_coordinates", slow=True)
def average_coordinates(g):
    from astropy.table import Table
    P = np.array([(i, j) for i in range(5) for j in range(5)]) * 40. + g.uniform(-5, 5, (25, 2))
    T = []
    for k in range(3):
        o = g.permutation(25)
        T.append(Table(dict(X=P[o, 0] + .5 * k + .01 * g.normal(size=25), Y=P[o, 1] - .3 * k + .01 * g.normal(size=25), ID=o)))
    return [T, "X", "Y"], {}


# ---- images ----------------------------------------------------------------------------------------
def _image(g, n=25, shape=(160, 190)):
    from vlib import fvcimg
    P = fvcimg.scatter(g, shape, n, 12.)
    return fvcimg.image(g, shape, P[0], P[1], g.uniform(3e4, 2e5, P.shape[1]))


@op("detectspots:detectspots", tol=1e-7, heavy=True, slow=True)
def detectspots(g):
    return [_image(g).astype(str(g.choice(["f8", "f4", "i4"])))], dict(psf_sigma=float(g.uniform(.9, 1.3))) if g.random() < .5 else {}


@op("detectspots:fitcentroid", tol=1e-7)
def fitcentroid(g):
    i, j = np.mgrid[0:7, 0:7]
    x, y = 3 + g.uniform(-.4, .4, 2)
    return [1e4 * np.exp(-((i - y)**2 + (j - x)**2) / 2) + 5 * g.normal(size=(7, 7))], {}


@op("detectspots:gaussian_convolve")
def gaussian_convolve(g):
    return [g.normal(size=(40, 50))], dict(sigma=float(g.uniform(.8, 2.5)))


@op("brightimage:detect_phi_arm", heavy=True, slow=True)
def detect_phi_arm(g):
    import fitsio
    from checks import C27
    C27.TEMPLATE
    T = fitsio.read(C27.TEMPLATE).astype(float)
    im = 100 + 3 * g.normal(size=(130, 130))
    x, y = g.uniform(50, 80, 2)
    C27.paint(im, x, y, g.uniform(-3, 3), 500.)
    return [float(x), float(y), im, T], dict(ang_step=3.)


# ---- field model -----------------------------------------------------------------------------------
def _field(g):
    from checks import C18
    T = C18.truth(g)
    sw = dict(precession=True, aberration=True, polar_misalignment=True)
    cat, _ = C18.simulate_stars(g, T, sw, per=3, noise=.2)
    return C18.make(T, sw, T["ra"] + .003, T["dec"] - .002), cat, T


def _fitted(g):
    f, cat, T = _field(g)
    f.fit_tancorr(cat)
    return f, T


@op("fieldmodel:FieldModel.fit_tancorr", tol=1e-6, out=(0,), adds={0: [""]}, heavy=True, slow=True)
def field_fit(g):
    f, cat, T = _field(g)
    return [f, cat], {}


@op("fieldmodel:FieldModel.fp2radec", heavy=True)
def field_fp2radec(g):
    f, T = _fitted(g)
    return [f, *disk(g, size(g), 400)], {}


@op("fieldmodel:FieldModel.radec2fp", heavy=True)
def field_radec2fp(g):
    f, T = _fitted(g)
    return [f, *stars(g, f.ra, f.dec, size(g))], {}


@op("fieldmodel:FieldModel.all_gfa2fp", heavy=True)
def field_all_gfa2fp(g):
    f, T = _fitted(g); n = 20
    return [f, g.uniform(0, 2048, n), g.uniform(0, 1032, n), g.choice([0, 2, 3, 5, 7, 8], n)], {}


@op("fieldmodel:FieldModel.tojson")
def field_tojson(g):
    return [_fitted(g)[0]], {}


@op("fieldmodel:FieldModel.fromjson")
def field_fromjson(g):
    return [_fitted(g)[0].tojson()], {}


@op("fieldmodel:TanCorr.fit", tol=1e-7, out=(0,), adds={0: [""]})
def tancorr_fit(g):
    from desimeter.fieldmodel import TanCorr
    x, y = disk(g, 30, .028)
    return [TanCorr(), x, y, 1.001 * x + 1e-4 * y + 1e-5, y - 1e-4 * x], {}


@op("fieldmodel:TanCorr.apply")
def tancorr_apply(g):
    from desimeter.fieldmodel import TanCorr
    c = TanCorr()
    c.dha, c.ddec, c.sxx, c.syy, c.sxy, c.rot_deg = [float(v) for v in g.normal(size=2) * 1e-3] + [1.001, .999, 1e-4, .03]
    return [c, *disk(g, size(g), .028)], {}


@op("simplecorr:SimpleCorr.fit", tol=1e-7, out=(0,), adds={0: [""]})
def simplecorr_fit(g):
    from desimeter.simplecorr import SimpleCorr
    x, y = disk(g, 30, 100)
    return [SimpleCorr(), x, y, 1.001 * x + .1 * y + 5, y - .1 * x], dict(solid=bool(g.integers(2)))


@op("simplecorr:SimpleCorr.apply")
def simplecorr_apply(g):
    from desimeter.simplecorr import SimpleCorr
    c = SimpleCorr(); x, y = disk(g, 30, 100)
    c.fit(x, y, 1.001 * x + .1 * y + 5, y - .1 * x)
    return [c, *disk(g, size(g), 100)], {}


@op("simplecorr:SimpleCorr.apply_inverse")
def simplecorr_inverse(g):
    return simplecorr_apply(g)


@op("fieldmodel:fieldrot", heavy=True)
def fieldrot(g):
    ra, dec, mjd, lst, hx = pointing(g)
    return [ra, dec, mjd, lst], dict(hexrot_deg=hx)


for _f in ("dfieldrotdt_physical_model", "dfieldrotdt"):
    op("fieldmodel:" + _f, name=_f, heavy=True)(lambda g: (list(pointing(g)[:4]), {}))


@op("fieldmodel:dfieldrotdt_empirical_model")
def dfieldrotdt_empirical(g):
    n = size(g)
    return [g.uniform(0, 360, n), g.uniform(-20, 80, n), g.uniform(0, 360, n)], {}


# ---- fibre assignment ------------------------------------------------------------------------------
def _tile(g):
    ra, dec, mjd, lst, hx = pointing(g)
    return [ra, dec, mjd, float(g.uniform(-30, 30)), float(g.uniform(-.5, .5))], dict(zip(("adc1", "adc2"), adc(g))) if g.random() < .5 else {}


def _to(fn):
    def make(g):
        t, k = _tile(g)
        return [*stars(g, t[0], t[1], max(8, size(g))), *t], k
    op("fiberassign:" + fn, name=fn, tol=1e-8, heavy=True)(make)


def _from(fn):
    def make(g):
        t, k = _tile(g)
        return [*disk(g, max(8, size(g)), 400), *t], k
    op("fiberassign:" + fn, name=fn, tol=1e-8, heavy=True)(make)


_to("fiberassign_radec2xy_cs5"); _to("fiberassign_radec2xy_flat"); _from("fiberassign_cs5_xy2radec"); _from("fiberassign_flat_xy2radec")


# ---- turbulence ------------------------------------------------------------------------------------
def _turb(g, n=40):
    from checks import C26
    x0, y0, fx, fy, x, y = C26.scene(g, n, .01, 120., .002)
    return x, y, x0, y0


@op("turbulence:correct", tol=1e-5, slow=True)
def turbulence_correct(g):
    return list(_turb(g, 30)), {}


@op("turbulence:correct_with_pol", tol=1e-7, slow=True)
def turbulence_pol(g):
    return list(_turb(g)), {}


@op("turbulence:correct_using_stationary", tol=1e-5, slow=True)
def turbulence_stationary(g):
    x, y, x0, y0 = _turb(g)
    return [x[:30], y[:30], x0[:30], y0[:30], x, y], {}


@op("turbulence:solve_independent", tol=1e-5)
def turbulence_independent(g):
    return [_tdata(g)], dict(fix_covar=True, excludeself=bool(g.integers(2)))


@op("turbulence:solve_gradwavefront", tol=1e-4)
def turbulence_gradwavefront(g):
    return [_tdata(g)], dict(fix_covar=True, excludeself=bool(g.integers(2)))


def _tdata(g):
    x, y, x0, y0 = _turb(g, 30)
    d = np.zeros(30, dtype=[("x", "f8"), ("y", "f8"), ("dx", "f8"), ("dy", "f8")])
    d["x"], d["y"], d["dx"], d["dy"] = x, y, x - x0, y - y0
    return d


@op("turbulence:empirical_covariance")
def turbulence_empirical(g):
    return [_tdata(g)], dict(bins=5)


@op("turbulence:loss_independent", tol=1e-6)
def turbulence_loss(g):
    return [_tdata(g), [.002, .01, 40.]], {}


@op("turbulence:getpoly")
def turbulence_getpoly(g):
    return list(disk(g, 20, 400)), dict(ndeg=3)


# ---- calibration of positioners --------------------------------------------------------------------
def _moves(g, n=24):
    from checks import C24
    par = C24.truth(g)
    t, p = g.uniform(-170, 170, n), g.uniform(10, 170, n)
    x, y = C24.arm(par, t, p)
    return C24.args(t, p, *C24.to_ptl(x + .003 * g.normal(size=n), y + .003 * g.normal(size=n)))


@op("posparams.fitter:fit_params", tol=1e-5, heavy=True, slow=True)
def fit_params(g):
    return _moves(g), dict(mode="static")


@op("posparams.fitter:fit_params", tol=1e-5, heavy=True, slow=True)
def fit_params_dynamic(g):
    return _moves(g), dict(mode="dynamic")


@op("posparams.flags:eval_move_flags")
def eval_move_flags(g):
    return _moves(g)[:4], {}


@op("posparams.posmoveselection:posmove_selection")
def posmove_selection(g):
    from astropy.table import Table
    return [Table(dict(LOG_NOTE=g.choice(["arc calibration; t", "grid; p", "park"], 30), A=np.arange(30)))], dict(log_note_selection=str(g.choice(["arc&t|grid", "park", "grid & p"])))
