"""Purity of the public operations: arguments, results, process state, history and surroundings."""
import contextlib, copy, os, pickle, random, shutil, sys, tempfile
import numpy as np
from vlib import core, ops
from vlib.forks import forked

BAD = [  # calls that fail or hit limits; whatever they do, later calls must not notice
    ("transform.gfa2fp:gfa2fp", lambda g: ([99, np.array([1.]), np.array([2.])], {})),
    ("transform.ptl2fp:ptl2fp", lambda g: ([99, np.array([1.]), np.array([2.])], {})),
    ("transform.fvc2fp:FVC2FP.fromjson", lambda g: (['{"method": "other"}'], {})),
    ("transform.fvc2fp:FVC2FP.read", lambda g: (["/nonexistent/file.json"], {})),
    ("transform.dm2pm:DM2PM.read", lambda g: (["/nonexistent/file.json"], {})),
    ("detectspots:detectspots", lambda g: ([g.normal(size=(60, 60))], {})),
    ("circles:robust_fit_circle", lambda g: ([g.normal(size=10) * 100, g.normal(size=10) * 100], {})),
    ("transform.rszn_lookups:r2s", lambda g: ([np.array([-5., 1e6, np.nan])], {})),
    ("posparams.fitter:fit_params", lambda g: ([[1.], [2.], [3.], [4.], [1.], [1.], [True], [0]], dict(mode="static"))),
    ("posparams.fitter:fit_params", lambda g: (ops._moves(g), dict(mode="static", keep_fixed=["LENGTH_R1", "OFFSET_X"]))),
    ("posparams.fitter:fit_params", lambda g: (ops._moves(g), dict(mode="static", nominals={"LENGTH_R1": 3.2, "OFFSET_X": 10.}, bounds={"LENGTH_R1": [3.1, 3.3]}))),
    ("fieldmodel:FieldModel.fromjson", lambda g: (["{}"], {})),
    ("fiberassign:fiberassign_radec2xy_cs5", lambda g: ([np.array([10.]), np.array([20.]), 10., 20., 58000., 3., 0.], dict(adc1=3.))),
    ("findfiducials:findfiducials", lambda g: (ops.findfiducials(g)[0], dict(input_transform=ops.repo_data("single-lens-fvc2fp.json")))),
    ("log:get_logger", lambda g: ([str(g.choice(["DEBUG", "ERROR", "WARNING"]))], {})),
    ("log:get_logger", lambda g: (["NOLEVEL"], {})),
    ("fieldmodel:dfieldrotdt_empirical_model", lambda g: ([10., 99., 3.], {})),
    ("util:parse_fibers", lambda g: (["1,,x"], {})),
]


def stream(name, s):
    import zlib
    return np.random.default_rng([s, zlib.crc32(name.encode())])


def outcome(o, a, k):
    """result and output arguments, or the kind of exception"""
    try:
        r = o.call(a, k)
    except Exception as e:
        if not core.from_repo(e.__traceback__):
            raise
        return "exception " + type(e).__name__
    return [r] + [a[i] for i in o.out]


def run(ck):
    ck.rule = "a case is one operation of the catalogue (vlib/ops.py) with one set of arguments under one regime (single, history, surroundings); distinct by operation, arguments and regime"
    ck.assumptions = ["the getters of the cached petal alignments and of the cached ray-trace model are not in the catalogue: they hand out the cache itself"]
    ops.imports()
    names = sorted(ops.OPS)
    base = ck.seed * 1000
    # single calls: every operation, several arguments
    ck.parallel(single, [(n, base + s) for n in names for s in range(ck.n(3, 20))], nproc=8)
    # in fresh processes: alone, in other surroundings, in histories
    inst = [(n, base + s) for n in names for s in range(ck.n(2 if n.startswith("fiberassign") else 1, 4))]
    store = tempfile.mkdtemp(prefix="c30-")
    try:
        ck.parallel(lambda c, it: surroundings(c, it, store), inst, nproc=8)
        ck.parallel(lambda c, i: history(c, i, inst, store), range(ck.n(16, 120)), nproc=8)
        ck.parallel(models, range(ck.n(16, 200)), nproc=8)
    finally:
        shutil.rmtree(store, ignore_errors=True)
    ck.notes["operations"] = len(names)
    for m, k in (("inputs-kept", 350), ("repeat", 350), ("results-own", 350), ("result-kept", 350), ("buffer-reuse", 300), ("state-kept", 350), ("read-only", 200),
                 ("log-level", 120), ("directory", 120), ("random-state", 120), ("near", 120), ("history", 500), ("model-set", 90), ("model-refit", 60)):
        ck.require(m, k)


# ---- one operation by itself ------------------------------------------------------------------------
def state():
    with np.errstate():
        return dict(cwd=os.getcwd(), env=dict(os.environ), err=np.geterr(), npr=pickle.dumps(np.random.get_state(legacy=False)), rnd=hash(random.getstate()),
                    pr=repr(sorted(np.get_printoptions().items(), key=str)), umask=0)


def poison(v, args):
    """overwrite a result in place, as a caller may"""
    seen = set()
    mine = [q for _, q in ops.leaves(args) if isinstance(q, np.ndarray)]

    def go(q):
        if id(q) in seen or any(q is a for a in flat):
            return
        seen.add(id(q))
        if hasattr(q, "colnames"):
            for c in q.colnames:
                go(q[c])
            q.meta.clear()
        elif isinstance(q, np.ndarray):
            d = np.ma.getdata(q)
            if d.flags.writeable and d.dtype.kind in "fiu" and not any(np.may_share_memory(d, np.ma.getdata(m)) for m in mine):
                d[...] = 77
        elif isinstance(q, dict):
            for x in list(q.values()):
                go(x)
            q.clear()
        elif isinstance(q, list):
            for x in q:
                go(x)
            q.clear()
        elif isinstance(q, tuple):
            for x in q:
                go(x)
        elif hasattr(q, "__dict__") and not isinstance(q, type) and type(q).__module__.startswith("desimeter"):
            for a, x in list(vars(q).items()):
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    setattr(q, a, 77)
                elif isinstance(x, (np.ndarray, list, dict)):
                    go(x)
    flat = list(args)
    go(v)


def reverse(a):
    """the same containers with their content in the reverse order"""
    n = 0
    for q in a:
        if hasattr(q, "colnames"):
            q.reverse(); n += 1
        elif isinstance(q, np.ndarray) and q.size > 1:
            q[...] = q[::-1].copy(); n += 1
    return n


def single(ck, item):
    n, s = item
    o = ops.OPS[n]
    new = lambda: o.make(stream(n, s))
    with ops.quiet():
        a, k = new()
        w = dict(op=n, arg_seed=s)
        ck.case("single " + o.fn.split(":")[0], op=n, s=s)
        np.random.seed(s % 1000)
        random.seed(s)
        # arguments and process kept, equal results when repeated
        before, bk, st = ops.snapshot(a), ops.snapshot(k), state()
        first = outcome(o, a, k)
        now = state()
        ck.ok("inputs-kept", ops.changed(before, a, ops.allowed(o)) is None and ops.changed(bk, k) is None, key="inputs-kept " + n,
              changed=ops.changed(before, a, ops.allowed(o)) or ops.changed(bk, k), **w)
        ck.ok("state-kept", st == now, key="state-kept " + n, which=[q for q in st if st[q] != now[q]], **w)
        if not o.out:
            again = outcome(o, a, k)
            ck.ok("repeat", ops.differ(first, again, o.tol) is None, key="repeat " + n, diff=ops.differ(first, again, o.tol), how="same objects", **w)
        held = copy.deepcopy(first)
        a, k = new()
        again = outcome(o, a, k)
        ck.ok("repeat", ops.differ(held, again, o.tol) is None, key="repeat " + n, diff=ops.differ(held, again, o.tol), how="equal arguments", **w)
        # another call does not change the results already given, and the caller may reuse or overwrite his own
        b, kb = o.make(stream(n, s + 500))
        outcome(o, b, kb)
        d = ops.differ(held, first, 0.)
        ck.ok("result-kept", d is None, key="result-kept " + n, diff=d, **w)
        a, k = new()
        outcome(o, a, k)
        if not o.out and reverse(a):
            c, kc = new()
            reverse(c)
            x, y = outcome(o, a, k), outcome(o, c, kc)
            ck.ok("buffer-reuse", ops.differ(x, y, o.tol) is None, key="buffer-reuse " + n, diff=ops.differ(x, y, o.tol), **w)
        else:
            ck.ok("buffer-reuse", True)
        poison(again, a)
        poison(first, a)
        a, k = new()
        again = outcome(o, a, k)
        ck.ok("results-own", ops.differ(held, again, o.tol) is None, key="results-own " + n, diff=ops.differ(held, again, o.tol), **w)
        # arrays that cannot be written: nothing tries to
        a, k = new()
        m = 0
        for q in list(a) + list(k.values()):
            if type(q) is np.ndarray:
                q.setflags(write=False)
                m += 1
        if m:
            try:
                r = [o.call(a, k)] + [a[i] for i in o.out]
                bad = ops.differ(held, r, o.tol)
            except ValueError as e:
                bad = str(e) if "read-only" in str(e) and core.from_repo(e.__traceback__) and last_in_repo(e) else None
            except Exception:
                bad = None
            ck.ok("read-only", bad is None, key="read-only " + n, diff=bad, **w)


def last_in_repo(e):
    """the failing statement itself is desimeter's: an assignment, not the demand of some library"""
    t = e.__traceback__
    while t.tb_next:
        t = t.tb_next
    return os.path.realpath(t.tb_frame.f_code.co_filename).startswith(core.REPO)


# ---- fresh processes --------------------------------------------------------------------------------
def arguments(it):
    n, s = it
    with ops.quiet():
        return pickle.dumps(ops.OPS[n].make(stream(n, s)))


def execute(it, args, setup=None):
    o = ops.OPS[it[0]]
    if setup:
        setup()
    a, k = pickle.loads(args)
    with contextlib.redirect_stdout(open(os.devnull, "w")), np.errstate(all="ignore"):
        return pickle.dumps(outcome(o, a, k))


def path(store, it):
    return os.path.join(store, "%s-%d" % it)


def mute():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)


def surroundings(ck, it, store):
    st, args = forked(arguments, it)
    if st != "ok":
        raise RuntimeError("arguments of %s: %s" % (it, args))

    def go(setup):
        def both():
            mute()
            setup()
        st, r = forked(execute, it, args, both)
        if st == "exc":
            raise RuntimeError("%s %s" % (it, r))
        return pickle.loads(r) if st == "ok" else st
    quiet = lambda: os.environ.__setitem__("DESI_LOGLEVEL", "CRITICAL")
    ref = go(quiet)
    pickle.dump((args, ref), open(path(store, it), "wb"))
    o = ops.OPS[it[0]]
    w = dict(op=it[0], arg_seed=it[1])
    ck.case("surroundings " + o.fn.split(":")[0], op=it)
    g = ck.rng("surroundings", *it)
    lv = str(g.choice(["DEBUG", "INFO", "WARNING", "ERROR"]))
    d = ops.differ(ref, go(lambda: os.environ.__setitem__("DESI_LOGLEVEL", lv)), o.tol)
    ck.ok("log-level", d is None, key="log-level " + it[0], diff=d, level=lv, **w)

    tmp = tempfile.mkdtemp(prefix="c30-cwd-")
    try:
        for f in os.listdir(ops.repo_data("")):
            open(os.path.join(tmp, f), "w").write("garbage")
        d = ops.differ(ref, go(lambda: (quiet(), os.chdir(tmp))), o.tol)
        ck.ok("directory", d is None, key="directory " + it[0], diff=d, **w)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # other arguments which look the same at a glance
    if o.heavy and o.slow and not ck.thorough and g.random() < .5 and it[0] != "findfiducials":
        ck.ok("near", True)
    else:
        near(ck, it, args, w, g)
    s = int(g.integers(1 << 30))
    d = ops.differ(ref, go(lambda: (quiet(), np.random.seed(s), random.seed(s))), o.tol)
    ck.ok("random-state", d is None, key="random-state " + it[0], diff=d, **w)


def vary(args, g, how, tmp, n):
    """the arguments a little different: elements exchanged inside an array (same ends, same sum), a number changed a little, or the content of a file"""
    a, k = pickle.loads(args)
    slots = [(a, i) for i in range(len(a))] + [(k, i) for i in k]
    done = 0
    if how == "file" and k.get("input_transform", 0) is None:
        k["input_transform"] = ops.repo_data("init-fvc2fp.json")
    for c, i in (slots if how.endswith("-all") else [slots[q] for q in g.permutation(len(slots))]):
        v = c[i]
        if how.startswith("inside"):
            if hasattr(v, "colnames"):
                names = [q for q in v.colnames if v[q].dtype.kind == "f" and v[q].ndim == 1]
                if names and len(v) > 3:
                    q = names[int(g.integers(len(names)))]
                    v[q][1], v[q][-2] = v[q][-2], v[q][1]
                    done += 1
            elif isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.shape and v.shape[0] > 3:
                v[[1, -2]] = v[[-2, 1]]
                done += 1
            elif isinstance(v, list) and len(v) > 3 and isinstance(v[0], float):
                v[1], v[-2] = v[-2], v[1]
                done += 1
        elif how.startswith("number") and isinstance(v, float) and v != 0:
            c[i] = v + .003
            done += 1
        elif how == "file" and isinstance(v, str) and v.endswith(".json") and os.path.exists(v):
            import json
            d = json.load(open(v))
            if n:
                if "offset_x" in d and np.isscalar(d["offset_x"]):
                    d["offset_x"] += .4
                d = {q: (x * 1.001 if isinstance(x, float) and q in ("scale", "rotation") else [z * 1.01 for z in x] if q.endswith("coeffs") else x) for q, x in d.items()}
            c[i] = os.path.join(tmp, "file.json")
            json.dump(d, open(c[i], "w"))
            done += 1
        if done and not how.endswith("-all"):
            break
    return pickle.dumps((a, k)) if done else None


def near(ck, it, args, w, g):
    o = ops.OPS[it[0]]
    tmp = tempfile.mkdtemp(prefix="c30-near-")
    s = int(g.integers(1 << 30))
    try:
        tried = 0
        for how in ("inside-one", "inside-all", "number-one", "number-all", "file"):
            b = vary(args, np.random.default_rng(s), how, tmp, 1)
            if b is None:
                continue
            tried += 1

            def alone():
                mute()
                os.environ["DESI_LOGLEVEL"] = "CRITICAL"
                vary(args, np.random.default_rng(s), how, tmp, 1)
                return execute(it, b)

            def after():
                mute()
                os.environ["DESI_LOGLEVEL"] = "CRITICAL"
                first = execute(it, vary(args, np.random.default_rng(s), how, tmp, 0) if how == "file" else args)
                vary(args, np.random.default_rng(s), how, tmp, 1)
                second = execute(it, b)
                third = execute(it, vary(args, np.random.default_rng(s), how, tmp, 0) if how == "file" else args)
                return first, second, third
            p, q = forked(alone), forked(after)
            if p[0] != "ok" or q[0] != "ok":
                raise RuntimeError("near %s %s %s %s" % (it, how, str(p)[:200], str(q)[:200]))
            x, (u, y, v) = pickle.loads(p[1]), [pickle.loads(z) for z in q[1]]
            d = ops.differ(x, y, o.tol) or ops.differ(u, v, o.tol)
            ck.ok("near", d is None, key="near " + it[0], diff=d, how=how, **w)
        if not tried:
            ck.ok("near", True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def history(ck, i, inst, store):
    """one process doing many things; every result is compared with that of a process doing nothing else"""
    g = ck.rng("history", i)
    m = ck.n(60, 120)
    seq = [inst[q] for q in g.choice(len(inst), m)]
    # recurring operations, so that the same one is met after different pasts
    few = [inst[q] for q in g.choice(len(inst), 6)]
    seq = [few[g.integers(6)] if g.random() < .3 else q for q in seq]
    if i % 4 == 0:      # dense histories of one module
        f = ops.OPS[seq[0][0]].fn.split(":")[0].split(".")[1]
        one = [q for q in inst if ops.OPS[q[0]].fn.split(":")[0].split(".")[1] == f]
        seq = [one[g.integers(len(one))] for _ in range(m)]
    bad = {int(q): int(g.integers(len(BAD))) for q in g.choice(m, m // 5, replace=False)}
    bs = int(g.integers(1 << 20))

    def play():
        import importlib
        mute()
        os.environ["DESI_LOGLEVEL"] = "CRITICAL"
        out = []
        for j, it in enumerate(seq):
            if j in bad:
                fn, mk = BAD[bad[j]]
                t = ops.Op("bad", "desimeter." + fn, mk, 0, (), {}, 0, 0, 0)
                with contextlib.redirect_stdout(open(os.devnull, "w")), np.errstate(all="ignore"):
                    a, k = mk(np.random.default_rng([bs, j]))
                    try:
                        t.resolve()(*a, **k)
                    except (Exception, SystemExit):
                        pass
            args, ref = pickle.load(open(path(store, it), "rb"))
            r = pickle.loads(execute(it, args))
            out.append((it, ops.differ(ref, r, ops.OPS[it[0]].tol), j))
        return out
    st, r = forked(play)
    ck.case("history", i=i, first=seq[0], n=m)
    if st != "ok":
        raise RuntimeError("history: %s %s" % (st, r))
    for it, d, j in r:
        past = [BAD[bad[q]][0] for q in sorted(bad) if q <= j]
        ck.ok("history", d is None, key="history " + it[0], op=it[0], diff=d, after=[q[0] for q in seq[:j]][-12:], failed_calls=past[-6:])
    ck.notes["calls_in_histories"] = ck.notes.get("calls_in_histories", 0) + len(r)


def apart(fn, m):
    """in a process of its own"""
    st, r = forked(fn, m)
    if st != "ok":
        raise RuntimeError("model: %s %s" % (st, r))
    return r


def models(ck, i):
    """an object which was used and then set, or fitted, to something else is like one which never was anything else"""
    from checks import C07
    for kind, C in C07.classes().items():
        g = ck.rng("models", kind, i)
        a, b = C07.gen(kind, g, int(g.integers(30))), C07.gen(kind, g, int(g.integers(30)))
        seed = int(g.integers(1 << 30))
        beh = lambda m: [C07.behaviour(kind, m, seed)[0], []]
        want = apart(beh, b)
        w = dict(kind=kind, i=i)
        ck.case("model " + kind, i=i)

        def use():
            C07.behaviour(kind, a, seed)
            if kind == "RAYTRACE":      # the last settings used are the first used again
                q = np.random.default_rng(seed)
                C07.disk(q, 40, 405.), C07.disk(q, 40, .027)
                s0 = q.uniform(0, 360, (3, 2))[0]
                a.fp2tan(np.zeros(2), np.ones(2), *s0), a.tan2fp(np.zeros(2), np.ones(2) * .001, *s0)
            if g.random() < .5:
                a.tojson(), str(a)
            if g.random() < .5:
                copy.deepcopy(a), pickle.dumps(a)
        with ck.guard("model-set", **w):
            use()
            names = [n for n in vars(b) if not n.startswith("_")]
            few = [n for n in names if g.random() < .5]
            for n in few:
                setattr(a, n, copy.deepcopy(getattr(b, n)))
                if np.isscalar(getattr(b, n)) and g.random() < .3:
                    try:        # half way
                        C07.behaviour(kind, a, seed)
                    except Exception as e:
                        if not core.from_repo(e.__traceback__):
                            raise
            for n in names:
                setattr(a, n, copy.deepcopy(getattr(b, n)))
            C07.compare(ck, "model-set", beh(a), want, **w)
            # arrays changed in place
            arr = [n for n in names if isinstance(getattr(a, n), np.ndarray) and getattr(a, n).dtype.kind == "f"]
            if arr:
                use()
                f = C()
                for n in names:
                    setattr(f, n, copy.deepcopy(getattr(b, n)))
                for n in arr:
                    v = np.array(getattr(b, n)) * 1.0001
                    setattr(f, n, v.copy())
                    q = np.array(getattr(a, n))
                    setattr(a, n, q)
                C07.behaviour(kind, a, seed)
                for n in arr:
                    getattr(a, n)[...] *= 1.0001
                C07.compare(ck, "model-set", beh(a), apart(beh, f), **w)
        if kind in ("FVC2FP", "DM2PM"):
            continue
        with ck.guard("model-refit", **w):
            use()
            f = C()
            if kind == "FIELD":
                from checks.C18 import simulate_stars
                for n in names:
                    setattr(f, n, copy.deepcopy(getattr(b, n)))
                q = [simulate_stars(g, dict(ra=b.ra, dec=b.dec, mjd=b.mjd, lst=b.lst, hexrot=b.hexrot_deg, adc1=b.adc1, adc2=b.adc2, sxx=1 + 1e-3 * g.normal(), syy=1 + 1e-3 * g.normal(), sxy=3e-4 * g.normal(), rot=.3 * g.normal()),
                                    dict(precession=b.precession, aberration=b.aberration, polar_misalignment=b.polar_misalignment), 6)[0]]
                a.fit_tancorr(q[0].copy()), f.fit_tancorr(q[0].copy())
            else:
                if kind == "RAYTRACE":
                    from astropy.table import Table
                    rows = []
                    for a2 in (0, 90, 180, 270, 360):
                        x, y = C07.disk(g, 60, .027)
                        d = 1 + .02 * np.cos(np.radians(a2))
                        rows += [(0, a2, u, v, 14000 * u * d + 1e4 * u ** 2, 14000 * v + 3 * a2 * u) for u, v in zip(x, y)]
                    t = Table(rows=rows, names=("ADC1", "ADC2", "X_TAN", "Y_TAN", "X_FP", "Y_FP"))
                    q = (t,)
                else:
                    x, y = g.uniform(-1, 1, (2, 20)) * (.03 if kind == "TANCORR" else 300.)
                    q = (x, y, x * 1.001 + 1e-3 * y + 1e-3, y * .999 - 1e-3 * x)
                with contextlib.redirect_stdout(open(os.devnull, "w")):
                    a.fit(*copy.deepcopy(q)), f.fit(*copy.deepcopy(q))
            C07.compare(ck, "model-refit", beh(a), apart(beh, f), **w)
