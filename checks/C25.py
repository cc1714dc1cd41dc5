"""Concurrent use: thread storms in fresh processes, concurrent processes, parallel options."""
import contextlib, hashlib, io, os, pickle, random, shutil, subprocess, sys, tempfile, threading, time
import numpy as np
from vlib import core, ops
from vlib.forks import forked
from checks import C22, C24, C27, C28
from checks.C30 import stream, outcome, mute

PKG = os.path.join(core.REPO, "py", "desimeter") + os.sep
SCR = os.environ.get("VERIF_SCRATCH", "/tmp")
NT = 8


def run(ck):
    ck.rule = "a case is one storm (its operations, arguments and injected delays), one set of concurrent processes, or one parallel option; distinct by these"
    ck.assumptions = ["CPython threads: interleavings at line granularity inside desimeter, forced by delays injected at line events and a switch interval of 1 microsecond",
                      "the fit of an object is not run at the same time as another use of the same object"]
    ops.imports()
    # parallel options make processes of their own
    names = sorted(ops.OPS)
    first = [n for n in names if ops.OPS[n].heavy]
    obj = [n for n in names if n in OBJ]
    own = [n for n in names if not ops.OPS[n].out and n not in FLOCK]
    it = []
    for r in range(ck.n(1, 6)):
        it += [("first", n, r) for n in first]
        it += [("object", n, r) for n in obj]
        it += [("arguments", k, r) for k in range(0, len(own), 4)]
    it += [("mixed", k, 0) for k in range(ck.n(24, 240))]
    it += [("processes", k, 0) for k in range(ck.n(1, 6))] + [("scripts", k, 0) for k in range(ck.n(1, 4))] + [("option", k, 0) for k in range(ck.n(1, 3))]
    it.sort(key=lambda v: v[0] not in ("option", "scripts", "processes"))
    ck.parallel(chunk, it, nproc=8)
    C27.chunk(ck, ("many", 100, ck.n(1, 6)))
    ck.notes["distinct schedules"] = len(ck.notes.pop("schedules", {}))
    for m, k in (("first-call", 200), ("shared-object", 50), ("shared-arguments", 200), ("mixed", 200), ("spotmatch", 4), ("scripts", 3), ("processes", 6)):
        ck.require(m, k)
    if not ck.viol and ck.notes["distinct schedules"] < 50:
        raise core.Inconclusive("only %s distinct schedules" % ck.notes["distinct schedules"])


# operations on an object that is only read
OBJ = ["fvc2fp", "fp2fvc", "fvc2fp_tojson", "dm2pm", "pm2dm", "field_fp2radec", "field_radec2fp", "field_all_gfa2fp", "field_tojson", "tancorr_apply", "simplecorr_apply", "simplecorr_inverse"]
FLOCK = ()


def chunk(ck, item):
    t = time.time()
    try:
        one(ck, item)
    finally:
        ck.count("seconds " + item[0], time.time() - t)


def one(ck, item):
    kind = item[0]
    if kind == "processes":
        return processes(ck, item[1])
    if kind == "scripts":
        return scripts(ck, item[1])
    if kind == "option":
        return C24.script(ck, ck.rng("option", item[1]), item[1])
    storm_case(ck, *item)


# ---- storms -----------------------------------------------------------------------------------------
def plan_of(kind, what, g):
    """per thread a list of (operation, index into the argument store)"""
    seed = lambda: int(g.integers(1 << 30))
    store, plan = [], []
    if kind == "first":
        n = what
        for t in range(4 if ops.OPS[n].slow else NT):
            plan.append([])
            for _ in range(2):
                store.append(ops.OPS[n].make(stream(n, seed())))
                plan[-1].append((n, len(store) - 1))
    elif kind == "object":
        n = what
        a, k = ops.OPS[n].make(stream(n, seed()))
        for t in range(NT):
            plan.append([])
            for q in range(3):
                b = [a[0]] + [v * (1 - 1e-3 * (3 * t + q)) if isinstance(v, np.ndarray) and v.dtype.kind == "f" else v for v in a[1:]]
                store.append((b, k))
                plan[-1].append((n, len(store) - 1))
    elif kind == "arguments":
        own = [n for n in sorted(ops.OPS) if not ops.OPS[n].out and n not in FLOCK][what:what + 4]
        for n in own:
            store.append(ops.OPS[n].make(stream(n, seed())))
        for t in range(NT // 2):
            plan.append([(own[i], i) for i in g.permutation(len(own))])
    else:
        names = sorted(ops.OPS)
        pool = list(g.choice(names, 10))
        for t in range(NT):
            plan.append([])
            for _ in range(6):
                n = str(pool[g.integers(10)])
                store.append(ops.OPS[n].make(stream(n, seed())))
                plan[-1].append((n, len(store) - 1))
    return store, plan


def make(kind, what, seeds):
    with ops.quiet():
        store, plan = plan_of(kind, what, np.random.default_rng(seeds))
        return pickle.dumps(store) if kind in ("object", "arguments") else [pickle.dumps(s) for s in store], plan


def load(store):
    """one loading for all: shared objects stay shared"""
    return pickle.loads(store) if isinstance(store, bytes) else [pickle.loads(s) for s in store]


def still():
    mute()
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.environ["DESI_LOGLEVEL"] = "CRITICAL"
    np.seterr(all="ignore")


def serial(store, plan):
    still()
    s = pickle.loads(pickle.dumps(load(store)))
    out = []
    for calls in plan:
        out.append([pickle.dumps(outcome(ops.OPS[n], *pickle.loads(pickle.dumps(s[i])))) for n, i in calls])
    return out


def storm(store, plan, seed):
    still()
    import builtins
    data = load(store)
    for n in {n for c in plan for n, _ in c}:      # the modules, not the tables they load when first called
        ops.OPS[n].resolve()
    sys.setswitchinterval(2e-4 if any(ops.OPS[n].slow for c in plan for n, _ in c) else 1e-6)
    trace, lock = [], threading.Lock()
    gate = threading.Barrier(len(plan))
    res = [[] for _ in plan]
    why = {}
    real_open = builtins.open

    def slow_open(*a, **k):
        time.sleep(.002)
        return real_open(*a, **k)
    builtins.open = slow_open

    def work(t):
        rnd = random.Random(seed * 100 + t)
        left = [0]
        style = rnd.random()

        def line(frame, event, arg):
            if len(trace) < 20000:
                trace.append(t)
            if left[0] > 0:
                q = rnd.random()
                if q < .25:
                    left[0] -= 1
                    time.sleep(q * .004 if style < .6 else (.004 if q < .06 else 0))
            return line

        def call(frame, event, arg):
            return line if left[0] > 0 and frame.f_code.co_filename.startswith(PKG) else None
        gate.wait()
        sys.settrace(call)
        try:
            for n, i in plan[t]:
                left[0] = 40
                try:
                    a, k = data[i]
                    try:
                        r = ops.OPS[n].call(a, k)
                        r = pickle.dumps([r] + [a[q] for q in ops.OPS[n].out])
                    except Exception as e:
                        if not core.from_repo(e.__traceback__):
                            raise
                        text = repr(e)
                        if "partially initialized module" in text or "DeadlockError" in text:
                            raise          # the interpreter's import system
                        why[(t, len(res[t]))] = text[:300]
                        r = pickle.dumps("exception " + type(e).__name__)
                except BaseException as e:
                    why[(t, len(res[t]))] = "harness " + repr(e)[:300]
                    r = None
                res[t].append(r)
        finally:
            sys.settrace(None)
    th = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(len(plan))]
    for q in th:
        q.start()
    end = time.time() + 200
    for q in th:
        q.join(max(0, end - time.time()))
    stuck = sum(q.is_alive() for q in th)
    sw = [a for a, b in zip(trace, trace[1:]) if a != b]
    return res, why, stuck, len(trace), len(sw), hashlib.sha1(bytes(sw)).hexdigest()


MON = dict(first="first-call", object="shared-object", arguments="shared-arguments", mixed="mixed")


def storm_case(ck, kind, what, rep):
    g = ck.rng("storm", kind, what, rep)
    seeds = [int(v) for v in g.integers(0, 1 << 30, 2)]
    st, v = forked(make, kind, what, seeds)
    if st != "ok":
        raise RuntimeError("%s %s: %s" % (kind, what, v))
    store, plan = v
    ck.case("storm " + kind, what=what, rep=rep, seeds=seeds)
    st, ref = forked(serial, store, plan)
    if st != "ok":
        raise RuntimeError("serial %s %s: %s" % (kind, what, ref))
    st, v = forked(storm, store, plan, seeds[0])
    w = dict(kind=kind, what=what, rep=rep)
    if st != "ok":
        ck.ok("completes", False, status=st, error=str(v)[:500], **w)
        return
    res, why, stuck, ev, sw, h = v
    ck.ok("completes", stuck == 0, stuck=stuck, **w)
    ck.notes["line events"] = ck.notes.get("line events", 0) + ev
    ck.notes["thread switches"] = ck.notes.get("thread switches", 0) + sw
    ck.notes.setdefault("schedules", {})[h] = 1
    for t, calls in enumerate(plan):
        for j, (n, i) in enumerate(calls):
            if j >= len(res[t]):
                continue
            if res[t][j] is None:
                ck.notes["not judged"] = ck.notes.get("not judged", 0) + 1
                ck.notes["not judged, last"] = why.get((t, j))
                continue
            d = ops.differ(pickle.loads(ref[t][j]), pickle.loads(res[t][j]), ops.OPS[n].tol)
            ck.ok(MON[kind], d is None, key=MON[kind] + " " + n, op=n, thread=t, call=j, diff=d, error=why.get((t, j)), **w)


# ---- processes --------------------------------------------------------------------------------------
def together(fns, d):
    """each function in a process of its own, all in the same directory, released together"""
    r0, w0 = os.pipe()
    kids = []
    for fn in fns:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w0); os.close(r)
                os.chdir(d)
                still()
                os.read(r0, 1)      # end of file: everybody starts
                try:
                    v = ("ok", fn())
                except BaseException as e:
                    v = ("exc", repr(e)[:500])
                b = pickle.dumps(v)
                while b:
                    b = b[os.write(w, b):]
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    os.close(r0); os.close(w0)
    out = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(b) if b else ("died", None))
    return out


def processes(ck, k):
    """matchings with the external program: threads and processes"""
    g = ck.rng("processes", k)
    d = os.path.join(SCR, "c25-%d" % k)
    os.makedirs(d)
    old = os.environ["PATH"], tempfile.tempdir
    try:
        W = C28.World(d)
        os.environ["PATH"] = os.path.join(core.VERIF, "vlib", "fakebin") + ":" + old[0]
        tempfile.tempdir = W.tmp
        C28.concurrent(ck, g, W)
        W.conf("match", sleep=.2)
        jobs = [C28.small(g, int(g.integers(20, 60))) for _ in range(6)]
        ck.case("processes", x=jobs[0][0])

        def job(q):
            x, y, X, Y, L = jobs[q]
            t = C28.quiet(x, y, expected_x_fp=X, expected_y_fp=Y, expected_location=L)
            return np.array(t["XPIX"]), np.array(t["LOCATION"])
        for q, (st, v) in enumerate(together([lambda q=q: job(q) for q in range(6)], W.tmp)):
            x, L = jobs[q][0], jobs[q][4]
            if ck.ok("spotmatch", st == "ok" and len(v[0]) == len(x), got=str(v)[:300], want=len(x)):
                o, p = np.argsort(v[0]), np.argsort(x)
                ck.close("spotmatch", v[0][o], x[p], .00051)
                ck.ok("spotmatch", np.array_equal(v[1][o], L[p]))
        ck.ok("leftovers", not os.listdir(W.tmp), left=os.listdir(W.tmp)[:5])
    finally:
        os.environ["PATH"], tempfile.tempdir = old
        shutil.rmtree(d, ignore_errors=True)


def scripts(ck, k):
    """desi_fvc_proc on several images at once in one directory, against one after another"""
    from astropy.table import Table
    import fitsio
    g = ck.rng("scripts", k)
    d = os.path.join(SCR, "c25s-%d" % k)
    os.makedirs(d)
    try:
        cmd = []
        for i in range(4):
            cam = C22.camera(g)
            p, X, Y, on = C22.focal_plane(g, 3., .9)
            shape = (2000, 2000)
            tr = C22.spots_of(g, cam, p, X, Y, on, [], [], shape)
            im = C22.image_of(g, tr, shape, 1000., 10.)
            fitsio.write(os.path.join(d, "im%d.fits" % i), im.astype(np.float32))
            cmd.append(["-i", "im%d.fits" % i] + (["--output-transform", "OUT%d.json" % i] if i % 2 else []) + ["--nomatch"] * (i == 2))
        ck.case("scripts", x=tr[2], n=4)

        def go(i, out):
            rc, t = C22.proc([c.replace("OUT", out) for c in cmd[i]] + ["-o", "%s%d.csv" % (out, i)])
            return rc
        before = set(os.listdir(d))
        a = together([lambda i=i: go(i, "con") for i in range(4)], d)
        b = [together([lambda i=i: go(i, "ser")], d)[0] for i in range(4)]
        for i in range(4):
            ck.ok("scripts", a[i] == b[i] == ("ok", 0), got=a[i], want=b[i], i=i)
            u, v = (Table.read(os.path.join(d, "%s%d.csv" % (o, i))) if os.path.exists(os.path.join(d, "%s%d.csv" % (o, i))) else None for o in ("con", "ser"))
            ck.ok("scripts", C22.same(u, v, 1e-6), i=i)
            if i % 2:
                import json
                J = [json.load(open(f)) if os.path.exists(f) else None for f in (os.path.join(d, "%s%d.json" % (o, i)) for o in ("con", "ser"))]
                ck.ok("scripts", J[1] is not None and ops.differ(J[0], J[1], 1e-9) is None, i=i, diff=ops.differ(J[0], J[1], 1e-9))
        want = before | {"%s%d.csv" % (o, i) for o in ("con", "ser") for i in range(4)} | {"%s%d.json" % (o, i) for o in ("con", "ser") for i in (1, 3)}
        ck.ok("leftovers", set(os.listdir(d)) == want, extra=sorted(set(os.listdir(d)) ^ want)[:6])
    finally:
        shutil.rmtree(d, ignore_errors=True)
