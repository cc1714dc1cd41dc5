"""Runtime-monitoring framework: seeded workloads, counted monitors, three-valued verdicts.

A check module (checks/<ID>.py) defines  run(ck).  It drives the real desimeter code with a seeded
workload and states every oracle through ck.ok / ck.close / ck.call, each of which counts how often
the monitor really evaluated.  A run in which a required monitor was not reached is inconclusive.
"""
import contextlib, hashlib, json, math, multiprocessing, os, sys, tempfile, time, traceback, zlib
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class CaseAbort(Exception):
    """the current case cannot continue; the violation is already recorded"""


_FIRST = multiprocessing.Value("d", 0.)     # time of the first violation, shared by the workers


class StopEarly(Exception):
    """enough violations were recorded"""


class Inconclusive(Exception):
    pass


def jsonable(v, depth=0):
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating, float)):
        return float(v) if math.isfinite(float(v)) else repr(float(v))
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    if isinstance(v, np.ndarray):
        if v.size > 64:
            return {"shape": list(v.shape), "head": jsonable(v.ravel()[:32].tolist(), depth + 1)}
        return jsonable(v.tolist(), depth + 1)
    if isinstance(v, dict):
        return {str(k): jsonable(x, depth + 1) for k, x in list(v.items())[:60]}
    if isinstance(v, (list, tuple, set)):
        v = list(v)
        return [jsonable(x, depth + 1) for x in v[:64]]
    return repr(v)[:400]


class Check:
    def __init__(self, prop, tier="quick", seed=1, sub=None):
        self.prop, self.tier, self.seed, self.sub = prop, tier, int(seed), sub
        self.t0 = time.time()
        self.mon = {}            # monitor -> [evaluations, violations, worst margin]
        self.req = {}            # monitor -> minimum evaluations
        self.viol = []           # (monitor, key, witness)
        self.known_hits = {}     # key -> (count, first witness)
        self.n_eval = 0
        self.distinct = set()
        self.samples = []
        self.kinds = {}
        self.rule = ""
        self.assumptions = []
        self.notes = {}
        self.known = load_known().get(prop, {})
        self.max_viol = 25
        self.label = None
        self.case_info = None

    # -- workload ---------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *name):
        words = [self.seed, zlib.crc32(self.prop.encode())]
        words += [zlib.crc32(str(x).encode()) for x in name]
        return np.random.default_rng(words)

    def case(self, kind, nontrivial=True, **info):
        """declare a new generated case / execution"""
        if _FIRST.value and time.time() > _FIRST.value + 60:
            raise StopEarly()           # a violation is known since a minute: conclude
        self.n_eval += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.label = kind
        self.case_info = info
        if nontrivial:
            h = hashlib.sha1((kind + repr(sorted((k, _digest(v)) for k, v in info.items()))).encode()).digest()[:10]
            self.distinct.add(h)
        if self.kinds[kind] <= 1 or (self.kinds[kind] in (2, 17) and len(self.samples) < 24):
            self.samples.append({"kind": kind, **{k: jsonable(v) for k, v in info.items()}})

    # -- monitors ---------------------------------------------------------
    def _m(self, name):
        return self.mon.setdefault(name, [0, 0, None])

    def require(self, name, minimum=1):
        self.req[name] = max(minimum, self.req.get(name, 0))

    def ok(self, name, cond, key=None, **wit):
        m = self._m(name)
        m[0] += 1
        c = bool(np.all(cond))
        if not c:
            self.violation(name, key, wit)
        return c

    def close(self, name, a, b, tol, key=None, **wit):
        """max|a-b| <= tol elementwise; NaN or shape mismatch violates"""
        m = self._m(name)
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        m[0] += 1
        try:
            d = np.abs(a - b)
        except ValueError:
            self.violation(name, key, dict(wit, shape_a=a.shape, shape_b=b.shape))
            return False
        if d.size == 0:
            return True
        t = np.broadcast_to(np.asarray(tol, dtype=float), d.shape)
        bad = ~(d <= t)
        with np.errstate(all="ignore"):
            r = np.nanmax(d / np.where(t > 0, t, np.inf)) if not np.all(np.isnan(d)) else np.inf
        if np.isfinite(r):
            m[2] = float(r) if m[2] is None else max(m[2], float(r))
        if bad.any():
            i = int(np.argmax(np.where(np.isnan(d), np.inf, d - t)))
            w = dict(wit, got=np.ravel(np.broadcast_to(a, d.shape))[i], want=np.ravel(np.broadcast_to(b, d.shape))[i],
                     diff=np.ravel(d)[i], tol=np.ravel(t)[i], index=i, n_bad=int(bad.sum()))
            self.violation(name, key, w)
            return False
        return True

    def violation(self, name, key, wit):
        self._m(name)[1] += 1
        key = key or name
        w = {"monitor": name, "key": key, "case": self.label,
             "case_info": jsonable(self.case_info), "witness": jsonable(wit)}
        if key in self.known:
            c = self.known_hits.setdefault(key, [0, w])
            c[0] += 1
            return
        if not _FIRST.value:
            _FIRST.value = time.time()
        if sum(1 for v in self.viol if v["key"] == key) < 3:
            self.viol.append(w)
        if sum(m[1] for m in self.mon.values()) - sum(c[0] for c in self.known_hits.values()) > 400:
            raise StopEarly()

    @contextlib.contextmanager
    def guard(self, what="", key=None, **wit):
        """exceptions raised by desimeter on a valid input are violations; others are harness errors"""
        try:
            yield
        except (CaseAbort,):
            pass
        except (StopEarly, Inconclusive, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            if isinstance(e, SystemExit) or from_repo(e.__traceback__):
                tb = traceback.format_exception(type(e), e, e.__traceback__)[-6:]
                self._m("no-exception")[0] += 1
                self.violation("no-exception", key, dict(wit, what=what, error=repr(e)[:300], tb="".join(tb)[-1500:]))
            else:
                raise
        else:
            self._m("no-exception")[0] += 1

    # -- parallel ---------------------------------------------------------
    def parallel(self, fn, items, nproc=6):
        """fn(sub_check, item) over items in forked workers; results merged (order independent)"""
        items = list(items)
        if nproc <= 1 or len(items) <= 1:
            for it in items:
                fn(self, it)
            return
        ctx = multiprocessing.get_context("fork")
        global _PAR
        _PAR = (self, fn, items)
        with ctx.Pool(min(nproc, len(items))) as pool:
            bad = []
            for st in pool.imap(_par_worker, range(len(items)), chunksize=1):
                if "error" in st:
                    bad.append(st["error"])
                else:
                    self.merge(st)
        if bad and not self.viol:
            raise RuntimeError("worker failed:\n" + bad[0])

    def state(self):
        return {k: getattr(self, k) for k in
                ("mon", "viol", "known_hits", "n_eval", "distinct", "samples", "kinds", "notes", "req")}

    def merge(self, st):
        for k, (e, v, w) in st["mon"].items():
            m = self._m(k)
            m[0] += e
            m[1] += v
            if w is not None:
                m[2] = w if m[2] is None else max(m[2], w)
        for w in st["viol"]:
            if sum(1 for v in self.viol if v["key"] == w["key"]) < 3:
                self.viol.append(w)
        for k, (c, w) in st["known_hits"].items():
            h = self.known_hits.setdefault(k, [0, w])
            h[0] += c
        self.n_eval += st["n_eval"]
        self.distinct |= st["distinct"]
        if len(self.samples) < 24:
            self.samples += st["samples"][:2]
        for k, v in st["kinds"].items():
            self.kinds[k] = self.kinds.get(k, 0) + v
        for k, v in st["notes"].items():
            if isinstance(v, (int, float)) and isinstance(self.notes.get(k, 0), (int, float)):
                self.notes[k] = self.notes.get(k, 0) + v
            elif isinstance(v, dict) and isinstance(self.notes.get(k), dict):
                self.notes[k].update(v)
            else:
                self.notes[k] = v
        for k, v in st["req"].items():
            self.require(k, v)

    def count(self, name, k=1):
        self.notes[name] = self.notes.get(name, 0) + k


    def unexpected(self, e):
        """an exception that escaped the workload: raised inside desimeter on a valid input, or by the
        check choking on a malformed result.  Both refute the property; environment trouble does not."""
        if isinstance(e, (ImportError, MemoryError)) and not from_repo(e.__traceback__):
            return False
        lost = isinstance(e, FileNotFoundError) and str(e.filename or "").startswith(tempfile.gettempdir())      # an output that was not written
        if not from_repo(e.__traceback__) and not lost and not isinstance(
                e, (ValueError, TypeError, IndexError, KeyError, AttributeError, AssertionError, ArithmeticError, np.linalg.LinAlgError)):
            return False
        name = "no-exception" if from_repo(e.__traceback__) else "well-formed-result"
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        self._m(name)[0] += 1
        self.violation(name, None, {"error": repr(e)[:300], "tb": tb[-1800:]})
        return True


_PAR = None


def _par_worker(i):
    parent, fn, items = _PAR
    sub = Check(parent.prop, parent.tier, parent.seed, sub=i)
    try:
        try:
            fn(sub, items[i])
        except StopEarly:
            pass
        except Exception as e:
            if isinstance(e, Inconclusive) or not sub.unexpected(e):
                raise
        return sub.state()
    except BaseException:
        if sub.viol:            # went wrong after a violation
            sub.notes["worker_stopped"] = traceback.format_exc()[-500:]
            return sub.state()
        return {"error": traceback.format_exc()}


def _digest(v):
    if isinstance(v, np.ndarray):
        return hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest()
    return repr(v)


def from_repo(tb):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def load_known():
    """known_findings.txt:  known: property=<id> key=<mechanism> <text>   (fixed: lines suppress nothing)"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                f = line.split(None, 3)
                prop = f[1].split("=", 1)[1]
                key = f[2].split("=", 1)[1]
                out.setdefault(prop, {})[key] = f[3].strip()
    return out
