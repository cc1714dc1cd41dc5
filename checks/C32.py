"""Number ranges and bit masks."""
import contextlib, io, itertools
import numpy as np

FLAGS = {'MATCHED': 0, 'PINHOLE': 1, 'POSITIONER': 2, 'FIDUCIAL': 3, 'FVCERROR': 4, 'BADPOSFID': 5, 'MOVED': 6, 'GIF': 7, 'ETC': 8, 'FITTEDPINHOLE': 9,
         'MATCHEDCENTER': 10, 'AMBIGUOUS': 11, 'FVCPROC': 12, 'ASSIGNED': 14, 'CONVERGED': 15, 'NOTCTLENABLED': 16, 'BROKENFIBER': 17, 'COMERROR': 18,
         'OVERLAP': 19, 'FROZEN': 20, 'UNREACHABLE': 21, 'BOUNDARYVIOLATION': 22, 'MULTIPLEREQUESTS': 23, 'NONFUNCTIONAL': 24, 'REJECTED': 25,
         'EXPERTLIMIT': 26, 'BADNEIGHBOR': 27, 'MISSINGSPOT': 28, 'BADPERFORMANCE': 29}     # the online system's numbering
MOVES = {'THETA_STUCK': 0, 'PHI_STUCK': 1, 'FAILED_FIT': 2, 'INVALID_TABLE': 3, 'INVALID_AFTER_FILTER': 4}


def run(ck):
    ck.rule = "a case is one range specification or one mask value; distinct by content"
    ck.assumptions = ["the numbering of the online system's positioner flags is the definition of the bits"]
    ranges(ck)
    masks(ck)
    for m, k in (("parsed", 2000), ("rejected", 50), ("mask-round-trip", 1000), ("bit", 34)):
        ck.require(m, k)


def ranges(ck):
    from desimeter.util import parse_fibers
    g = ck.rng("ranges")
    for i in range(ck.n(6000, 100000)):
        exp, parts = [], []
        for _ in range(int(g.integers(1, 7))):
            a = int(g.choice([0, g.integers(0, 20), g.integers(0, 5000), g.integers(0, 10 ** 6)]))
            if g.random() < .5:
                exp.append(a); s = str(a)
            else:
                b = max(0, a + int(g.choice([0, 1, g.integers(2, 30), g.integers(30, 300), -g.integers(1, 10)])))
                exp += list(range(a, b))
                s = "%d%s%d" % (a, str(g.choice([":", "..", "-"])), b)
            if g.random() < .3:
                s = " " * int(g.integers(0, 3)) + s + " " * int(g.integers(0, 3))
            if g.random() < .1:
                for sym in (":", "..", "-"):
                    s = s.replace(sym, " " + sym + " ")
            parts.append(s)
        spec = ",".join(parts)
        arg = spec
        if len(parts) == 1 and spec.strip().isdigit() and g.random() < .5:
            arg = int(spec)
        ck.case("spec", spec=spec)
        with ck.guard("parse_fibers", spec=spec), contextlib.redirect_stdout(io.StringIO()):
            r = parse_fibers(arg)
            ck.ok("parsed", isinstance(r, np.ndarray) and r.ndim == 1 and [int(v) for v in r] == exp, spec=spec, got=r, want=exp)
    for spec in (None, "", "  ", "\t"):
        with ck.guard("parse_fibers"):
            ck.ok("parsed", len(parse_fibers(spec)) == 0, spec=spec)
    for spec in ("a", "1,b", "1:2:3", "1;2", "1:x", ":", "-", "3-", "-3", "1.5", "1,,2", "1...3", "0x10", "1:2,foo"):
        for _ in range(4):
            ck.case("bad-spec", spec=spec)
            out = None
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    out = parse_fibers(spec)
                except BaseException as e:
                    if isinstance(e, KeyboardInterrupt):
                        raise
            ck.ok("rejected", out is None, spec=spec, got=out)


def masks(ck):
    from desimeter.bitmask import BitMask
    from desimeter.posparams.movemask import movemask
    from desimeter.posparams.posflags_mask import posflags_mask, POSITIONER_FLAGS_BITS, POSITIONER_FLAGS_VERBOSE
    g = ck.rng("masks")
    sets = [("posflags", posflags_mask, FLAGS), ("movemask", movemask, MOVES)]
    ck.ok("definitions", POSITIONER_FLAGS_BITS == FLAGS and set(POSITIONER_FLAGS_VERBOSE) == set(FLAGS), got=POSITIONER_FLAGS_BITS)
    for k in range(ck.n(15, 200)):
        nb = int(g.integers(1, 40))
        bits = [int(v) for v in g.choice(64, nb, replace=False)]
        names = ["B%d_%s" % (b, "X" * int(g.integers(0, 4))) for b in bits]
        sets.append(("random%d" % k, BitMask("m", {"m": [[n, b, "comment %d" % b] + ([{"extra": b}] if g.random() < .3 else []) for n, b in zip(names, bits)]}), dict(zip(names, bits))))
    for label, m, D in sets:
        ck.case("mask", label=label, names=sorted(D))
        w = dict(mask=label)
        with ck.guard("bitmask", **w):
            ck.ok("names", m.names() == [n for n, b in sorted(D.items(), key=lambda t: t[1])], got=m.names(), **w)
            for n, b in D.items():
                ck.ok("bit", int(m[n]) == int(getattr(m, n)) == m.mask(n) == m.mask(b) == int(m[b]) == 2 ** b and m.bitnum(n) == b and m.bitname(b) == n
                      and m[n].name == n and m[n].bitnum == b and m[n].mask == 2 ** b and m.names(2 ** b) == [n] and m.comment(n) == m.comment(b) == m[n].comment, flag=n, bit=b, **w)
                if label == "posflags":
                    ck.ok("bit", m.comment(n) == POSITIONER_FLAGS_VERBOSE[n], flag=n, **w)
            ck.ok("distinct", len({m.mask(n) for n in D}) == len(D), **w)
            vals = [int(sum(2 ** D[n] for n in c)) for k in (0, 1, 2) for c in itertools.combinations(sorted(D), k)][:300]
            for _ in range(ck.n(60, 600)):
                vals.append(int(sum(2 ** b for b in D.values() if g.random() < .5)))
            inv = {b: n for n, b in D.items()}
            for v in vals:
                forms = [v] + ([np.int64(v)] if v < 2 ** 62 else [np.uint64(v)])
                for u in forms:
                    nm = m.names(u)
                    exp = [inv[b] for b in range(64) if v >> b & 1]
                    ck.ok("mask-round-trip", nm == exp and (not nm or m.mask("|".join(nm)) == v), value=v, got=nm, **w)
            for _ in range(30):
                b = int(g.integers(0, 62))
                if b not in inv:
                    ck.ok("unknown-bits", m.names(2 ** b) == ["UNKNOWN%d" % b], bit=b, got=m.names(2 ** b), **w)
        for bad in ("NO_SUCH", "no_such|B"):
            try:
                r = m.mask(bad)
                ck.ok("rejected", False, spec=bad, got=r)
            except KeyError:
                ck.ok("rejected", True)
            try:
                getattr(m, "NO_SUCH_BIT")
                ck.ok("rejected", False)
            except AttributeError:
                ck.ok("rejected", True)
