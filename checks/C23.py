"""Assignment of spots to positioners."""
import contextlib
import io
import os
import shutil
import subprocess
import sys
import numpy as np
from vlib import zb
from vlib.core import REPO
from checks.C06 import metrology

SCR = os.environ.get("VERIF_SCRATCH", "/tmp")


def run(ck):
    ck.rule = "a case is one set of spots, positioners and arm lengths; distinct by the positions and lengths"
    ck.assumptions = ["spots are 1 micrometre or more away from the edge of the reach of any positioner; at least one positioner has arm lengths",
                      "script: the fibres that moved are 0.06-0.45 mm from where they were, 3.1-6 mm from their centre, their positioners 14 mm or more apart; one camera up to a small shift and rotation"]
    ck.parallel(chunk, list(range(8)))
    helpers(ck)
    script(ck)
    for m, k in (("one-to-one", 50), ("reach", 50), ("optimal", 50), ("selected", 50), ("truth", 20), ("forced", 20), ("alternatives", 30), ("ambiguous", 20), ("order", 50), ("shift", 50), ("inputs-kept", 50), ("groups", 20), ("elbow", 20), ("elbow-stretched", 5), ("match2d", 20), ("match", 20), ("nothing", 3), ("script", 1), ("script-groups", 1)):
        ck.require(m, k)


def chunk(ck, i):
    g = ck.rng("chunk", i)
    for k in range(ck.n(10, 120)):
        with ck.guard("chunk", chunk=i, k=k):
            one(ck, g, k, i)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def layout(g, k):
    """positioners: centres and ids of a part of the focal plane or of an artificial hexagonal grid"""
    if k % 3:
        m = metrology()
        m = m[np.array(m["DEVICE_TYPE"]) == "POS"]
        n = int(g.integers(2, 90))
        c = g.integers(len(m))
        X, Y = np.array(m["X_FP"], float), np.array(m["Y_FP"], float)
        q = np.argsort(np.hypot(X - X[c], Y - Y[c]))[:n]
        q = q[g.permutation(len(q))]
        return X[q], Y[q], np.array(m["DEVICE_ID"]).astype(str)[q]
    n = int(g.integers(2, 8))
    p = float(g.uniform(6, 14))
    i, j = (v.ravel() for v in np.meshgrid(np.arange(n), np.arange(n)))
    X, Y = p * (i + .5 * (j % 2)) + g.uniform(-400, 300), p * .866 * j + g.uniform(-400, 300)
    o = g.permutation(len(X))
    return X[o], Y[o], np.array(["M%05d" % v for v in g.permutation(99999)[:len(X)]])


def scene(g, k, fudge=0.):
    X, Y, ids = layout(g, k)
    n = len(X)
    r1, r2 = g.uniform(2.6, 3.4, n), g.uniform(2.6, 3.4, n)
    known = g.random(n) < g.choice([1., .9, .5])
    known[g.integers(n)] = True
    L = r1 + r2
    L = np.where(known, L, np.median(np.float32(L[known])))
    # the fibres
    a = g.uniform(0, 2 * np.pi, n)
    d = L * np.sqrt(g.random(n)) * float(g.choice([.3, 1., 1.]))
    far = known & (g.random(n) < .15) & (fudge > 0)        # stretched, and seen just beyond the arms
    d = np.where(far, L + fudge * g.uniform(.1, .9, n), d)
    x, y = X + d * np.cos(a), Y + d * np.sin(a)
    on = g.random(n) < g.choice([1., .95, .6])
    own = np.flatnonzero(on)
    x, y = x[on], y[on]
    extra = int(g.choice([0, 0, 3, 12]))
    ex, ey = g.uniform(X.min() - 12, X.max() + 12, extra), g.uniform(Y.min() - 12, Y.max() + 12, extra)
    x, y, own = np.append(x, ex), np.append(y, ey), np.append(own, np.full(extra, -1))
    o = g.permutation(len(x))
    return dict(X=X, Y=Y, ids=ids, r1=r1, r2=r2, known=known, x=x[o], y=y[o], own=own[o])


def tables(g, s, thresh, offset=(0., 0.), static=False):
    """spot, metrology and calibration tables as Tables, with rows that have to be ignored"""
    from astropy.table import Table
    n, m = len(s["X"]), len(s["x"])
    low, pin = 4, 5
    f = Table({"X_FP": np.concatenate([s["x"], g.choice(s["X"], low), g.choice(s["X"], pin)]) + offset[0],
               "Y_FP": np.concatenate([s["y"], g.choice(s["Y"], low), g.choice(s["Y"], pin)]) + offset[1],
               "COUNTS": np.concatenate([g.uniform(thresh * 1.01, thresh * 3, m), np.append(g.uniform(0, thresh, low - 1), thresh), g.uniform(thresh * 1.01, thresh * 3, pin)]),
               "PINHOLE_ID": np.concatenate([np.zeros(m + low, int), g.integers(1, 5, pin)])})
    own = np.concatenate([np.arange(m), np.full(low + pin, -1)])
    o = g.permutation(len(f))
    f, own = f[o], own[o]
    q = Table({"X_FP": np.concatenate([s["X"], s["X"][:2] + 3]) + offset[0], "Y_FP": np.concatenate([s["Y"], s["Y"][:2]]) + offset[1],
               "DEVICE_ID": np.concatenate([s["ids"], ["P001", "P002"]]), "PINHOLE_ID": np.concatenate([np.zeros(n, int), [1, 2]])})
    who = np.concatenate([np.arange(n), [-1, -1]])
    o = g.permutation(len(q))
    q, who = q[o], who[o]
    k = s["known"]
    c = Table({"POS_ID": np.concatenate([s["ids"][k], ["M99999", "A00000"]]), "LENGTH_R1": np.concatenate([s["r1"][k], [9., 9.]]), "LENGTH_R2": np.concatenate([s["r2"][k], [9., 9.]])})
    if static:
        c["LENGTH_R1_STATIC"], c["LENGTH_R2_STATIC"] = c["LENGTH_R1"], c["LENGTH_R2"]
        c["LENGTH_R1"], c["LENGTH_R2"] = c["LENGTH_R1"] + 1., c["LENGTH_R2"] - .3
    c = c[g.permutation(len(c))]
    return f, q, c, own, who


def reach(s, fudge):
    """possible pairs (positioner, spot) and the distance to the nearest edge of a reach"""
    L = s["r1"] + s["r2"] + fudge
    L = np.where(s["known"], L, np.median(L[s["known"]]))
    d = np.hypot(s["X"][:, None] - s["x"], s["Y"][:, None] - s["y"])
    return d < L[:, None], np.abs(d - L[:, None])


def size(E):
    """size of the largest matching (augmenting paths)"""
    n, m = E.shape
    nb = [np.flatnonzero(e) for e in E]
    to = np.full(m, -1)

    def grow(i, seen):
        for j in nb[i]:
            if not seen[j]:
                seen[j] = True
                if to[j] < 0 or grow(to[j], seen):
                    to[j] = i
                    return True
        return False
    return sum(grow(i, np.zeros(m, bool)) for i in range(n))


def one(ck, g, k, i):
    from desimeter import match_positioners as M
    fudge = float(g.choice([0., .1, .1, .5]))
    s = scene(g, k, fudge)
    thresh = float(g.choice([80000., 5000.]))
    E, edge = reach(s, fudge)
    keep = ~np.any(edge < 1e-3, axis=0)
    for c in ("x", "y", "own"):
        s[c] = s[c][keep]
    E = E[:, keep]
    if k % 10 == 9:     # nothing in reach
        s["x"] = s["x"] + 2000
        E[:] = False
    if not len(s["x"]):
        return
    static = bool(g.random() < .3)
    f, q, c, own, who = tables(g, s, thresh, static=static)
    cp = [t.copy() for t in (f, q, c)]
    kw = {} if thresh == 80000. and g.random() < .7 else dict(countthresh=thresh)
    if fudge != .1:
        kw["arm_fudge_offset"] = fudge
    alt = k % 2 == 0
    w = dict(n_pos=len(s["X"]), n_spots=len(s["x"]), fudge=fudge, thresh=thresh, static=static, uncalibrated=int((~s["known"]).sum()), options=str(kw))
    ck.case("scene", X=s["X"], x=s["x"], r1=s["r1"], opt=str(w))
    with quiet():
        r = M.match_positioners(f, q, c, return_alternatives=alt, **kw)
    ind, sc, total = np.asarray(r[0]), np.asarray(r[1]), r[2]
    ck.ok("inputs-kept", all(a.colnames == b.colnames and all(np.array_equal(a[v], b[v]) for v in a.colnames) for a, b in zip(cp, (f, q, c))), **w)
    want = size(E)
    if not k % 10 == 9 or ck.ok("nothing", np.all(ind < 0) and total == 0, **w):
        P = valid(ck, ind, own, who, E, w)
    else:
        return
    if P is None:
        return
    best = len(P)
    ck.ok("optimal", best == want and total == want, found=best, total=total, largest=want, **w)
    ck.ok("scores", len(sc) == len(f) and np.all(sc[ind >= 0] == 1) and np.all(np.isnan(sc[ind < 0])), **w)
    # the pairs that every largest matching has
    forced = []
    for a, b in P[:40]:
        F = E.copy()
        F[a, b] = False
        forced.append(size(F) < want)
    P, forced = dict(P), dict(zip(P[:40], forced))
    # each real fibre lit: the truth is one of the largest matchings, so forced pairs are the truth
    lit = s["own"] >= 0
    if lit.all() and k % 10 != 9:
        ck.ok("truth", want == len(lit), **w)
    if lit.all() and k % 10 != 9:
        bad = [(a, b) for (a, b), v in forced.items() if v and s["own"][b] != a]
        ck.ok("forced", not bad, first=bad[:4], **w)
    if alt:
        A = np.asarray(r[3])
        ck.ok("alternatives", A.ndim == 2 and A.shape[1] == len(f), shape=A.shape, **w)
        sets = []
        for v in A:
            Q = valid(ck, v, own, who, E, w)
            if Q is None:
                return
            ck.ok("alternatives", len(Q) == best, found=len(Q), best=best, **w)
            sets.append(set(Q))
        # ambiguous exactly when some alternative differs there
        bad = [(e, v) for e, v in forced.items() if v == any(e not in Q for Q in sets)]
        ck.ok("ambiguous", not bad, first=bad[:4], **w)
        groups(ck, f, q, c, s, ind, A, who, own, w, static)
    # other order of the rows, other place
    f2, q2, c2, own2, who2 = tables(g, s, thresh, static=static)
    with quiet():
        r2 = M.match_positioners(f2, q2, c2, return_alternatives=alt, **kw)
    agree(ck, "order", r2, own2, who2, E, forced, best, w)
    off = g.uniform(-300, 300, 2)
    f3, q3, c3, own3, who3 = tables(g, s, thresh, off, static)
    with quiet():
        r3 = M.match_positioners(f3, q3, c3, return_alternatives=alt, **kw)
    agree(ck, "shift", r3, own3, who3, E, forced, best, w)


def valid(ck, ind, own, who, E, w):
    """pairs (positioner, spot) of an assignment in our numbering"""
    ind = np.asarray(ind)
    if not ck.ok("selected", len(ind) == len(own) and np.all(ind[own < 0] < 0) and np.all(ind < len(who)) and np.all(who[ind[ind >= 0]] >= 0), **w):
        return None
    a = ind[ind >= 0]
    ck.ok("one-to-one", len(set(a)) == len(a), **w)
    P = [(int(who[p]), int(own[j])) for j, p in enumerate(ind) if p >= 0]
    ck.ok("reach", all(E[p] for p in P), first=[p for p in P if not E[p]][:3], **w)
    return P


def agree(ck, mon, r, own, who, E, forced, best, w):
    P = valid(ck, r[0], own, who, E, w)
    if P is None:
        return
    ck.ok(mon, len(P) == best and r[2] == best, found=len(P), best=best, **w)
    ck.ok(mon, all(e in P for e, v in forced.items() if v), **w)


def groups(ck, f, q, c, s, ind, A, who, own, w, static):
    """what print_groupings prints"""
    from desimeter import match_positioners as M
    want = {}
    for v in [ind] + list(A):
        for j, p in enumerate(v):
            if p >= 0:
                want.setdefault(str(q["DEVICE_ID"][p]), set()).add(j)
    for cal in (None, c):
        o = io.StringIO()
        M.print_groupings(f, q, ind, A, file=o, calib=cal)
        rows = [l.split() for l in o.getvalue().splitlines()[1:]]
        head = o.getvalue().splitlines()[0].split()
        ck.ok("groups", all(len(l) == len(head) for l in rows) and head[:3] == ["DEVICE_ID", "X_FP", "Y_FP"] and ("X_ELBOW" in head) == (cal is not None), head=head, **w)
        names = [l[0] for l in rows]
        ck.ok("groups", names == sorted(names) and set(names) == set(want) and all(names.count(v) == len(u) for v, u in want.items()), **w)
        ck.ok("groups", all(int(l[-1]) == len(want[l[0]]) for l in rows), **w)
        got = {}
        for l in rows:
            j = int(np.argmin(np.hypot(f["X_FP"] - float(l[1]), f["Y_FP"] - float(l[2]))))
            ck.close("groups", [f["X_FP"][j], f["Y_FP"][j]], [float(l[1]), float(l[2])], 1e-6, **w)
            got.setdefault(l[0], set()).add((round(float(l[1]), 4), round(float(l[2]), 4)))
        ck.ok("groups", got == {v: {(round(float(f["X_FP"][j]), 4), round(float(f["Y_FP"][j]), 4)) for j in u} for v, u in want.items()}, **w)
        if cal is not None and not static:
            at = {str(v): n for n, v in enumerate(s["ids"])}
            for l in rows:
                n = at[l[0]]
                if not s["known"][n]:
                    continue
                x, y, ex, ey = (float(v) for v in l[1:5])
                d = np.hypot(x - s["X"][n], y - s["Y"][n])
                if abs(s["r1"][n] - s["r2"][n]) + 1e-3 < d < s["r1"][n] + s["r2"][n] - 1e-3:
                    ck.close("elbow", [np.hypot(ex - s["X"][n], ey - s["Y"][n]), np.hypot(ex - x, ey - y)], [s["r1"][n], s["r2"][n]], 1e-4, **w)
                elif d > s["r1"][n] + s["r2"][n] + 1e-3:      # stretched: between the two, by the lengths of the arms
                    q1 = d / (s["r1"][n] + s["r2"][n])
                    ck.close("elbow-stretched", [np.hypot(ex - s["X"][n], ey - s["Y"][n]), np.hypot(ex - x, ey - y)], [s["r1"][n] * q1, s["r2"][n] * q1], 1e-4, **w)


def helpers(ck):
    """match2d and match against brute force"""
    from desimeter import match_positioners as M
    g = ck.rng("helpers")
    for k in range(ck.n(60, 600)):
        with ck.guard("helpers", k=k):
            n, m = int(g.integers(1, 40)), int(g.integers(1, 40))
            a, b = g.uniform(-10, 10, (2, n)), g.uniform(-10, 10, (2, m))
            r = float(g.choice([.01, 1., 5., 30.]))
            ck.case("helpers", a=a, b=b, r=r)
            d = np.hypot(a[0][:, None] - b[0], a[1][:, None] - b[1])
            i, j, e = M.match2d(a[0], a[1], b[0], b[1], r)
            ok = np.abs(d - r) > 1e-9
            got = np.zeros((n, m), int)
            np.add.at(got, (np.asarray(i, int), np.asarray(j, int)), 1)
            ck.ok("match2d", np.array_equal(got[ok], (d < r)[ok].astype(int)), n_got=len(i))
            ck.close("match2d", e, d[np.asarray(i, int), np.asarray(j, int)], 1e-9)
            u = g.permutation(80)[:n]
            v = g.integers(0, 90, m)
            if k % 2:
                u, v = np.array(["M%02d" % q for q in u]), np.array(["M%02d" % q for q in v])
            i, j = M.match(u, v)
            want = [(int(np.flatnonzero(u == q)[0]), z) for z, q in enumerate(v) if q in u]
            ck.ok("match", sorted(zip(np.asarray(i).tolist(), np.asarray(j).tolist())) == sorted(want))
            if n > 1:
                try:
                    M.match(np.append(u, u[:1]), v)
                    ck.ok("match", False, what="duplicate keys not refused")
                except ValueError:
                    ck.ok("match", True)


def script(ck):
    """bin/detect_and_match_moving_positioners and bin/desi_print_ambigous_groups on spot lists"""
    from astropy.table import Table
    from checks.C22 import default_camera, spots_of
    d = os.path.join(SCR, "c23-script")
    os.makedirs(d)
    env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "py"), MPLBACKEND="Agg", MPLCONFIGDIR=d)
    try:
        g = ck.rng("script")
        for k in range(ck.n(2, 10)):
            with ck.guard("script", k=k):
                m = metrology()
                p = m[np.array(m["DEVICE_TYPE"]) == "POS"]
                CX, CY = np.array(p["X_FP"], float), np.array(p["Y_FP"], float)
                n = len(p)
                mv = []
                for i in g.permutation(n):
                    if all(np.hypot(CX[i] - CX[j], CY[i] - CY[j]) > 14 for j in mv):
                        mv.append(int(i))
                    if len(mv) == 25:
                        break
                from checks.C15 import pinholes
                _, _, PX, PY = pinholes()
                r, a = g.uniform(0, 1.5, n), g.uniform(0, 2 * np.pi, n)
                r[mv] = g.uniform(3.6, 5.5, len(mv))
                X, Y = CX + r * np.cos(a), CY + r * np.sin(a)
                st, ang = g.uniform(.08, .4, len(mv)), g.uniform(0, 2 * np.pi, len(mv))
                X1, Y1 = X.copy(), Y.copy()
                X1[mv] += st * np.cos(ang)
                Y1[mv] += st * np.sin(ang)
                on = np.ones(n, bool)
                from scipy.spatial import cKDTree
                on &= cKDTree(np.array([PX, PY]).T).query(np.array([X, Y]).T)[0] > 3.
                for i, j in cKDTree(np.array([X, Y]).T).query_pairs(2.4):
                    on[j if i in mv else i] = False
                mv = [i for i in mv if on[i]]
                close = (np.hypot(X1 - CX, Y1 - CY) <= 3.)[mv]
                cam = default_camera()
                cam0 = dict(cam)
                cam0["offset_x"] += 2e-4
                cam0["rotation"] += 2e-4
                names = {"before": [], "after": []}
                for tag, A, B, cc, nt in (("before", X, Y, cam0, 1 + k % 2), ("after", X1, Y1, cam, 2)):
                    for q in range(nt):
                        tr = spots_of(g, cc, p, A, B, on, [], [])
                        fn = os.path.join(d, "%s%d-%d.csv" % (tag, k, q))
                        Table({"XPIX": tr[2] + .005 * g.normal(size=len(tr[2])), "YPIX": tr[3] + .005 * g.normal(size=len(tr[2])), "COUNTS": np.full(len(tr[2]), 1e5)}).write(fn)
                        names[tag].append(fn)
                ids = np.array(p["DEVICE_ID"]).astype(str)
                out = os.path.join(d, "out%d.csv" % k)
                ck.case("script", X=X, moved=str(mv))
                pr = subprocess.run([sys.executable, os.path.join(REPO, "bin", "detect_and_match_moving_positioners"), "--before-moves", *names["before"], "--after-moves", *names["after"], "-p", ",".join(ids[mv]), "-o", out],
                                    env=env, cwd=d, capture_output=True, text=True, timeout=300)
                if not ck.ok("script", pr.returncode == 0 and os.path.exists(out), err=pr.stderr[-500:]):
                    continue
                t = Table.read(out)
                want = {ids[i]: (X1[i], Y1[i]) for i, c in zip(mv, close) if not c}
                got = {str(v): (x, y) for v, x, y in zip(t["DEVICE_ID"], t["X_FP"], t["Y_FP"])}
                if ck.ok("script", len(t) == len(got) and set(got) == set(want), missing=sorted(set(want) - set(got))[:5], extra=sorted(set(got) - set(want))[:5]):
                    ck.close("script", [got[v] for v in want], [want[v] for v in want], .008)
                # groups of one petal
                fn = os.path.join(d, "spots%d.csv" % k)
                L = Table({"X_FP": X[on], "Y_FP": Y[on], "COUNTS": np.full(on.sum(), 1e5), "PINHOLE_ID": np.zeros(on.sum(), int), "DEVICE_ID": ids[on]})
                L[g.permutation(len(L))].write(fn)
                pet = int(g.integers(10))
                pr = subprocess.run([sys.executable, os.path.join(REPO, "bin", "desi_print_ambigous_groups"), fn, "--petal", str(pet)], env=env, cwd=d, capture_output=True, text=True, timeout=300)
                rows = [l.split() for l in pr.stdout.splitlines() if l.startswith("M") and len(l.split()) == 6]
                ok = ck.ok("script-groups", pr.returncode == 0 and len(rows) > 100, err=pr.stderr[-500:])
                at = {v: i for i, v in enumerate(ids)}
                petal = np.array(p["PETAL_LOC"])
                for l in rows if ok else ():
                    i = at[l[0]]
                    ck.ok("script-groups", petal[i] == pet and np.hypot(float(l[1]) - CX[i], float(l[2]) - CY[i]) < 6.2)
                # a fibre that no other positioner of the petal can reach, whose positioner reaches no other
                j = np.flatnonzero((petal == pet) & on)
                DD = np.hypot(CX[petal == pet][:, None] - X[on], CY[petal == pet][:, None] - Y[on])
                near = DD < 6.1
                for i in j if ok else ():
                    c = np.flatnonzero(np.flatnonzero(on) == i)[0]
                    a = np.flatnonzero(np.flatnonzero(petal == pet) == i)[0]
                    if near[:, c].sum() == 1 and near[a].sum() == 1 and near[a, c]:
                        mine = [l for l in rows if l[0] == ids[i]]
                        ck.ok("script-groups", len(mine) == 1 and int(mine[0][-1]) == 1 and np.hypot(float(mine[0][1]) - X[i], float(mine[0][2]) - Y[i]) < 1e-4, device=ids[i])
    finally:
        shutil.rmtree(d, ignore_errors=True)
