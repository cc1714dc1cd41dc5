"""Catalogue matching against known correspondences and a brute-force nearest-neighbour model."""
import warnings
import numpy as np


def run(ck):
    ck.rule = "a case is one pair of point sets with known correspondence; distinct by coordinates"
    ck.assumptions = ["triangle matching: at least 3 common points (4 when rotated or noisy), separations of 4% of the field or more, noise up to 0.05% of the field (0.5% of the pattern for fiducial-like patterns), rotation up to 0.003 rad, no translational symmetry"]
    ck.parallel(triangles, range(ck.n(300, 9000)))
    ck.parallel(patterns, range(ck.n(120, 4000)))
    ck.parallel(nearest, range(ck.n(600, 20000)))
    ck.parallel(shapes, range(ck.n(60, 2000)))
    for m, k in (("pairs", 50), ("one-to-one", 100), ("order", 50), ("shift-scale", 50), ("pattern", 40), ("nearest", 150), ("nearest-winner", 150), ("nearest-order", 100), ("missing", 10), ("shapes-order", 50), ("shapes-invariant", 50)):
        ck.require(m, k)


def points(g, n, sep):
    P = []
    while len(P) < n:
        q = g.uniform(-1, 1, 2)
        if all(np.hypot(*(q - p)) > sep for p in P):
            P.append(q)
    return np.array(P).T


def triangles(ck, i):
    from desimeter.match import match_arbitrary_translation_dilatation as match
    g = ck.rng("tri", i)
    mode = ("exact", "noise", "rotated", "missing")[i % 4]
    n = int(g.integers(3 if mode == "exact" else 4, 13 if mode != "missing" else 11))
    extra = int(g.choice([0, 1, 4])) if mode in ("exact", "missing") else 0
    if mode == "missing":
        n = max(n, 7)
    P = points(g, n + extra, .08)
    x1, y1 = P[0, :n] * 100, P[1, :n] * 100
    rot = g.uniform(-.003, .003) if mode == "rotated" else 0.
    s = float(10 ** g.uniform(-2, 2))
    c, d = float(g.normal() * 100), float(g.normal() * 100)
    x2, y2 = s * (P[0] * np.cos(rot) - P[1] * np.sin(rot)) * 100 + c, s * (P[0] * np.sin(rot) + P[1] * np.cos(rot)) * 100 + d
    if mode == "noise":
        x2, y2 = x2 + g.normal(size=x2.size) * .05 * s, y2 + g.normal(size=x2.size) * .05 * s
    true = np.arange(n + extra)[:n]
    o = g.permutation(n + extra)
    x2, y2 = x2[o], y2[o]
    inv = np.argsort(o)
    want = inv[true]
    lost = np.zeros(n, bool)
    if mode == "missing":
        k = int(g.integers(1, 3))
        lost[g.choice(n, k, replace=False)] = True
        keep = np.ones(n + extra, bool)
        keep[want[lost]] = False
        x2, y2 = x2[keep], y2[keep]
        want = np.where(lost, -1, np.cumsum(keep)[want] - 1)
    ck.case("triangles-" + mode, x1=x1, y1=y1, x2=x2, y2=y2)
    w = dict(mode=mode, n=n, extra=extra, scale=s, rotation=rot)
    with ck.guard("match", **w):
        keep1 = [v.copy() for v in (x1, y1, x2, y2)]
        idx, dist = match(x1, y1, x2, y2)
        idx, dist = np.array(idx), np.array(dist)
        ck.ok("inputs-kept", all(np.array_equal(a, b) for a, b in zip(keep1, (x1, y1, x2, y2))), **w)
        ck.ok("shape", idx.shape == (n,) and dist.shape == (n,) and np.all(idx >= -1) and np.all(idx < x2.size), **w)
        u = idx[idx >= 0]
        ck.ok("one-to-one", len(set(u)) == len(u), got=idx, **w)
        if mode == "missing":
            close = (idx >= 0) & (dist < 1e-6)
            ck.ok("missing", np.array_equal(idx[close], want[close]), got=idx, want=want, dist=dist, **w)
            ck.ok("missing", np.array_equal(idx[~lost], want[~lost]), got=idx, want=want, dist=dist, **w)
            sel = ~lost
        else:
            ck.ok("pairs", np.array_equal(idx, want), got=idx, want=want, dist=dist, **w)
            ck.ok("small-distance", np.all(dist < (1e-6 if mode == "exact" else .02 if mode == "rotated" else .02)), dist=dist, **w)
            sel = np.ones(n, bool)
        # other orders give the same pairs
        a, b = g.permutation(n), g.permutation(x2.size)
        i2, d2 = match(x1[a], y1[a], x2[b], y2[b])
        got = np.where(np.array(i2) >= 0, b[np.array(i2)], -1)
        ck.ok("order", np.array_equal(got[sel[a]], want[a][sel[a]]), got=got, want=want[a], **w)
        # another shift and scale of either set gives the same pairs
        f, h = float(10 ** g.uniform(-3, 3)), float(10 ** g.uniform(-3, 3))
        i3, d3 = match(f * (x1 + 17.), f * (y1 - 55.), h * (x2 - 3.), h * (y2 + 200.))
        ck.ok("shift-scale", np.array_equal(np.array(i3)[sel], want[sel]), got=i3, want=want, **w)
        if mode != "missing":
            ck.close("shift-scale", np.array(d3)[sel], dist[sel], 1e-6, **w)
        # there is no rotation or reflexion hidden in the answer: the mirror image of a set is not that set
        if mode == "exact" and n >= 5:
            i4, d4 = match(x1, -y1, x2, y2)
            i4, d4 = np.array(i4), np.array(d4)
            ck.ok("mirror", np.sum((i4 >= 0) & (d4 < 1e-4)) == 0, got=i4, dist=d4, **w)


def patterns(ck, i):
    """four dots of a fiducial as seen in the camera, in any orientation"""
    from desimeter.match import match_arbitrary_translation_dilatation as match
    g = ck.rng("pat", i)
    for k in range(10):
        a = float(g.uniform(0, 2 * np.pi)) if k else float(g.choice([0, np.pi / 2, np.pi, 3 * np.pi / 2]))
        p = np.array([[0, 0], [1, 0], [-1, 0], [.28, .96]]).T * 7. + g.normal(size=(2, 4)) * .02
        if k % 2:
            p[1] *= -1
        x = p[0] * np.cos(a) - p[1] * np.sin(a)
        y = p[0] * np.sin(a) + p[1] * np.cos(a)
        rot, s = g.uniform(-.005, .005), g.uniform(.95, 1.05)
        u = s * (x - rot * y) + g.normal(size=4) * .03 + 3000 * g.uniform(-1, 1)
        v = s * (y + rot * x) + g.normal(size=4) * .03 + 3000 * g.uniform(-1, 1)
        o = g.permutation(4)
        ck.case("pattern", x=x, y=y, u=u[o], v=v[o])
        with ck.guard("pattern"):
            idx, d = match(u[o], v[o], x, y)
            ck.ok("pattern", np.array_equal(idx, o), got=idx, want=o, angle=a)
            # with a dot missing the others are still right
            idx, d = match(u[o[:3]], v[o[:3]], x, y)
            idx, d = np.array(idx), np.array(d)
            if True:
                ck.ok("pattern-missing", np.array_equal(idx, o[:3]), got=idx, want=o[:3], angle=a)


def nearest(ck, i):
    from desimeter.match import match_same_system as match
    g = ck.rng("near", i)
    n1, n2 = (int(v) for v in 10 ** g.uniform(0, 2.5, 2))
    kind = i % 4
    if kind == 0:
        A, B = g.uniform(-1, 1, (2, n1)), g.uniform(-1, 1, (2, n2))
    elif kind == 1:     # clustered: many claims on the same point
        A, B = g.normal(size=(2, n1)) * .3, g.normal(size=(2, n2)) * g.choice([1, 3, .05])
    elif kind == 2:     # same points, small noise
        A = g.uniform(-1, 1, (2, n1))
        B = A[:, g.permutation(n1)] + g.normal(size=(2, n1)) * 1e-4
        n2 = n1
    else:               # ties: integer positions
        A, B = g.integers(-6, 7, (2, n1)).astype(float), g.integers(-6, 7, (2, n2)).astype(float)
    if g.random() < .3:
        A, B = A * 300 + 3000, B * 300 + 3000
    ck.case("nearest", A=A, B=B)
    w = dict(n1=n1, n2=n2, kind=kind)
    with ck.guard("nearest", **w):
        D = np.hypot(A[0][:, None] - B[0], A[1][:, None] - B[1])
        best = D.min(1)
        kA, kB = A.copy(), B.copy()
        j, d = match(A[0], A[1], B[0], B[1], remove_duplicates=False)
        ck.close("nearest", d, best, 1e-9, **w)
        ck.close("nearest", D[np.arange(n1), j], best, 1e-9, **w)
        J, d2 = match(A[0], A[1], B[0], B[1])
        J, d2 = np.array(J), np.array(d2)
        ck.ok("inputs-kept", np.array_equal(A, kA) and np.array_equal(B, kB), **w)
        m = J >= 0
        ck.ok("one-to-one", len(set(J[m])) == m.sum() and np.all(J < n2), **w)
        ck.ok("nearest-unmatched", np.all(np.isinf(d2[~m])), **w)
        ck.close("nearest", d2[m], best[m], 1e-9, **w)
        ck.close("nearest", D[np.where(m)[0], J[m]], best[m], 1e-9, **w)
        # every point of 2 that is somebody's nearest is kept by the closest of its claimants
        if kind != 3:
            near = D.argmin(1)
            want = np.full(n1, -1)
            for b in np.unique(near):
                q = np.where(near == b)[0]
                want[q[np.argmin(best[q])]] = b
            ck.ok("nearest-winner", np.array_equal(J, want), got=J, want=want, **w)
            o, p = g.permutation(n1), g.permutation(n2)
            J3, d3 = match(A[0][o], A[1][o], B[0][p], B[1][p])
            J3 = np.array(J3)
            ck.ok("nearest-order", np.array_equal(np.where(J3 >= 0, p[J3], -1), J[o]), **w)
        else:           # with ties: an unmatched point lost its nearest point to one at most as far
            for q in np.where(~m)[0]:
                c = np.where(D[q] <= best[q] + 1e-12)[0]
                r = [d2[J == b][0] for b in c if np.any(J == b)]
                ck.ok("nearest-winner", len(r) > 0 and min(r) <= best[q] + 1e-9, **w)


def shapes(ck, i):
    """triangle descriptions for an unknown orientation"""
    from desimeter.match import compute_triangles_with_arbitrary_orientation as tri
    g = ck.rng("shapes", i)
    n = int(g.integers(3, 9))
    x, y = g.uniform(-1, 1, (2, n)) * 10 ** g.uniform(-2, 3)
    a, z, o = g.uniform(-np.pi, np.pi), 10 ** g.uniform(-1, 1), g.permutation(n)
    flip = (1, -1)[i % 2]
    u, v = (z * (np.cos(a) * x - np.sin(a) * y) + 3 * g.normal() * np.ptp(x))[o], flip * (z * (np.sin(a) * x + np.cos(a) * y) + 3 * g.normal() * np.ptp(y))[o]
    ck.case("shapes", x=x, u=u)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        one, two = tri(x, y), tri(u, v)
    m = n * (n - 1) * (n - 2) // 6
    ck.ok("shapes-all", all(np.shape(b[0]) == (m, 3) and all(np.shape(q) == (m,) for q in b[1:]) and len({tuple(sorted(k)) for k in np.array(b[0]).tolist()}) == m for b in (one, two)),
          got=[np.shape(q) for q in one], n=n)
    want = {}
    for k, r, c, h in zip(*one):
        p = np.c_[x, y][np.array(k)]
        side = [np.hypot(*(p[b] - p[d])) for b, d in ((0, 1), (1, 2), (0, 2))]
        w = np.sort(side)
        if min(w[1] - w[0], w[2] - w[1]) < .01 * w[2] or w[0] < .02 * w[2]:
            continue
        ck.ok("shapes-order", side[0] < side[1] < side[2], vertices=list(k), sides=side)
        e, f = p[1] - p[0], p[2] - p[0]
        q = np.array([w[2] / w[0], e @ f / (w[0] * w[2]), (e[0] * f[1] - e[1] * f[0]) / (w[0] * w[2])])
        ck.close("shapes-values", [r, c, h], q, 1e-9 * (1 + q[0]), vertices=list(k))
        want[tuple(int(b) for b in k)] = q * [1, 1, flip]
    got = {tuple(int(o[b]) for b in k): np.array([r, c, h]) for k, r, c, h in zip(*two)}
    for k, q in want.items():
        if ck.ok("shapes-same-order", k in got, vertices=k, angle=a, flip=flip):
            ck.close("shapes-invariant", got[k], q, 1e-7 * (1 + q[0]), vertices=k, angle=a, scale=z, flip=flip)
