"""Independent Cartesian Zernike (Noll, area-normalised) and Zhao-Burge vector polynomials."""
import numpy as np


def Z(j, x, y):
    r2 = x * x + y * y
    q = np.sqrt
    return {
        1: lambda: 1. + 0 * x, 2: lambda: 2 * x, 3: lambda: 2 * y,
        4: lambda: q(3.) * (2 * r2 - 1), 5: lambda: q(6.) * 2 * x * y, 6: lambda: q(6.) * (x * x - y * y),
        7: lambda: q(8.) * (3 * r2 - 2) * y, 8: lambda: q(8.) * (3 * r2 - 2) * x,
        9: lambda: q(8.) * (3 * x * x * y - y ** 3), 10: lambda: q(8.) * (x ** 3 - 3 * x * y * y),
        11: lambda: q(5.) * (6 * r2 ** 2 - 6 * r2 + 1),
        12: lambda: q(10.) * (4 * r2 - 3) * (x * x - y * y), 13: lambda: q(10.) * (4 * r2 - 3) * 2 * x * y,
        14: lambda: q(10.) * (x ** 4 - 6 * x * x * y * y + y ** 4), 15: lambda: q(10.) * 4 * x * y * (x * x - y * y),
        16: lambda: q(12.) * (10 * r2 ** 2 - 12 * r2 + 3) * x, 17: lambda: q(12.) * (10 * r2 ** 2 - 12 * r2 + 3) * y,
        18: lambda: q(12.) * (5 * r2 - 4) * (x ** 3 - 3 * x * y * y), 19: lambda: q(12.) * (5 * r2 - 4) * (3 * x * x * y - y ** 3),
        20: lambda: q(12.) * (x ** 5 - 10 * x ** 3 * y ** 2 + 5 * x * y ** 4), 21: lambda: q(12.) * (5 * x ** 4 * y - 10 * x ** 2 * y ** 3 + y ** 5),
    }[j]()


H, R = .5, np.sqrt(.5)
# each term: list of (factor, noll) for x and for y
TERMS = [
    ([(1, 1)], []), ([], [(1, 1)]), ([(R, 2)], [(R, 3)]), ([(R, 3)], [(R, 2)]), ([(R, 2)], [(-R, 3)]),
    ([(H, 5)], [(R, 4), (-H, 6)]), ([(R, 4), (H, 6)], [(H, 5)]), ([(R, 5)], [(R, 6)]), ([(R, 6)], [(-R, 5)]),
    ([(R, 8)], [(R, 7)]), ([(H, 8), (H, 10)], [(-H, 7), (H, 9)]), ([(H, 7), (H, 9)], [(H, 8), (-H, 10)]),
    ([(R, 10)], [(-R, 9)]), ([(R, 9)], [(R, 10)]), ([(R, 11), (H, 12)], [(H, 13)]), ([(H, 13)], [(R, 11), (-H, 12)]),
    ([(H, 12), (H, 14)], [(H, 15), (-H, 13)]), ([(H, 13), (H, 15)], [(H, 12), (-H, 14)]), ([(R, 14)], [(-R, 15)]), ([(R, 15)], [(R, 14)]),
    ([(R, 16)], [(R, 17)]), ([(H, 17), (H, 19)], [(H, 16), (-H, 18)]), ([(H, 16), (H, 18)], [(-H, 17), (H, 19)]),
    ([(H, 19), (H, 21)], [(H, 18), (-H, 20)]), ([(H, 18), (H, 20)], [(-H, 19), (H, 21)]), ([(R, 21)], [(R, 20)]), ([(R, 20)], [(-R, 21)]),
    ([(R, 3)], [(-R, 2)]), ([(R, 4), (-H, 6)], [(-H, 5)]), ([(H, 5)], [(-R, 4), (-H, 6)]), ([(R, 7)], [(-R, 8)]),
    ([(-H, 7), (H, 9)], [(-H, 8), (-H, 10)]), ([(H, 8), (-H, 10)], [(-H, 7), (-H, 9)]),
]


def term(p, x, y):
    a, b = TERMS[p]
    return sum((f * Z(j, x, y) for f, j in a), 0 * x), sum((f * Z(j, x, y) for f, j in b), 0 * x)


def displacement(ids, co, x, y):
    dx, dy = 0 * x, 0 * y
    for p, c in zip(ids, co):
        a, b = term(int(p), x, y)
        dx, dy = dx + c * a, dy + c * b
    return dx, dy


def fvc2fp(d, xpix, ypix):
    """reference camera model from its JSON dictionary"""
    x = (xpix - d["xfvc_offset"]) / d["xfvc_scale"] + d["offset_x"]
    y = (ypix - d["yfvc_offset"]) / d["yfvc_scale"] + d["offset_y"]
    c, s = np.cos(d["rotation"]) * d["scale"], np.sin(d["rotation"]) * d["scale"]
    u, v = c * x - s * y, s * x + c * y
    dx, dy = displacement(d["zbpolids"], d["zbcoeffs"], u, v)
    return 420. * (u + dx), 420. * (v + dy)


def fp2fvc(d, xfp, yfp, n=200):
    tx, ty = xfp / 420., yfp / 420.
    u, v = tx.copy(), ty.copy()
    for _ in range(n):
        dx, dy = displacement(d["zbpolids"], d["zbcoeffs"], u, v)
        e = max(np.max(np.abs(tx - dx - u)), np.max(np.abs(ty - dy - v))) if u.size else 0
        u, v = tx - dx, ty - dy
        if e < 1e-14:
            break
    c, s = np.cos(d["rotation"]) / d["scale"], np.sin(d["rotation"]) / d["scale"]
    x, y = c * u + s * v - d["offset_x"], -s * u + c * v - d["offset_y"]
    return x * d["xfvc_scale"] + d["xfvc_offset"], y * d["yfvc_scale"] + d["yfvc_offset"]
