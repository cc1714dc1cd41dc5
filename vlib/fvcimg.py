"""Synthetic camera images: pixel-integrated gaussian spots on a noisy background (own code)."""
import numpy as np
from scipy.special import erf


def cell(d, s):
    a = 1 / (np.sqrt(2) * s)
    return 0.5 * (erf(a * (d + .5)) - erf(a * (d - .5)))


def add_spots(img, x, y, flux, sigma=1.):
    n0, n1 = img.shape
    h = int(6 * sigma) + 2
    for a, b, c in zip(x, y, flux):
        i, j = int(np.floor(b + .5)), int(np.floor(a + .5))
        i0, i1, j0, j1 = max(0, i - h), min(n0, i + h + 1), max(0, j - h), min(n1, j + h + 1)
        if i0 < i1 and j0 < j1:
            img[i0:i1, j0:j1] += c * np.outer(cell(np.arange(i0, i1) - b, sigma), cell(np.arange(j0, j1) - a, sigma))
    return img


def image(g, shape, x, y, flux, sigma=1., background=1000., noise=20.):
    return add_spots(g.normal(background, noise, shape), x, y, flux, sigma)


def scatter(g, shape, n, sep, border=6.):
    """isolated positions (x,y), pixel (0,0) has its centre at 0,0"""
    n0, n1 = shape
    X = []
    cells = {}
    tries = 0
    while len(X) < n and tries < 60 * n:
        tries += 1
        x, y = g.uniform(border, n1 - 1 - border), g.uniform(border, n0 - 1 - border)
        k = int(x // sep), int(y // sep)
        if all(np.hypot(x - p, y - q) >= sep for a in (-1, 0, 1) for b in (-1, 0, 1) for p, q in cells.get((k[0] + a, k[1] + b), ())):
            X.append((x, y))
            cells.setdefault(k, []).append((x, y))
    return np.array(X).T.reshape(2, -1)
