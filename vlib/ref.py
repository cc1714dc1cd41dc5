"""Independent reference models (no desimeter code)."""
import numpy as np

OBLIQ = 23.439279444444445
YEAR = 365.256363004
PREC_YEARS = 25771.5753382206
MJD2000 = 51544.5
LAT = 31.96403
MA, ME = -2.0, -120.0     # arcsec
REF30 = 79.0              # arcsec
KAB = 0.99365e-4
ARC = 206264.80624709636


def unit(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lon) * np.cos(lat), np.sin(lon) * np.cos(lat), np.sin(lat)], axis=-1)


def rodrigues(v, axis, ang):
    """rotate v about unit axis by ang (rad)"""
    axis = np.asarray(axis, float)
    c, s = np.cos(ang), np.sin(ang)
    return v * c + np.cross(axis, v) * s + axis * (v @ axis)[..., None] * (1 - c)


def sep_arcsec(lon1, lat1, lon2, lat2):
    a, b = unit(lon1, lat1), unit(lon2, lat2)
    return 2 * np.arcsin(np.clip(np.linalg.norm(a - b, axis=-1) / 2, 0, 1)) * ARC


EPOLE = np.array([0., -np.sin(np.radians(OBLIQ)), np.cos(np.radians(OBLIQ))])   # ecliptic pole in equatorial axes


def precess(v, years):
    return rodrigues(v, EPOLE, 2 * np.pi * years / PREC_YEARS)


def sun_dir(mjd):
    d = mjd - MJD2000
    g = np.radians(357.528 + 0.9856003 * d)
    lon = 280.460 + 0.9856474 * d + 1.915 * np.sin(g) + 0.020 * np.sin(2 * g)
    e = np.radians(OBLIQ)
    lo = np.radians(lon)
    return np.array([np.cos(lo), np.sin(lo) * np.cos(e), np.sin(lo) * np.sin(e)])


def apex_dir(mjd):
    # direction of the Earth's motion: 90 deg behind the Sun in the ecliptic
    return np.cross(sun_dir(mjd), EPOLE)


def aberrate(v, mjd):
    b = apex_dir(mjd)
    w = v + KAB * (b - v * (v @ b)[..., None])
    return w / np.linalg.norm(w, axis=-1, keepdims=True)


# local frame: (north, west-ward handled through HA); horizontal vector from HA,Dec vector
# HA/Dec vector h = (cosHA cosD, sinHA cosD, sinD): x to the meridian, y to the west, z to the pole
def zenith():
    la = np.radians(LAT)
    return np.array([np.cos(la), 0., np.sin(la)])


def alt_of(h):
    z = zenith()
    cr = np.linalg.norm(np.cross(h, z), axis=-1)
    return np.degrees(np.arctan2(h @ z, cr))


def polar_offset(h):
    # the mount pole is displaced in alt by -ME and in az by MA: rotate so that it coincides with the true pole
    la = np.radians(LAT)
    alt = np.radians(LAT - ME / 3600.)
    az = np.radians(MA / 3600.)
    z = zenith()
    north = np.array([-np.sin(la), 0., np.cos(la)])
    east = np.array([0., -1., 0.])
    p = np.cos(alt) * (np.cos(az) * north + np.sin(az) * east) + np.sin(alt) * z
    pole = np.array([0., 0., 1.])
    ax = np.cross(p, pole)
    n = np.linalg.norm(ax)
    return rodrigues(h, ax / n, np.arctan2(n, p @ pole))


def refract(h):
    alt = alt_of(h)
    dalt = np.radians(REF30 / 3600. * np.tan(np.radians(30.)) / np.tan(np.radians(alt)))
    z = zenith()
    ax = np.cross(h, z)
    n = np.linalg.norm(ax, axis=-1, keepdims=True)
    ax = ax / np.where(n > 0, n, 1)
    c, s = np.cos(dalt)[..., None], np.sin(dalt)[..., None]
    return h * c + np.cross(ax, h) * s


def radec2tan(ra, dec, tra, tdec, mjd, lst, hexrot, precession=True, aberration=True, polar_misalignment=True):
    v = unit(np.atleast_1d(np.asarray(ra, float)), np.atleast_1d(np.asarray(dec, float)))
    t = unit(np.array([float(tra)]), np.array([float(tdec)]))
    if precession:
        yr = (mjd - MJD2000) / YEAR
        v, t = precess(v, yr), precess(t, yr)
    if aberration:
        v, t = aberrate(v, mjd), aberrate(t, mjd)

    def tohadec(u):   # HA = LST - RA : reflect and rotate
        l = np.radians(lst)
        return np.stack([np.cos(l) * u[..., 0] + np.sin(l) * u[..., 1],
                         np.sin(l) * u[..., 0] - np.cos(l) * u[..., 1], u[..., 2]], axis=-1)
    v, t = tohadec(v), tohadec(t)
    if polar_misalignment:
        v, t = polar_offset(v), polar_offset(t)
    v, t = refract(v), refract(t)
    t = t[0]
    west = np.array([-t[1], t[0], 0.])
    west = west / np.linalg.norm(west)
    north = np.cross(t, west)
    x, y = v @ west, v @ north
    h = np.radians(hexrot)
    return np.cos(h) * x - np.sin(h) * y, np.sin(h) * x + np.cos(h) * y


def axes(ra, dec):
    """unit vectors: pointing, east (increasing RA), north"""
    t = unit(np.array(float(ra)), np.array(float(dec)))
    e = np.array([-np.sin(np.radians(ra)), np.cos(np.radians(ra)), 0.])
    return t, e, np.cross(t, e)


def tan2radec(x, y, tra, tdec, mjd, lst, hexrot, n=12, **sw):
    """numerical inverse of radec2tan (J2000 RA,Dec): secant iterations in the plain tangent plane of the pointing"""
    x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
    t, e, nn = axes(tra, tdec)

    def sky(u, v):
        w = np.sqrt(1 - u ** 2 - v ** 2)
        p = w[:, None] * t + u[:, None] * e + v[:, None] * nn
        return np.degrees(np.arctan2(p[:, 1], p[:, 0])) % 360., np.degrees(np.arcsin(np.clip(p[:, 2], -1, 1)))

    def fwd(u, v):
        a, b = sky(u, v)
        return radec2tan(a, b, tra, tdec, mjd, lst, hexrot, **sw)
    # jacobian at the centre (RA increases to -x)
    h = 1e-3
    z = np.zeros(4)
    X, Y = fwd(np.array([h, -h, 0, 0]), np.array([0, 0, h, -h]))
    J = np.array([[X[0] - X[1], X[2] - X[3]], [Y[0] - Y[1], Y[2] - Y[3]]]) / (2 * h)
    Ji = np.linalg.inv(J)
    u = Ji[0, 0] * x + Ji[0, 1] * y
    v = Ji[1, 0] * x + Ji[1, 1] * y
    for _ in range(n):
        X, Y = fwd(u, v)
        dx, dy = x - X, y - Y
        u, v = u + Ji[0, 0] * dx + Ji[0, 1] * dy, v + Ji[1, 0] * dx + Ji[1, 1] * dy
        if max(np.abs(dx).max(), np.abs(dy).max()) < 1e-14:
            break
    return sky(u, v)


def hadec2xy(ha, dec, tha, tdec):
    """plain projection of HA,Dec on the axes of increasing HA (+x) and Dec (+y) at the telescope"""
    v = unit(np.asarray(ha, float), np.asarray(dec, float))
    t = unit(np.array(float(tha)), np.array(float(tdec)))
    e = np.array([-np.sin(np.radians(tha)), np.cos(np.radians(tha)), 0.])
    return v @ e, v @ np.cross(t, e)


def fieldrot(ra, dec, mjd, lst, hexrot, inst2sky=None, **sw):
    """mean sine of the angle from the sky axes to the instrument axes over a 1 degree cross (degrees)"""
    p = np.arange(4) * np.pi / 2
    x1, y1 = np.append(0., np.radians(np.cos(p))), np.append(0., np.radians(np.sin(p)))
    X, Y = (x1, y1) if inst2sky is None else inst2sky(x1, y1)
    a, d = tan2radec(X, Y, ra, dec, mjd, lst, hexrot, **sw)
    ha = lst - a
    x2, y2 = hadec2xy(ha, d, ha[0], d[0])
    x1, y1, x2, y2 = x1[1:], y1[1:], x2[1:], y2[1:]
    return np.degrees(np.mean((y1 * x2 - x1 * y2) / (np.hypot(x1, y1) * np.hypot(x2, y2))))
