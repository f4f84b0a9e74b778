"""Reference S-N and Paris curves, and finite families of them."""
from __future__ import annotations

import itertools
import math

import numpy as np
from py_fatigue import SNCurve
from py_fatigue.material.crack_growth_curve import ParisCurve

L10 = math.log(10.0)


def sn(slope, intercept, endurance=np.inf, **kw):
    kw.setdefault("color", "k")
    return SNCurve(slope, intercept, endurance, "Air", "C", "N", **kw)


def paris(slope, intercept, threshold=0.0, critical=np.inf, **kw):
    kw.setdefault("color", "k")
    return ParisCurve(slope, intercept, threshold, critical, "Air", "C", "N", **kw)


# -- S-N model ------------------------------------------------------------
def log_life(s, m, a):
    """Natural log of the cycles to failure, before the endurance."""
    s = np.asarray(s, float)
    with np.errstate(divide="ignore"):
        ls = np.log(s)
    return np.max([aj * L10 - mj * ls for mj, aj in zip(m, a)], axis=0)


def life(s, m, a, endurance=np.inf):
    with np.errstate(over="ignore"):
        n = np.exp(log_life(s, m, a))
    return np.where(n > endurance, np.inf, n)


def strength(n, m, a, endurance=np.inf):
    n = np.minimum(np.asarray(n, float), endurance)
    with np.errstate(divide="ignore"):
        ln = np.log(n)
    return np.exp(np.max([(aj * L10 - ln) / mj for mj, aj in zip(m, a)], axis=0))


def knee_stress(m, a):
    return [
        10 ** ((a[j] - a[j + 1]) / (m[j] - m[j + 1])) for j in range(len(m) - 1)
    ]


def knee_cycles(m, a):
    return [10 ** a[j] * k ** -m[j] for j, k in enumerate(knee_stress(m, a))]


def ordered(m, a):
    """Segments listed from high to low stress, each governing somewhere."""
    k = knee_stress(m, a)
    return all(x < y for x, y in zip(m, m[1:])) and all(x > y for x, y in zip(k, k[1:]))


SLOPES = (1.0, 2.0, 3.0, 4.5, 5.0, 7.0)
INTERCEPTS = (10.0, 11.5, 12.0, 13.617, 16.0)


def sn_params(nseg):
    """All slope/intercept combinations without parallel neighbours."""
    for m in itertools.product(SLOPES, repeat=nseg):
        if any(x == y for x, y in zip(m, m[1:])):
            continue
        for a in itertools.product(INTERCEPTS, repeat=nseg):
            yield m, a


def sn_ordered(knees, slopes, a0):
    """Continuous curve with the given knee stresses (descending)."""
    a = [a0]
    for k, m0, m1 in zip(knees, slopes, slopes[1:]):
        a.append(a[-1] + (m1 - m0) * math.log10(k))
    return tuple(slopes), tuple(a)


def wide_params():
    """Single segments with extreme parameters, and many segments."""
    for m, a in itertools.product((0.25, 1.0, 3.0, 12.0, 40.0), (-6.0, 0.0, 12.0, 30.0, 80.0)):
        yield (m,), (a,)
    knees = (1000.0, 450.0, 200.0, 90.0, 40.0, 11.0, 3.0)
    slopes = (1.5, 2.0, 3.0, 4.0, 5.0, 7.0, 9.0, 20.0)
    for n in (5, 6, 7, 8):
        m, a = sn_ordered(knees[: n - 1], slopes[:n], 11.0)
        yield m, a
        yield m[::-1], a[::-1]
        for r in range(1, n):
            yield m[r:] + m[:r], a[r:] + a[:r]
        yield sn_ordered(knees[-(n - 1) :], slopes[-n:], 14.0)


def stress_points(m, a, endurance=np.inf):
    pts = [2.0**k for k in range(-6, 13)] + [0.3, 7.0, 52.63, 83.4, 999.0]
    for k in knee_stress(m, a):
        pts += [k * 0.5, k * 0.999, k, k * 1.001, k * 2]
    if endurance < np.inf:
        e = float(strength(endurance, m, a))
        pts += [e * (1 - 1e-6), e * (1 + 1e-6), e / 2, e * 2]
    return np.array(sorted(pts))


# -- Paris model ----------------------------------------------------------
def paris_from_knees(knees, slopes, c0):
    c = [c0]
    for k, m0, m1 in zip(knees, slopes, slopes[1:]):
        c.append(c[-1] * k ** (m0 - m1))
    return tuple(slopes), tuple(c)


def paris_knees(m, c):
    return [(c[j] / c[j + 1]) ** (1 / (m[j + 1] - m[j])) for j in range(len(m) - 1)]


def growth(k, m, c, threshold=0.0, critical=np.inf):
    """Growth rate by segment."""
    k = np.asarray(k, float)
    seg = np.searchsorted(paris_knees(m, c), k, side="right")
    g = np.asarray(c)[seg] * k ** np.asarray(m)[seg]
    return np.where(k < threshold, 0.0, np.where(k > critical, np.inf, g))


def intensity(g, m, c, threshold=0.0, critical=np.inf):
    g = np.asarray(g, float)
    kr = [c[j] * k ** m[j] for j, k in enumerate(paris_knees(m, c))]
    seg = np.searchsorted(kr, g, side="right")
    k = (g / np.asarray(c)[seg]) ** (1 / np.asarray(m)[seg])
    return np.clip(k, threshold, critical)
