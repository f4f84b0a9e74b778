"""Reference crack propagation and the bounded families it is explored on."""
from __future__ import annotations

import itertools
import math

import numpy as np
from py_fatigue.damage import crack_growth as cg
from py_fatigue.geometry import HollowCylinder, InfiniteSurface
from py_fatigue.utils import to_numba_dict

from mcheck.core import must
from mcheck.counts import make
from mcheck.curves import paris, paris_from_knees

NEAR = 1e-7


class Ambiguous(Exception):
    """A decision hangs on the last digits."""


def _below(x, y):
    if math.isfinite(y) and abs(x - y) <= NEAR * max(abs(y), 1e-300):
        raise Ambiguous
    return x < y


def blocks(n, express):
    """Load steps a row of n cycles is applied in."""
    whole, part = int(n), n - int(n)
    if whole == 0:
        return [n]
    by = 1
    while by * 10 <= whole:
        by *= 10
    by = by if express else whole
    out = [whole // by + 1] * (whole % by) + [whole // by] * (by - whole % by)
    return [float(v) for v in out] + ([part] if part else [])


def steps(rows, express):
    """(stress, cycles) of every load step and the row it belongs to."""
    if max(n for _, n in rows) <= 1:
        return [(s, n, i) for i, (s, n) in enumerate(rows)]
    return [(s, b, i) for i, (s, n) in enumerate(rows) for b in blocks(n, express)]


class Curve:
    def __init__(self, m, c, threshold=0.0, critical=np.inf):
        self.m, self.c, self.threshold, self.critical = m, c, threshold, critical
        self.knees = [
            (c[i] / c[i + 1]) ** (1 / (m[i + 1] - m[i])) for i in range(len(m) - 1)
        ]

    def build(self, **kw):
        return must(paris, list(self.m), list(self.c), self.threshold, self.critical, **kw)

    def rate(self, k):
        j = sum(k > x for x in self.knees)
        return self.c[j] * k ** self.m[j]


class Flat:
    def __init__(self, a0):
        self.a0 = a0

    def build(self):
        return must(InfiniteSurface, initial_depth=self.a0)

    def factor(self, a):
        return 1.0


class Tube:
    """External crack in a hollow cylinder; its factor is decided by C18."""

    def __init__(self, a0, d, t, ratio=2.0):
        self.a0, self.d, self.t, self.ratio = a0, d, t, ratio

    def build(self):
        g = must(
            HollowCylinder, initial_depth=self.a0, outer_diameter=self.d, thickness=self.t,
            height=100.0, crack_position="external", width_to_depth_ratio=self.ratio,
        )  # fmt: skip
        self.dct = to_numba_dict(g.__dict__)
        return g

    def factor(self, a):
        if not _below(a, self.t):
            return 0.0
        return float(cg.get_geometry_factor(a, "HOL_CYL_01", self.dct))


def propagate(load, curve, geo):
    """States at the start of every completed step, and why it ended."""
    a = geo.a0
    depth, sif, fac = [], [], []
    for s, n, _ in load:
        y = geo.factor(a)
        if y == 0:
            return depth, sif, fac, "through"
        k = s * math.sqrt(math.pi * a) * y
        if not _below(k, curve.critical):
            return depth, sif, fac, "critical"
        nxt = a
        if not (curve.threshold > 0 and _below(k, curve.threshold)):
            nxt = a + curve.rate(k) * n
            if not _below(nxt / a, 10.0):
                return depth, sif, fac, "burst"
        depth.append(a)
        sif.append(k)
        fac.append(y)
        a = nxt
    return depth, sif, fac, "none"


CURVES = {
    "single": Curve((3.0,), (1e-9,)),
    "limited": Curve((3.0,), (1e-9,), 60.0, 900.0),
    "knee": Curve(*paris_from_knees((300.0,), (2.0, 4.0), 2e-7), 40.0, 1500.0),
    "knees": Curve(*paris_from_knees((150.0, 500.0), (3.0, 2.0, 5.0), 3e-9), 20.0, 2000.0),
    "fast": Curve((3.0,), (4e-8,), 10.0, 3000.0),
}
# more segments, very slow and very fast growth
WIDE_CURVES = {
    "four": Curve(*paris_from_knees((100.0, 300.0, 700.0), (2.0, 3.0, 4.0, 5.0), 1e-7), 10.0, 3000.0),
    "six": Curve(*paris_from_knees((60.0, 120.0, 300.0, 500.0, 900.0),
                                   (5.0, 3.0, 2.5, 4.0, 3.0, 6.0), 1e-12), 0.0, 5000.0),
    "slow": Curve((3.0,), (1e-17,)),
    "slower": Curve((2.0,), (1e-24,), 1.0, 1e9),
    "steep": Curve((11.0,), (1e-33,), 20.0, 4000.0),
    "shallow": Curve((0.5,), (1e-3,)),
}  # fmt: skip
SHAPES = {
    "flat": Flat(1.0),
    "deep": Flat(8.0),
    "tube": Tube(1.0, 100.0, 10.0),
    "thin": Tube(1.0, 60.0, 1.25, 3.0),
    "narrow": Tube(2.0, 100.0, 8.0, 0.5),
}
WIDE_SHAPES = {
    "speck": Flat(1e-6),
    "huge": Flat(3e4),
    "odd": Tube(1.25, 77.7, 9.3, 1.7),
    "monopile": Tube(0.5, 8001.5, 79.9, 4.5),
    "needle": Tube(0.0125, 0.9, 0.11, 0.9),
}
STRESS = (0.0, 30.0, 120.0, 400.0)
CYCLES = (0.5, 1.0, 2.5, 12.0, 137.0, 1000.25)
ROWS = list(itertools.product(STRESS, CYCLES))
MIX = [(120.0, 0.5), (300.0, 1.0), (30.0, 1.5), (200.0, 2.0)]
# on and around the powers of ten blocks are made of
POWERS = [float(10**k + d) for k in (1, 2, 3) for d in (-1, -0.5, 0, 0.5, 1)] + [9999.5, 1e4]
FEW = list(itertools.product((30.0, 120.0, 300.0), (0.5, 1.0, 7.0, 31.5)))


def spectra(tier):
    yield from ((r,) for r in ROWS)
    yield from itertools.product(ROWS, repeat=2)
    yield from itertools.product(FEW, repeat=3)
    yield from itertools.product(MIX, repeat=4)
    if tier != "quick":
        yield from itertools.product(FEW[::2], repeat=4)
        yield from itertools.product(ROWS[::2], repeat=3)


def wide():
    """(spectrum, curves, shapes) out of the common ranges."""
    some = [
        ((500.0, 1.0), (20.0, 1.0), (900.0, 0.5), (300.0, 1.0)),
        ((40.0, 3.0), (350.0, 12.5), (5.0, 100.0), (120.0, 7.0)),
        ((1e-3, 1000.0), (1.0, 500.0), (75.5, 1234.0)),
        ((250.0, 25.0), (250.0, 25.0), (10.0, 1e3), (480.0, 0.25)),
        ((1e-9, 1.0), (1e3, 1.0), (2e4, 1.0), (1e5, 1.0)),
        ((300.0, 99.0), (0.0, 5.0), (299.0, 101.0), (0.01, 999.0), (310.0, 10.0)),
    ]
    curves = {**CURVES, **WIDE_CURVES}
    shapes = {**SHAPES, **WIDE_SHAPES}
    for tab in some:
        for ck, gk in itertools.product(curves, shapes):
            if ck in WIDE_CURVES or gk in WIDE_SHAPES:
                yield tab, ck, gk


def count(rows, **kw):
    return make([(s, s / 2, n) for s, n in rows], **kw)
