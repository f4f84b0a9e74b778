"""C18: crack geometries, geometry factors and stress intensities."""
from __future__ import annotations

import itertools
import math

import numpy as np
from py_fatigue.damage import crack_growth as cg
from py_fatigue.geometry import HollowCylinder, InfiniteSurface
from py_fatigue.geometry.cylinder import Cylinder, f_hol_cyl_01
from py_fatigue.utils import to_numba_dict

from mcheck.core import Rec, close, must, rejects, require, same
from mcheck.counts import make
from mcheck.curves import paris

_X, _W = np.polynomial.legendre.leggauss(240)
_T = _X * math.pi / 2
_SIN, _JAC = np.sin(_T), np.cos(_T) * _W * math.pi / 2


def _slab(half_width, lo, hi):
    """Zeroth, first and second moment of a region symmetric about y = 0."""
    x = (lo + hi) / 2 + (hi - lo) / 2 * _SIN
    b = 2 * half_width(x) * _JAC * (hi - lo) / 2
    return np.array([b.sum(), (b * x).sum(), (b * x * x).sum()])


def factor(a, d, t, ratio):
    """Bending stress of the cracked ring over that of the whole one.

    The crack region is integrated numerically: the outer circular segment cut
    off by the chord through the crack tips, plus the region between the chord
    and the circular front through the tips and the deepest point.
    """
    ro = d / 2
    ri = ro - t
    if a >= t:
        return 0.0
    al = ratio * a / ro
    x0 = -ro * math.cos(al)
    tip = ro * math.sin(al)
    deep = -ro + a
    ah = deep - x0
    r = (tip**2 + ah**2) / (2 * ah)
    xc = deep - r
    gone = _slab(lambda x: np.sqrt(np.maximum(ro**2 - x**2, 0)), -ro, x0)
    gone += _slab(lambda x: np.sqrt(np.maximum(r**2 - (x - xc) ** 2, 0)), x0, deep)
    a0 = math.pi * (ro**2 - ri**2)
    i0 = math.pi / 4 * (ro**4 - ri**4)
    area, first, second = np.array([a0, 0.0, i0]) - gone
    q = first / area
    i_net = second - area * q**2
    # the stress is taken a tenth of the chord's distance inside the crack mouth
    at = x0 - q + 0.1 * (ro - x0)
    return -at / i_net * i0 / ro


def convex(a, d, ratio):
    """The crack front is a proper arc, curved to either side of its chord."""
    ro = d / 2
    al = ratio * a / ro
    return al < 3.0 and abs(a - ro * (1 - math.cos(al))) > 0.05 * a


def geometry(a0, d, t, ratio=2.0, h=1000.0, pos="external"):
    return HollowCylinder(
        initial_depth=a0, outer_diameter=d, thickness=t, height=h,
        crack_position=pos, width_to_depth_ratio=ratio,
    )  # fmt: skip


DIAMETERS = (0.0031, 0.9, 10.0, 64.0, 77.7, 101.0, 6000.0, 1.3e7)
WALLS = (0.05, 0.2, 0.5, 0.9)  # of the radius
RATIOS = (0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 4.0)
DEPTHS = (0.01, 0.05, 0.125, 0.25, 0.5, 0.75, 0.9, 0.99)  # of the wall


class Check:
    ID = "C18"
    ASSUMPTIONS = [
        "crack fronts closer than 5 % of the depth to a straight line are left out",
        "agreement of the geometry factor to 1e-6 (closed form with cancellation)",
    ]
    MIN_OUTCOMES = {"narrow": 50, "wide": 50, "through": 100, "refused": 100}

    def bound(self, tier):
        n = 1 if tier == "quick" else 4
        return (
            f"{len(DIAMETERS)} diameters x {len(WALLS)} walls x {len(RATIOS) * n} width "
            f"ratios x {len(DEPTHS) * n} depths of the factor against quadrature of the net"
            " section, on its own, through the intensity function and through the"
            " propagation; every validation boundary of every parameter"
        )

    def tasks(self, tier):
        for d in DIAMETERS:
            for w in WALLS:
                yield ("factors", d, w, 1 if tier == "quick" else 4)
        yield ("flat",)
        yield ("propagated",)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def factors(self, rec, d, wall, fine):
        t = wall * d / 2
        ratios = sorted({r * k / fine for r in RATIOS for k in range(fine, 2 * fine)})
        depths = sorted({x * k / fine for x in DEPTHS for k in range(fine, 2 * fine)})
        for ratio in ratios:
            geo = must(geometry, 0.001 * t, d, t, ratio)
            dct = must(to_numba_dict, geo.__dict__)
            for x in depths + [1.0, 1.5, 3.0]:
                a = t * x
                if x < 1 and not convex(a, d, ratio):
                    continue
                with rec.case(d, t, ratio, a):
                    exp = factor(a, d, t, ratio)
                    close("factor", f_hol_cyl_01(a, dct), exp, rtol=1e-6)
                    close("factor by type", cg.get_geometry_factor(a, "HOL_CYL_01", dct), exp,
                          rtol=1e-6)  # fmt: skip
                    for s in (1.0, 120.0):
                        k, g = must(cg.get_sif, s, a, "HOL_CYL_01", dct)
                        close("intensity", k, s * math.sqrt(math.pi * a) * exp, rtol=1e-6)
                        close("factor with the intensity", g, exp, rtol=1e-6)
                    rec.state((d, t, ratio, a))
                    rec.step(4)
                    rec.trace(4)
                    rec.outcome("through" if x >= 1 else "narrow" if ratio < 1 else "wide")

    def flat(self, rec):
        for a, s in itertools.product(
            (1e-9, 1e-3, 0.5, 1.0, 7.0, 1 / 3, 1e3, 1e12), (0.0, 1e-9, 1.0, 150.0, 1e7)
        ):
            with rec.case("flat", a, s):
                geo = must(InfiniteSurface, initial_depth=a)
                dct = must(to_numba_dict, geo.__dict__)
                close("factor", cg.get_geometry_factor(a, "INF_SUR_00", dct), 1.0)
                k, g = must(cg.get_sif, s, a, "INF_SUR_00", dct)
                close("intensity", k, s * math.sqrt(math.pi * a))
                close("factor", g, 1.0)
                rec.state(("flat", a, s))
                rec.step(2)
                rec.trace(2)

    def propagated(self, rec):
        """Factors and intensities reported while a crack grows."""
        curve = must(paris, 3.0, 1e-9)
        for i, (d, wall, ratio, x) in enumerate(
            itertools.product(DIAMETERS, WALLS, RATIOS, (0.05, 0.5))
        ):
            t = wall * d / 2
            a0 = t * x
            # whole numbers and strings are as good as decimals
            conv = (float, lambda v: int(v) if float(v).is_integer() else v)[i % 2]
            geo = must(geometry, a0, conv(d), conv(t), conv(ratio), h=conv(1000.0))
            s = 1e6 / (math.sqrt(math.pi * a0) * 1e3)
            cc = make([(s, 0.0, 1.0), (s / 2, 0.0, 1.0), (s, 0.0, 0.5)])
            if not convex(a0 * 2, d, ratio):
                continue
            with rec.case("propagated", d, t, ratio, a0):
                out = must(cg.get_crack_growth, cc, curve, geo)
                for a, k, g, sr in zip(out.crack_depth, out.sif, out.geometry_factor, (s, s / 2, s)):
                    exp = factor(a, d, t, ratio)
                    close("factor", g, exp, rtol=1e-6)
                    close("intensity", k, sr * math.sqrt(math.pi * a) * exp, rtol=1e-6)
                    rec.step()
                    rec.trace()

    def reject(self, rec):
        good = dict(a0=1.0, d=100.0, t=10.0, ratio=2.0, h=50.0, pos="external")

        def case(ok, **kw):
            with rec.case("create", kw):
                args = {**good, **kw}
                rec.step()
                rec.trace()
                rec.state(tuple(map(str, args.values())))
                if ok:
                    g = must(geometry, **args)
                    close("parameters",
                          [g.initial_depth, g.outer_diameter, g.thickness,
                           g.width_to_depth_ratio, g.height],
                          [float(args[k]) for k in ("a0", "d", "t", "ratio", "h")])  # fmt: skip
                    same("position", g.crack_position, args["pos"])
                    rec.outcome("accepted")
                else:
                    rejects(f"geometry {kw}", geometry, **args)
                    rec.outcome("refused")

        for d, t, a0 in itertools.product(
            (0.5, 2, 8.0, 100.0), (0.25, 1, 4.0, 49.0, 50.0, 51.0, 100.0), (0.125, 0.25, 1, 4.0, 49.0, 60.0)
        ):
            case(a0 < t < d / 2, a0=a0, t=t, d=d)
        for t in (np.nextafter(50, 0), 50.0, np.nextafter(50, 99), 1.0, np.nextafter(1, 2)):
            case(1 < t < 50, t=float(t))
        for k in ("a0", "d", "t", "ratio", "h"):
            for v in (0.0, -1.0, -1e-9, 0, -5, "x", None, -np.inf, np.nan):
                case(False, **{k: v})
        for p in ("internal", "external"):
            case(True, pos=p)
        for p in ("", "outer", "External", "EXTERNAL", "ext", None, 1, "internal "):
            case(False, pos=p)
        for v in (0.0, -1.0, 0, -3, "x", None, np.nan):
            with rec.case("flat", v):
                rejects("flat surface", InfiniteSurface, initial_depth=v)
                rec.outcome("refused")
                for k in ("initial_depth", "diameter", "height"):
                    rejects("cylinder", Cylinder,
                            **{"initial_depth": 1.0, "diameter": 9.0, "height": 9.0, k: v})  # fmt: skip
                rec.outcome("refused")
        with rec.case("unknown type"):
            dct = to_numba_dict({"initial_depth": 1.0})
            rejects("unknown type", cg.get_geometry_factor, 1.0, "FUL_CYL_00", dct)
            rejects("unknown type", cg.get_geometry_factor, 1.0, "HOL_CYL_00", dct)


CHECK = Check()
