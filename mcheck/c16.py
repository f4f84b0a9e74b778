"""C16: crack propagation against the Paris recurrence."""
from __future__ import annotations

import itertools
import math

import numpy as np
from py_fatigue.damage import crack_growth as cg
from py_fatigue.geometry import HollowCylinder
from py_fatigue.geometry.cylinder import Cylinder

from mcheck.core import Rec, arr, close, must, rejects, require, same
from mcheck.counts import from_signal, make, rows, snapshot, unchanged
from mcheck.growth import (
    CURVES, POWERS, SHAPES, WIDE_CURVES, WIDE_SHAPES, Ambiguous, Curve, Flat, count, propagate, spectra,
    steps, wide,
)  # fmt: skip


def agree(out, load, exp, geo):
    depth, sif, fac, why = exp
    same("failure", bool(out.failure), why != "none")
    same("number of completed steps", len(arr(out.crack_depth)), len(depth))
    close("depths", out.crack_depth, depth)
    close("intensities", out.sif, sif)
    close("factors", out.geometry_factor, fac)
    done = sum(n for _, n, _ in load[: len(depth)])
    close("cycles", out.final_cycles, done)
    require("depths never decrease", (np.diff(arr(out.crack_depth)) >= 0).all())
    close("all load steps", arr(out.count_cycle).sum(), sum(n for _, n, _ in load))


class Check:
    ID = "C16"
    ASSUMPTIONS = [
        "the geometry factor of the tube is taken from the library (decided by C18)",
        "loads whose outcome hangs on a relative difference below 1e-7 are left out",
    ]
    MIN_OUTCOMES = {"none": 1000, "through": 100, "critical": 100, "burst": 50,
                    "dormant": 500, "express": 500, "refused": 20}  # fmt: skip

    def bound(self, tier):
        return (
            "all spectra of one or two of 24 (stress, cycles) rows and three of 12"
            f"{'' if tier == 'quick' else ', three of 12 more and four of 6'}, over"
            f" {len(CURVES)} curves and {len(SHAPES)} geometries (quick: each spectrum"
            " meets every curve or every geometry in rotation), normal and express;"
            " 6 spectra over 6 further curves of up to six segments and 5 further geometries of"
            " many magnitudes; grid of intensities around every limit; histories of up to 5000 rows; integer, single precision and strided counts; unit and geometry refusals"
        )

    def tasks(self, tier):
        for i in range(32):
            yield ("loads", tier, i, 32)
        yield ("long",)
        yield ("powers",)
        for i in range(6):
            yield ("wide", i, 6)
        yield ("limits",)
        yield ("layouts",)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        self.curves = {k: c.build() for k, c in (CURVES | WIDE_CURVES).items()}
        self.shapes = {k: g.build() for k, g in (SHAPES | WIDE_SHAPES).items()}
        getattr(self, kind)(rec, *a)

    def _one(self, rec, tab, ck, gk, express, cc=None):
        curve, geo = (CURVES | WIDE_CURVES)[ck], (SHAPES | WIDE_SHAPES)[gk]
        with rec.case(tab[:8], len(tab), ck, gk, express, cc is None):
            cc = count(tab) if cc is None else cc
            load = steps(tab, express)
            try:
                exp = propagate(load, curve, geo)
            except Ambiguous:
                rec.outcome("ambiguous")
                return
            snap = snapshot(cc)
            out = must(cg.get_crack_growth, cc, self.curves[ck], self.shapes[gk], express)
            agree(out, load, exp, geo)
            unchanged("propagation", cc, snap)
            rec.state((tab, ck, gk, express))
            rec.step(len(load))
            rec.trace()
            rec.outcome(exp[3])
            if any(k < curve.threshold for k in exp[1]):
                rec.outcome("dormant")
            if express:
                rec.outcome("express")

    def loads(self, rec, tier, i, n):
        pairs = list(itertools.product(CURVES, SHAPES))
        every = 1 if tier != "quick" else 8
        for q, tab in enumerate(itertools.islice(spectra(tier), i, None, n)):
            for j, (ck, gk) in enumerate(pairs):
                for express in (False, True):
                    if express and max(v for _, v in tab) < 10:
                        continue
                    if len(tab) == 1 or (q + j + express) % every == 0:
                        self._one(rec, tab, ck, gk, express)

    def powers(self, rec):
        """Numbers of cycles on and around the powers of ten."""
        for n, ck, gk in itertools.product(POWERS, CURVES, ("flat", "tube")):
            for tab in (((60.0, n),), ((20.0, n), (120.0, 2.0))):
                self._one(rec, tab, ck, gk, True)

    def long(self, rec):
        """Longer unclustered histories and a counted signal."""
        base = [(60.0, 1.0), (250.0, 0.5), (150.0, 1.0), (0.0, 0.5), (300.0, 1.0)]
        for n in (50, 400):
            tab = tuple(base[(j * j + j // 3) % 5] for j in range(n))
            for ck, gk in itertools.product(CURVES, SHAPES):
                self._one(rec, tab, ck, gk, False)
        # many rows of many-digit stresses, clustered and not
        for n, top in itertools.product((130, 1000, 5000), (1, 4)):
            tab = tuple((10.0 + j * 37 % 263 / 3, (1 + j % top) / (1 + j % 2)) for j in range(n))
            for ck, gk in itertools.product(CURVES, ("flat", "tube")):
                self._one(rec, tab, ck, gk, n == 1000)
        for tab in (((150.0, 20000.0), (180.0, 4e4)), ((80.0, 123456.0), (300.0, 99999.5))):
            for ck, gk in itertools.product(CURVES, SHAPES):
                self._one(rec, tab, ck, gk, True)
        tab = ((150.0, 20000.0), (180.0, 4e4))
        for ck in CURVES:
            self._one(rec, tab, ck, "flat", False)
        x = [0, 120, -60, 200, 10, 180, -90, 150, 20, 260, -120, 0]
        cc = must(from_signal, x)
        tab = tuple((r, w) for r, _, w in rows(cc).tolist())
        for ck, gk in itertools.product(CURVES, SHAPES):
            self._one(rec, tab, ck, gk, False, cc)

    def wide(self, rec, i, n):
        """Curves of up to six segments, growth rates and sizes of many magnitudes."""
        for tab, ck, gk in itertools.islice(wide(), i, None, n):
            for express in (False, True):
                self._one(rec, tab, ck, gk, express)

    def layouts(self, rec):
        """Counts holding whole numbers or views of other arrays."""
        tabs = [t for k in (1, 2, 3) for t in itertools.product(
            ((30.0, 1.0), (120.0, 1.0), (400.0, 1.0), (120.0, 6.0)), repeat=k)]  # fmt: skip
        views = {
            "whole": lambda v: v.astype(int),
            "single": lambda v: v.astype("float32"),
            "strided": lambda v: np.repeat(v, 2)[::2],
            "reversed": lambda v: v[::-1].copy()[::-1],
        }
        for (name, view), (q, tab) in itertools.product(views.items(), enumerate(tabs)):
            s = np.array([r for r, _ in tab])
            n = np.array([v for _, v in tab])
            cc = make([(r, r / 2, v) for r, v in tab], stress_range=view(s), count_cycle=view(n))
            ck, gk = list(CURVES)[q % len(CURVES)], list(SHAPES)[q % len(SHAPES)]
            self._one(rec, tab, ck, gk, False, cc)

    def limits(self, rec):
        """Intensities just below, between and above every limit of every curve."""
        a0 = 2.0
        for (ck, curve), rel in itertools.product(
            (CURVES | WIDE_CURVES).items(), (1 - 1e-3, 1 - 1e-5, 1 + 1e-5, 1 + 1e-3)
        ):
            ks = [curve.threshold, *curve.knees, curve.critical]
            for k in [v for v in ks if v > 0 and math.isfinite(v)]:
                s = k * rel / math.sqrt(math.pi * a0)
                for n in (1.0, 0.5, 3.0):
                    tab = ((s, n), (s * 1.5, n), (s, 1.0))
                    with rec.case("limit", ck, k, rel, n):
                        geo = Flat(a0)
                        load = steps(tab, False)
                        try:
                            exp = propagate(load, curve, geo)
                        except Ambiguous:
                            continue
                        out = must(cg.get_crack_growth, count(tab), self.curves[ck], geo.build())
                        agree(out, load, exp, geo)
                        rec.state(("limit", ck, k, rel, n))
                        rec.step(len(load))
                        rec.trace()
                        rec.outcome(exp[3])
                        # the rate reported on its own is that of the step
                        rate, kk, _ = must(lambda: out.calc_growth_rate(s, a0))
                        close("intensity of the rate", kk, k * rel)
                        close("rate", rate,
                              0.0 if k * rel < curve.threshold
                              else np.inf if k * rel > curve.critical
                              else curve.rate(k * rel))  # fmt: skip
        # intensities reported by one run are the limits of the next
        for s, n, gk in itertools.product((30.0, 120.0), (1.0, 3.0, 0.5), SHAPES):
            with rec.case("reached", s, n, gk):
                geo, cc = self.shapes[gk], count(((s, n), (s, n), (s, 1.0)))
                free = must(cg.get_crack_growth, cc, Curve((3.0,), (1e-9,)).build(), geo)
                sif = arr(free.sif)
                for j in range(len(sif)):
                    if j and sif[j] == sif[j - 1]:
                        continue
                    k = float(sif[j])
                    at = must(cg.get_crack_growth, cc, Curve((3.0,), (1e-9,), 0.0, k).build(), geo)
                    require("failure at the critical intensity", bool(at.failure))
                    same("steps before the critical one", len(arr(at.crack_depth)), j)
                    on = must(cg.get_crack_growth, cc, Curve((3.0,), (1e-9,), k).build(), geo)
                    require("no failure at the threshold", not on.failure)
                    grown = np.diff(arr(on.crack_depth)) > 0
                    # a crack asleep stays at its depth, so only the first step can wake it
                    same("growth at the threshold", bool(grown.any()), j == 0)
                    rec.state(("reached", s, n, gk, j))
                    rec.step(2 * len(sif))
                    rec.trace(2)
                    rec.outcome("critical")
        # ending exactly at the tenfold growth, from both sides
        for c, n in itertools.product((1e-3, 1e-2), (1.0, 7.0)):
            for rel in (0.99, 0.999999, 1.000001, 1.01):
                with rec.case("tenfold", c, n, rel):
                    curve, geo = Curve((2.0,), (c,)), Flat(1.0)
                    s = math.sqrt(9.0 * rel / (c * math.pi))
                    s = s / math.sqrt(n) if n == 1 else s
                    tab = ((s, n), (s / 100, 1.0))
                    load = steps(tab, False)
                    exp = propagate(load, curve, geo)
                    out = must(cg.get_crack_growth, count(tab), curve.build(), geo.build())
                    agree(out, load, exp, geo)
                    rec.outcome(exp[3])
                    rec.step(len(load))
                    rec.trace()

    def reject(self, rec):
        flat = self.shapes["flat"]
        for u, v in itertools.product(
            ("MPa", "ksi", "psi", "kPa", "Pa"), ("MPa √mm", "MPa √m", "ksi √in", "psi √in")
        ):
            with rec.case("unit", u, v):
                curve = CURVES["single"].build(unit_string=v)
                cc = count(((100.0, 1.0), (50.0, 3.0)), unit=u)
                rec.step()
                rec.trace()
                rec.state((u, v))
                if v.startswith(u):
                    must(cg.get_crack_growth, cc, curve, flat)
                else:
                    rejects("unit mismatch", cg.get_crack_growth, cc, curve, flat)
                    rec.outcome("refused")
                    for d in (cc * 2, cc + cc):
                        rejects("unit mismatch", cg.get_crack_growth, d, curve, flat)
                        rec.outcome("refused")
        inner = must(
            HollowCylinder, initial_depth=1.0, outer_diameter=100.0, thickness=10.0,
            height=100.0, crack_position="internal",
        )  # fmt: skip
        solid = must(Cylinder, initial_depth=1.0, diameter=100.0, height=100.0)
        for g in (inner, solid):
            for n in (0.5, 1.0, 30.0):
                with rec.case("geometry", type(g).__name__, n):
                    cc = count(((100.0, n),))
                    rejects("geometry", cg.get_crack_growth, cc, self.curves["single"], g)
                    rejects("geometry", lambda: cc.to_df().cg.calc_growth(self.curves["single"], g))
                    rec.outcome("refused")
                    rec.trace(2)
                    rec.step(2)


CHECK = Check()
