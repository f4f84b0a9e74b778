"""C13: linear damage, equivalent stress and moment, shift factors."""
from __future__ import annotations

import itertools
import math

import numba
import numpy as np
import pandas as pd
from py_fatigue.damage import stress_life as sl

from mcheck.core import Rec, arr, close, must, rejects, require, same
from mcheck.counts import make
from mcheck.curves import life, sn, sn_ordered

CURVES = [
    ((3.0,), (12.0,), np.inf),
    ((5.0,), (13.617,), 1e8),
    (*sn_ordered((64.0,), (3.0, 5.0), 12.0), np.inf),
    (*sn_ordered((64.0,), (3.0, 5.0), 12.0), 1e7),
    (*sn_ordered((150.0, 40.0), (2.0, 4.0, 7.0), 11.0), 5e9),
]
RANGES = (0.0, 2.0, 20.0, 39.0, 64.0, 100.0, 300.0)
WEIGHTS = (0.5, 1.0, 3.0, 1000.0, 2.5)
ROWS = list(itertools.product(RANGES, WEIGHTS))
SLOPES = (1.0, 2, 3.0, 4.5, 5, 0.5, 12.0)
NEQ = (1.0, 1e6, 1e7, 123)


def spectra(tier):
    yield from ((r,) for r in ROWS)
    yield from itertools.product(ROWS, repeat=2)
    small = [r for r in ROWS if r[0] in (2.0, 39.0, 64.0, 300.0) and r[1] in (0.5, 3.0, 1000.0)]
    yield from itertools.product(small, repeat=3)
    if tier != "quick":
        yield from itertools.product(small[::2], repeat=4)


class Check:
    ID = "C13"
    ASSUMPTIONS = ["moments are in Nm for radii in m and stresses in MPa"]
    MIN_OUTCOMES = {"damage": 1000, "endurance": 500, "grouping": 500, "refused": 30}

    def bound(self, tier):
        return (
            f"all ordered spectra of one or two of {len(ROWS)} (range, weight) rows and"
            f" three{'' if tier == 'quick' else ' or four'} of 12, {len(CURVES)} curves, "
            f"{len(SLOPES)} slopes and {len(NEQ)} equivalent cycle numbers, through the"
            " array, count and table interfaces; every permutation and every way of"
            " splitting or merging rows of spectra of up to four rows; stresses from"
            " 1e-6 to 1e6, weights from 1e-3 to 1e9 and spectra of up to 20000 rows"
        )

    def tasks(self, tier):
        for i in range(32):
            yield ("damage", tier, i, 32)
        for i in range(8):
            yield ("grouping", i, 8)
        yield ("wide",)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        numba.set_num_threads(1)
        self.sns = [must(sn, *c) for c in CURVES]
        getattr(self, kind)(rec, *a)

    def damage(self, rec, tier, i, n):
        for q, tab in enumerate(itertools.islice(spectra(tier), i, None, n)):
            s = np.array([r for r, _ in tab])
            w = np.array([v for _, v in tab])
            cc = make([(r, 1.0 + r, v) for r, v in tab])
            df0 = must(cc.to_df)
            for k, c in enumerate(CURVES):
                with rec.case(tab, k):
                    exp = w / life(s, *c)
                    close("array damage", must(sl.calc_pm, s, w, self.sns[k]), exp, atol=1e-300)
                    close("count damage", must(sl.get_pm, cc, self.sns[k]), exp, atol=1e-300)
                    if (q + k) % 5 == 0:
                        df = must(cc.to_df)
                        out = must(lambda: df.miner.damage(self.sns[k]))
                        close("table damage", out["pm_damage"], exp, atol=1e-300)
                        close("table lives", out["cycles_to_failure"], life(s, *c))
                        close("table list damage",
                              must(sl.calc_pm, list(s), pd.Series(w), self.sns[k]), exp,
                              atol=1e-300)  # fmt: skip
                        close("equivalent stress after damage",
                              must(lambda: df.miner.des(3, 1e6)),
                              math.fsum(s**3 * w / 1e6) ** (1 / 3))  # fmt: skip
                    rec.state((tab, k))
                    rec.step(3)
                    rec.trace(3)
                    rec.outcome("damage")
                    if (exp == 0).any():
                        rec.outcome("endurance")
            for j, (m, neq) in enumerate(itertools.product(SLOPES, NEQ)):
                if (q + j) % 3:
                    continue
                with rec.case(tab, m, neq):
                    exp = math.fsum(s**m * w / neq) ** (1 / m)
                    close("array DES", must(sl.calc_des, s, w, m, neq), exp)
                    close("count DES", must(sl.get_des, cc, m, neq), exp)
                    close("table DES", must(lambda: df0.miner.des(m, neq)), exp)
                    # applied neq times it does the same damage on a single slope
                    c = must(sn, float(m), 12.0)
                    if exp > 0:
                        d0 = math.fsum(arr(must(sl.calc_pm, s, w, c)).tolist())
                        d1 = float(arr(must(sl.calc_pm, exp, neq, c))[0])
                        close("same damage", d1, d0)
                    for ro, ri in (((2.0, 1.5), (3.0, 0.0)), ((0.5, 0.0), (0.0625, 0.0615)))[q % 2]:
                        z = math.pi / 4 * (ro**4 - ri**4) / ro
                        close("array DEM", must(sl.calc_dem, ro, ri, s, w, m, neq), exp * z * 1e6)
                        close("count DEM", must(sl.get_dem, ro, ri, cc, m, neq), exp * z * 1e6)
                        close("table DEM", must(lambda: df0.miner.dem(ro, ri, m, neq)),
                              exp * z * 1e6)  # fmt: skip
                    if max(s) > 0 and j % 2 == 0:
                        g = must(lambda: cc.to_df().gassner.g(c))["shift_factor"]
                        close("shift factors", g, w / w.sum() * (s / max(s)) ** m)
                        own = float(must(sl.calc_des, s, w, m, float(w.sum())))
                        close("shift factor from DES", arr(g).sum(), (own / max(s)) ** m)
                    rec.step(9)
                    rec.trace(9)
            with rec.case(tab, "defaults"):
                exp = math.fsum(s**3 * w / 1e7) ** (1 / 3)
                close("default DES", must(sl.calc_des, s, w, 3), exp)
                close("default DES", must(sl.get_des, cc, 3), exp)
                close("default DES", must(lambda: df0.miner.des(3)), exp)
                z = math.pi / 4 * (2.0**4 - 1.0) / 2.0 * 1e6
                close("default DEM", must(sl.get_dem, 2.0, 1.0, cc, 3), exp * z)
                close("default DEM", must(lambda: df0.miner.dem(2.0, 1.0, 3)), exp * z)

    def grouping(self, rec, i, n):
        rows = [(20.0, 1.0), (20.0, 3.0), (64.0, 0.5), (300.0, 2.5), (2.0, 1000.0)]
        combos = [c for k in (2, 3, 4) for c in itertools.combinations(rows, k)]
        for tab in combos[i::n]:
            for k, c in enumerate(CURVES):
                for perm in itertools.permutations(tab):
                    for cut in range(1, len(perm)):
                        with rec.case(perm, cut, k):
                            tot = lambda t: math.fsum(  # noqa: E731
                                arr(
                                    must(sl.calc_pm, [r for r, _ in t], [v for _, v in t],
                                         self.sns[k])
                                ).tolist()
                            )  # fmt: skip
                            whole = tot(tab)
                            close("order", tot(perm), whole, atol=1e-300)
                            close("grouping", tot(perm[:cut]) + tot(perm[cut:]), whole,
                                  atol=1e-300)  # fmt: skip
                            merged = {}
                            for r, v in perm:
                                merged[r] = merged.get(r, 0) + v
                            close("merging", tot(tuple(merged.items())), whole, atol=1e-300)
                            split = [(r, v / 4) for r, v in perm for _ in range(4)]
                            close("splitting", tot(split), whole, atol=1e-300)
                            a = make([(r, 0, v) for r, v in perm[:cut]], 0)
                            b = make([(r, 5, v) for r, v in perm[cut:]], 1)
                            got = must(lambda: sl.get_pm(a + b, self.sns[k]))
                            close("added counts", math.fsum(arr(got).tolist()), whole,
                                  atol=1e-300)  # fmt: skip
                            rec.state((perm, cut, k))
                            rec.step(5)
                            rec.trace(5)
                            rec.outcome("grouping")

    def wide(self, rec):
        """Stresses and weights of every magnitude, and long spectra."""
        sizes = [10.0**e for e in range(-6, 7)]
        weights = [10.0**e for e in (-3, 0, 4, 9)]
        specs = [((s, v), (t, u)) for s, t in itertools.product(sizes, repeat=2)
                 for v, u in ((1.0, 1e6), (0.5, 1e-3))]  # fmt: skip
        specs += [((s, v),) for s, v in itertools.product(sizes, weights)]
        specs += [tuple(ROWS[(j * 7 + n) % len(ROWS)] for j in range(n)) for n in (8, 9, 64, 500, 3000)]
        specs += [tuple((10.0 + j * 37 % 263 / 3, 0.5 + j * 11 % 17 / 7) for j in range(n))
                  for n in (40, 300, 20000)]  # fmt: skip
        for q, tab in enumerate(specs):
            s, w = np.array([r for r, _ in tab]), np.array([v for _, v in tab])
            cc = make([(r, 1.0 + r, v) for r, v in tab])
            with rec.case(tab[:4], len(tab)):
                for k, c in enumerate(CURVES):
                    exp = w / life(s, *c)
                    close("array damage", must(sl.calc_pm, s, w, self.sns[k]), exp, atol=1e-300)
                    close("count damage", must(sl.get_pm, cc, self.sns[k]), exp, atol=1e-300)
                    out = must(lambda: cc.to_df().miner.damage(self.sns[k]))
                    close("table damage", out["pm_damage"], exp, atol=1e-300)
                for m in SLOPES:
                    exp = math.fsum(s**m * w / 1e6) ** (1 / m)
                    close("array DES", must(sl.calc_des, s, w, m, 1e6), exp)
                    close("count DES", must(sl.get_des, cc, m, 1e6), exp)
                    g = must(lambda: cc.to_df().gassner.g(must(sn, float(m), 12.0)))["shift_factor"]
                    close("shift factors", g, w / w.sum() * (s / max(s)) ** m, atol=1e-300)
                rec.state((tab[:4], len(tab)))
                rec.step(2 * len(SLOPES) + 3 * len(CURVES))
                rec.trace(2 * len(SLOPES) + 3 * len(CURVES))
                rec.outcome("damage")

    def reject(self, rec):
        units = ("MPa", "ksi", "psi", "mpa", "")
        for u, v in itertools.product(units, repeat=2):
            cc = make([(20.0, 1.0, 1.0), (50.0, 0.0, 0.5)], unit=u)
            c = must(sn, 3.0, 12.0, unit_string=v)
            with rec.case("unit", u, v):
                rec.step(2)
                rec.trace(2)
                rec.state((u, v))
                if u == v:
                    close("same unit", must(sl.get_pm, cc, c),
                          [1 / life(20, (3,), (12,)), 0.5 / life(50, (3,), (12,))])  # fmt: skip
                    must(lambda: cc.to_df().miner.damage(c))
                else:
                    rejects("unit mismatch", sl.get_pm, cc, c, kinds=ValueError)
                    rejects("unit mismatch", lambda: cc.to_df().miner.damage(c), kinds=ValueError)
                    rec.outcome("refused")
                    # derived counts keep their unit, so the guard still holds
                    for d in (cc * 2, cc + cc, cc.solve_lffd()):
                        rejects("unit mismatch of derived count", sl.get_pm, d, c)
        for ro, ri in ((1.0, 1.0), (1.0, 2.0), (0.5, 0.6)):
            with rec.case("radii", ro, ri):
                rejects("radii", sl.calc_dem, ro, ri, [1.0], [1.0], 3)
                cc = make([(20.0, 1.0, 1.0)])
                rejects("radii", sl.get_dem, ro, ri, cc, 3)
                rejects("radii", lambda: cc.to_df().miner.dem(ro, ri, 3))
                rec.outcome("refused")
                rec.trace(3)
        for a, b in itertools.product(range(1, 5), repeat=2):
            if a != b:
                with rec.case("lengths", a, b):
                    x, y = np.ones(a), np.ones(b)
                    rejects("lengths", sl.calc_pm, x, y, self.sns[0])
                    rejects("lengths", sl.calc_des, x, y, 3.0)
                    rejects("lengths", sl.calc_dem, 2.0, 1.0, x, y, 3.0)
                    rec.outcome("refused")
                    rec.trace(3)
        with rec.case("gassner"):
            cc = make([(20.0, 1.0, 1.0)])
            rejects("shift factor of a bilinear curve", lambda: cc.to_df().gassner.g(self.sns[2]))


CHECK = Check()
