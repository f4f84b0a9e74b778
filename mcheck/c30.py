"""C30: the fatigue of a load record, whatever route it is processed by."""
from __future__ import annotations

import itertools
import json
import math

import numba
import numpy as np
import pandas as pd
from py_fatigue import CycleCount
from py_fatigue.cycle_count.cycle_count import pbar_sum
from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage
from py_fatigue.damage.crack_growth import get_crack_growth
from py_fatigue.damage.stress_life import (
    calc_dem, calc_des, calc_pm, get_dem, get_des, get_pm,
)  # fmt: skip

from mcheck.core import Rec, arr, close, must, same
from mcheck.counts import from_signal, stamp
from mcheck.curves import life, sn, sn_ordered
from mcheck.growth import CURVES, SHAPES, Ambiguous, Curve, propagate, steps
from mcheck.model import astm, compositions, de_bruijn, table

# bin settings, name and unit; no cycle is below the bound
SETS = [
    dict(range_bin_lower_bound=0.0, range_bin_width=0.5, mean_bin_lower_bound=-64.25,
         mean_bin_width=1.0),
    dict(name="a"),
    dict(range_bin_lower_bound=0.125, range_bin_width=0.25, mean_bin_width=0.5, unit="kN"),
    dict(range_bin_lower_bound=-0.5, range_bin_width=1.0, mean_bin_lower_bound=-300.0,
         mean_bin_width=20.0, name="b", unit="bar"),
    dict(range_bin_width=3.0, mean_bin_width=7.0),
]  # fmt: skip
BINS = SETS[0]
# endurance and knee stresses lie between the ranges that occur
LIFE = {
    "single": ((3.0,), (6.0,), np.inf),
    "steep": ((5.5,), (9.25,), np.inf),
    "limit": ((4.0,), (7.0,), 10**7.0 * 1.3**-4.0),
    "bent": (*sn_ordered((2.3,), (3.0, 5.0), 6.0), np.inf),
    "bent limit": (*sn_ordered((5.3, 2.7), (3.0, 4.0, 5.0), 6.5), 0.0),
}
LIFE["bent limit"] = (*LIFE["bent limit"][:2], float(life(0.7, *LIFE["bent limit"][:2])))
FACTORS = (2.0, 0.5, 3, 0.3, 2.0**-20, 2.0**20)
SLOPE, CYCLES, OUTER, INNER = 3.5, 2.5e5, 3.0, 2.25
SHIFTS = ((1.0, 8.0), (-1.0, 0.0), (-1.0, -3.0), (1.0, -16.0))
ROUND = dict(damage_tolerance_for_binning=0.0, max_consecutive_zeros=10**6)


def shifted(m, a, end, f):
    """The curve moved along the stress axis by a factor."""
    return m, tuple(aj + mj * math.log10(f) for mj, aj in zip(m, a)), end


def damage(tab, curve):
    t = arr(tab).reshape(-1, 3)
    return math.fsum(t[:, 2] / life(t[:, 0], *curve))


def equivalent(tab):
    return math.fsum(w * r**SLOPE / CYCLES for r, _, w in tab) ** (1 / SLOPE)


def moment(des):
    return math.pi / 4 * (OUTER**4 - INNER**4) * des * 1e6 / OUTER


def cut(x, lengths):
    out, p = [], 0
    for n in lengths:
        out.append(x[p : p + n])
        p += n
    return out


def reread(cc, k, legacy=False):
    """Export at zero tolerance to JSON text and read back."""
    d = json.loads(json.dumps(must(cc.as_dict, legacy_export=legacy, **ROUND)))
    return must(CycleCount.from_rainflow, d, timestamp=stamp(k), name=cc.name, unit=cc.unit)


def fold(ccs):
    out = ccs[0]
    for c in ccs[1:]:
        out = must(lambda: out + c)
    return out


def frame(ccs):
    idx = pd.DatetimeIndex([stamp(k) for k in range(len(ccs))])
    col = np.empty(len(ccs), dtype=object)
    col[:] = ccs
    return pd.DataFrame({"CC_a": col, "v": np.arange(len(ccs), dtype=float)}, index=idx)


def routes(x, lengths, full=True):
    """(name, count) for every way from the record to one count."""
    keys = SETS[(int(abs(sum(x))) + len(x) + len(lengths)) % len(SETS)]
    whole = must(from_signal, x, 0, **keys)
    yield "whole", whole
    yield "whole, read back", reread(whole, 0)
    if full:
        yield "whole, read back twice", reread(reread(whole, 0), 0)
        yield "whole, legacy", reread(whole, 0, True)
    if len(lengths) == 1:
        return
    parts = [must(from_signal, s, k, **keys) for k, s in enumerate(cut(x, lengths))]
    yield "summed", must(fold(parts).solve_lffd)
    yield "summed as a list", must(must(pbar_sum, parts).solve_lffd)
    back = [reread(c, k) for k, c in enumerate(parts)]
    yield "pieces read back", must(fold(back).solve_lffd)
    if full:
        old = [reread(c, k, True) for k, c in enumerate(parts)]
        old = must(fold(old).solve_lffd)
        yield "legacy pieces", old
        yield "sum read back", reread(must(fold(back).solve_lffd), 0)
    agg = must(aggregate_cc, frame(parts), "all")
    yield "aggregated", agg["CC_a"].iloc[0]


class Check:
    ID = "C30"
    ASSUMPTIONS = [
        "every piece varies; levels are dyadic with at most four decimals, so that an"
        " export loses no digits",
        "no cycle is smaller than the range lower bound",
        "endurance, knee, threshold and critical values do not coincide with a cycle",
    ]
    MIN_OUTCOMES = {"cut in 1": 400, "cut in 2": 1000, "cut in 3": 500, "grown": 200,
                    "failed": 20, "corrected": 200, "added": 200}  # fmt: skip

    def bound(self, tier):
        n = 5 if tier == "quick" else 6
        return (
            f"all 4-level signals of length 2..{n} and all orderings of {n + 1} levels, every"
            f" cut into up to 3 varying pieces, ten routes from the record to one count,"
            f" {len(SETS)} settings of bins, name and unit in rotation, five"
            f" S-N curves and ten ways of computing, {len(FACTORS)} factors,"
            f" {len(SHIFTS)} offsets and mirrors; two records appended; crack growth of all"
            " 4-level signals of length 3 and 4 under 5 curves and 3 shapes; de Bruijn and"
            " drifting records of up to 5000 samples in up to 40 pieces"
        )

    def tasks(self, tier):
        n = 5 if tier == "quick" else 6
        for k in range(2, n + 1):
            for p in itertools.product(range(4), repeat=max(0, k - 3)):
                yield ("words", k, list(p))
        for first in range(n + 1):
            yield ("perms", n + 1, first)
        for i in range(8):
            yield ("append", i, 8)
        for ck in CURVES:
            for gk in ("flat", "tube", "thin"):
                yield ("crack", ck, gk)
        for k, m in ((2, 7), (4, 4), (12, 2), (70, 2)):
            yield ("long", k, m)
        for n in (60, 1000, 3000):
            yield ("drift", n)
        yield ("tensile",)

    def run(self, rec: Rec, kind, *a):
        numba.set_num_threads(1)
        getattr(self, kind)(rec, *a)

    # -- one record
    def _values(self, rec, what, cc, tab, names=tuple(LIFE)):
        """Every interface gives the fatigue of the cycles in tab."""
        s, w = arr(cc.stress_range), arr(cc.count_cycle)
        des = equivalent(tab)
        for name in names:
            curve = must(sn, *map(list, LIFE[name][:2]), LIFE[name][2], unit_string=cc.unit)
            exp = damage(tab, LIFE[name])
            close(f"{what}: damage, {name}", np.sum(must(get_pm, cc, curve)), exp, atol=1e-300)
            rec.step()
        close(f"{what}: damage of lists", np.sum(must(calc_pm, s.tolist(), w.tolist(), curve)),
              exp, atol=1e-300)  # fmt: skip
        df = must(cc.to_df)
        df = must(df.miner.damage, curve)
        close(f"{what}: damage of the table", np.sum(df["pm_damage"]), exp, atol=1e-300)
        close(f"{what}: equivalent stress", must(get_des, cc, SLOPE, CYCLES), des)
        close(f"{what}: equivalent stress of arrays", must(calc_des, s, w, SLOPE, CYCLES), des)
        close(f"{what}: equivalent stress of the table", must(df.miner.des, SLOPE, CYCLES), des)
        close(f"{what}: moment", must(get_dem, OUTER, INNER, cc, SLOPE, CYCLES), moment(des))
        close(f"{what}: moment of arrays", must(calc_dem, OUTER, INNER, s, w, SLOPE, CYCLES),
              moment(des))  # fmt: skip
        close(f"{what}: moment of the table", must(df.miner.dem, OUTER, INNER, SLOPE, CYCLES),
              moment(des))  # fmt: skip
        rec.step(8)
        rec.trace()

    def _scaled(self, rec, what, big, tab, f):
        """Scaling the count is moving the curve."""
        close(f"{what} times {f}: equivalent stress", must(get_des, big, SLOPE, CYCLES),
              f * equivalent(tab))  # fmt: skip
        for name, par in LIFE.items():
            m, a, end = shifted(*par, f)
            curve = must(sn, list(m), list(a), end, unit_string=big.unit)
            close(f"{what} times {f}: damage, {name}", np.sum(must(get_pm, big, curve)),
                  damage(tab, par), rtol=1e-8, atol=1e-300)  # fmt: skip
        rec.step(6)
        rec.trace()

    def _record(self, rec, x, lengths, full=True):
        x = [float(v) for v in x]
        tab = table(astm(x)[0])
        some = tuple(LIFE) if full else ("bent limit",)
        for name, cc in routes(x, lengths, full):
            self._values(rec, name, cc, tab, some)
            if name in ("whole", "pieces read back", "aggregated"):
                for f in FACTORS if full else FACTORS[3:5]:
                    self._scaled(rec, name, must(lambda: f * cc), tab, f)
        if len(lengths) > 1:
            # scaled before, while and after adding, then resolved
            parts = [must(from_signal, s, k, **BINS) for k, s in enumerate(cut(x, lengths))]
            f = FACTORS[len(x) % 4]
            early = fold([must(lambda: f * c) for c in parts])
            self._scaled(rec, "scaled pieces", must(early.solve_lffd), tab, f)
            late = must(lambda: fold(parts) * f)
            self._scaled(rec, "scaled sum", must(late.solve_lffd), tab, f)
            self._scaled(rec, "scaled sum read back", must(reread(late, 0).solve_lffd), tab, f)
        rec.outcome(f"cut in {len(lengths)}")

    def _shapes(self, rec, x):
        """The record moved, mirrored or scaled."""
        tab = table(astm(x)[0])
        for f, c in SHIFTS:
            cc = must(from_signal, [f * v + c for v in x], 0, **BINS)
            self._values(rec, f"record times {f} plus {c}", cc, tab, ("bent limit",))
        for f in FACTORS:
            cc = must(from_signal, [f * v for v in x], 0, **BINS)
            close(f"record times {f}: equivalent stress", must(get_des, cc, SLOPE, CYCLES),
                  f * equivalent(tab))  # fmt: skip
            m, a, end = shifted(*LIFE["bent limit"], f)
            close(f"record times {f}: damage", np.sum(must(get_pm, cc, must(sn, list(m), list(a), end))),
                  damage(tab, LIFE["bent limit"]), rtol=1e-8, atol=1e-300)  # fmt: skip

    def _all(self, rec, x):
        n = len(x)
        for k in (1, 2, 3):
            for lengths in compositions(n, k):
                if any(len(set(s)) < 2 for s in cut(x, lengths)):
                    continue
                rec.state((x, lengths))
                with rec.case(x, lengths):
                    self._record(rec, x, lengths, full=k == 1 or n < 5)
        with rec.case("moved", x):
            self._shapes(rec, x)

    def words(self, rec, n, prefix):
        for tail in itertools.product(range(4), repeat=n - len(prefix)):
            x = (*prefix, *tail)
            if len(set(x)) > 1:
                self._all(rec, x)

    def perms(self, rec, m, first):
        for p in itertools.permutations([i for i in range(m) if i != first]):
            x = (first, *p)
            for lengths in ((m,), (m // 2, m - m // 2), (2, 2, m - 4)):
                rec.state((x, lengths))
                with rec.case(x, lengths):
                    self._record(rec, x, lengths, full=False)

    # -- two records
    def append(self, rec, i, n):
        """Without resolution the damages of two records add up."""
        xs = [x for k in (2, 3) for x in itertools.product(range(3), repeat=k) if len(set(x)) > 1]
        for x, y in itertools.islice(itertools.product(xs, xs), i, None, n):
            y = [2.0 * v + 0.5 for v in y]
            tabs = [table(astm(list(map(float, s)))[0]) for s in (x, y)]
            with rec.case("append", x, y):
                a, b = must(from_signal, x, 0, **BINS), must(from_signal, y, 1, **BINS)
                both = must(lambda: a + b)
                self._values(rec, "sum", both, tabs[0] + tabs[1])
                self._scaled(rec, "sum", must(lambda: 3 * both), tabs[0] + tabs[1], 3)
                # an aggregation by period adds the periods' damages
                df = frame([a, b, must(from_signal, x, 2, **BINS)])
                agg = must(aggregate_cc, df, "min")
                curves = [must(sn, list(c[0]), list(c[1]), c[2]) for c in LIFE.values()]
                out = must(calc_aggregated_damage, agg, curves)
                exp = [damage(t, c) for c in LIFE.values() for t in (tabs[0], tabs[1], tabs[0])]
                close("aggregated damage", out["CC_a"].to_numpy(float), exp, atol=1e-300)
                rec.state((x, tuple(y)))
                rec.outcome("added")

    # -- crack growth
    def crack(self, rec, ck, gk):
        curve, shape = CURVES[ck], SHAPES[gk]
        geo = shape.build()
        for n in (3, 4):
            for w in itertools.product((0.0, 40.0, 150.0, 400.0), repeat=n):
                if len(set(w)) < 2:
                    continue
                tab = table(astm(list(w))[0])
                load = steps([(r, c) for r, _, c in tab], False)
                try:
                    depth, sif, _, why = propagate(load, curve, shape)
                except Ambiguous:
                    rec.skipped += 1
                    continue
                with rec.case("crack", ck, gk, w):
                    rec.state((ck, gk, w))
                    cc = must(from_signal, w, 0)
                    pc = curve.build()
                    got = must(get_crack_growth, cc, pc, geo)
                    self._grown("count", got, depth, sif, why, 1.0)
                    df = must(cc.to_df)
                    must(df.cg.calc_growth, pc, geo)
                    done = df["crack_depth"].dropna().to_numpy()
                    close("table: depths", done, depth)
                    for f in FACTORS[:4]:
                        far = Curve(
                            curve.m, tuple(c * f**-m for c, m in zip(curve.c, curve.m)),
                            f * curve.threshold, f * curve.critical,
                        ).build()  # fmt: skip
                        got = must(get_crack_growth, must(lambda: cc * f), far, geo)
                        self._grown(f"count times {f}", got, depth, sif, why, f)
                        cf = must(from_signal, [f * v for v in w], 0)
                        got = must(get_crack_growth, cf, far, geo)
                        self._grown(f"record times {f}", got, depth, sif, why, f)
                        rec.step(2)
                    rec.trace(10)
                    rec.outcome("grown" if why == "none" else "failed")

    @staticmethod
    def _grown(what, got, depth, sif, why, f):
        close(f"{what}: depths", got.crack_depth, depth, rtol=1e-8)
        close(f"{what}: intensities", got.sif, [f * k for k in sif], rtol=1e-8)
        same(f"{what}: failure", bool(got.failure), why != "none")

    # -- mean stress
    def tensile(self, rec):
        """A correction leaves a fully tensile record's damage and lowers others'."""
        for n in (3, 4, 5):
            for w in itertools.product(range(3), repeat=n):
                if len(set(w)) < 2:
                    continue
                with rec.case("tensile", w):
                    tab = table(astm([float(v) for v in w])[0])
                    up = must(from_signal, [v + 1.0 for v in w], 0, **BINS)
                    for df in (0.8, 0.6):
                        cor = must(up.mean_stress_correction, detail_factor=df)
                        self._values(rec, "tensile", cor, tab, ("bent limit",))
                        if len({m for _, m, _ in tab} - {3.0}) > 0:
                            low = must(from_signal, [v - 3.0 for v in w], 0, **BINS)
                            cor = must(low.mean_stress_correction, detail_factor=df)
                            low_d = must(get_des, cor, SLOPE, CYCLES)
                            f = 0.8 if df == 0.8 else 0.0
                            close("compressive", low_d, f * equivalent(tab))
                    rec.state(w)
                    rec.outcome("corrected")

    # -- long records
    def _long(self, rec, name, x):
        for m in (1, 2, 7, 40):
            size = max(2, len(x) // m)
            lengths = [size] * (len(x) // size)
            lengths[-1] += len(x) - sum(lengths)
            if any(len(set(s)) < 2 for s in cut(x, lengths)):
                continue
            with rec.case(name, len(x), m):
                rec.state((name, len(x), m))
                self._record(rec, x, tuple(lengths), full=False)

    def long(self, rec, k, n):
        base = de_bruijn(k, n)
        for f, c in ((1.0, 0.0), (-0.25, 3.5)):
            self._long(rec, f"de Bruijn {k} {n} {f}", [f * v + c for v in base])

    def drift(self, rec, n):
        self._long(rec, "drift", [(i * i % 31) * 0.5 + i // 64 * 0.25 for i in range(n)])
        self._long(rec, "walk", [(i * 37 % 101) * 0.125 - 4 for i in range(n)])


CHECK = Check()
