"""C09: every view of a count recomputed from its table."""
from __future__ import annotations

import itertools
import math

import numpy as np
from py_fatigue import CycleCount

from mcheck.core import Rec, arr, close, must, require, same
from mcheck.counts import make, rows, same_cycles, seq, stamp, times
from mcheck.model import astm, table
from mcheck.ref import RESIDUALS, TABLES

RANGES = (0.5, 2.0, 3.25, 8.0)
MEANS = (-7.0, 0.0, 5.0)
WEIGHTS = (0.5, 1.0, 1.5, 2.0, 3.0, 7.5)
ROWS = list(itertools.product(RANGES, MEANS, WEIGHTS))
BINS = [(0.25, 0.5, None, 10.0), (0.5, 1.0, -8.0, 2.0), (0.0, 0.25, -16.0, 5.0)]


def sorted_pairs(a):
    return sorted(map(tuple, arr(a).reshape(-1, 2).tolist()))


def check_views(cc, tab, bins=None):
    full = [(m, r) for r, m, w in tab for _ in range(int(w))]
    half = [(m, r) for r, m, w in tab if w % 1 == 0.5]
    for what, got, exp in (
        ("full cycles", cc.full_cycles, full),
        ("half cycles", cc.half_cycles, half),
        ("residual cycles", cc.residuals, half),
    ):
        require(f"{what}: two columns", arr(got).ndim == 2 and arr(got).shape[1] == 2)
        close(what, sorted_pairs(got), sorted_pairs(exp))
    r, m, w = (arr(c) for c in zip(*tab))
    close("amplitude", cc.stress_amplitude, r / 2)
    close("minimum", cc.min_stress, m - r / 2)
    close("maximum", cc.max_stress, m + r / 2)
    v = arr([p[1] for p in full + half])
    mu = v.mean()
    close(
        "moments",
        list(cc.statistical_moments),
        [mu, math.sqrt(((v - mu) ** 2).mean()) / mu, ((v - mu) ** 3).mean() / mu**3],
    )
    df = must(cc.to_df)
    same("rows", len(df), len(tab))
    close("table weights", df["count_cycle"], w)
    close("table means", df["mean_stress"], m)
    close("table ranges", df["stress_range"], r)
    if bins is None:
        return
    rlb, rw, mlb, mw = bins
    if mlb is None:
        mlb = round(min(m) / mw) * mw - mw / 2
    fm = [p[0] for p in full] or m.tolist()
    fr = [p[1] for p in full] or r.tolist()
    if max(fr) < rlb or max(fm) < mlb:
        return
    edges, centres = must(lambda: cc.bin_edges), must(lambda: cc.bin_centers)
    ubs = (cc.mean_bin_upper_bound, cc.range_bin_upper_bound)
    for k, (lb, width, top) in enumerate(((mlb, mw, max(fm)), (rlb, rw, max(fr)))):
        what = ("mean", "range")[k]
        e = arr(edges[k])
        close(f"{what} edges", e, lb + width * np.arange(len(e)), atol=1e-5)
        require(f"{what} edges reach the largest value", e[-1] >= top - 1e-5)
        require(f"{what} edges go no further", e[-1] - width < top + 1e-5)
        close(f"{what} upper bound", ubs[k], e[-1], atol=1e-5)
        close(f"{what} centres", centres[k], (e[:-1] + e[1:]) / 2, atol=2e-5)


def _stamps(t):
    return sorted(np.asarray(t, dtype=object).ravel().tolist())


class Check:
    ID = "C09"
    ASSUMPTIONS = [
        "bins are only specified when the largest full cycle is not below the bound",
    ]
    MIN_OUTCOMES = {"table": 1000, "signal": 1000, "halves only": 50}

    def bound(self, tier):
        return (
            f"all tables of one or two of {len(ROWS)} rows and"
            f" {'every 16th' if tier == 'quick' else 'every second'} of three, 3 bin settings"
            " (rotating for triples); all 4-level signals up to length 6 as lists,"
            " arrays and with times; up to 3000000 cycles, 2000 rows and 16000 bins, magnitudes from 1e-8 to 1e8; metadata of the tabular form"
        )

    def tasks(self, tier):
        for i in range(24):
            yield ("tables", i, 24, 16 if tier == "quick" else 2)
        for i in range(16):
            yield ("signals", i, 16)
        yield ("large",)
        yield ("meta",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def tables(self, rec, i, n, m):
        combos = itertools.chain(
            itertools.combinations(ROWS, 1),
            itertools.combinations_with_replacement(ROWS, 2),
            itertools.islice(itertools.combinations_with_replacement(ROWS, 3), 0, None, m),
        )
        for k, tab in enumerate(itertools.islice(combos, i, None, n)):
            for q, b in enumerate(BINS):
                if len(tab) == 3 and k % 3 != q:
                    continue
                if b[2] is not None and min(t[1] for t in tab) < b[2]:
                    continue
                with rec.case(tab, b):
                    cc = must(
                        make, tab, 0, range_bin_lower_bound=b[0], range_bin_width=b[1],
                        _mean_bin_lower_bound=b[2], mean_bin_width=b[3],
                    )  # fmt: skip
                    check_views(cc, tab, b)
                    if q == 1 and len(tab) < 3:
                        # a bound set afterwards moves the bins
                        cc.mean_bin_lower_bound = -9.0
                        check_views(cc, tab, (b[0], b[1], -9.0, b[3]))
                    rec.state((tab, b))
                    rec.step(12)
                    rec.trace()
                    rec.outcome("table")
                    if max(t[2] for t in tab) == 0.5:
                        rec.outcome("halves only")

    def signals(self, rec, i, n):
        sigs = (
            x
            for k in range(2, 7)
            for x in itertools.product((-3, 0, 1.5, 4), repeat=k)
            if len(set(x)) > 1
        )
        for k, x in enumerate(itertools.islice(sigs, i, None, n)):
            cyc, res, _ = astm(list(x))
            tab = table(cyc)
            with rec.case(x):
                t = np.arange(len(x)) * 0.25 + 3
                for data, time in ((np.array(x, float), None), (np.array(x, float), t)):
                    cc = must(
                        CycleCount.from_timeseries, data, time, timestamp=stamp(k % 7),
                        name="S", unit="ksi", range_bin_lower_bound=0.5,
                        range_bin_width=0.25, mean_bin_lower_bound=-4.0, mean_bin_width=2.0,
                    )  # fmt: skip
                    close("cycles", rows(cc), tab)
                    close("residuals", seq(cc.residuals_sequence), res)
                    if len(res) >= 2:
                        close("extremes", seq(cc.min_max_sequence), [min(x), max(x)])
                    same("time stamp", cc.timestamp, stamp(k % 7))
                    same("time stamps", times(cc), [stamp(k % 7)])
                    same("unit", cc.unit, "ksi")
                    same("name", cc.name, "S")
                    require("flags", cc.lffd_solved is False)
                    same("correction", cc.mean_stress_corrected, "No")
                    check_views(cc, tab, (0.5, 0.25, -4.0, 2.0))
                    rec.step(12)
                    rec.trace()
                d = must(CycleCount.from_timeseries, np.array(x, float), timestamp=stamp(0))
                same("default unit", d.unit, "MPa")
                check_views(d, tab, (0.2, 0.05, None, 10.0))
                rec.state(x)
                rec.outcome("signal")

    def large(self, rec):
        """Many bins, many cycles, many rows, stresses of every magnitude."""
        for top, (rw, mw) in itertools.product(
            (50.0, 99.75, 511.5, 1023.0, 2500.0), ((0.5, 10.0), (0.0625, 0.25), (32.0, 64.0))
        ):
            tab = ((top, -top / 2, 1.0), (0.75, top, 2.0), (3.0, 1.0, 0.5))
            self._large(rec, tab, (0.25, rw, None, mw))
        for n in (100, 255, 256, 1000, 32768, 70000):
            self._large(rec, ((2.0, 1.0, float(n)), (3.0, 0.0, n + 0.5)), BINS[0])
            tab = tuple((1.0 + k % 97, k % 89 - 30.0, (0.5, 1.0, 2.0, 1.5)[k % 4])
                        for k in range(min(n, 2000)))  # fmt: skip
            self._large(rec, tab, BINS[0])
        for n in (1_000_000, 3_000_000):
            self._large(rec, ((2.0, 1.0, n + 0.5), (3.0, 0.0, 0.5)), BINS[0])
        for e in range(-8, 9):
            f = 10.0**e
            self._large(rec, ((3 * f, -f, 1.0), (5 * f, 2 * f, 2.5), (f, 7 * f, 0.5)),
                        (f / 4, f / 2, None, f) if 0 <= e < 4 else None)  # fmt: skip

    def _large(self, rec, tab, b):
        with rec.case(tab[:4], len(tab), b):
            kw = {} if b is None else dict(
                range_bin_lower_bound=b[0], range_bin_width=b[1],
                _mean_bin_lower_bound=b[2], mean_bin_width=b[3],
            )  # fmt: skip
            check_views(must(make, tab, 0, **kw), tab, b)
            rec.state((len(tab), tab[0], b))
            rec.step(12)
            rec.trace()
            rec.outcome("table")

    def meta(self, rec):
        for t in TABLES:
            with rec.case("defaults", t):
                cc = must(make, TABLES[t])
                check_views(cc, TABLES[t])
                same("left out", [cc.unit, cc.nr_small_cycles, bool(cc.lffd_solved),
                                  cc.mean_stress_corrected, cc.stress_concentration_factor, cc.name,
                                  cc.range_bin_lower_bound, cc.range_bin_width, cc.mean_bin_width],
                     ["MPa", 0, False, "No", 1.0, None, 0.2, 0.05, 10])  # fmt: skip
                same("left out sequences", seq(cc.residuals_sequence) + seq(cc.min_max_sequence), [])
                rec.step()
                rec.trace()
        for t, res, u, n, s, name in itertools.product(
            TABLES, RESIDUALS, ("MPa", "ksi"), (0, 3), (1.0, 1.5), (None, "A")
        ):
            with rec.case(t, res, u, n, s, name):
                cc = make(
                    TABLES[t], 2, None, unit=u, nr_small_cycles=n, name=name,
                    stress_concentration_factor=s,
                    residuals_sequence=None if RESIDUALS[res] is None else arr(RESIDUALS[res]),
                )  # fmt: skip
                check_views(cc, TABLES[t])
                meta = must(cc.to_df)._metadata
                same("unit in the table", meta["unit"], u)
                same("name in the table", meta["name"], name)
                same("small cycles in the table", meta["nr_small_cycles"], n)
                same("factor in the table", meta["stress_concentration_factor"], s)
                same("time stamp in the table", meta["timestamp"], stamp(2))
                require("flag in the table", meta["lffd_solved"] is False)
                close("residuals in the table", seq(meta["residuals_sequence"]),
                      RESIDUALS[res] or [])  # fmt: skip
                same("record in the table", _stamps(meta["time_sequence"]), [stamp(2)])
                later = make(TABLES[t], 5, unit=u, name=name, stress_concentration_factor=s)
                both = must(must(lambda: cc + later).to_df)._metadata
                same("records in the table", _stamps(both["time_sequence"]), [stamp(2), stamp(5)])
                rec.state((t, res, u, n, s, name))
                rec.step()
                rec.trace()


CHECK = Check()
