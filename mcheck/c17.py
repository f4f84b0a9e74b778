"""C17: the crack growth table against the step-by-step propagation."""
from __future__ import annotations

import itertools

import numpy as np
from py_fatigue.damage import crack_growth as cg

from mcheck.core import Rec, arr, close, must, rejects, require, same
from mcheck.counts import from_signal, rows
from mcheck.growth import (
    CURVES, POWERS, SHAPES, WIDE_CURVES, WIDE_SHAPES, Ambiguous, count, propagate, spectra, steps, wide,
)  # fmt: skip

COLUMNS = ("crack_depth", "sif", "geometry_factor", "cumul_cycle")


def expected(tab, load, exp):
    """Row values at the row's last step, empty where it was not completed."""
    depth, sif, fac, _ = exp
    out = np.full((len(tab), 4), np.nan)
    cum = np.cumsum([n for _, n, _ in load])
    last = {i: j for j, (_, _, i) in enumerate(load)}
    for i, j in last.items():
        if j < len(depth):
            out[i] = depth[j], sif[j], fac[j], cum[j]
    return out


class Check:
    ID = "C17"
    ASSUMPTIONS = [
        "the geometry factor of the tube is taken from the library (decided by C18)",
        "loads whose outcome hangs on a relative difference below 1e-7 are left out",
    ]
    MIN_OUTCOMES = {"complete": 1000, "partial": 500, "empty": 100, "express": 500,
                    "unclustered": 100}  # fmt: skip

    def bound(self, tier):
        return (
            "all tables of one or two of 24 (stress, cycles) rows and three of 12"
            f"{'' if tier == 'quick' else ', three of 12 more and four of 6'}, over"
            f" {len(CURVES)} curves and {len(SHAPES)} geometries (quick: every 10th"
            " combination in rotation), normal and express, row labels and memory"
            " layouts of several kinds; longer tables, up to 70000 rows, and tables counted from"
            " a signal; 6 tables over 6 further curves and 5 further geometries of many"
            " magnitudes"
        )

    def tasks(self, tier):
        for i in range(32):
            yield ("tables", tier, i, 32)
        yield ("long",)
        yield ("powers",)
        yield ("huge",)
        for i in range(6):
            yield ("wide", i, 6)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        self.curves = {k: c.build() for k, c in (CURVES | WIDE_CURVES).items()}
        self.shapes = {k: g.build() for k, g in (SHAPES | WIDE_SHAPES).items()}
        getattr(self, kind)(rec, *a)

    def _one(self, rec, tab, ck, gk, express, cc=None, labels=0):
        with rec.case(tab[:8], len(tab), ck, gk, express, labels):
            cc = count(tab) if cc is None else cc
            load = steps(tab, express)
            try:
                exp = propagate(load, (CURVES | WIDE_CURVES)[ck], (SHAPES | WIDE_SHAPES)[gk])
            except Ambiguous:
                rec.outcome("ambiguous")
                return
            df = must(cc.to_df)
            if labels == 4:  # the same rows seen backwards in memory
                df = df.iloc[::-1].copy().iloc[::-1]
            elif labels == 5:  # every other row of a longer table
                df = df.loc[df.index.repeat(2)].iloc[::2]
            elif labels == 6:  # whole numbers
                df = df.astype({"stress_range": int})
            elif labels:
                df.index = {
                    1: list(range(len(df) - 1, -1, -1)),
                    2: [f"r{i}" for i in range(len(df))],
                    3: [7] * len(df),
                }[labels]
            before = df.copy()
            curve, geo = self.curves[ck], self.shapes[gk]
            out = must(lambda: df.cg.calc_growth(curve, geo, express))
            same("rows", out.index.tolist(), before.index.tolist())
            for c in before.columns:
                close(f"column {c}", out[c].to_numpy(), before[c].to_numpy())
            want = expected(tab, load, exp)
            for j, c in enumerate(COLUMNS):
                close(f"column {c}", out[c].to_numpy(), want[:, j])
            direct = must(cg.get_crack_growth, cc, curve, geo, express)
            close("final cycles", must(lambda: df.cg.final_cycles), direct.final_cycles)
            close("final cycles", direct.final_cycles,
                  sum(n for _, n, _ in load[: len(exp[0])]))  # fmt: skip
            rec.state((tab, ck, gk, express, labels))
            rec.step(len(tab))
            rec.trace()
            done = np.isfinite(want[:, 0])
            rec.outcome("complete" if done.all() else "partial" if done.any() else "empty")
            if express:
                rec.outcome("express")
            if max(n for _, n in tab) <= 1:
                rec.outcome("unclustered")

    def tables(self, rec, tier, i, n):
        pairs = list(itertools.product(CURVES, SHAPES))
        every = 1 if tier != "quick" else 10
        for q, tab in enumerate(itertools.islice(spectra(tier), i, None, n)):
            for j, (ck, gk) in enumerate(pairs):
                for express in (False, True):
                    if express and max(v for _, v in tab) < 10:
                        continue
                    if len(tab) == 1 or (q + j + express) % every == 0:
                        self._one(rec, tab, ck, gk, express, labels=(q + j) % 7)

    def wide(self, rec, i, n):
        for q, (tab, ck, gk) in enumerate(itertools.islice(wide(), i, None, n)):
            for express in (False, True):
                self._one(rec, tab, ck, gk, express, labels=q % 4)

    def huge(self, rec):
        """Tables of many rows and rows of many blocks."""
        base = [(6.0, 40.0), (25.0, 0.5), (15.0, 3.5), (0.0, 1.0), (20.0, 11.0)]
        for n, ck, express in ((33000, "single", 0), (70000, "four", 0), (9000, "six", 1)):
            tab = tuple(base[(j * j + j // 3) % 5] for j in range(n))
            self._one(rec, tab, ck, "flat", bool(express))
        tab = ((15.0, 123456.0), (0.0, 7.0), (20.0, 98765.5), (25.0, 3.0))
        for ck in ("single", "six"):
            self._one(rec, tab, ck, "flat", True)

    def powers(self, rec):
        """Numbers of cycles on and around the powers of ten."""
        for n, ck, gk in itertools.product(POWERS, CURVES, ("flat", "tube")):
            for tab in (((60.0, n),), ((20.0, n), (120.0, 2.0))):
                self._one(rec, tab, ck, gk, True)

    def long(self, rec):
        for n, top in itertools.product((130, 1000, 5000), (1, 4)):
            tab = tuple((10.0 + j * 37 % 263 / 3, (1 + j % top) / (1 + j % 2)) for j in range(n))
            for ck, gk in itertools.product(CURVES, ("flat", "tube")):
                self._one(rec, tab, ck, gk, n == 1000)
        base = [(60.0, 1.0), (250.0, 0.5), (150.0, 1.0), (0.0, 0.5), (300.0, 1.0)]
        mixed = [(60.0, 40.0), (250.0, 0.5), (150.0, 3.5), (0.0, 1.0), (200.0, 11.0)]
        for rows_, n in itertools.product((base, mixed), (12, 60, 400)):
            tab = tuple(rows_[(j * j + j // 3) % 5] for j in range(n))
            for ck, gk in itertools.product(CURVES, SHAPES):
                for express in (False, True):
                    self._one(rec, tab, ck, gk, express)
        x = [0, 120, -60, 200, 10, 180, -90, 150, 20, 260, -120, 0]
        cc = must(from_signal, x)
        tab = tuple((r, w) for r, _, w in rows(cc).tolist())
        for ck, gk in itertools.product(CURVES, SHAPES):
            self._one(rec, tab, ck, gk, False, cc)

    def reject(self, rec):
        curve, geo = self.curves["single"], self.shapes["flat"]
        with rec.case("twice"):
            df = must(lambda: count(((100.0, 1.0), (50.0, 3.0))).to_df().cg.calc_growth(curve, geo))
            snap = df.copy()
            rejects("already calculated", lambda: df.cg.calc_growth(curve, geo))
            require("refused table unchanged", df.equals(snap))
            rec.trace()
            rec.step()
        for c in ("count_cycle", "mean_stress", "stress_range"):
            with rec.case("missing", c):
                df = must(lambda: count(((100.0, 1.0), (50.0, 3.0))).to_df()).drop(columns=c)
                rejects("missing column", lambda: df.cg.calc_growth(curve, geo))
                rec.trace()
                rec.step()


CHECK = Check()
