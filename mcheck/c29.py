"""C29: calculations on one table of cycles, in any order."""
from __future__ import annotations

import itertools
import math

import numba
import numpy as np

from mcheck.c17 import COLUMNS, expected
from mcheck.core import Mismatch, Raised, Rec, call, close, must, rejects, require, same
from mcheck.counts import make
from mcheck.curves import life, sn, sn_ordered
from mcheck.growth import CURVES, SHAPES, propagate, steps

KEYS = ("count_cycle", "mean_stress", "stress_range")
LIFE = {
    "d0": ((3.0,), (12.0,), np.inf),
    "d1": (*sn_ordered((64.0,), (3.0, 5.0), 12.0), 1e7),
}
SLOPE = {"g0": 3.0, "g1": 4.5}
GROWTH = {"k0": ("single", "flat", False), "k1": ("knee", "tube", True)}
REFUSED = ("unit", "bent", "shape")
MOVES = ("sort", "label", "drop", "note")
OPS = (*LIFE, *SLOPE, *GROWTH, "des", "dem", "copy", *REFUSED, *MOVES)
# (range, mean, weight)
TABLES = [
    [(20.0, 1.0, 3.0), (300.0, -5.0, 1.0), (90.0, 0.0, 0.5)],
    [(64.0, 2.0, 137.0), (120.0, 2.0, 12.0), (30.0, 4.0, 1000.0), (250.0, 1.0, 2.5)],
    [(40.0, 0.0, 0.5), (10.0, 3.0, 1.0)],
    [(100.0, 0.0, 1.0)],
]
LONG = [[(10.0 + j * 37 % 1103 / 13, j % 7, (0.5, 1.0, 2.0)[j % 3]) for j in range(n)] for n in (130, 1100)]


class Model:
    """The cells the table should hold."""

    def __init__(self, tab):
        self.label = list(range(len(tab)))
        self.cells = {
            "stress_range": [r for r, _, _ in tab],
            "mean_stress": [m for _, m, _ in tab],
            "count_cycle": [w for _, _, w in tab],
        }
        self.used = {}

    @property
    def s(self):
        return np.array(self.cells["stress_range"])

    @property
    def w(self):
        return np.array(self.cells["count_cycle"])

    def order(self, idx):
        self.label = [self.label[i] for i in idx]
        self.cells = {k: [v[i] for i in idx] for k, v in self.cells.items()}

    def des(self, m, n):
        return math.fsum(self.s**m * self.w / n) ** (1 / m)

    def damage(self, c):
        n = life(self.s, *c)
        return {"cycles_to_failure": n, "pm_damage": self.w / n}

    def shift(self, m):
        return {"shift_factor": self.w / self.w.sum() * (self.s / self.s.max()) ** m}

    def growth(self, ck, gk, express):
        tab = tuple(zip(self.s.tolist(), self.w.tolist()))
        load = steps(tab, express)
        out = expected(tab, load, propagate(load, CURVES[ck], SHAPES[gk]))
        return {c: out[:, j] for j, c in enumerate(COLUMNS)}


def agree(what, df, model, base):
    """The table holds exactly the cells of the model."""
    same(f"{what}: rows", df.index.tolist(), model.label)
    same(f"{what}: columns", sorted(df.columns), sorted({*base, *model.cells}))
    for k, v in model.cells.items():
        if k == "note":
            same(f"{what}: column {k}", df[k].tolist(), v)
        else:
            close(f"{what}: column {k}", df[k].to_numpy(), np.array(v, float), atol=1e-300)


class Check:
    ID = "C29"
    ASSUMPTIONS = [
        "the geometry factor of the tube is taken from the library (decided by C18)",
        "a calculation made before on the same table may be refused or done afresh,"
        " except crack growth, which is refused",
        "damage of a copied table is left out (copies carry no unit)",
    ]
    MIN_OUTCOMES = {"calculated": 2000, "again": 500, "refused": 1000, "copied": 300,
                    "moved": 500, "incomplete": 50}  # fmt: skip

    def bound(self, tier):
        return (
            f"every history of up to {3 if tier == 'quick' else 4} of {len(OPS)} operations"
            f" on {len(TABLES) if tier == 'quick' else 2} tables of up to four rows:"
            " damage, shift factors and crack growth with two curves each, equivalent"
            " stress and moment, calculations on a copy, calculations with a wrong unit,"
            " a bent curve or an unknown geometry, sorting, relabelling or dropping"
            " rows and adding a column; histories of up to two on tables of 130 and 1100 rows; every subset of the required columns"
        )

    def tasks(self, tier):
        for t in range(len(TABLES) if tier == "quick" else 2):
            for op in OPS:
                yield ("histories", t, op, 3 if tier == "quick" else 4)
        for t in range(len(LONG)):
            yield ("histories", len(TABLES) + t, OPS, 2)
        yield ("incomplete",)

    def run(self, rec: Rec, kind, *a):
        numba.set_num_threads(1)
        self.sn = {k: must(sn, *c) for k, c in LIFE.items()}
        self.sn |= {k: must(sn, m, 12.0) for k, m in SLOPE.items()}
        self.sn["unit"] = must(sn, 3.0, 12.0, unit_string="ksi")
        self.curves = {k: c.build() for k, c in CURVES.items()}
        self.shapes = {k: g.build() for k, g in SHAPES.items()}

        class Strange:
            _id = "SQUARE"
            initial_depth = 1.0

        self.strange = Strange()
        getattr(self, kind)(rec, *a)

    def histories(self, rec, t, first, depth):
        for n in range(depth):
            starts = [first] if isinstance(first, str) else first
            for hist in itertools.product(starts, *[OPS] * n):
                if any(a == b and a in MOVES for a, b in zip(hist, hist[1:])):
                    continue
                with rec.case(t, hist):
                    self._play(rec, t, hist)

    def _play(self, rec, t, hist):
        model = Model((TABLES + LONG)[t])
        df = must(make((TABLES + LONG)[t]).to_df)
        base = set(df.columns)
        for i, op in enumerate(hist):
            last = i == len(hist) - 1
            self._step(rec, df, model, op)
            if last:  # the prefixes are histories of their own
                agree(op, df, model, base)
                self._memory(df, model)
        rec.state((t, hist))
        rec.trace()

    def _memory(self, df, model):
        for kind in ("miner", "gassner"):
            if kind in model.used:
                got = must(lambda: getattr(df, kind).sn_curve)
                require(f"{kind} remembers the curve", got is not None)
                same(f"{kind} curve", (got.slope.tolist(), got.intercept.tolist()),
                     (model.used[kind].slope.tolist(), model.used[kind].intercept.tolist()))

    def _step(self, rec, df, model, op):
        rec.step()
        if op in LIFE:
            self._calc(rec, df, model, lambda: df.miner.damage(self.sn[op]),
                       model.damage(LIFE[op]), "miner", op)  # fmt: skip
        elif op in SLOPE:
            self._calc(rec, df, model, lambda: df.gassner.g(self.sn[op]),
                       model.shift(SLOPE[op]), "gassner", op)  # fmt: skip
        elif op in GROWTH:
            ck, gk, express = GROWTH[op]
            grow = lambda d: d.cg.calc_growth(self.curves[ck], self.shapes[gk], express)  # noqa: E731
            if "crack_depth" in model.cells:
                rejects("crack growth again", grow, df)
                rec.outcome("refused")
            else:
                self._calc(rec, df, model, lambda: grow(df), model.growth(*GROWTH[op]), None, op)
        elif op == "des":
            close("equivalent stress", must(lambda: df.miner.des(3, 1e6)), model.des(3, 1e6))
        elif op == "dem":
            z = math.pi / 4 * (2.0**4 - 1.5**4) / 2.0 * 1e6
            close("equivalent moment", must(lambda: df.miner.dem(2.0, 1.5, 4, 1e6)),
                  model.des(4, 1e6) * z)  # fmt: skip
        elif op == "copy":
            self._copy(rec, df, model)
        elif op == "unit":
            rejects("wrong unit", lambda: df.miner.damage(self.sn["unit"]), kinds=ValueError)
            rec.outcome("refused")
        elif op == "bent":
            rejects("bent curve", lambda: df.gassner.g(self.sn["d1"]))
            rec.outcome("refused")
        elif op == "shape":
            rejects("geometry", lambda: df.cg.calc_growth(self.curves["single"], self.strange))
            rec.outcome("refused")
        else:
            self._move(df, model, op)
            rec.outcome("moved")

    def _calc(self, rec, df, model, fn, cells, kind, op):
        again = any(c in model.cells for c in cells)
        out = call(fn)
        if isinstance(out, Raised) and again:
            rec.outcome("refused")
            return
        if isinstance(out, Raised):
            raise Mismatch(f"{op} refused: {out}")
        for c in cells:
            close(f"returned {c}", out[c].to_numpy(), np.asarray(cells[c], float), atol=1e-300)
        model.cells.update({c: list(v) for c, v in cells.items()})
        if kind:
            model.used[kind] = self.sn[op]
        rec.outcome("again" if again else "calculated")

    def _copy(self, rec, df, model):
        """Calculations on a copy; the table itself is compared afterwards."""
        cp = df.copy()
        if "cycles_to_failure" in model.cells:
            rejects("damage known", lambda: cp.miner)
        else:
            close("copied equivalent stress", must(lambda: cp.miner.des(3, 1e6)),
                  model.des(3, 1e6))  # fmt: skip
        if "shift_factor" in model.cells:
            rejects("shift factors known", lambda: cp.gassner)
        else:
            out = must(lambda: cp.gassner.g(self.sn["g1"]))
            close("copied shift factors", out["shift_factor"].to_numpy(),
                  model.shift(SLOPE["g1"])["shift_factor"], atol=1e-300)  # fmt: skip
        ck, gk, express = GROWTH["k1"]
        grow = lambda: cp.cg.calc_growth(self.curves[ck], self.shapes[gk], express)  # noqa: E731
        if "crack_depth" in model.cells:
            rejects("crack growth known", grow)
        else:
            out = must(grow)
            for c, v in model.growth(ck, gk, express).items():
                close(f"copied {c}", out[c].to_numpy(), v)
        rec.outcome("copied")

    def _move(self, df, model, op):
        n = len(model.label)
        if op == "sort":
            df.sort_values("stress_range", ascending=False, inplace=True)
            model.order(np.argsort(-model.s).tolist())
        elif op == "label":
            df.index = [f"r{i}" for i in range(n)]
            model.label = [f"r{i}" for i in range(n)]
        elif op == "drop" and n > 1:
            df.drop(index=model.label[0], inplace=True)
            model.order(range(1, n))
        elif op == "note":
            df["note"] = [f"n{i}" for i in range(n)]
            model.cells["note"] = [f"n{i}" for i in range(n)]

    def incomplete(self, rec):
        """Tables with some of the required columns."""
        calls = {
            "damage": lambda d: d.miner.damage(self.sn["d0"]),
            "des": lambda d: d.miner.des(3),
            "dem": lambda d: d.miner.dem(2.0, 1.0, 3),
            "shift": lambda d: d.gassner.g(self.sn["g0"]),
            "growth": lambda d: d.cg.calc_growth(self.curves["single"], self.shapes["flat"]),
        }
        for t, tab in enumerate(TABLES):
            for n in range(1, 4):
                for gone in itertools.combinations(KEYS, n):
                    for k, fn in calls.items():
                        with rec.case(t, gone, k):
                            df = must(make(tab).to_df)
                            df.drop(columns=list(gone), inplace=True)
                            snap = df.copy()
                            rejects(f"{k} without {gone}", fn, df)
                            require("refused table unchanged", df.equals(snap))
                            rec.state((t, gone, k))
                            rec.step()
                            rec.trace()
                            rec.outcome("incomplete")


CHECK = Check()
