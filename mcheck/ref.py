"""Reference model of a cycle count: a bag of cycles plus its metadata."""
from __future__ import annotations

import copy
import itertools
from typing import Any, Optional

from mcheck.core import close, require, same
from mcheck.counts import make, rows, seq, stamp, times
from mcheck.model import astm, table


class Ref:
    """What the property texts say a count consists of."""

    def __init__(
        self,
        tab,
        ks=(0,),
        residuals: Optional[list] = None,
        unit="MPa",
        bins=(0.2, 0.05, None, 10.0),
        nsmall=0,
        scf=1.0,
        minmax=None,
    ):
        self.tab = [tuple(map(float, r)) for r in tab]
        self.ks = tuple(ks)
        self.residuals = None if residuals is None else [float(v) for v in residuals]
        self.unit = unit
        self.nsmall = nsmall
        self.scf = scf
        rlb, rw, mlb, mw = bins
        if mlb is None:  # documented default: centre a bin on the smallest mean
            lo = min(m for _, m, _ in self.tab)
            mlb = round(lo / mw) * mw - mw / 2
        self.bins = (rlb, rw, mlb, mw)
        self.minmax = (
            self._minmax(self.residuals) if minmax is None else list(minmax)
        )

    @staticmethod
    def _minmax(res):
        return [min(res), max(res)] if res is not None and len(res) >= 2 else []

    def key(self):
        return (
            tuple(self.tab), self.ks,
            None if self.residuals is None else tuple(self.residuals),
            self.unit, self.bins, self.nsmall, self.scf,
        )  # fmt: skip

    # -- operations
    def add(self, o: "Ref") -> "Ref":
        r = copy.copy(self)
        r.tab = self.tab + o.tab
        r.ks = tuple(sorted(set(self.ks) | set(o.ks)))
        r.residuals = (self.residuals or []) + (o.residuals or [])
        r.minmax = []
        if self.residuals is not None:
            r.minmax = r.minmax + self.minmax
        if o.residuals is not None:
            r.minmax = r.minmax + o.minmax
        r.nsmall = self.nsmall + o.nsmall
        a, b = self.bins, o.bins
        r.bins = (min(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), max(a[3], b[3]))
        r.scf = self.scf if self.scf == o.scf else None
        return r

    def addable(self, o: "Ref") -> bool:
        return self.unit == o.unit and max(self.ks) <= min(o.ks)

    def mul(self, f: float) -> "Ref":
        r = copy.copy(self)
        r.tab = [(a * f, m * f, w) for a, m, w in self.tab]
        r.residuals = None if self.residuals is None else [v * f for v in self.residuals]
        r.minmax = [v * f for v in self.minmax]
        r.bins = tuple(v * f for v in self.bins)
        r.scf = None if self.scf is None else self.scf * f
        return r

    def solve(self) -> "Ref":
        """Recount the residuals; weights above one half stay."""
        if self.residuals is None or len(self.residuals) < 3:
            return self
        r = copy.copy(self)
        cyc, res, _ = astm(self.residuals)
        r.tab = table(cyc) + [t for t in self.tab if t[2] > 0.5]
        r.residuals = res
        return r

    # -- observation
    def build(self, **kw: Any):
        """The same count through the constructor (single time stamp only)."""
        assert len(self.ks) == 1
        return make(
            self.tab,
            self.ks[0],
            unit=self.unit,
            range_bin_lower_bound=self.bins[0],
            range_bin_width=self.bins[1],
            _mean_bin_lower_bound=self.bins[2],
            mean_bin_width=self.bins[3],
            nr_small_cycles=self.nsmall,
            stress_concentration_factor=self.scf,
            residuals_sequence=(
                None if self.residuals is None else __import__("numpy").array(self.residuals)
            ),
            **kw,
        )

    def agree(self, cc, ordered=True, minmax=True, what="") -> None:
        """Every observable of the count is that of the model."""
        got = rows(cc)
        if ordered:
            close(f"{what}cycles", got, self.tab)
        else:
            from mcheck.counts import same_cycles

            same_cycles(f"{what}cycles", got, self.tab)
        close(f"{what}residual sequence", seq(cc.residuals_sequence), self.residuals or [])
        if minmax:
            close(f"{what}min-max sequence", seq(cc.min_max_sequence), self.minmax)
        self.agree_meta(cc, what)

    def agree_meta(self, cc, what="") -> None:
        same(f"{what}unit", cc.unit, self.unit)
        same(f"{what}small cycles", float(cc.nr_small_cycles), float(self.nsmall))
        same(f"{what}time stamps", times(cc), [stamp(k) for k in self.ks])
        same(f"{what}own time stamp", cc.timestamp, stamp(min(self.ks)))
        close(
            f"{what}bins (range bound, width, mean bound, width)",
            [cc.range_bin_lower_bound, cc.range_bin_width, cc.mean_bin_lower_bound,
             cc.mean_bin_width],
            self.bins,
        )  # fmt: skip
        if self.scf is not None:
            close(f"{what}stress concentration factor", cc.stress_concentration_factor, self.scf)


TABLES = {
    "half": [(4, 2, 0.5)],
    "pair": [(4, 2, 0.5), (2, 1, 1)],
    "mixed": [(3, -7, 1), (8, 0, 0.5), (2, 12, 2.75), (6, -1, 0.5)],
    "full": [(5, 2.5, 1), (5, 2.5, 1)],
    "heavy": [(1, 30, 12), (16, -8, 0.5)],
}
RESIDUALS = {
    "none": None,
    "empty": [],
    "one": [3],
    "two": [0, 4],
    "three": [0, 4, -2],
    "long": [1, 3, -3, 5, 4, 4.5, -6],
}


def signal_ref(x, k=0, **kw) -> Ref:
    cyc, res, _ = astm(list(x))
    return Ref(table(cyc), (k,), res, **kw)


def product_dicts(**axes):
    keys = list(axes)
    for vals in itertools.product(*axes.values()):
        yield dict(zip(keys, vals))
