"""Helpers to build and observe cycle counts through the public API."""
from __future__ import annotations

import datetime as dt
from typing import Any

import numpy as np
from py_fatigue import CycleCount

from mcheck.core import Mismatch, arr, close, require

UTC = dt.timezone.utc
T0 = dt.datetime(2020, 1, 1, 0, 0, tzinfo=UTC)


def stamp(k: int, naive: bool = False) -> dt.datetime:
    t = T0 + dt.timedelta(minutes=10 * k)
    return t.replace(tzinfo=None) if naive else t


def rows(cc) -> np.ndarray:
    """(range, mean, weight) table of a count."""
    r, m, w = arr(cc.stress_range), arr(cc.mean_stress), arr(cc.count_cycle)
    if not r.shape == m.shape == w.shape or r.ndim != 1:
        raise Mismatch(f"table columns disagree: {r.shape} {m.shape} {w.shape}")
    return np.column_stack([r, m, w])


def canon(tab: Any) -> np.ndarray:
    """Sorted table with equal (range, mean, weight) rows adjacent."""
    t = arr(tab).reshape(-1, 3)
    size = np.abs(t[:, :2]).max() if len(t) else 1.0
    if 0 < size < 1:  # nine digits of the largest value
        unit = 2.0 ** np.floor(np.log2(size))
        t = np.round(t / [unit, unit, 1], 9) * [unit, unit, 1] + 0.0
    else:
        t = np.round(t, 9) + 0.0
    return t[np.lexsort(t.T[::-1])]


def same_cycles(what: str, got: Any, exp: Any, rtol=1e-9) -> None:
    """Same multiset of (range, mean, weight)."""
    g, e = canon(got), canon(exp)
    if g.shape != e.shape:
        raise Mismatch(
            f"{what}: {len(g)} cycles {g.tolist()[:12]} instead of {len(e)} "
            f"{e.tolist()[:12]}"
        )
    size = np.abs(e[:, :2]).max() if len(e) else 1.0
    close(what, g, e, rtol=rtol, atol=2e-9 * min(1.0, size or 1.0))


def seq(x: Any) -> list:
    return [] if x is None else arr(x).ravel().tolist()


def times(cc) -> list:
    """The time stamps a count covers, sorted."""
    t = np.asarray(cc.time_sequence, dtype=object).ravel().tolist()
    return sorted(t)


def make(
    tab,
    k: int = 0,
    residuals=None,
    **kw: Any,
) -> CycleCount:
    """A count from a (range, mean, weight) table."""
    t = arr(tab).reshape(-1, 3)
    args = dict(
        count_cycle=t[:, 2].copy(),
        stress_range=t[:, 0].copy(),
        mean_stress=t[:, 1].copy(),
        timestamp=stamp(k),
    )
    if residuals is not None:
        args["residuals_sequence"] = arr(residuals)
    args.update(kw)
    return CycleCount(**args)


def from_signal(x, k: int = 0, **kw: Any) -> CycleCount:
    return CycleCount.from_timeseries(np.array(x, float), timestamp=stamp(k), **kw)


FIELDS = (
    "count_cycle", "stress_range", "mean_stress", "timestamp", "unit",
    "range_bin_lower_bound", "range_bin_width", "mean_bin_lower_bound",
    "mean_bin_width", "nr_small_cycles", "residuals_sequence",
    "min_max_sequence", "lffd_solved", "mean_stress_corrected",
    "stress_concentration_factor", "name", "time_sequence",
)  # fmt: skip


def freeze(v: Any) -> Any:
    if isinstance(v, np.ndarray):
        return ("array", v.shape, tuple(freeze(x) for x in v.ravel().tolist()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    if isinstance(v, dict):
        return ("dict", tuple((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, float) and v != v:
        return "nan"
    if isinstance(v, np.generic):
        return v.item()
    return v


def snapshot(cc) -> tuple:
    """Deep, comparable picture of every public field of a count."""
    return tuple((f, freeze(getattr(cc, f))) for f in FIELDS)


def unchanged(what: str, cc, snap: tuple) -> None:
    now = snapshot(cc)
    if now != snap:
        for (f, a), (_, b) in zip(snap, now):
            if a != b:
                raise Mismatch(f"{what}: operand's {f} changed from {a} to {b}")


def positive(what: str, cond: Any) -> None:
    require(what, cond)
