"""C06: explicit-state search over histories of operations on a pool of counts."""
from __future__ import annotations

import itertools

import numpy as np
from py_fatigue import CycleCount, SNCurve
from py_fatigue.damage import stress_life as sl

from mcheck.core import Rec, call, Raised, close, must, rejects, require, same
from mcheck.counts import freeze, from_signal, make, rows, snapshot, stamp, times, unchanged
from mcheck.ref import RESIDUALS, TABLES, Ref

SN = {}


def curve(unit):
    if unit not in SN:
        SN[unit] = SNCurve([3, 5], [12.0, 15.0], environment="Air", curve="X",
                           norm="N", unit_string=unit, color="k")  # fmt: skip
    return SN[unit]


def pools():
    """Initial pools: (count, what it must keep)."""
    sig = lambda x, k, **kw: (from_signal(x, k, **kw), kw)  # noqa: E731
    yield "signals", [
        sig([0, 4, -2, 3], 0, unit="ksi"),
        sig([1, 5, 0, 2, -3, 6], 1, unit="ksi"),
    ]
    yield "tables", [
        (Ref(TABLES["mixed"], (0,), RESIDUALS["long"], nsmall=2).build(), {}),
        (Ref(TABLES["heavy"], (0,), RESIDUALS["none"], nsmall=1).build(), {}),
    ]
    yield "units", [
        (Ref(TABLES["pair"], (1,), RESIDUALS["three"], "ksi", nsmall=4).build(), {}),
        (Ref(TABLES["mixed"], (2,), RESIDUALS["empty"], "MPa").build(), {}),
    ]
    yield "flags", [
        (Ref(TABLES["mixed"], (0,), RESIDUALS["long"], "psi", scf=1.5, nsmall=1).build(
            lffd_solved=True, name="A"), {}),
        (Ref(TABLES["full"], (3,), RESIDUALS["two"], "psi", scf=1.5).build(
            name="A"), {}),
    ]  # fmt: skip
    yield "zeros", [
        (make([(4, 0, 1), (2, 0, 0.5)], 0, nr_small_cycles=1, unit="ksi"), {}),
        (make([(4, 0, 1), (6, 0, 0.5)], 1, [3, -3, 2, -2], unit="ksi"), {}),
    ]
    yield "small", [
        (make([(0.1, 3, 1), (4, 1, 2), (0.15, -2, 0.5), (6, 0.3, 0.5), (2.03, 4, 1.5)], 0,
              [0.12345678, 3.3, -2.7654321], nr_small_cycles=5, unit="ksi", name="C"), {}),
        (make([(0.1, 7, 1), (300.003, 250, 70), (0.02, -2, 2)], 1, [0.1, 5.05], unit="ksi"), {}),
    ]  # fmt: skip
    long = sum(from_signal([0, 4 + k, -2, 3 - k], k, unit="ksi") for k in range(4))
    yield "sums", [
        (long, {}),
        (make([(4, 3, 12), (2, -9, 0.5)], 3, [7, -3, 2, -2], nr_small_cycles=10**7, unit="ksi"), {}),
    ]
    yield "reversed", [
        sig([3, -1, 2, 2, -4, 0], 2, name="B"),
        (Ref(TABLES["pair"], (1,), RESIDUALS["long"], nsmall=3).build(name="B"), {}),
    ]


KEEP = object()


class Item:
    def __init__(self, cc, unit, ks, nsmall, name=KEEP):
        self.cc, self.unit, self.ks, self.nsmall = cc, unit, tuple(ks), nsmall
        self.snap = snapshot(cc)
        self.name = cc.name if name is KEEP else name

    def meta(self, what):
        same(f"{what}: unit", self.cc.unit, self.unit)
        same(f"{what}: name", self.cc.name, self.name)
        same(f"{what}: small cycles", float(self.cc.nr_small_cycles), float(self.nsmall))
        same(f"{what}: time stamps", times(self.cc), [stamp(k) for k in sorted(self.ks)])
        same(f"{what}: time stamp", self.cc.timestamp, stamp(min(self.ks)))


OPS1 = ["mul2", "rmul.5", "solve", "minmax", "dnvgl", "swt", "pulsate", "trip", "read"]


CORE = ["mul2", "solve", "dnvgl", "trip"]


def moves(n, ops):
    for i, j in itertools.product(range(n), repeat=2):
        yield ("add", i, j)
    for op in ops:
        for i in range(n):
            yield (op, i)


class Check:
    ID = "C06"
    ASSUMPTIONS = ["imports are given the exported count's unit and time stamp"]
    MIN_OUTCOMES = {"add": 100, "refused": 100, "solve": 100, "dnvgl": 50, "trip": 100}

    def bound(self, tier):
        more = (
            ""
            if tier == "quick"
            else "; every history of up to 4 operations out of add, scale, resolve,"
            " correct and export+import"
        )
        return (
            "every history of up to 3 operations (add of any two counts, two"
            " scalings, both resolutions, three corrections, export+import, damage"
            "/views/equality reads) over 8 initial pools of two counts, each"
            " derived count joining the pool; all counts of the history compared"
            " with their snapshots after every operation" + more
        )

    def tasks(self, tier):
        for p in range(8):
            for i, _ in enumerate(moves(2, OPS1)):
                yield ("history", p, [i], 3, 0)
        if tier != "quick":
            for p in range(8):
                for i, _ in enumerate(moves(2, CORE)):
                    for j, _ in enumerate(moves(3, CORE)):
                        yield ("history", p, [i, j], 4, 1)
        yield ("buffers",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def history(self, rec, p, prefix, depth, core):
        self.ops = CORE if core else OPS1
        _, init = list(pools())[p]
        pool = []
        for cc, _ in init:
            ks = [round((t - stamp(0)).total_seconds() / 600) for t in times(cc)]
            pool.append(Item(cc, cc.unit, ks, cc.nr_small_cycles))
        self._search(rec, pool, depth, list(prefix), [])

    def _search(self, rec, pool, depth, forced, path):
        rec.state(tuple(i.snap for i in pool))
        if depth == 0:
            return
        ms = list(moves(len(pool), self.ops))
        if forced:
            if forced[0] >= len(ms):  # prefix enumerated for a larger pool
                return
            ms = [ms[forced[0]]]
        for mv in ms:
            new = None
            with rec.case(*path, mv):
                rec.step()
                new = self._apply(rec, pool, mv)
                for k, it in enumerate(pool):
                    unchanged(f"count {k}", it.cc, it.snap)
                rec.trace()
            self._search(
                rec, pool + ([new] if new else []), depth - 1, forced[1:], path + [mv]
            )

    def _apply(self, rec, pool, mv):
        op, a = mv[0], pool[mv[1]]
        if op == "add":
            b = pool[mv[2]]
            if a.unit != b.unit or max(a.ks) > min(b.ks):
                rejects("incompatible counts", lambda: a.cc + b.cc, kinds=TypeError)
                rec.outcome("refused")
                return None
            out = Item(must(lambda: a.cc + b.cc), a.unit, set(a.ks) | set(b.ks),
                       a.nsmall + b.nsmall,
                       a.name if a.name == b.name else KEEP)  # fmt: skip
        elif op == "mul2":
            out = Item(must(lambda: a.cc * 2), a.unit, a.ks, a.nsmall)
        elif op == "rmul.5":
            out = Item(must(lambda: 0.5 * a.cc), a.unit, a.ks, a.nsmall)
        elif op == "solve":
            out = Item(must(a.cc.solve_lffd), a.unit, a.ks, a.nsmall, a.name)
        elif op == "minmax":
            out = Item(must(a.cc.solve_lffd, "min-max"), a.unit, a.ks, a.nsmall, a.name)
        elif op in ("dnvgl", "swt", "pulsate"):
            out = self._correct(rec, a, op)
            if out is None:
                return None
        elif op == "trip":
            out = self._trip(rec, a)
            if out is None:
                return None
        else:
            self._read(a, pool)
            rec.outcome("read")
            return None
        out.meta(op)
        rec.outcome(op)
        return out

    def _correct(self, rec, a, op):
        args = {"dnvgl": ("DNVGL-RP-C203",), "swt": ("SWT",), "pulsate": ("dnvgl-rp-c203",)}[op]
        kw = {} if op == "swt" else {"detail_factor": 0.8}
        if op == "pulsate":
            kw["enforce_pulsating_load"] = True
        elif a.cc.mean_stress_corrected == "No":
            solved = must(a.cc.solve_lffd)
            if not np.any(np.asarray(solved.mean_stress) != 0):
                rejects("all-zero means", a.cc.mean_stress_correction, *args, **kw)
                rec.outcome("zero means")
                return None
        cc = must(a.cc.mean_stress_correction, *args, **kw)
        return Item(cc, a.unit, a.ks, a.nsmall, a.name)

    def _trip(self, rec, a):
        tab = rows(a.cc)
        small = int((tab[:, 0] < a.cc.range_bin_lower_bound).sum())
        if small == len(tab):
            return None  # nothing left to import
        d = must(a.cc.as_dict)
        same("exported small cycles", float(d["nr_small_cycles"]), float(a.nsmall + small))
        k = min(a.ks)
        cc = must(CycleCount.from_rainflow, d, timestamp=stamp(k), unit=a.unit)
        return Item(cc, a.unit, [k], a.nsmall + small)

    def _read(self, a, pool):
        must(lambda: sl.get_pm(a.cc, curve(a.unit)))
        must(lambda: sl.get_des(a.cc, 4.0, 1e6))
        must(lambda: a.cc.to_df().miner.damage(curve(a.unit)))
        must(lambda: sl.get_nonlinear_damage("leve", a.cc, curve(a.unit), base_exponent=2.0))
        must(lambda: (a.cc.full_cycles, a.cc.half_cycles, a.cc.residuals))
        must(lambda: (a.cc.stress_amplitude, a.cc.min_stress, a.cc.max_stress))
        must(lambda: a.cc.statistical_moments)
        must(lambda: str(a.cc))
        for b in pool:
            must(lambda: a.cc == b.cc)
        must(lambda: a.cc.as_dict(legacy_export=True))

    def buffers(self, rec):
        """Arrays handed in by the caller are not written to."""
        for x in itertools.product((-1, 0, 2), repeat=5):
            if len(set(x)) < 2:
                continue
            for dtype in (float, int):
                data = np.array(x, dtype)
                t = np.arange(5, dtype=float)
                with rec.case(x, dtype.__name__):
                    cc = must(CycleCount.from_timeseries, data, t, timestamp=stamp(0))
                    must(lambda: ((cc + cc) * 2).solve_lffd())
                    must(cc.as_dict)
                    require("signal altered", data.tolist() == list(x))
                    require("times altered", t.tolist() == [0, 1, 2, 3, 4])
                    rec.state((x, dtype.__name__))
                    rec.step(4)
                    rec.trace()
        for t in TABLES:
            cols = [np.array(c, float) for c in zip(*TABLES[t])]
            keep = [c.tolist() for c in cols]
            res = np.array([0.0, 4, -2, 3])
            with rec.case(t):
                cc = must(
                    CycleCount, stress_range=cols[0], mean_stress=cols[1],
                    count_cycle=cols[2], timestamp=stamp(0), residuals_sequence=res,
                )  # fmt: skip
                must(lambda: ((cc + cc) * 2).solve_lffd())
                must(cc.solve_lffd)
                must(cc.as_dict)
                must(cc.mean_stress_correction, detail_factor=0.8)
                require("table altered", [c.tolist() for c in cols] == keep)
                require("residuals altered", res.tolist() == [0, 4, -2, 3])
                rec.step(5)
                rec.trace()


CHECK = Check()
