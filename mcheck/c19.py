"""C19: summing lists of counts, aggregation by period, aggregated damage."""
from __future__ import annotations

import itertools
import re
import math
from collections import defaultdict

import numba
import numpy as np
import pandas as pd
from py_fatigue import CycleCount
from py_fatigue.cycle_count.cycle_count import pbar_sum
from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage

from mcheck.core import Rec, arr, close, must, rejects, require, same
from mcheck.counts import T0, from_signal, snapshot, stamp, unchanged
from mcheck.curves import life, sn, sn_ordered
from mcheck.model import astm
from mcheck.ref import RESIDUALS, TABLES, Ref, signal_ref

SIGNALS = [
    (0, 4, -2, 3), (1, 5, 0, 2, -3, 6), (0, 2), (5, 1, 7), (3, -1, 2, 2, -4, 0),
    (2, 6, 4, 5, -1), (-3, 3, -3, 3), (8, -8),
]  # fmt: skip
# minutes from the origin: within an hour, a day, a week, a month, years
SLOTS = (0, 10, 50, 60, 24 * 60 - 10, 24 * 60, 8 * 24 * 60, 40 * 24 * 60, 400 * 24 * 60)
PERIODS = ("all", "ALL", "D", "M", "h", "Y", "W", "min")
LONG = (64, 99, 100, 101, 128, 150, 257)
CURVES = [
    ((3.0,), (12.0,), np.inf),
    ((5.0,), (13.0,), 1e10),
    (*sn_ordered((6.0,), (3.0, 5.0), 9.0), np.inf),
    # the same slope as the first, with another intercept and an endurance
    ((3.0,), (11.5,), 1e8),
    # a slope between two whole numbers
    ((3.5,), (12.5,), np.inf),
]


def ref_sum(refs):
    refs = [r for r in refs if r is not None]
    out = refs[0]
    for r in refs[1:]:
        out = out.add(r)
    return out


class Check:
    ID = "C19"
    ASSUMPTIONS = [
        "counts are listed by increasing time stamp, missing entries are None",
        "periods are single pandas periods (no multiples)",
    ]
    MIN_OUTCOMES = {"sum": 300, "holes": 200, "resolved": 300, "single": 300,
                    "residuals": 100, "damage": 300, "refused": 20, "nothing": 20}  # fmt: skip

    def bound(self, tier):
        n, m = (30, 8) if tier == "quick" else (80, 10)
        return (
            f"lists of every length up to {n} over a rotating pool, with every pattern "
            f"of missing entries up to length {m}; every subset of {len(SLOTS)} time slots"
            f" {'of up to 5 ' if tier == 'quick' else ''}spanning minutes to years"
            f" aggregated by {len(PERIODS)} periods, with missing counts and numbers in"
            f" rotation; lists of {LONG} and 2600, and tables of 20, 60, 150 and 700 counts; damage for"
            f" every ordered choice of {len(CURVES)} curves, repeated ones included"
        )

    def tasks(self, tier):
        n, m = (30, 8) if tier == "quick" else (80, 10)
        for i in range(0, n + 1, 6):
            yield ("lists", i, min(i + 5, n))
        for k in range(1, m + 1):
            yield ("holes", k)
        for i in range(24):
            yield ("aggregate", 5 if tier == "quick" else 9, i, 24)
        for n in LONG:
            yield ("long", n)
        yield ("longest",)
        for i in range(6):
            yield ("damage", i, 6)
        for n in (20, 60, 150):
            for by in PERIODS[1:]:
                yield ("many", n, by)
        for by in ("D", "M"):
            yield ("many", 700, by)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        numba.set_num_threads(1)
        getattr(self, kind)(rec, *a)

    def _pool(self, n, start=0, table=False):
        """n counts with increasing time stamps, and their models."""
        refs, ccs = [], []
        for k in range(n):
            if table and k % 3 == 1:
                t = list(TABLES)[(k + start) % len(TABLES)]
                # a sum keeps the time bins of every operand, so share them
                ref = Ref(TABLES[t], (k,), RESIDUALS["long"], nsmall=k, bins=(0.2, 0.05, -15.0, 10.0))
                ccs.append(ref.build())
            else:
                x = SIGNALS[(k * 3 + start) % len(SIGNALS)]
                ref = signal_ref([float(v) for v in x], k)
                ccs.append(must(from_signal, x, k))
            refs.append(ref)
        return refs, ccs

    def _sum(self, rec, refs, ccs, what):
        with rec.case(*what):
            snaps = [None if c is None else snapshot(c) for c in ccs]
            given = list(ccs)
            got = must(pbar_sum, given)
            require("list unchanged", len(given) == len(ccs)
                    and all(g is c for g, c in zip(given, ccs)))  # fmt: skip
            for c, s in zip(ccs, snaps):
                if c is not None:
                    unchanged("operand", c, s)
            rec.step(len(ccs))
            rec.trace()
            rec.state(what)
            if all(r is None for r in refs):
                same("sum of nothing", got, None)
                rec.outcome("nothing")
                return
            ref_sum(refs).agree(got, what="sum ")
            # the same as folding by hand
            have = [c for c in ccs if c is not None]
            tot = have[0]
            for c in have[1:]:
                tot = must(lambda: tot + c)
            same("sum equals the left fold", snapshot(got), snapshot(tot))
            rec.outcome("sum")

    def lists(self, rec, lo, hi):
        for n, start, tab in itertools.product(range(max(lo, 1), hi + 1), range(6), (False, True)):
            refs, ccs = self._pool(n, start, tab)
            self._sum(rec, refs, ccs, ("list", n, start, tab))

    def long(self, rec, n):
        for start, tab in itertools.product(range(4), (False, True)):
            refs, ccs = self._pool(n, start, tab)
            self._sum(rec, refs, ccs, ("long", n, start, tab))
            for gap in (2, 7):
                r = [x if k % gap else None for k, x in enumerate(refs)]
                c = [x if k % gap else None for k, x in enumerate(ccs)]
                self._sum(rec, r, c, ("long", n, start, tab, gap))

    def longest(self, rec):
        refs, ccs = self._pool(2600, 1)
        self._sum(rec, refs, ccs, ("longest", 2600))

    def many(self, rec, n, by):
        """Many counts per table, at steps from ten minutes to twelve days."""
        for step in (10, 20, 600, 1440, 17280):
            self._aggregate(rec, n + step % 7, tuple(range(n)), by, False,
                            [step * k for k in range(n)])  # fmt: skip

    def holes(self, rec, n):
        refs, ccs = self._pool(n, n)
        for keep in itertools.product((False, True), repeat=n):
            r = [x if k else None for x, k in zip(refs, keep)]
            c = [x if k else None for x, k in zip(ccs, keep)]
            self._sum(rec, r, c, ("holes", n, keep))
            rec.outcome("holes")
            if not all(keep) and not any(keep):
                rec.outcome("nothing")

    def aggregate(self, rec, most, i, n):
        subsets = [
            s for k in range(1, most + 1) for s in itertools.combinations(range(len(SLOTS)), k)
        ]
        for q, slots in list(enumerate(subsets))[i::n]:
            for by in PERIODS:
                self._aggregate(rec, q, slots, by, q % 5 == 3)

    def _aggregate(self, rec, q, slots, by, strange, minutes=SLOTS):
        import datetime as dt

        n = len(slots)
        when = [T0 + dt.timedelta(minutes=minutes[s]) for s in slots]
        sigs = [[float(v) for v in SIGNALS[(q + s * 3) % len(SIGNALS)]] for s in slots]
        ccs = [CycleCount.from_timeseries(np.array(x), timestamp=t) for x, t in zip(sigs, when)]
        other = [c if (q >> j) % 2 else None for j, c in enumerate(ccs)]
        nums = [float(j * j + q % 7) if (q + j) % 4 else np.nan for j in range(n)]
        extra = ("CCx", "aCC_x", "cc_x", "xCC_")[q % 4]
        cols = {"CC_A": ccs, "CC_B": other, "v": nums, extra: [float(j) for j in range(n)]}
        if strange:
            cols[3] = [2.0 * j for j in range(n)]
        index = pd.DatetimeIndex(when)
        if q % 2:
            index = index.tz_localize(None)
        df = pd.DataFrame(cols, index=index)
        keep = df.copy()
        snaps = [snapshot(c) for c in ccs]
        with rec.case(slots, by, q, minutes[-1]):
            saved = (q + len(by)) % 2 == 0
            out = must(aggregate_cc, df, by, save_residuals=saved)
            res = None
            if saved:
                out, res = out
            for c, s in zip(ccs, snaps):
                unchanged("aggregated count", c, s)
            require("table unchanged", df.drop(columns=["CC_A", "CC_B"]).equals(
                keep.drop(columns=["CC_A", "CC_B"])))  # fmt: skip
            same("columns", sorted(map(str, out.columns)), sorted(map(str, cols)))
            groups = defaultdict(list)
            for j, t in enumerate(when):
                key = True if by.lower() == "all" else pd.Period(t.replace(tzinfo=None), by)
                groups[key].append(j)
            same("periods", list(out.index), list(groups))
            left = {"CC_A": [], "CC_B": []}
            rec.state((slots, by, q, minutes[-1]))
            rec.step(len(groups))
            rec.trace()
            for key, js in groups.items():
                row = out.loc[key]
                for c in [c for c in cols if not str(c).startswith("CC_")]:
                    have = [cols[c][j] for j in js if not math.isnan(cols[c][j])]
                    close(f"average of {c}", float(row[c]),
                          sum(have) / len(have) if have else np.nan)  # fmt: skip
                for c in ("CC_A", "CC_B"):
                    js_c = [j for j in js if cols[c][j] is not None]
                    if not js_c:
                        require("no count", not isinstance(row[c], CycleCount))
                        rec.outcome("nothing")
                        continue
                    got = row[c]
                    if len(js_c) == 1:
                        same("single count", snapshot(got), snaps[js_c[0]])
                        left[c].append(sigs_res(sigs, js_c))
                        rec.outcome("single")
                        continue
                    refs = [signal_ref(sigs[j], j) for j in js_c]
                    tot = ref_sum(refs)
                    left[c].append(tot.residuals)
                    sol = tot.solve()
                    sol.ks = tuple(range(len(js_c)))
                    self._same(got, sol, [when[j] for j in js_c])
                    rec.outcome("resolved")
            if saved:
                self._residuals(rec, res, left)

    @staticmethod
    def _same(got, ref, when):
        from mcheck.counts import rows, same_cycles, seq

        same_cycles("aggregated cycles", rows(got), ref.tab)
        close("aggregated residuals", seq(got.residuals_sequence), ref.residuals)
        same("aggregated time stamps",
             sorted(np.asarray(got.time_sequence, dtype=object).ravel().tolist()), when)  # fmt: skip
        same("resolved", bool(got.lffd_solved), len(ref.residuals) >= 2)

    @staticmethod
    def _residuals(rec, res, left):
        for c, seqs in left.items():
            if not seqs:
                same(f"residuals of {c}", len(res[c]["res"]) if c in res else 0, 0)
                continue
            want = [astm(s)[1] for s in seqs]
            close(f"residuals of {c}", res[c]["res"], list(itertools.chain(*want)))
            idx = [int(v) for v in res[c]["idx"]]
            same(f"number of positions of {c}", len(idx), len(res[c]["res"]))
            off = pos = 0
            for s, w in zip(seqs, want):
                mine = idx[pos : pos + len(w)]
                close(f"values at the positions of {c}", [s[j - off] for j in mine], w)
                require("positions increase", all(a < b for a, b in zip(mine, mine[1:])))
                pos += len(w)
                off = mine[-1]
            rec.outcome("residuals")

    def damage(self, rec, i, n):
        import datetime as dt

        sns = [must(sn, *c) for c in CURVES]
        # every choice in every order, and lists naming a curve more than once
        once = [s for k in (1, 2, 3, 4) for s in itertools.permutations(range(4), k)]
        once += [(4,), (4, 0), (0, 4), (3, 4, 1)]
        more = [(0, 0), (0, 0, 0), (1, 0, 1), (2, 2, 0, 0), (0, 1, 2, 3) * 3]
        combos = list(itertools.combinations(range(len(SLOTS)), 3)) + [tuple(range(len(SLOTS)))]
        for q, slots in list(enumerate(combos))[i::n]:
            when = [T0 + dt.timedelta(minutes=SLOTS[s]) for s in slots]
            # the same signal on every day of the last tables: equal damages
            pick = (lambda j: 0) if q % 7 == 6 else (lambda j: (q + j) % len(SIGNALS))
            ccs = [
                CycleCount.from_timeseries(
                    np.array([10.0 * v for v in SIGNALS[pick(j)]]), timestamp=t
                )
                for j, t in enumerate(when)
            ]
            other = [c if (q >> j) % 2 else None for j, c in enumerate(ccs)]
            df = pd.DataFrame(
                {"CC_A": ccs, "CC_B": other,
                 ("v", "cc_v", "CCv", "aCC_v", 7)[q % 5]: [float(j) for j in range(len(slots))]},
                index=pd.DatetimeIndex(when),
            )  # fmt: skip
            agg = must(aggregate_cc, df, ("D", "all", "M", "h")[q % 4])
            for u, sub in enumerate(once + more):
                boxes = [[sns[j] for j in sub], {f"k{a}": sns[j] for a, j in enumerate(sub)},
                         defaultdict(lambda: None, {f"k{a}": sns[j] for a, j in enumerate(sub)})]  # fmt: skip
                if len(sub) == 1:
                    boxes.append(sns[sub[0]])
                box = boxes[(q + u) % len(boxes)]
                with rec.case("damage", slots, sub, type(box).__name__):
                    out = must(calc_aggregated_damage, agg, box)
                    same("rows", len(out), len(agg) * len(sub))
                    same("columns", sorted(out.columns), ["CC_A", "CC_B"])
                    for k, j in zip(out.index[:: len(agg)], sub):
                        same("curve named by its slopes",
                             [float(v) for v in re.findall(r"\d+\.?\d*", str(k[0]))],
                             [float(m) for m in CURVES[j][0]])  # fmt: skip
                    for a, j in enumerate(sub):
                        for b in range(len(agg)):
                            for c in ("CC_A", "CC_B"):
                                cc = agg[c].iloc[b]
                                exp = 0.0
                                if isinstance(cc, CycleCount):
                                    exp = float(np.sum(
                                        arr(cc.count_cycle) / life(arr(cc.stress_range), *CURVES[j])
                                    ))  # fmt: skip
                                close("damage", float(out[c].iloc[a * len(agg) + b]), exp,
                                      atol=1e-300)  # fmt: skip
                    same("periods", [k[1] for k in out.index], list(agg.index) * len(sub))
                    rec.state(("damage", slots, sub, (q + u) % len(boxes)))
                    rec.step(len(out))
                    rec.trace()
                    rec.outcome("damage")

    def reject(self, rec):
        refs, ccs = self._pool(4, 0)
        t = [stamp(k) for k in range(4)]
        for perm in itertools.product(range(4), repeat=3):
            with rec.case("index", perm):
                df = pd.DataFrame(
                    {"CC_A": [ccs[0], None, None]}, index=pd.DatetimeIndex([t[k] for k in perm])
                )
                rec.step()
                rec.trace()
                if list(perm) == sorted(set(perm)):
                    must(aggregate_cc, df, "D")
                else:
                    rejects("time index", aggregate_cc, df, "D")
                    rejects("time index", aggregate_cc, df, "all")
                    rec.outcome("refused")
        for bad in (
            pd.DataFrame({"CC_A": ccs[:2]}),
            pd.DataFrame({"CC_A": ccs[:2]}, index=["a", "b"]),
            {"CC_A": ccs[:2]},
            None,
        ):
            with rec.case("table", str(type(bad))):
                rejects("table", aggregate_cc, bad, "D")
                rec.outcome("refused")
        df = pd.DataFrame({"CC_A": ccs[:2]}, index=pd.DatetimeIndex(t[:2]))
        agg = must(aggregate_cc, df, "all")
        for bad in ([1, 2], ["m"], [must(sn, *CURVES[0]), None]):
            with rec.case("curves", str(bad[:1])):
                rejects("curves", calc_aggregated_damage, agg, bad)
                rec.outcome("refused")
        with rec.case("unit"):
            c = must(sn, 3.0, 12.0, unit_string="ksi")
            rejects("unit mismatch", calc_aggregated_damage, agg, [c])
            rec.outcome("refused")


def sigs_res(sigs, js):
    return signal_ref(sigs[js[0]]).residuals


CHECK = Check()
