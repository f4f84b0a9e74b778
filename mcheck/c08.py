"""C08: import of cycle-count dictionaries and export/import round trips."""
from __future__ import annotations

import copy
import itertools

import numpy as np
from py_fatigue import CycleCount

from mcheck.c07 import BINS, SMALL, TINY, bin_of, default_lb
from mcheck.core import Mismatch, Rec, arr, close, must, rejects, require, same
from mcheck.counts import canon, make, rows, same_cycles, seq, stamp, times
from mcheck.model import astm, table

HIST1 = [None, [], [0, 2], [3], [1, 0, 4], [0, 0, 0, 1], [0], [256, 0, 70000, 2**33],
         [0.5, 0, 2.5], [k % 3 for k in range(300)]]  # fmt: skip
HIST2 = [
    None, [], [[]], [[2.0]], [[0, 1], [], [3, 0, 2]], [[], [1]], [[0], [0, 5]], [[], [], [], [7, 1]],
    [[300], [], [0, 65536, 2**33]], [[0.5], [0.0, 2.5]],
    [[k % 2] * (1 + k % 3) for k in range(300)], [[1], [j % 2 for j in range(300)]],
]  # fmt: skip
LG1 = [[], [7.5], [9.25, 3.0], [1234.56789, 3.0, 3.0]]
LG2 = [[], [[1.5, 7.5]], [[-3.0, 9.25], [0.0, 3.0]], [[-1234.56789, 3.000001], [0.0, 3.0], [0.0, 3.0]]]
RES1 = [[], [2.0], [4.5, 6.0, 2.0], [1234.56789, 2.0, 2.0]]
RES2 = [[], [[0.5, 2.0]], [[-1.0, 4.5], [2.0, 6.0], [0.0, 2.0]], [[1234.56789, 2.0], [1e-7, 2.0]]]
SIGS = ["absent", None, [], [1.0, -2.5, 4.0], [1234.56789, -0.000001]]
SETS = [(0.2, 0.05, -5.0, 10.0), (1.0, 0.5, -7.5, 2.5), (0.0, 2.0, 10.0, 1.0), (0.0002, 0.0004, 0.015625, 0.03125),
        (1e4, 2e6, -1e6, 1e5)]


def cells(hist, bins, mean):
    rlb, rw, mlb, mw = bins
    out = []
    if mean:
        for i, row in enumerate(hist or []):
            for j, n in enumerate(row):
                if n:
                    out.append((rlb + (j + 0.5) * rw, mlb + (i + 0.5) * mw, n))
    else:
        for j, n in enumerate(hist or []):
            if n:
                out.append((rlb + (j + 0.5) * rw, 0.0, n))
    return out


class Check:
    ID = "C08"
    ASSUMPTIONS = [
        "cycles below the lower bound come one per row",
        "bin centres need no more decimals than the rounding of the import",
    ]
    MIN_OUTCOMES = {"current": 500, "legacy": 500, "trip": 2000, "refused": 50}

    def bound(self, tier):
        return (
            "all combinations of histogram, individually listed cycles, half cycles"
            " and residual signals (absent, empty, one, several entries) in the"
            " current and the legacy layout, new and old key names, 5 bin settings;"
            " histograms and lists of up to 3000 entries;"
            " bins finer than the default decimals;"
            f" round trips of all tables of two of {len(SMALL)} rows"
            f" {'(every second)' if tier == 'quick' else ''} and three of {len(TINY)}"
            " rows, and of all 3-level signals up to length 7"
        )

    def tasks(self, tier):
        for mean in (0, 1):
            for h in range(len(HIST2 if mean else HIST1)):
                yield ("layouts", mean, h)
        for n in (30, 41, 129, 700, 3000):
            yield ("long", n)
        for i in range(32):
            yield ("trips2", i, 32, 2 if tier == "quick" else 1)
            yield ("trips3", i, 32)
        for i in range(16):
            yield ("signals", i, 16)
        yield ("digits",)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def layouts(self, rec, mean, h):
        hist = (HIST2 if mean else HIST1)[h]
        small = itertools.cycle((5, 0, 3, 10**7 + 1, 2**40))
        for lg, res, sig, bins, old, arrays in itertools.product(
            LG2 if mean else LG1, RES2 if mean else RES1, SIGS, SETS, (0, 1), (0, 1)
        ):
            self._read(rec, mean, hist, lg, res, sig, bins, old, arrays, next(small))

    def long(self, rec, n):
        """Long lists and large histograms."""
        for mean, bins, old, arrays in itertools.product((0, 1), SETS[:2], (0, 1), (0, 1)):
            v = [2.0 + (j * 37 % 101) / 8 for j in range(n)]
            u = [(j * 53 % 89) / 4 - 11 for j in range(n)]
            one = [v, [list(p) for p in zip(u, v)]][mean]
            two = one[::-1]
            sig = [(-1) ** j * (1 + j * 29 % 83) / 8 for j in range(n)]
            flat = [(j * 31 % 7) * (j % 3) / 2 for j in range(n)]
            wide = [flat[: n // 2], flat, [], flat[:3]] + [[0, 1.5 + j % 4] for j in range(n // 8)]
            hist = [flat, wide][mean]
            for h, lg, res in ((hist, [], []), (hist, one, two), ([], one, []), (None, [], two)):
                self._read(rec, mean, h, lg, res, sig, bins, old, arrays, n)

    def _read(self, rec, mean, hist, lg, res, sig, bins, old, arrays, ns, decimals=None):
        rlb, rw, mlb, mw = bins
        d = {"lg_c": lg, "res": res}
        if old:
            d |= {"bin_lb": rlb, "bin_width": rw, "no_sm_c": ns}
        else:
            d |= {"range_bin_lower_bound": rlb, "range_bin_width": rw, "nr_small_cycles": ns}
        if mean:
            d |= {"mean_bin_lower_bound": mlb, "mean_bin_width": mw}
        if hist is not None:
            d["hist"] = hist
        if sig != "absent":
            d["res_sig"] = sig
        exp = cells(hist, bins, mean)
        exp += [(v[1], v[0], 1) if mean else (v, 0.0, 1) for v in lg]
        exp += [(v[1], v[0], 0.5) if mean else (v, 0.0, 0.5) for v in res]
        d = copy.deepcopy(d)
        if arrays:
            d["lg_c"], d["res"] = np.array(lg), np.array(res)
            if not mean and hist:
                d["hist"] = np.array(hist)
        with rec.case(mean, hist, lg, res, sig, bins, old, arrays):
            rec.step()
            rec.trace()
            rec.state((mean, str(hist), str(lg), str(res), str(sig), bins, old))
            if not exp:
                rejects(
                    "a dictionary without cycles",
                    CycleCount.from_rainflow, d, timestamp=stamp(0),
                )  # fmt: skip
                rec.outcome("refused")
                return
            kw = [{}, {"lffd_solved": True}, {"mean_stress_corrected": "SWT: {}"}][ns % 3]
            if decimals is not None:
                kw = {**kw, "round_decimals": decimals}
            cc = must(CycleCount.from_rainflow, d, timestamp=stamp(3), name="N", unit="ksi", **kw)
            same("resolved", bool(cc.lffd_solved), "lffd_solved" in kw)
            same("corrected", cc.mean_stress_corrected, kw.get("mean_stress_corrected", "No"))
            same("time stamps", times(cc), [stamp(3)])
            same_cycles("cycles", rows(cc), exp)
            same("small cycles", float(cc.nr_small_cycles), float(ns))
            same("unit", cc.unit, "ksi")
            same("time stamp", cc.timestamp, stamp(3))
            same("name", cc.name, "N")
            close("residual signal", seq(cc.residuals_sequence),
                  [] if sig in ("absent", None) else sig)  # fmt: skip
            close("range bins", [cc.range_bin_lower_bound, cc.range_bin_width], [rlb, rw])
            if mean:
                close("mean bins", [cc.mean_bin_lower_bound, cc.mean_bin_width], [mlb, mw])
            else:
                close("default mean bin width", cc.mean_bin_width, 10)
            rec.outcome("current" if mean else "legacy")

    def digits(self, rec):
        """Bins finer than the default number of decimals."""
        for q, hist in enumerate(itertools.product((0, 1, 3), repeat=4)):
            bins = [(2.0**-6, 2.0**-5, -(2.0**-7), 2.0**-6), (0.0, 2.0**-8, 1.0, 2.0**-9)][q % 2]
            if any(hist):
                self._read(rec, False, list(hist), [], [2.0**-9], "absent", bins, q % 3 == 0, False, q, 12)
                both = [list(hist[:2]), list(hist[2:])]
                self._read(rec, True, both, [[2.0**-9, 2.0**-8]], [], "absent", bins, False, False, q, 12)

    # -- round trips
    def _trip(self, rec, tab, bins, legacy, tol, sig, nsmall, zeros=32, decimals=4):
        if bins[2] is not None and min(m for _, m, _ in tab) < bins[2]:
            return
        if any(r < bins[0] and w > 1 for r, _, w in tab):
            return
        keep = [t for t in tab if t[0] >= bins[0]]
        if not keep:
            return
        rlb, rw, mlb, mw = bins
        with rec.case(tab, bins, legacy, tol, zeros):
            cc = make(
                tab, 0, sig, nr_small_cycles=nsmall,
                range_bin_lower_bound=rlb, range_bin_width=rw,
                _mean_bin_lower_bound=mlb, mean_bin_width=mw,
            )  # fmt: skip
            opts = dict(
                damage_tolerance_for_binning=tol, max_consecutive_zeros=zeros,
                legacy_export=legacy, round_decimals=decimals,
            )  # fmt: skip
            d = must(cc.as_dict, **opts)
            big, halves = copy.deepcopy(d["lg_c"]), copy.deepcopy(d["res"])
            back = must(
                CycleCount.from_rainflow, copy.deepcopy(d), timestamp=stamp(0)
            )
            got = rows(back)
            dropped = len(tab) - len(keep)
            same("small cycles", float(back.nr_small_cycles), float(nsmall + dropped))
            close("total weight", got[:, 2].sum(), sum(w for _, _, w in keep))
            close("residual signal", seq(back.residuals_sequence), np.round(sig, decimals))
            # every cycle lands within half a bin
            self._near(keep, got, rw, None if legacy else mw)
            ent = [tuple(v) for v in np.round(got, 9)[:, [1, 0, 2]].tolist()]
            for w, section in ((1.0, big), (0.5, halves)):
                for v in section:
                    m, r = (0.0, v) if legacy else v
                    require(
                        f"listed entry {v} of weight {w} kept",
                        (round(m, 9), round(r, 9), w) in ent,
                    )
            again = must(back.as_dict, **opts)
            same("small cycles again", float(again["nr_small_cycles"]), float(nsmall + dropped))
            third = must(
                CycleCount.from_rainflow, copy.deepcopy(again), timestamp=stamp(0)
            )
            if tol in (0.0, 1e9) and zeros >= 32:
                # otherwise a moved largest cycle may change what is listed
                self._same_bag("second round trip", rows(third), got)
            else:
                close("total weight again", rows(third)[:, 2].sum(), got[:, 2].sum())
                self._near(got.tolist(), rows(third), rw, None if legacy else mw)
            rec.state((tuple(tab), bins, legacy, tol, zeros))
            rec.step(4)
            rec.trace(2)
            rec.outcome("trip")

    @staticmethod
    def _same_bag(what, a, b):
        """Same weight at every (range, mean), full and half cycles apart."""

        def bag(t):
            out = {}
            for r, m, w in np.round(t, 6).tolist():
                key = (r + 0.0, m + 0.0)
                f, h = out.get(key, (0, 0))
                out[key] = (f + int(w), h + (w % 1 == 0.5))
            return out

        if bag(a) != bag(b):
            raise Mismatch(f"{what}: {bag(a)} instead of {bag(b)}")

    @staticmethod
    def _near(src, dst, rw, mw):
        """A weight-preserving matching moving nothing more than half a bin."""
        for half in (0, 1):
            s = [(r, m) for r, m, w in src for _ in range((w % 1 == 0.5) if half else int(w))]
            d = [
                (r, m)
                for r, m, w in dst.tolist()
                for _ in range((w % 1 == 0.5) if half else int(w))
            ]
            if len(s) != len(d):
                raise Mismatch(f"{'half' if half else 'full'} cycles {d} instead of {s}")
            eps = 6e-5

            def ok(i, j):
                if abs(s[i][0] - d[j][0]) > (0 if half else rw / 2) + eps:
                    return False
                return mw is None or abs(s[i][1] - d[j][1]) <= (0 if half else mw / 2) + eps

            match = {}

            def augment(i, seen):
                for j in range(len(d)):
                    if j not in seen and ok(i, j):
                        seen.add(j)
                        if j not in match or augment(match[j], seen):
                            match[j] = i
                            return True
                return False

            for i in range(len(s)):
                if not augment(i, set()):
                    raise Mismatch(f"cycle {s[i]} moved too far: {d}")

    def trips2(self, rec, i, n, m):
        k = i
        combos = list(itertools.combinations_with_replacement(SMALL, 2))
        for tab in combos[i::n][i % m :: m]:
            for leg in (False, True):
                for b in BINS[:4]:
                    k += 1
                    self._trip(rec, list(tab), b, leg, (0.001, 0.2, 1e9, 0.0)[k // 2 % 4],
                               [0.5, -2.0, 3.25], k % 4)  # fmt: skip

    def trips3(self, rec, i, n):
        k = i
        for tab in list(itertools.combinations_with_replacement(TINY, 3))[i::n]:
            k += 1
            self._trip(rec, list(tab), BINS[k % 4], k % 3 == 0, (0.001, 1e9, 0.0)[k // 3 % 3],
                       [], k % 2, zeros=(32, 2)[k % 5 == 0])  # fmt: skip

    def signals(self, rec, i, n):
        k = i
        for size in range(2, 8):
            for x in list(itertools.product((-3, 0, 4), repeat=size))[i::n]:
                if len(set(x)) < 2:
                    continue
                cyc, res, _ = astm(list(x))
                k += 1
                b = [(0.2, 0.05, None, 10.0), (1.0, 0.5, None, 5.0), (0.5, 4.0, None, 2.5)][k % 3]
                self._trip(rec, table(cyc), b, k % 4 == 0, (0.001, 1e9, 0.0)[k // 3 % 3], res, k % 3)

    def reject(self, rec):
        good = {
            "range_bin_lower_bound": 1.0, "range_bin_width": 0.5, "nr_small_cycles": 0,
            "mean_bin_lower_bound": 0.0, "mean_bin_width": 1.0,
            "hist": [[1.0]], "lg_c": [[1.0, 2.0]], "res": [[1.0, 2.0]], "res_sig": [1.0, 2.0],
        }  # fmt: skip
        for extra in ("foo", "Hist", "range_bin", "residuals", "", "mean", "lgc", "res sig"):
            with rec.case(extra):
                rejects("unknown key", CycleCount.from_rainflow,
                        copy.deepcopy(good) | {extra: 1}, timestamp=stamp(0))  # fmt: skip
                rec.outcome("refused")
                rec.trace()
                rec.step()
        with rec.case("both lower bounds"):
            rejects("both lower bounds", CycleCount.from_rainflow,
                    copy.deepcopy(good) | {"bin_lb": 1.0, "bin_width": 0.5},
                    timestamp=stamp(0))  # fmt: skip
            rejects("both lower bounds", CycleCount.from_rainflow,
                    copy.deepcopy(good) | {"bin_lb": 1.0}, timestamp=stamp(0))  # fmt: skip
            rec.trace(2)
            rec.step(2)
        for v in ("absent", None, 12.5):
            with rec.case("duration", v):
                d = copy.deepcopy(good)
                if v != "absent":
                    d["as_dur"] = v
                cc = must(CycleCount.from_rainflow, d, timestamp=stamp(0))
                same_cycles("cycles", rows(cc), [(1.25, 0.5, 1), (2, 1, 1), (2, 1, 0.5)])
                rec.trace()
                rec.step()


CHECK = Check()
