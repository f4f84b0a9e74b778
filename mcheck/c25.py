"""C25: resolving a count from the extremes of its records."""
from __future__ import annotations

import itertools

import numpy as np
from py_fatigue import CycleCount

from mcheck.core import Rec, close, must, rejects, require, same
from mcheck.counts import from_signal, make, rows, same_cycles, seq, snapshot, stamp, times, unchanged
from mcheck.model import astm, table, words
from mcheck.ref import RESIDUALS, TABLES

MODES = ("min-max", "min/max", "min max")
CASES = (str.lower, str.upper, str.title, str.capitalize, str.swapcase)


def spelled():
    for m, f in itertools.product(MODES, CASES):
        yield f(m)
    yield from ("Min-max", "mIn-MaX", "MIN/max", "min MAX")


def expect(records):
    """Cycles, residual sequence and extremes of the resolved sum of records."""
    ext = [v for x in records for v in (min(x), max(x))]
    full = [r for x in records for r in table(astm(list(x))[0]) if r[2] == 1]
    if len(ext) < 3:
        return None
    cyc, res, _ = astm(ext)
    return table(cyc) + full, res, [min(ext), max(ext)]


class Check:
    ID = "C25"
    ASSUMPTIONS = ["every record has at least one cycle"]
    MIN_OUTCOMES = {"resolved": 2000, "as it is": 200, "refused": 30, "recovered": 100,
                    "spelled": 20}  # fmt: skip

    def bound(self, tier):
        n = 5 if tier == "quick" else 7
        return (
            "all pairs of 4-level records of length 2..4 and all sequences of three to"
            f" {n} records with every (minimum, maximum) of 4 levels, all 4-level records"
            " of length 2..6 alone and with a second one, at 4 scales, with clustered and"
            " imported full cycles, from either grouping of the sums, scaled before and"
            " after; every spelling of every mode and unknown ones; sums of up to 300 records"
        )

    def tasks(self, tier):
        for i in range(16):
            yield ("pairs", i, 16)
        for n in range(3, 6 if tier == "quick" else 8):
            for k in range(8):
                yield ("extremes", n, k, 8)
        yield ("single",)
        yield ("tables",)
        yield ("spellings",)
        yield ("long",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def _records(self, rec, records, deep=False, mode="min-max"):
        ccs = [must(from_signal, x, k, unit="ksi", name="R") for k, x in enumerate(records)]
        total = ccs[0]
        for c in ccs[1:]:
            total = must(lambda: total + c)
        snap = snapshot(total)
        got = must(total.solve_lffd, mode)
        unchanged("resolving", total, snap)
        rec.step(len(records))
        rec.trace()
        exp = expect(records)
        if exp is None:
            require("returned as it is", snapshot(got) == snap)
            rec.outcome("as it is")
            return
        tab, res, ext = exp
        same_cycles("resolved cycles", rows(got), tab)
        close("residual sequence", seq(got.residuals_sequence), res)
        close("extremes left", seq(got.min_max_sequence), ext)
        self._meta(got, total, len(records))
        rec.outcome("resolved")
        if any(w == 1 for _, _, w in table(astm([v for x in records for v in (min(x), max(x))])[0])):
            rec.outcome("recovered")
        again = must(got.solve_lffd, mode)
        require("resolved once only", snapshot(again) == snapshot(got))
        again = must(got.solve_lffd)
        require("resolved once only", snapshot(again) == snapshot(got))
        rec.trace(2)
        if not deep:
            return
        right = ccs[-1]
        for c in reversed(ccs[:-1]):
            right = must(lambda: c + right)
        same_cycles("added from the right", rows(must(right.solve_lffd, mode)), tab)
        twice = must(lambda: (2 * total)).solve_lffd(mode)
        same_cycles("scaled first", rows(twice), [(2 * r, 2 * m, w) for r, m, w in tab])
        close("scaled extremes", seq(twice.min_max_sequence), [2 * v for v in ext])
        rec.trace(2)
        # a plain resolution of the same sum is not disturbed, and keeps the extremes
        plain = must(total.solve_lffd)
        same_cycles("plain resolution", rows(plain), table(astm([v for x in records for v in x])[0]))
        close("extremes kept", seq(plain.min_max_sequence), [v for x in records for v in (min(x), max(x))])
        rec.trace()

    def _meta(self, got, src, n):
        require("flagged as resolved", got.lffd_solved is True)
        same("unit", got.unit, src.unit)
        same("name", got.name, src.name)
        same("small cycles", float(got.nr_small_cycles), float(src.nr_small_cycles))
        same("time stamps", times(got), [stamp(k) for k in range(n)])
        same("correction", got.mean_stress_corrected, src.mean_stress_corrected)
        close("factor", got.stress_concentration_factor, src.stress_concentration_factor)
        close(
            "bins",
            [got.range_bin_lower_bound, got.range_bin_width, got.mean_bin_lower_bound, got.mean_bin_width],
            [src.range_bin_lower_bound, src.range_bin_width, src.mean_bin_lower_bound, src.mean_bin_width],
        )

    def pairs(self, rec, i, n):
        ws = [w for w in words((-3, 0, 2, 7), 2, 4) if len(set(w)) > 1]
        for k, (x, y) in enumerate(itertools.islice(itertools.product(ws, ws), i, None, n)):
            if len(x) + len(y) > 6:
                continue
            with rec.case(x, y):
                self._records(rec, (x, y), deep=k % 5 == 0)
                rec.state((x, y))

    def extremes(self, rec, n, i, m):
        spans = list(itertools.combinations((-4, -1, 1, 5), 2))
        for k, sp in enumerate(itertools.islice(itertools.product(spans, repeat=n), i, None, m)):
            # the order of the extremes within a record does not matter
            recs = [(lo, hi) if (k + j) % 2 else (hi, lo, hi) for j, (lo, hi) in enumerate(sp)]
            f = (1, 0.25, 2.0**-30, 2.0**40)[k % 4]
            recs = [tuple(v * f for v in x) for x in recs]
            with rec.case(recs):
                self._records(rec, recs, deep=k % 7 == 0, mode=MODES[k % 3])
                rec.state(tuple(recs))

    def single(self, rec):
        for k, x in enumerate(words((-2, 0, 1, 3), 2, 5)):
            if len(set(x)) < 2:
                continue
            with rec.case("single", x):
                self._records(rec, (x,))
                self._records(rec, (x, x[::-1]), deep=True)
                rec.state(("single", x))

    def tables(self, rec):
        """Built and imported counts: several cycles per row, missing residuals."""
        for (t, a), (u, b), k in itertools.product(
            itertools.product(TABLES, RESIDUALS), itertools.product(TABLES, RESIDUALS), (0, 1)
        ):
            with rec.case(t, a, u, b, k):
                ccs = []
                for j, (q, r) in enumerate(((t, a), (u, b))):
                    res = RESIDUALS[r]
                    if k:  # through a dictionary
                        d = {
                            "range_bin_lower_bound": 0.5, "range_bin_width": 1.0,
                            "mean_bin_lower_bound": -64.0, "mean_bin_width": 1.0,
                            "nr_small_cycles": j + 1, "hist": [], "res_sig": res,
                            "lg_c": [[m, s] for s, m, w in TABLES[q] for _ in range(int(w))],
                            "res": [[m, s] for s, m, w in TABLES[q] if w == 0.5],
                        }  # fmt: skip
                        ccs.append(must(CycleCount.from_rainflow, d, timestamp=stamp(j)))
                    else:
                        ccs.append(must(
                            make, TABLES[q], j, nr_small_cycles=j + 1,
                            residuals_sequence=None if res is None else np.array(res, float),
                        ))  # fmt: skip
                total = must(lambda: ccs[0] + ccs[1])
                ext = [v for r in (a, b) if len(RESIDUALS[r] or ()) >= 2
                       for v in (min(RESIDUALS[r]), max(RESIDUALS[r]))]  # fmt: skip
                snap = snapshot(total)
                got = must(total.solve_lffd, "min-max")
                unchanged("resolving", total, snap)
                rec.step(2)
                rec.trace()
                rec.state((t, a, u, b, k))
                if len(ext) < 3:
                    require("returned as it is", snapshot(got) == snap)
                    rec.outcome("as it is")
                    continue
                cyc, res, _ = astm(ext)
                full = [r for q in (t, u) for r in TABLES[q] if r[2] > 0.5]
                if k:
                    full = [(s, m, 1.0) for s, m, w in full for _ in range(int(w))]
                same_cycles("resolved cycles", rows(got), table(cyc) + [tuple(map(float, r)) for r in full])
                close("residual sequence", seq(got.residuals_sequence), res)
                same("small cycles", float(got.nr_small_cycles), 3.0)
                rec.outcome("resolved")

    def spellings(self, rec):
        recs = ((0, 4, -1), (2, -3, 5), (1, 6), (0, 3))
        for mode in spelled():
            with rec.case("mode", mode):
                self._records(rec, recs, deep=True, mode=mode)
                rec.outcome("spelled")
        total = must(lambda: sum(from_signal(x, k) for k, x in enumerate(recs)))
        base = snapshot(must(total.solve_lffd))
        for f in CASES:
            with rec.case("mode", f("residuals")):
                require("plain mode", snapshot(must(total.solve_lffd, f("residuals"))) == base)
                rec.outcome("spelled")
                rec.trace()
        solved = must(total.solve_lffd)
        for bad in ("", "min", "max", "minmax", "min_max", "residual", "max-min",
                    "min-max residuals", "lffd", "none", "None"):  # fmt: skip
            for cc in (total, solved, from_signal((0, 4), 0)):
                with rec.case("mode", bad):
                    rejects("unknown mode", cc.solve_lffd, bad, kinds=ValueError)
                    rec.outcome("refused")
                    rec.trace()
        for cls in ({"lffd_solved": True}, {"residuals_sequence": None}, {"residuals": []},
                    {"residuals": [1.0]}, {"residuals": [1.0, 4.0]}):  # fmt: skip
            for t, mode in itertools.product(TABLES, ("residuals", *MODES)):
                with rec.case("unresolvable", cls, t, mode):
                    kw = dict({"residuals": [0.0, 4, -2, 3]}, **cls)
                    if "residuals_sequence" in kw:
                        kw.pop("residuals")
                    cc = must(make, TABLES[t], 1, **kw)
                    snap = snapshot(cc)
                    require("returned as it is", snapshot(must(cc.solve_lffd, mode)) == snap)
                    rec.outcome("as it is")
                    rec.trace()

    def long(self, rec):
        for n in (10, 50, 150, 300):
            for a, b in ((7, 5), (11, 13), (2, 3)):
                recs = [(-(k % a), 1 + k % b, 0, k % 2 + 0.5) for k in range(n)]
                with rec.case("long", n, a, b):
                    self._records(rec, recs, deep=n < 100)
                    rec.state(("long", n, a, b))


CHECK = Check()
