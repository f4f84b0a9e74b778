"""C07: the exported dictionary against a reference binning of the table."""
from __future__ import annotations

import collections
import itertools
import math

import numpy as np
from py_fatigue.cycle_count import histogram as ht

from mcheck.core import Mismatch, Rec, arr, close, must, require, same
from mcheck.counts import make, seq
from mcheck.model import astm, table

HUGE = 10**9

# (range bound, range width, mean bound, mean width)
BINS = [
    (1.0, 0.5, None, 10.0),
    (1.0, 1.0, None, 5.0),
    (0.5, 2.0, -10.0, 2.5),
    (1.5, 0.25, -6.0, 4.0),
    (0.2, 0.05, None, 10.0),
    (7.0, 4.0, -6.5, 0.5),
]
# (tolerance, exponent, decimals, zeros)
OPTS = [
    (0.001, 5.0, 4, HUGE),
    (0.001, 5.0, 4, 32),
    (0.1, 3.0, 4, 2),
    (0.1, 1.0, 4, HUGE),
    (10.0, 5.0, 4, HUGE),
    (0.0, 5.0, 4, 0),
    (0.3, 5.0, 1, HUGE),
    (0.02, 2.0, 0, HUGE),
    (0.05, 4.0, 8, HUGE),
]
RANGES = (0.5, 1.0, 1.5, 2.0, 3.12, 7.0, 7.25, 11.0)
MEANS = (-6.0, -5.0, 0.0, 2.5, 5.0, 12.03)
WEIGHTS = (0.5, 1.0, 2.0, 2.5)


def universe():
    for r, m, w in itertools.product(RANGES, MEANS, WEIGHTS):
        if not (r < 1.5 and w > 1):  # small cycles come one per row
            yield (r, m, w)


SMALL = [t for t in universe() if t[1] in (-5.0, 0.0, 5.0) and t[2] != 2.0]
TINY = [t for t in SMALL if t[0] in (0.5, 2.0, 7.0, 7.25) and t[2] != 2.5]


def bin_of(x, lb, w):
    return max(math.ceil(round((x - lb) / w, 6)) - 1, 0)


def default_lb(means, w):
    return round(min(means) / w) * w - w / 2


def check_dict(d, tab, bins, opts, legacy, nsmall=0, residuals=None):
    """Compare an exported dictionary with the table it describes."""
    rlb, rw, mlb, mw = bins
    tol, exp, dec, zeros = opts
    if mlb is None:
        mlb = default_lb([m for _, m, _ in tab], mw)
    keep = [t for t in tab if t[0] >= rlb]
    same("small cycles", float(d["nr_small_cycles"]), float(nsmall + len(tab) - len(keep)))
    close("range bins", [d["range_bin_lower_bound"], d["range_bin_width"]], [rlb, rw])
    if not legacy:
        close("mean bins", [d["mean_bin_lower_bound"], d["mean_bin_width"]], [mlb, mw])
    full = [(m, r) for r, m, w in keep for _ in range(int(w))]
    half = [(m, r) for r, m, w in keep if w % 1 == 0.5]

    def listed(section, exp_pairs):
        got = d[section]
        if legacy:
            return sorted(arr(got).ravel().tolist()), sorted(
                np.round([r for _, r in exp_pairs], dec).tolist()
            )
        g = arr(got).reshape(-1, 2) if len(got) else np.empty((0, 2))
        e = np.round(arr(exp_pairs).reshape(-1, 2), dec)
        return sorted(map(tuple, g.tolist())), sorted(map(tuple, (e + 0.0).tolist()))

    g, e = listed("res", half)
    close("half cycles", g, e)
    # which full cycles must be listed on their own
    big = max((r for _, r in full), default=1.0) ** exp
    must_list, free = [], []
    for m, r in full:
        c = rlb + (bin_of(r, rlb, rw) + 0.5) * rw
        share, err = r**exp / big, abs(r**exp - c**exp) / r**exp
        near = min(abs(share - tol), abs(err - tol)) < 1e-9
        if share > tol and err > tol and not near:
            must_list.append((m, r))
        elif near:
            free.append((m, r))
    top = max((bin_of(r, rlb, rw) for _, r in full), default=0)
    if top <= zeros and not free:  # no run of empty cells can be too long
        g, e = listed("lg_c", must_list)
        close("individually listed cycles", g, e)
        rest = list(full)
        for t in must_list:
            rest.remove(t)
    else:
        # values are exact at the requested decimals, so listed cycles are
        # identified by value
        rest = collections.Counter((0.0, r) if legacy else (m, r) for m, r in full)
        got, need = listed("lg_c", must_list)
        got_c = collections.Counter((0.0, v) if legacy else v for v in got)
        need_c = collections.Counter((0.0, v) if legacy else v for v in need)
        if need_c - got_c:
            raise Mismatch(f"not listed individually: {dict(need_c - got_c)}")
        if got_c - rest:
            raise Mismatch(f"listed but not counted: {dict(got_c - rest)}")
        rest = list((rest - got_c).elements())
    cells = collections.Counter(
        (0 if legacy else bin_of(m, mlb, mw), bin_of(r, rlb, rw)) for m, r in rest
    )
    hist = collections.Counter()
    for i, row in enumerate([d["hist"]] if legacy else d["hist"]):
        for j, n in enumerate(row):
            if n:
                hist[(i, j)] += float(n)
    if dict(hist) != {k: float(v) for k, v in cells.items()}:
        raise Mismatch(f"histogram {dict(hist)} instead of {dict(cells)}")
    if residuals is not None:
        close("residual signal", seq(d["res_sig"]), np.round(arr(residuals), dec))
    return len(cells), len(full) - len(rest), len(half)


class Check:
    ID = "C07"
    ASSUMPTIONS = [
        "bin edges are multiples of 1e-5 (the library rounds edges there)",
        "the mean lower bound does not exceed the smallest mean",
        "cycles below the lower bound come one per row",
    ]
    MIN_OUTCOMES = {"histogram": 1000, "listed": 1000, "half": 1000, "legacy": 1000,
                    "signal": 500}  # fmt: skip

    def bound(self, tier):
        n = len(list(universe()))
        return (
            f"all tables of one and {'every third of' if tier == 'quick' else 'all'} two of"
            f" {n} (range, mean, weight) rows and three of {len(TINY)} rows, times"
            f" {len(BINS)} bin settings, {len(OPTS)} option sets and both layouts"
            " (rotating for pairs and triples); runs of empty cells over three rows; magnitudes 1e-7 to 1e7; large tables and tables with up to 70000 cycles in a cell, 300 rows or 2000 cells; all 4-level signals"
            " up to length 6 through binned_rainflow with and without times"
        )

    def tasks(self, tier):
        for i in range(8):
            yield ("singles", i)
        m = 3 if tier == "quick" else 1
        for i in range(48):
            yield ("pairs", i, 48, m)
        for i in range(24):
            yield ("triples", i, 24)
        for i in range(24):
            yield ("signals", i, 24)
        yield ("large",)
        yield ("edges",)
        yield ("wide",)
        yield ("defaults",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def _one(self, rec, tab, bins, opts, legacy, nsmall=0,
             residuals=(0.12344, -3.98763, 2.123456789, 1234567.0625, -0.00004, 100.0)):  # fmt: skip
        if bins[2] is not None and min(m for _, m, _ in tab) < bins[2]:
            return
        if any(r < bins[0] and w > 1 for r, _, w in tab):
            return
        tol, exp, dec, zeros = opts
        with rec.case(tab, bins, opts, legacy):
            cc = make(
                tab, 0, residuals,
                range_bin_lower_bound=bins[0], range_bin_width=bins[1],
                _mean_bin_lower_bound=bins[2], mean_bin_width=bins[3],
                nr_small_cycles=nsmall,
            )  # fmt: skip
            d = must(
                cc.as_dict,
                damage_tolerance_for_binning=tol,
                damage_exponent=exp,
                round_decimals=dec,
                max_consecutive_zeros=zeros,
                legacy_export=legacy,
            )
            h, g, l = check_dict(d, tab, bins, opts, legacy, nsmall, residuals)
            rec.step()
            rec.trace()
            rec.state((tuple(tab), bins, opts, legacy))
            for k, n in (("histogram", h), ("listed", g), ("half", l)):
                if n:
                    rec.outcome(k)
            if legacy:
                rec.outcome("legacy")

    def singles(self, rec, i):
        u = list(universe())[i::8]
        for t, b, o, leg in itertools.product(u, BINS, OPTS, (False, True)):
            self._one(rec, [t], b, o, leg)

    def pairs(self, rec, i, n, m):
        k = i
        u = list(universe())
        combos = list(itertools.combinations_with_replacement(u, 2))
        for tab in combos[i::n][i % m :: m]:
            for leg in (False, True):
                for b in BINS:
                    k += 1
                    self._one(rec, list(tab), b, OPTS[k % len(OPTS)], leg, k % 3)
                    if k % 5 == 0:
                        self._one(rec, list(tab)[::-1], b, OPTS[k % 2], leg)

    def triples(self, rec, i, n):
        k = i
        for tab in list(itertools.combinations_with_replacement(TINY, 3))[i::n]:
            k += 1
            for q in range(3):
                self._one(
                    rec, list(tab), BINS[(k + q) % len(BINS)], OPTS[(k * 3 + q) % len(OPTS)],
                    (k + q) % 4 == 0,
                )  # fmt: skip

    def large(self, rec):
        """Long tables: every cell of a grid several times, in several orders."""
        for b, o, leg in itertools.product(BINS, OPTS, (False, True)):
            u = [t for t in universe() if t[0] >= b[0] or t[2] <= 1]
            for tab in (u, u[::-1], u[1::2] + u[::2], u * 3):
                self._one(rec, tab, b, o, leg)
        for n in (1, 31, 32, 33, 34, 40, 100):
            for z in (0, 31, 32, 33, HUGE):
                for leg in (False, True):
                    tab = [(1.25, 0.0, 1.0), (1.25 + 0.5 * n, 0.0, 1.0), (1.25, 5.0, 2.0)]
                    self._one(rec, tab, BINS[0], (1e9, 5.0, 4, z), leg)

        # cells and rows beyond small integer types, many rows, many cells
        for leg, o in itertools.product((False, True), ((1e9, 5.0, 4, HUGE), (0.001, 5.0, 4, HUGE))):
            for n in (127, 128, 255, 256, 32767, 32768, 65536, 70000):
                self._one(rec, [(1.25, 0.0, n), (9.25, 0.0, 1.0), (1.25, 12.0, 2.0)], BINS[0], o, leg)
            for n in (16, 40, 130, 300):
                tab = [(1.25 + 0.5 * (k * 7 % 11), 10.0 * k, 1.0 + k % 2) for k in range(n)]
                self._one(rec, tab, BINS[0], o, leg)
                self._one(rec, tab[::-1], (1.0, 0.5, -5.0, 10.0), o, leg)
            for n in (7, 9, 12, 33):  # rows that grow and shrink
                tab = [(1.25 + 0.5 * k, 10.0 * k, 1.0 + k % 2) for k in range(n)]
                self._one(rec, tab, BINS[0], o, leg)
                self._one(rec, [(r, -m, w) for r, m, w in tab], (1.0, 0.5, -10.0 * n, 10.0), o, leg)
            for n in (300, 2000):
                tab = [(1.25, 0.0, 1.0), (1.25 + 0.5 * n, 0.0, 2.0), (1.5 + 0.5 * n, 7.0, 1.5)]
                self._one(rec, tab, BINS[0], o, leg)

            for n in (130, 300, 1500):  # rows below the lower bound
                tab = [(0.125 + k % 7 / 8, 3.0 * (k % 5), (0.5, 1.0)[k % 2]) for k in range(n)]
                self._one(rec, tab + [(1.25, 0.0, 1.0), (9.0, 2.0, 2.5)], BINS[0], o, leg, 7)

        # two cycles n cells apart: listed iff the run between them is too long
        for z, n, leg in itertools.product((0, 1, 2, 5, 31, 32, 33), range(1, 41), (0, 1)):
            if n == z + 1:
                continue  # a run of exactly z empty cells: both readings accepted
            tab = [(1.25, 0.0, 1.0), (1.25 + 0.5 * n, 0.0, 1.0)]
            with rec.case("run", z, n, leg):
                cc = make(tab, 0, [0.0], range_bin_lower_bound=1.0, range_bin_width=0.5)
                d = must(
                    cc.as_dict, damage_tolerance_for_binning=1e9,
                    max_consecutive_zeros=z, legacy_export=bool(leg),
                )  # fmt: skip
                same("cycles listed because of empty cells", len(d["lg_c"]), int(n > z))
                rec.step()
                rec.trace()

        # three rows of up to three cells, each row starting within the allowed run
        for z, leg in itertools.product((2, 5), (0, 1)):
            steps = (0, 1, z, z + 2, 3 * z)
            for a, g, h, b, i in itertools.product((0, z), steps, steps, (0, 1, z), steps):
                rows_ = ((0, (a, a + g, a + g + h)), (1, (b, b + i)), (2, (z,)))
                tab = [(1.25 + 0.5 * c, 10.0 * r, 1.0) for r, cs in rows_ for c in cs]
                if leg:
                    tab = tab[::-1]
                exp = []
                for r, cs in rows_:
                    last = cs[0]
                    for c in cs:
                        if c - last > z:
                            exp.append((10.0 * r, 1.25 + 0.5 * c))
                        else:
                            last = c
                with rec.case("runs", z, a, g, h, b, i, leg):
                    cc = make(tab, 0, [0.0], range_bin_lower_bound=1.0, range_bin_width=0.5)
                    d = must(
                        cc.as_dict, damage_tolerance_for_binning=1e9, max_consecutive_zeros=z
                    )
                    close("listed because of empty cells",
                          sorted(map(tuple, d["lg_c"])), sorted(exp))  # fmt: skip
                    rec.state(("runs", z, a, g, h, b, i))
                    rec.step()
                    rec.trace()

    def defaults(self, rec):
        """Options left out take their documented values, here and in binned_rainflow."""
        for tab in itertools.combinations_with_replacement(TINY, 2):
            for b in BINS[:4]:
                if b[2] is not None and min(m for _, m, _ in tab) < b[2]:
                    continue
                if any(r < b[0] and w > 1 for r, _, w in tab):
                    continue
                if max(bin_of(r, b[0], b[1]) for r, _, _ in tab) > 8:
                    continue
                with rec.case("defaults", tab, b):
                    cc = make(
                        tab, 0, [0.12344, -3.98763], range_bin_lower_bound=b[0],
                        range_bin_width=b[1], _mean_bin_lower_bound=b[2], mean_bin_width=b[3],
                    )  # fmt: skip
                    opts = (0.001, 5.0, 4, 8)
                    check_dict(must(cc.as_dict), tab, b, opts, False, 0, [0.12344, -3.98763])
                    d = must(cc.as_dict, damage_exponent=1.0, round_decimals=2)
                    check_dict(d, tab, b, (0.001, 1.0, 2, 8), False, 0, [0.12344, -3.98763])
                    rec.state(("defaults", tab, b))
                    rec.step(2)
                    rec.trace(2)

    def wide(self, rec):
        """Magnitudes: tiny cycles above a zero bound, fine and coarse bins."""
        tiny = [(1e-7, 0.0, 1.0), (3e-4, -5.0, 0.5), (0.25, 0.0, 2.0), (4e-6, 2.0, 1.5), (3.5, 1.0, 1.0)]
        for n in (1, 2, 3, 5):
            for tab in itertools.combinations(tiny, n):
                for o, leg in itertools.product(OPTS, (False, True)):
                    o = (o[0], o[1], 8, o[3])  # listed values stay exact
                    self._one(rec, list(tab), (0.0, 1.0, None, 10.0), o, leg)
                    self._one(rec, list(tab), (0.0, 0.25, -5.0, 2.5), o, leg)
        for f in (0.01, 100.0, 4096.0, 1e6):
            u = [(round(r * f, 6), round(m * f, 6), w) for r, m, w in SMALL if r >= 1.5 or w <= 1]
            for b, o, leg in itertools.product(BINS[:4], OPTS[:5], (False, True)):
                bb = tuple(None if v is None else round(v * f, 6) for v in b)
                for k in range(0, len(u), 7):
                    oo = (o[0], o[1], 8, o[3])
                    self._one(rec, u[k : k + 9], bb, oo, leg, nsmall=k * 10**6)

    def edges(self, rec):
        """Values on and next to every bin edge of a few bins."""
        for b in BINS:
            if b[1] == 0.05:
                continue  # not exact in binary
            mlb = -10.0 if b[2] is None else b[2]
            rs = [b[0] + b[1] * k / 4 for k in range(0, 13)]
            ms = [mlb + b[3] * k / 2 for k in range(0, 7)]
            for r, m in itertools.product(rs, ms):
                for leg in (False, True):
                    tab = [(r, m, 1.0), (b[0] + 3 * b[1], mlb, 3.0), (r, m, 0.5)]
                    bb = (b[0], b[1], mlb, b[3])
                    for tol in (1e9, 0.0):
                        self._one(rec, tab, bb, (tol, 5.0, 4, HUGE), leg)

    def signals(self, rec, i, n):
        # binned_rainflow takes the same road without a count in between
        sigs = [
            x
            for k in range(2, 7)
            for x in itertools.product((-3, 0, 2, 5), repeat=k)
            if len(set(x)) > 1
        ]
        q = i
        for x in sigs[i::n]:
            cyc, res, _ = astm(list(x))
            tab = table(cyc)
            q += 1
            rlb, rw, mlb, mw = [(0.2, 0.05, None, 10.0), (2.0, 1.5, None, 5.0),
                                (1.0, 0.25, -4.0, 1.0)][q % 3]  # fmt: skip
            tol, ex, dec, zeros = OPTS[q % len(OPTS)]
            with rec.case(x, q % 3, q % len(OPTS)):
                kw = dict(
                    range_bin_lower_bound=rlb, range_bin_width=rw,
                    mean_bin_lower_bound=mlb, mean_bin_width=mw,
                    damage_tolerance_for_binning=tol, max_consetutive_zeros=zeros,
                    damage_exponent=ex, round_decimals=dec,
                )  # fmt: skip
                d = must(ht.binned_rainflow, np.array(x, float), **kw)
                check_dict(d, tab, (rlb, rw, mlb, mw), (tol, ex, dec, zeros), False)
                close("residual signal", np.round(seq(d["res_sig"]), 6), res)
                t = [10.0 + 0.5 * j for j in range(len(x))]
                e = must(ht.binned_rainflow, np.array(x, float), np.array(t), **kw)
                check_dict(e, tab, (rlb, rw, mlb, mw), (tol, ex, dec, zeros), False)
                close("duration", e["as_dur"], 0.5 * (len(x) - 1))
                rec.state(x)
                rec.step(2)
                rec.trace(2)
                rec.outcome("signal")


CHECK = Check()
