"""C03: sum of consecutive pieces + residual resolution == uncut record."""
from __future__ import annotations

import itertools

import numpy as np
from py_fatigue import CycleCount

from mcheck.core import Rec, close, must, require
from mcheck.counts import from_signal, make, rows, same_cycles, seq, stamp
from mcheck.model import astm, compositions, de_bruijn, table


def check_split(rec: Rec, x, lengths, deep=True) -> None:
    """x cut into consecutive pieces of the given lengths."""
    cycles, residuals, _ = astm(list(x))
    expected = table(cycles)
    pieces, p = [], 0
    for n in lengths:
        pieces.append(x[p : p + n])
        p += n
    ccs = [must(from_signal, s, k) for k, s in enumerate(pieces)]
    total = ccs[0]
    for c in ccs[1:]:
        total = must(lambda a, b: a + b, total, c)
    parts = [r for s in pieces for r in table(astm(list(s))[0])]
    same_cycles("sum of the pieces", rows(total), parts)
    solved = must(total.solve_lffd)
    same_cycles("resolved sum vs uncut record", rows(solved), expected)
    close("residuals of resolved sum", seq(solved.residuals_sequence), residuals)
    rec.trace()
    rec.step(len(pieces))
    if len(seq(total.residuals_sequence)) >= 3:
        require("flagged as resolved", solved.lffd_solved is True)
    again = must(solved.solve_lffd)
    same_cycles("resolving twice", rows(again), expected)
    close("residuals resolving twice", seq(again.residuals_sequence), residuals)
    rec.trace()
    nf = sum(1 for r in expected if r[2] == 1) - sum(1 for r in parts if r[2] == 1)
    rec.outcome(f"{min(nf, 4)} cycles recovered across cuts")
    if not deep:
        return
    # resolve after every addition
    inc = ccs[0]
    for c in ccs[1:]:
        inc = must(must(lambda a, b: a + b, inc, c).solve_lffd)
    same_cycles("resolving after every addition", rows(inc), expected)
    close("residuals, resolving each time", seq(inc.residuals_sequence), residuals)
    # resolve every piece first
    pre = must(ccs[0].solve_lffd)
    for c in ccs[1:]:
        pre = must(lambda a, b: a + b, pre, must(c.solve_lffd))
    pre = must(pre.solve_lffd)
    same_cycles("resolving pieces first", rows(pre), expected)
    close("residuals, pieces first", seq(pre.residuals_sequence), residuals)
    # group from the right
    right = ccs[-1]
    for c in reversed(ccs[:-1]):
        right = must(lambda a, b: a + b, c, must(right.solve_lffd))
    right = must(right.solve_lffd)
    same_cycles("adding from the right", rows(right), expected)
    # the uncut record itself
    whole = must(from_signal, x, 0)
    ws = must(whole.solve_lffd)
    same_cycles("resolving the uncut record", rows(ws), expected)
    close("residuals of the uncut record", seq(ws.residuals_sequence), residuals)
    rec.trace(4)
    rec.step(3 * len(pieces))


SCALES = [(2.0**-30, 0.0), (2.0**-24, 1.0), (-(2.0**40), 0.0), (2.0**-60, 0.0), (1.0, 2.0**30),
          (2.0**100, 0.0)]  # fmt: skip


def ok(x, lengths) -> bool:
    """Every piece varies (a constant piece has no cycles to count)."""
    p = 0
    for n in lengths:
        s = x[p : p + n]
        if len(set(s)) < 2:
            return False
        p += n
    return True


class Check:
    ID = "C03"
    ASSUMPTIONS = [
        "every piece has at least one cycle (a piece without variation cannot be"
        " represented as a count)",
        "piece values are dyadic",
    ]
    MIN_OUTCOMES = {
        "0 cycles recovered across cuts": 100,
        "1 cycles recovered across cuts": 100,
        "2 cycles recovered across cuts": 10,
        "clustered": 500,
    }

    def bound(self, tier):
        q = tier == "quick"
        return (
            f"all 4-level signals of length 4..{6 if q else 8} and 3-level signals of"
            f" length {7 if q else 8}..{8 if q else 9}, every cut into 2..4 varying pieces, five"
            " interleavings of additions and resolutions; all orderings of"
            f" {7 if q else 8} levels cut in two and three; de Bruijn, growing and"
            " shrinking signals up to 4096 samples in up to 64 pieces; all 3-level"
            f" signals up to length 6 at {len(SCALES)} scales and offsets; all pairs of"
            " 3-level signals of length 3-5 with their equal cycles merged or imported"
        )

    def tasks(self, tier):
        q = tier == "quick"
        for n in range(4, 7 if q else 9):
            for p in itertools.product(range(4), repeat=max(0, n - 4)):
                yield ("words", 4, n, list(p))
        for n in (7, 8) if q else (8, 9):
            for p in itertools.product(range(3), repeat=n - 5):
                yield ("words", 3, n, list(p))
        for f in range(7 if q else 8):
            yield ("perms", 7 if q else 8, f)
        for k, n in ((2, 7), (3, 4), (4, 4), (6, 3), (12, 2), (4, 5), (45, 2)):
            yield ("long", k, n)
        yield ("trend",)
        for i in range(len(SCALES)):
            yield ("scaled", i)
        for i in range(4):
            yield ("clustered", i)

    def run(self, rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def words(self, rec, k, n, prefix):
        for tail in itertools.product(range(k), repeat=n - len(prefix)):
            x = (*prefix, *tail)
            rec.state(x)
            for parts in (2, 3, 4):
                for lengths in compositions(n, parts):
                    if min(lengths) < 2 or not ok(x, lengths):
                        continue
                    with rec.case(x, lengths):
                        check_split(rec, x, lengths, deep=n < 8)

    def perms(self, rec, m, first):
        for p in itertools.permutations([i for i in range(m) if i != first]):
            x = (first, *p)
            rec.state(x)
            for lengths in ((2, m - 2), (m // 2, m - m // 2), (2, 3, m - 5)):
                with rec.case(x, lengths):
                    check_split(rec, x, lengths, deep=False)

    def scaled(self, rec, i):
        """Values with many digits, tiny and huge ones."""
        f, o = SCALES[i]
        for n in (4, 5, 6):
            for w in itertools.product(range(3), repeat=n):
                x = tuple(f * v + o for v in w)
                for parts in (2, 3):
                    for lengths in compositions(n, parts):
                        if min(lengths) < 2 or not ok(x, lengths):
                            continue
                        with rec.case("scaled", w, f, o, lengths):
                            check_split(rec, x, lengths, deep=n < 6)

    def clustered(self, rec, i):
        """Pieces whose equal full cycles share one table entry or histogram cell."""
        xs = [x for n in (3, 4, 5) for x in itertools.product((0, 2, 6), repeat=n)
              if len(set(x)) > 1]  # fmt: skip
        for q, (x, y) in enumerate(itertools.islice(itertools.product(xs[::5], xs), i, None, 4)):
            x = x * 3
            with rec.case("clustered", x, y):
                parts = [self._merged(x, 0, q % 2), self._merged(y, 1, q // 2 % 2)]
                total = must(lambda: parts[0] + parts[1])
                solved = must(total.solve_lffd)
                exp = table(astm([*x, *y])[0])
                got = rows(solved)
                close("weight of the resolved sum", got[:, 2].sum(), sum(w for *_, w in exp))
                flat = [(r, m, 1.0) for r, m, w in got.tolist() for _ in range(int(w))]
                flat += [(r, m, 0.5) for r, m, w in got.tolist() if w % 1 == 0.5]
                same_cycles("resolved clustered sum", flat, exp)
                again = must(solved.solve_lffd)
                same_cycles("resolving twice", rows(again), got)
                rec.state((x, y, q % 4))
                rec.step(2)
                rec.trace(2)
                rec.outcome("clustered" if (got[:, 2] > 1).any() else "plain")

    @staticmethod
    def _merged(x, k, imported):
        cyc, res, _ = astm(list(x))
        tab = table(cyc)
        half = [t for t in tab if t[2] == 0.5]
        full = [t for t in tab if t[2] == 1]
        bag = {t: full.count(t) for t in full}
        if not imported:
            return make([(r, m, n) for (r, m, _), n in bag.items()] + half, k, res)
        # cells one wide, centred on whole ranges and means
        hist = [[0] * 8 for _ in range(8)]
        for (r, m, _), n in bag.items():
            hist[int(m)][int(r)] += n
        return must(
            CycleCount.from_rainflow,
            {"range_bin_lower_bound": -0.5, "range_bin_width": 1.0, "nr_small_cycles": 0,
             "mean_bin_lower_bound": -0.5, "mean_bin_width": 1.0, "hist": hist,
             "lg_c": [], "res": [[m, r] for r, m, _ in half], "res_sig": res},
            timestamp=stamp(k),
        )  # fmt: skip

    def _cuts(self, n, m):
        size = max(2, n // m)
        lengths = [size] * (n // size)
        lengths[-1] += n - sum(lengths)
        return lengths

    def long(self, rec, k, n):
        base = de_bruijn(k, n)
        for scale, off in ((1, 0), (-0.5, 3), (2.0**12, -7)):
            x = [scale * v + off for v in base]
            rec.state((k, n, scale, off))
            for m in (2, 3, 5, 8, 17, 32, 64):
                lengths = self._cuts(len(x), m)
                if not ok(x, lengths):
                    continue
                with rec.case("de Bruijn", k, n, scale, off, m):
                    check_split(rec, x, lengths, deep=m in (2, 8))

    def trend(self, rec):
        for n in (8, 31, 64, 257, 1000):
            fams = {
                "grow": [(-1) ** i * i for i in range(n)],
                "shrink": [(-1) ** i * (n - i) for i in range(n)],
                "spindle": [(-1) ** i * min(i, n - i) for i in range(n)],
                "drift": [i + 4 * (i % 2) for i in range(n)],
                "ramp": list(range(n)),
                "hat": list(range(n // 2)) + list(range(n - n // 2, 0, -1)),
                "quad": [(i * i) % 31 for i in range(n)],
            }
            for name, x in fams.items():
                rec.state((name, n))
                for m in (2, 3, 4, 7, 20):
                    lengths = self._cuts(len(x), m)
                    if not ok(x, lengths):
                        continue
                    with rec.case(name, n, m):
                        check_split(rec, x, lengths, deep=n < 100)
        # lists of integers and a time axis make no difference
        for x in itertools.islice(itertools.product(range(3), repeat=6), 0, None, 1):
            if not ok(x, (3, 3)):
                continue
            with rec.case("int list", x):
                a = must(CycleCount.from_timeseries, list(x[:3]), timestamp=stamp(0))
                b = must(
                    CycleCount.from_timeseries, list(x[3:]),
                    time=[0.0, 0.5, 1.0], timestamp=stamp(1),
                )  # fmt: skip
                s = must((a + b).solve_lffd)
                same_cycles("int list pieces", rows(s), table(astm(x)[0]))
                rec.trace()
                rec.step(2)


CHECK = Check()
