"""C15: mean stress corrections, kernels and counts."""
from __future__ import annotations

import itertools

import numpy as np
from py_fatigue.mean_stress import corrections as msc

from mcheck.core import Rec, arr, close, must, rejects, require, same
from mcheck.counts import from_signal, make, rows, seq, snapshot, unchanged
from mcheck.model import words
from mcheck.ref import RESIDUALS, TABLES, Ref, signal_ref

AMPS = (0.25, 0.5, 1.0, 2.0, 3.0, 5.0, 8.0, 64.0)
MEANS = tuple(np.arange(-10, 10.25, 0.5)) + (-64.0, -63.0, 63.0, 64.0, 100.0, -100.0)
GAMMAS = (0.1, 0.25, 0.5, 0.75, 0.9)
KINDS = [
    ("DNVGL-RP-C203", {"detail_factor": 0.8}),
    ("DNVGL-RP-C203", {"detail_factor": 0.6}),
    ("DNVGL-RP-C203", {}),
    ("dnvgl-rp-c203", {"detail_factor": 0.6}),
    ("Walker", {"gamma": 0.25}),
    ("walker", {"gamma": 0.75}),
    ("Walker", {}),
    ("SWT", {}),
    ("swt", {}),
    ("Smith-Watson-Topper", {}),
]
DEFAULTS = {"DNVGL-RP-C203": {"detail_factor": 0.8}, "Walker": {"gamma": 0.5}}


def dnvgl(m, a, p):
    hi, lo = m + a, m - a
    if lo >= 0:
        return 2 * a
    if hi > 0:
        return 2 * a * (hi + p * -lo) / (hi - lo)
    return 2 * a * (0.8 if p == 0.8 else 0.0)


def walker(m, a, g):
    return max(m + a, 0.0) ** (1 - g) * a**g


def model(m, a, kind, par):
    if kind.lower().startswith("dnv"):
        return dnvgl(m, a, par.get("detail_factor", 0.8))
    return walker(m, a, par.get("gamma", 0.5) if kind.lower() == "walker" else 0.5)


def touchy(m, a, kind, par):
    """Cycles just touching zero: removed or reduced, both are admissible."""
    return par.get("detail_factor") == 0.6 and m + a == 0


class Check:
    ID = "C15"
    ASSUMPTIONS = [
        "cycles have a positive amplitude; gamma lies within [0, 1], its ends being"
        " used with tensile maxima only",
        "cycles touching zero from below are left open for the factor 0.6",
    ]
    MIN_OUTCOMES = {"tensile": 100, "partly": 100, "compressive": 100, "count": 1000,
                    "again": 500, "refused": 15, "pulsating": 50}  # fmt: skip

    def bound(self, tier):
        n = 5 if tier == "quick" else 7
        return (
            f"the three kernels on every pair of {len(MEANS)} means and {len(AMPS)}"
            f" amplitudes with both factors and {len(GAMMAS)} exponents, alone, in"
            f" arrays and scaled from 1e-12 to 1e24; counts of 6 magnitudes with ratios of minimum to maximum down to 1e-9; all signals of up to {n} samples over 4 "
            "levels shifted fully tensile, alternating and compressive, all tables with"
            " all residuals, sums of two and counts of 4000 cycles, through every correction of a count"
        )

    def tasks(self, tier):
        yield ("kernels",)
        for o in (-1.5, 4.0, -8.0):
            for i in range(6):
                yield ("signals", 5 if tier == "quick" else 7, o, i, 6)
        for i in range(6):
            yield ("tables", i, 6)
        yield ("wide",)
        yield ("pulsating",)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def kernels(self, rec):
        pairs = list(itertools.product(MEANS, AMPS))
        for f in (1.0, 1 / 3, 1e6, 1e-5, 1e-12, 2.0**80):
            m = np.array([p[0] for p in pairs]) * f
            a = np.array([p[1] for p in pairs]) * f
            for p in (0.8, 0.6):
                mm, aa = m.copy(), a.copy()
                got = arr(must(msc.dnvgl_mean_stress_correction, mm, aa, p))
                same("kernel operands", (mm.tolist(), aa.tolist()), (m.tolist(), a.tolist()))
                for i, (x, y) in enumerate(zip(m, a)):
                    with rec.case("dnvgl", x, y, p):
                        ok = [dnvgl(x, y, p)]
                        # touching zero up to rounding
                        if abs(x + y) <= 1e-12 * y and p == 0.6:
                            ok.append(0.6 * 2 * y)
                        one = float(
                            must(msc.dnvgl_mean_stress_correction, m[i : i + 1], a[i : i + 1], p)[0]
                        )
                        require(f"range is not increased: {one}", one <= 2 * y * (1 + 1e-12))
                        require(f"DNVGL range {one} is one of {ok}", any(abs(one - e) <= 1e-9 * y for e in ok))
                        close("range alone and in an array", one, got[i])
                        rec.state(("dnvgl", x, y, p))
                        rec.step()
                        rec.trace()
                        rec.outcome(
                            "tensile" if x >= y else "compressive" if x + y <= 0 else "partly"
                        )
            for g in GAMMAS:
                got = arr(must(msc.walker_mean_stress_correction, m.copy(), a.copy(), g))
                for i, (x, y) in enumerate(zip(m, a)):
                    with rec.case("walker", x, y, g):
                        e = walker(x, y, g) if abs(x + y) > 1e-12 * y else got[i]
                        close("Walker range", got[i], e)
                        one = must(
                            msc.walker_mean_stress_correction, m[i : i + 1], a[i : i + 1], g
                        )
                        close("range alone and in an array", one[0], got[i])
                        rec.state(("walker", x, y, g))
                        rec.step()
                        rec.trace()
            with rec.case("swt", f):
                got = arr(must(msc.swt_mean_stress_correction, m.copy(), a.copy()))
                exp = [
                    walker(x, y, 0.5) if abs(x + y) > 1e-12 * y else q
                    for x, y, q in zip(m, a, got)
                ]
                close("SWT range", got, exp)
                close("default Walker", must(msc.walker_mean_stress_correction, m, a), exp)
                close("default DNVGL", must(msc.dnvgl_mean_stress_correction, m, a),
                      [dnvgl(x, y, 0.8) for x, y in zip(m, a)])  # fmt: skip
                rec.trace(3)

    def _count(self, rec, cc, ref, solved, pick=None):
        """Correct a count in every way and compare with the model."""
        snap = snapshot(cc)
        base = ref if solved else ref.solve()
        zero = all(m == 0 for _, m, _ in base.tab)
        labels = {}
        for j, (kind, par) in enumerate(KINDS):
            if pick is not None and (pick + j) % 2:
                continue
            with rec.case(ref.key(), kind, par, solved):
                rec.step()
                rec.trace()
                rec.state((ref.key(), kind, str(par), solved))
                if zero:
                    rejects("all-zero means", cc.mean_stress_correction, kind, **par)
                    unchanged("refused correction", cc, snap)
                    rec.outcome("refused")
                    continue
                got = must(cc.mean_stress_correction, kind, **par)
                unchanged("correction", cc, snap)
                out = rows(got)
                same("number of cycles", len(out), len(base.tab))
                close("weights", out[:, 2], [w for _, _, w in base.tab])
                for (r, m, _), (gr, gm, _) in zip(base.tab, out):
                    if not touchy(m, r / 2, kind, par):
                        close("corrected range", gr, model(m, r / 2, kind, par), atol=1e-12 * min(1.0, r))
                    if kind.lower().startswith("dnv"):
                        close("corrected mean", gm, gr / 2)
                        require(f"range {r} is not increased to {gr}", gr <= r * (1 + 1e-12))
                    else:
                        close("corrected mean", gm, 0.0)
                close("residuals", seq(got.residuals_sequence), base.residuals or [])
                base.agree_meta(got)
                lab = got.mean_stress_corrected
                require(f"label {lab!r}", isinstance(lab, str) and kind.upper() in lab.upper())
                for v in par.values():
                    require(f"label {lab!r} names the parameter", str(v) in lab)
                if not par and kind in DEFAULTS:
                    full = must(cc.mean_stress_correction, kind, **DEFAULTS[kind])
                    same("label with the default spelt out", full.mean_stress_corrected, lab)
                    close("result with the default spelt out", rows(full), out)
                labels.setdefault(lab, (kind, par))
                rec.outcome("count")
                # a second correction of any type changes nothing
                k2, p2 = KINDS[(j * 3 + len(out)) % len(KINDS)]
                s2 = snapshot(got)
                again = must(got.mean_stress_correction, k2, **p2)
                same("corrected again", snapshot(again), s2)
                unchanged("correcting again", got, s2)
                again = must((got * 2).mean_stress_correction, k2, **p2)
                close("scaled and corrected again", rows(again), out * [2, 2, 1])
                rec.outcome("again")

    def signals(self, rec, n, off, i, m):
        for q, w in enumerate(itertools.islice(words(range(4), 2, n), i, None, m)):
            x = [v * 2.0 + off for v in w]
            if len(set(x)) < 2:
                continue
            ref = signal_ref(x, 0, unit="ksi")
            cc = must(from_signal, x, 0, unit="ksi")
            self._count(rec, cc, ref, False, q)
            if q % 3 == 0:
                y = [v * -1.5 + off for v in w[::-1]] + [off + 9.0]
                r2 = signal_ref(y, 1, unit="ksi")
                c2 = must(from_signal, y, 1, unit="ksi")
                tot = must(lambda: cc + c2)
                self._count(rec, tot, ref.add(r2), False, q)
                self._sum(rec, cc, c2, q)
            if q % 4 == 1:
                sol = must(cc.solve_lffd)
                self._count(rec, sol, ref.solve(), bool(sol.lffd_solved), q)

    def _sum(self, rec, a, b, q):
        """Counts corrected the same way, added and corrected again."""
        kind, par = KINDS[q % len(KINDS)]
        for r in (a, b):
            if (rows(r)[:, 1] == 0).all() or (rows(must(r.solve_lffd))[:, 1] == 0).all():
                return
        with rec.case("sum", rows(a), rows(b), kind, par):
            x = must(a.mean_stress_correction, kind, **par)
            y = must(b.mean_stress_correction, kind, **par)
            tot = must(lambda: x + y)
            close("sum of corrected counts", rows(tot), np.vstack([rows(x), rows(y)]))
            s = snapshot(tot)
            for k2, p2 in ((kind, par), KINDS[(q + 3) % len(KINDS)]):
                again = must(tot.mean_stress_correction, k2, **p2)
                same("sum corrected again", snapshot(again), s)
            same("label of the sum", tot.mean_stress_corrected, x.mean_stress_corrected)
            rec.outcome("again")
            rec.step(3)
            rec.trace(3)

    def tables(self, rec, i, n):
        cases = list(itertools.product(TABLES, RESIDUALS, (0, 3), (1.0, 1.5), ("MPa", "psi")))
        for t, r, ns, scf, unit in cases[i::n]:
            for shift in (0.0, 40.0, -40.0):
                tab = [(a, m + shift, w) for a, m, w in TABLES[t]]
                res = RESIDUALS[r]
                res = None if res is None else [v + shift for v in res]
                bins = (0.2, 0.05, None, 10.0) if unit == "MPa" else (0.5, 0.25, -40.0, 4.0)
                ref = Ref(tab, (2,), res, unit, bins, ns, scf)
                self._count(rec, ref.build(), ref, False)
                self._count(rec, ref.build(lffd_solved=True), ref, True)

    def wide(self, rec):
        """Magnitudes, many digits, and cycles hardly tensile or compressive."""
        tiny = (1e-2, 1e-3, 1e-4, 1e-6, 1e-9)
        for f in (1.0, 1 / 3, 1e-4, 1e-9, 1e7, 2.0**70):
            tab = [(7.0 * f, 3.1234567891 * f, 1.0), (2.0 * f, -0.987654321 * f, 0.5)]
            for e in tiny:
                # minimum or maximum at +-e, seen from both sides
                tab += [(4.0 * f, (2.0 + e) * f, 1.0), (4.0 * f, (2.0 - e) * f, 0.5),
                        (4.0 * f, (-2.0 + e) * f, 1.0), (4.0 * f, (-2.0 - e) * f, 7.0)]  # fmt: skip
            ref = Ref(tab, (2,), None, "MPa")
            self._count(rec, ref.build(lffd_solved=True), ref, True)
            # small means are not zero means
            for e in tiny:
                small = [(4.0 * f, e * f, 1.0), (2.0 * f, -e * f, 2.0)]
                ref = Ref(small, (2,), None, "MPa")
                self._count(rec, ref.build(lffd_solved=True), ref, True)
            long = [((1 + j % 13) * f, (j % 29 - 14) * f / 3, 0.5 + j % 3) for j in range(4000)]
            ref = Ref(long, (2,), None, "MPa")
            cc = ref.build(lffd_solved=True)
            for kind, par in KINDS:
                with rec.case("long", f, kind, par):
                    out = rows(must(cc.mean_stress_correction, kind, **par))
                    close("weights", out[:, 2], [w for _, _, w in long])
                    ok = [not touchy(m, r / 2, kind, par) for r, m, _ in long]
                    close("corrected range", out[ok, 0],
                          [model(m, r / 2, kind, par) for (r, m, _), k in zip(long, ok) if k],
                          atol=1e-12 * f)  # fmt: skip
                    rec.step(len(long))
                    rec.trace()
        # exponents up to the ends of their range
        m = np.array([3.0, 0.0, 1.0, -1.0, 1e-6, 20.0])
        a = np.array([1.0, 2.0, 3.0, 4.0, 1e-6, 3.0])
        cc = make([(2 * y, x, 1.0) for x, y in zip(m, a)], lffd_solved=True)
        for g in (0, 0.0, 1e-9, 1e-3, 0.01, 0.33, 0.95, 0.99, 0.999999, 1, 1.0):
            with rec.case("exponent", g):
                exp = [walker(x, y, g) for x, y in zip(m, a)]
                close("Walker range", must(msc.walker_mean_stress_correction, m, a, g), exp)
                out = must(cc.mean_stress_correction, "Walker", gamma=g)
                close("corrected range", rows(out)[:, 0], exp)
                rec.state(("exponent", g))
                rec.step(2)
                rec.trace(2)

    def pulsating(self, rec):
        tabs = [
            [(4.0, 0.0, 1.0)],
            [(4.0, 0.0, 0.5), (2.0, 0.0, 1.0)],
            [(8.0, 0.0, 12.0), (2.0, 0.0, 1.0), (6.0, 0.0, 0.5)],
        ]
        for tab, res, (kind, par) in itertools.product(
            tabs, (None, [], [2.0, -2.0, 1.0, -1.0]), KINDS
        ):
            for via in (0, 1):
                with rec.case(tab, res, kind, par, via):
                    cc = make(tab, 0, res, unit="ksi", lffd_solved=bool(via))
                    snap = snapshot(cc)
                    base = Ref(tab, (0,), res)
                    base = base if via else base.solve()
                    if any(m for _, m, _ in base.tab):
                        continue
                    got = must(cc.mean_stress_correction, kind, enforce_pulsating_load=True, **par)
                    unchanged("correction", cc, snap)
                    close("corrected range", rows(got)[:, 0],
                          [model(r / 2, r / 2, kind, par) for r, _, _ in base.tab])  # fmt: skip
                    close("weights", rows(got)[:, 2], [w for _, _, w in base.tab])
                    rejects("all-zero means", cc.mean_stress_correction, kind, **par)
                    rec.state((str(tab), str(res), kind, str(par), via))
                    rec.step(2)
                    rec.trace(2)
                    rec.outcome("pulsating")
        # means that are not all zero are used as they are
        for kind, par in KINDS:
            with rec.case("enforced but not zero", kind, par):
                cc = make([(4.0, 0.0, 1.0), (4.0, -1.0, 1.0), (6.0, 2.0, 1.0)])
                a = must(cc.mean_stress_correction, kind, enforce_pulsating_load=True, **par)
                close("range", rows(a)[:, 0],
                      [model(m, r / 2, kind, par) for r, m, _ in rows(cc)])  # fmt: skip

    def reject(self, rec):
        cc = make([(4.0, 0.0, 1.0), (4.0, -1.0, 1.0), (6.0, 2.0, 1.0)])
        snap = snapshot(cc)
        m, a = np.array([1.0, -5.0]), np.array([2.0, 2.0])
        for p in (0.0, 0.5, 0.7, 0.79, 0.61, 1.0, 0.9, -0.6, 2.0, np.nan):
            with rec.case("factor", p):
                rejects("factor", msc.dnvgl_mean_stress_correction, m, a, p)
                rejects("factor", cc.mean_stress_correction, "DNVGL-RP-C203", detail_factor=p)
                unchanged("refusal", cc, snap)
                rec.outcome("refused")
                rec.trace(2)
                rec.step(2)
        for k in ("", "goodman", "dnvgl", "swtt", "DNV", "walker-swt", "No"):
            with rec.case("type", k):
                rejects("type", cc.mean_stress_correction, k)
                unchanged("refusal", cc, snap)
                rec.outcome("refused")
                rec.trace()
                rec.step()


CHECK = Check()
