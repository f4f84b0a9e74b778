"""C10: lives of every bounded S-N curve on a stress grid."""
from __future__ import annotations

import itertools

import numba
import numpy as np

from mcheck.core import Rec, arr, close, must, rejects, require
from mcheck.curves import (
    INTERCEPTS, SLOPES, knee_cycles, knee_stress, life, log_life, ordered, sn, sn_ordered,
    sn_params, strength, stress_points, wide_params,
)  # fmt: skip

ENDURANCES = (np.inf, 1e6, 1e7, 2e7, 1e9, 3e12, 10**7)


class Check:
    ID = "C10"
    ASSUMPTIONS = [
        "consecutive segments are not parallel",
        "points closer than 1e-9 (relative) to the endurance are not decided",
        "powers of the stresses stay within 1e-280 and 1e280",
    ]
    MIN_OUTCOMES = {"finite": 1000, "infinite": 1000, "refused": 200, "knee": 500}

    def bound(self, tier):
        return (
            f"all one- and two-segment curves over {len(SLOPES)} slopes and"
            f" {len(INTERCEPTS)} intercepts, "
            f"{'every fourth' if tier == 'quick' else 'all'} of three segments,"
            f" continuous four-segment curves, times {len(ENDURANCES)} endurances; up to"
            " eight segments in several orders, slopes 0.25-40, intercepts -6-80 at stresses"
            " 1e-14-1e12; 24"
            " grid stresses, up to 70000 at once, plus both sides of every knee and of the endurance;"
            " knee checks with each expected knee wrong in turn or swapped at 2-9 digits; a negative value at"
            " every position"
        )

    def tasks(self, tier):
        for i in range(16):
            yield ("lives", i, 16, 4 if tier == "quick" else 1)
        for i in range(8):
            yield ("wide", i, 8)
        yield ("knees",)
        yield ("long",)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        numba.set_num_threads(1)
        getattr(self, kind)(rec, *a)

    def params(self, m):
        yield from sn_params(1)
        yield from sn_params(2)
        yield from itertools.islice(sn_params(3), 0, None, m)
        for k in itertools.combinations((300.0, 120.0, 64.0, 20.0, 5.0), 3):
            for s in itertools.combinations(SLOPES, 4):
                yield sn_ordered(k, s, 12.5)

    def lives(self, rec, i, n, step):
        for m, a in itertools.islice(self.params(step), i, None, n):
            kc = knee_cycles(m, a)
            for e in ENDURANCES:
                rec.step()
                with rec.case(m, a, e):
                    if kc and max(kc) > e * (1 - 1e-9):
                        if max(kc) > e * (1 + 1e-9):
                            rejects("endurance below a knee", sn, m, a, e, kinds=ValueError)
                            rec.outcome("refused")
                            rec.trace()
                        continue
                    c = must(sn, list(m), np.array(a), e)
                    s = stress_points(m, a, e)
                    exp = np.exp(log_life(s, m, a))
                    ok = abs(exp / e - 1) > 1e-9
                    s = s[ok]
                    got = must(c.get_cycles, s)
                    close("lives", got, life(s, m, a, e), atol=0.0)
                    fin = arr(got)
                    require(
                        "life increases with stress",
                        np.all((fin[1:] <= fin[:-1] * (1 + 1e-12)) | np.isinf(fin[:-1])),
                    )
                    same0 = must(c.get_cycles, 0.0)
                    require(f"life at zero stress is {same0}", same0 == np.inf)
                    close("knee stresses", must(c.get_knee_stress), knee_stress(m, a))
                    close("knee cycles", must(c.get_knee_cycles), kc)
                    rec.state((m, a, e))
                    rec.trace(len(s) + 1)
                    rec.step(len(s) + 1)
                    rec.outcome("infinite" if np.isinf(fin).any() else "finite")
                    if kc:
                        rec.outcome("knee")
                    if e == 1e7:
                        close("lives by the old name", must(c.n, s), life(s, m, a, e))

    def wide(self, rec, i, n):
        """Many segments in several orders, extreme slopes, intercepts, stresses."""
        for m, a in itertools.islice(wide_params(), i, None, n):
            kc = knee_cycles(m, a)
            for e in (np.inf, 1e-3, 1e7, 1e15, 1e60):
                with rec.case("wide", m, a, e):
                    if kc and max(kc) > e * (1 - 1e-9):
                        if max(kc) > e * (1 + 1e-9):
                            rejects("endurance below a knee", sn, m, a, e, kinds=ValueError)
                            rec.outcome("refused")
                            rec.trace()
                        continue
                    c = must(sn, m, a, e)
                    s = np.append(stress_points(m, a, e), [10.0**k for k in range(-14, 13)])
                    # the powers themselves must be numbers, however the law is evaluated
                    s = s[max(m) * abs(np.log10(s)) < 280]
                    with np.errstate(over="ignore"):
                        exp = np.exp(log_life(s, m, a))
                    s = s[abs(exp / e - 1) > 1e-8] if e < np.inf else s
                    close("lives", must(c.get_cycles, s), life(s, m, a, e), rtol=1e-8, atol=0.0)
                    close("knee stresses", must(c.get_knee_stress), knee_stress(m, a), atol=0.0)
                    close("knee cycles", must(c.get_knee_cycles), kc, rtol=1e-8, atol=0.0)
                    rec.state(("wide", m, a, e))
                    rec.step(len(s))
                    rec.trace(len(s))

    def long(self, rec):
        """Many stresses at once."""
        for n, (m, a), e in itertools.product(
            (129, 1000, 4097, 70000),
            (sn_ordered((), (4.0,), 14.0), sn_ordered((64.0,), (3.0, 5.0), 12.0),
             sn_ordered((300.0, 64.0, 20.0), (2.0, 3.0, 4.0, 5.0), 8.0)),
            (np.inf, 1e9),
        ):  # fmt: skip
            with rec.case("long", n, m, e):
                c = must(sn, m, a, e)
                s = np.array([(1 + j * 37 % 1009) / 3 for j in range(n)])
                s = s[abs(np.exp(log_life(s, m, a)) / e - 1) > 1e-9]
                for how in (s, s[::-1], s.tolist()):
                    close("lives", must(c.get_cycles, how), life(arr(how), m, a, e), atol=0.0)
                rec.state(("long", n, m, e))
                rec.step(3 * len(s))
                rec.trace(3)

    def knees(self, rec):
        """Knee checks: right knees accepted, each wrong knee rejected."""
        for nk in (1, 2, 3, 4, 5):
            for k in itertools.combinations((300.0, 120.0, 64.0, 20.0, 5.0), nk):
                for s in list(itertools.combinations(SLOPES, nk + 1))[:6]:
                    m, a = sn_ordered(k, s, 12.0)
                    c = must(sn, m, a)
                    kc, ks = knee_cycles(m, a), knee_stress(m, a)
                    with rec.case(m, a):
                        for wrap in (list, np.array, tuple):
                            close("checked knee cycles",
                                  must(c.get_knee_cycles, wrap(kc)), kc)  # fmt: skip
                            close("checked knee stress",
                                  must(c.get_knee_stress, wrap(kc)), ks)  # fmt: skip
                        close("five digits", must(c.get_knee_cycles, kc, 5), kc)
                        close("five digits", must(c.get_knee_stress, kc, 5), ks)
                        for j, f in itertools.product(range(nk), (0.5, 2.0, 1.02, 0.98)):
                            bad = list(kc)
                            bad[j] *= f
                            digits = 2 if f in (0.5, 2.0) else 4
                            rejects(f"knee {j} wrong", c.get_knee_cycles, bad, digits)
                            bad = list(kc)
                            bad[j] *= f**12 if f in (0.5, 2.0) else f
                            rejects(f"knee stress {j} wrong", c.get_knee_stress, bad, digits)
                            rec.outcome("refused")
                        for j, d in itertools.product(range(nk), range(2, 10)):
                            near, far = list(kc), list(kc)
                            near[j] *= 1 + 0.1 * 10.0**-d
                            far[j] *= 1 + 3 * 10.0 ** (1 - d)
                            must(c.get_knee_cycles, near, d)
                            rejects(f"knee {j} wrong", c.get_knee_cycles, far, d)
                            must(c.get_knee_stress, near, d)
                            # at the stress the error is divided by the slope
                            far = list(kc)
                            far[j] *= (1 + 3 * 10.0 ** (1 - d)) ** (max(s) + 1)
                            rejects(f"knee stress {j} wrong", c.get_knee_stress, far, d)
                        for j in range(1, nk):
                            bad = kc[:]
                            bad[j - 1], bad[j] = bad[j], bad[j - 1]
                            rejects("knees swapped", c.get_knee_cycles, bad)
                            rejects("knees swapped", c.get_knee_stress, bad)
                        for bad in (kc[:-1], kc + [1e9], []):
                            rejects("number of knees", c.get_knee_cycles, bad)
                            rejects("number of knees", c.get_knee_stress, bad)
                        rec.state((m, a, "knees"))
                        rec.step(20)
                        rec.trace(20)
        c = must(sn, 3.0, 12.0)
        with rec.case("linear"):
            close("no knees", must(c.get_knee_cycles), [])
            close("no knees", must(c.get_knee_stress), [])
            rejects("no knee expected", c.get_knee_cycles, [1e7])
            rejects("no knee expected", c.get_knee_stress, [1e7])

    def reject(self, rec):
        for m, a in (
            ([3.0], [12.0, 13.0]), ([3.0, 5.0], [12.0]), ([3.0, 5.0, 7.0], [12.0, 15.0]),
            (3.0, [12.0, 13.0]), ([3.0, 5.0], 12.0),
        ):  # fmt: skip
            with rec.case(m, a):
                rejects("mismatched lengths", sn, m, a, kinds=ValueError)
                rec.outcome("refused")
                rec.trace()
        for m, a, e in (((3.0,), (12.0,), np.inf), ((3.0, 5.0), (12.0, 15.617), np.inf),
                        ((3.0, 5.0), (12.0, 15.617), 1e8)):  # fmt: skip
            c = must(sn, m, a, e)
            for n in (1, 2, 5, 9):
                for pos in range(n):
                    for neg in (-1.0, -1e-9, -1e6, -np.inf):
                        with rec.case(m, n, pos, neg):
                            x = np.full(n, 20.0)
                            x[pos] = neg
                            rejects("negative stress", c.get_cycles, x)
                            rejects("negative stress", c.get_cycles, x.tolist())
                            rec.outcome("refused")
                            rec.trace(2)
                            rec.step(2)
            with rec.case("scalar"):
                rejects("negative stress", c.get_cycles, -3.0)


CHECK = Check()
