"""C11: strength as the inverse of life, and the endurance stress."""
from __future__ import annotations

import itertools

import numba
import numpy as np

from mcheck.core import Rec, arr, close, must, rejects, require
from mcheck.curves import (
    INTERCEPTS, SLOPES, knee_cycles, life, ordered, sn, sn_ordered, sn_params, strength,
    stress_points, wide_params,
)  # fmt: skip

ENDURANCES = (np.inf, 1e6, 1e7, 2e7, 1e9, 3e12, 10**8)


class Check:
    ID = "C11"
    ASSUMPTIONS = ["segments are listed from high to low stress"]
    MIN_OUTCOMES = {"endurance": 300, "no endurance": 50, "refused": 100}

    def bound(self, tier):
        return (
            "all one- and two-segment and"
            f" all three-segment curves over"
            f" {len(SLOPES)} slopes and {len(INTERCEPTS)} intercepts whose segments are"
            " in order, continuous four-segment curves, 7 endurances; up to eight segments"
            " and extreme slopes and intercepts at 1e-9-1e30 cycles; 24 stresses and"
            " 22 cycle numbers, up to 70000 at once, plus both sides of every knee and of the endurance;"
            " non-positive cycles at every position"
        )

    def tasks(self, tier):
        for i in range(16):
            yield ("inverse", i, 16, 1)
        yield ("wide",)
        yield ("long",)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        numba.set_num_threads(1)
        getattr(self, kind)(rec, *a)

    def params(self, step):
        yield from sn_params(1)
        yield from (p for p in sn_params(2) if ordered(*p))
        yield from itertools.islice((p for p in sn_params(3) if ordered(*p)), 0, None, step)
        for k in itertools.combinations((300.0, 120.0, 64.0, 20.0, 5.0), 3):
            for s in itertools.combinations(SLOPES, 4):
                yield sn_ordered(k, s, 12.5)

    def inverse(self, rec, i, n, step):
        for m, a in itertools.islice(self.params(step), i, None, n):
            kc = knee_cycles(m, a)
            for e in ENDURANCES:
                if kc and max(kc) > e * (1 - 1e-9):
                    continue
                with rec.case(m, a, e):
                    c = must(sn, m, a, e)
                    pts = [10.0**k for k in range(-1, 14)] + [3.0, 7.5e4, 2e6, 5e6, 6.25e8]
                    for k in kc:
                        pts += [k * 0.999, k, k * 1.001]
                    if e < np.inf:
                        pts += [e, e * (1 - 1e-6), e * (1 + 1e-6), e * 2, e / 2, 1e3 * e]
                    cyc = np.array(sorted(pts))
                    got = arr(must(c.get_stress, cyc))
                    close("strength", got, strength(cyc, m, a, e), atol=0.0)
                    require("strength increases", np.all(got[1:] <= got[:-1] * (1 + 1e-12)))
                    # cycles -> stress -> cycles
                    below = cyc < e * (1 - 1e-9)
                    close(
                        "cycles undone", must(c.get_cycles, got[below]), cyc[below], rtol=1e-8, atol=0.0
                    )
                    # stress -> cycles -> stress
                    s = stress_points(m, a, e)
                    nn = life(s, m, a)
                    fin = (nn < e * (1 - 1e-9)) & np.isfinite(nn)
                    back = must(c.get_stress, must(c.get_cycles, s[fin]))
                    close("stress undone", back, s[fin], rtol=1e-8, atol=0.0)
                    es = must(lambda: c.endurance_stress)
                    if e < np.inf:
                        close("endurance stress", es, strength(e, m, a))
                        close("at endurance", must(c.get_stress, e), es)
                        close("beyond", must(c.get_stress, [e * 1.5, e * 1e6]), [es, es])
                        inf = must(c.get_cycles, np.array([es * (1 - 1e-6), es / 3, es / 1e5]))
                        require(f"lives below endurance stress {inf}", np.all(np.isinf(inf)))
                        rec.outcome("endurance")
                    else:
                        require(f"endurance stress {es} without endurance", es == 0)
                        rec.outcome("no endurance")
                    if e == 1e7:
                        close("strength by the old name", must(c.sigma, cyc), got)
                    rec.state((m, a, e))
                    rec.step(len(cyc) * 2 + len(s) * 2)
                    rec.trace(len(cyc) * 2 + len(s))

    def wide(self, rec):
        for m, a in wide_params():
            if not ordered(m, a):
                continue
            kc = knee_cycles(m, a)
            for e in (np.inf, 1e-3, 1e7, 1e15, 1e40):
                if kc and max(kc) > e * (1 - 1e-9):
                    continue
                with rec.case("wide", m, a, e):
                    c = must(sn, m, a, e)
                    pts = [10.0**k for k in range(-9, 31)] + [k * f for k in kc for f in (0.9, 1.0, 1.1)]
                    cyc = np.array(sorted(pts))
                    got = arr(must(c.get_stress, cyc))
                    close("strength", got, strength(cyc, m, a, e), rtol=1e-8, atol=0.0)
                    below = (cyc < e * (1 - 1e-8)) & (got > 1e-200) & (got < 1e200)
                    if below.any():
                        close("cycles undone", must(c.get_cycles, got[below]), cyc[below],
                              rtol=1e-7, atol=0.0)  # fmt: skip
                    es = must(lambda: c.endurance_stress)
                    close("endurance stress", es, strength(e, m, a) if e < np.inf else 0.0,
                          rtol=1e-8, atol=0.0)  # fmt: skip
                    rec.state(("wide", m, a, e))
                    rec.step(len(cyc))
                    rec.trace(len(cyc))
                    rec.outcome("wide")

    def long(self, rec):
        """Many numbers of cycles at once."""
        for n, (m, a), e in itertools.product(
            (129, 1000, 4097, 70000),
            (sn_ordered((), (4.0,), 14.0), sn_ordered((64.0,), (3.0, 5.0), 12.0),
             sn_ordered((300.0, 64.0, 20.0), (2.0, 3.0, 4.0, 5.0), 8.0)),
            (np.inf, 1e10),
        ):  # fmt: skip
            with rec.case("long", n, m, e):
                c = must(sn, m, a, e)
                cyc = np.array([10.0 ** (2 + j * 37 % 1009 / 84) for j in range(n)])
                for how in (cyc, cyc[::-1], cyc.tolist()):
                    got = must(c.get_stress, how)
                    close("strength", got, strength(arr(how), m, a, e), atol=0.0)
                low = cyc < e * (1 - 1e-9)
                close("cycles undone", must(c.get_cycles, must(c.get_stress, cyc[low])), cyc[low],
                      rtol=1e-8, atol=0.0)  # fmt: skip
                rec.state(("long", n, m, e))
                rec.step(4 * n)
                rec.trace(4)

    def reject(self, rec):
        for m, a, e in (((3.0,), (12.0,), np.inf), ((3.0, 5.0), (12.0, 15.617), np.inf),
                        ((3.0, 5.0), (12.0, 15.617), 1e8)):  # fmt: skip
            c = must(sn, m, a, e)
            for n in (1, 2, 5, 9):
                for pos in range(n):
                    for bad in (0.0, -1.0, -1e-9, -1e9):
                        with rec.case(m, e, n, pos, bad):
                            x = np.full(n, 2e5)
                            x[pos] = bad
                            rejects("non-positive cycles", c.get_stress, x)
                            rejects("non-positive cycles", c.get_stress, x.tolist())
                            rec.outcome("refused")
                            rec.state((m, e, n, pos, bad))
                            rec.trace(2)
                            rec.step(2)
            with rec.case("scalar", m):
                rejects("non-positive cycles", c.get_stress, 0.0)
                rejects("non-positive cycles", c.get_stress, -5.0)


CHECK = Check()
