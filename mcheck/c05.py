"""C05: scaling multiplies stresses and nothing else."""
from __future__ import annotations

import itertools
import re

import numpy as np

from mcheck.core import Rec, close, must, rejects, require, same
from mcheck.counts import rows, same_cycles, seq, stamp
from mcheck.ref import RESIDUALS, TABLES, Ref, signal_ref

FACTORS = [
    1, 1.0, 2, 2.0, 0.5, 1.25, 3, 10, 2.0**-10, 2.0**12, 0.75,
    np.float64(1.5), True, 7.0, 1.1, 1e3, 100_000, 10**12, 1e-6, 1e9, 2**-40, 1 / 3,
]  # fmt: skip
BINS = [(0.2, 0.05, None, 10.0), (0.5, 0.25, -40.0, 4.0)]


def refs():
    for t, res, b, (u, n, s) in itertools.product(
        TABLES, RESIDUALS, BINS, (("MPa", 0, 1.0), ("ksi", 3, 1.5))
    ):
        yield Ref(TABLES[t], (1,), RESIDUALS[res], u, b, n, s)
    for t, b in itertools.product(("half", "pair", "full"), (0.0, -0.0, 1.0)):
        yield Ref(TABLES[t], (1,), RESIDUALS["long"], bins=(0.0, 0.25, b, 4.0))


SIGNALS = [
    p for n in (2, 3, 4, 5) for p in itertools.product(range(3), repeat=n) if len(set(p)) > 1
]


class Check:
    ID = "C05"
    MIN_OUTCOMES = {"scaled": 1000, "commutes": 500, "refused": 50}

    def bound(self, tier):
        return (
            "133 counts (cycles x residuals x bins x unit) and all 3-level signals"
            f" up to length 5 times {len(FACTORS)} factors from both sides; all"
            " pairs of factors; scaling before/after adding and resolving for"
            f" {'every third' if tier == 'quick' else 'all'} pair(s) of signals; every"
            " flag combination; counts of up to 20000 cycles; every non-numeric operand"
        )

    def tasks(self, tier):
        for i in range(10):
            yield ("fields", i)
        m = 3 if tier == "quick" else 1
        for i in range(24):
            yield ("commute", i, m)
        for i in range(8):
            yield ("signals", i)
        yield ("long",)
        yield ("flags",)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def fields(self, rec, i):
        for r in list(refs())[i::10]:
            cc = must(r.build)
            for f in FACTORS:
                e = r.mul(float(f))
                with rec.case(r.key(), repr(f)):
                    e.agree(must(lambda: cc * f), what="count*f ")
                    e.agree(must(lambda: f * cc), what="f*count ")
                    rec.state(e.key())
                    rec.step(2)
                    rec.trace(2)
                    rec.outcome("scaled")
            for f, g in itertools.product((2, 0.5, 1.25, 3, 1024.0), repeat=2):
                with rec.case(r.key(), f, g):
                    r.mul(f * g).agree(must(lambda: (cc * f) * g), what="successive ")
                    rec.step(2)
                    rec.trace()

    def signals(self, rec, i):
        for x in SIGNALS[i::8]:
            r = signal_ref(x, 2, unit="psi")
            cc = must(r.build)
            for f in (2, 0.5, 3.0):
                with rec.case(x, f):
                    e = r.mul(f)
                    got = must(lambda: cc * f)
                    e.agree(got, what="signal ")
                    # scaling then resolving == resolving then scaling
                    a = must(lambda: (cc * f).solve_lffd())
                    b = must(lambda: cc.solve_lffd() * f)
                    se = r.solve().mul(f)
                    se.agree(a, ordered=False, minmax=False, what="scale, resolve: ")
                    se.agree(b, ordered=False, minmax=False, what="resolve, scale: ")
                    rec.state(e.key())
                    rec.step(5)
                    rec.trace(3)
                    rec.outcome("scaled")

    def long(self, rec):
        """Counts of many cycles and many-digit values."""
        for n in (40, 129, 1500, 20000):
            r = Ref([(1.1 + j * 37 % 101 / 3, j * 53 % 89 / 7 - 6, 0.5 + j % 4 / 2) for j in range(n)],
                    (1,), [(-1) ** j * (1 + j * 29 % 83) / 3 for j in range(n)])  # fmt: skip
            cc = must(r.build)
            for f in FACTORS:
                with rec.case("long", n, repr(f)):
                    r.mul(float(f)).agree(must(lambda: cc * f), what="long*f ")
                    rec.step()
                    rec.trace()
                    rec.outcome("scaled")

    def commute(self, rec, i, m):
        """(a + b) f == a f + b f, also around resolution and between spans."""
        pairs = list(itertools.product(SIGNALS[1::2], SIGNALS[::3]))[i * 7 % m :: m]
        for x, y in pairs[i::24]:
            ra, rb = signal_ref(x, 1, nsmall=2), signal_ref(y, 2, nsmall=1)
            with rec.case(x, y):
                a, b = must(ra.build), must(rb.build)
                for f in (2.0, 0.25):
                    e = ra.add(rb).mul(f)
                    s1 = must(lambda: (a + b) * f)
                    s2 = must(lambda: a * f + b * f)
                    e.agree(s1, what="(a+b)f ")
                    e.agree(s2, what="af+bf ")
                    se = e.solve()
                    se.agree(must(s1.solve_lffd), False, False, "(a+b)f resolved: ")
                    se.agree(must(s2.solve_lffd), False, False, "af+bf resolved: ")
                    se.agree(
                        must(lambda: (a + b).solve_lffd() * f), False, False, "resolved f: "
                    )
                    rec.state(e.key())
                    rec.step(8)
                    rec.trace(5)
                    rec.outcome("commutes")
                # a scaled sum still covers its whole time interval
                c = must(signal_ref(x, 0).build)
                rejects("scaled sum after later count", lambda: (a + b) * 2.0 + c * 2.0)
                mid = must(signal_ref(y, 1).build)
                rejects("scaled sum overlapping count", lambda: (a + b) * 2.0 + mid * 2.0)
                rec.trace(2)

    def flags(self, rec):
        for solved, msc, name in itertools.product(
            (False, True), ("No", "DNVGL-RP-C203: {'detail_factor': 0.8}"), (None, "A", "weld 3, SCF=1.5")
        ):
            for t in TABLES:
                r = Ref(TABLES[t], (3,), RESIDUALS["long"])
                cc = must(r.build, lffd_solved=solved, mean_stress_corrected=msc, name=name)
                for f in (1, 2.5, 3, 1e-6, 1024.0):
                    with rec.case(solved, msc, name, t, f):
                        out = must(lambda: cc * f)
                        r.mul(f).agree(out)
                        require("resolution flag kept", out.lffd_solved is solved)
                        same("correction flag kept", out.mean_stress_corrected, msc)
                        if name and f != 1:
                            got = must(str, out.name)
                            require(f"name {got!r} keeps {name!r}", got.startswith(name))
                            told = re.findall(r"[0-9.]+(?:e[-+]?[0-9]+)?", got[len(name) :])
                            require(f"name {got!r} tells {f}", f in map(float, told))
                        rec.state((solved, msc, name, t, f))
                        rec.step()
                        rec.trace()
                        rec.outcome("scaled")

    def reject(self, rec):
        other = must(Ref(TABLES["half"], (2,), []).build)
        bad = ["2", b"2", None, [2.0], (2,), {"a": 2}, 2j, object(), stamp(0), other, {2}]
        for t in TABLES:
            cc = must(Ref(TABLES[t], (1,), RESIDUALS["two"]).build)
            for z in bad:
                with rec.case(t, repr(type(z))):
                    rejects("count * non-number", lambda: cc * z, kinds=TypeError)
                    rejects("non-number * count", lambda: z * cc, kinds=TypeError)
                    rec.state((t, repr(type(z))))
                    rec.step(2)
                    rec.trace(2)
                    rec.outcome("refused")


CHECK = Check()
