"""C04: addition of counts == concatenation of bags, with guards."""
from __future__ import annotations

import datetime as dt
import itertools

import numpy as np

from mcheck.core import Rec, arr, must, rejects, require, same
from mcheck.counts import make, rows, same_cycles, snapshot, stamp, times
from mcheck.ref import RESIDUALS, TABLES, Ref, product_dicts, signal_ref

SOLVED = {"lffd_solved": True}
CORRECTED = {"mean_stress_corrected": "SWT: {}", "lffd_solved": True}
BINS = [(0.2, 0.05, None, 10.0), (0.5, 0.25, None, 4.0), (0.125, 1.0, -32.0, 5.0)]


def family(tabs, ress, ks, bins, units, extras):
    for d in product_dicts(t=tabs, r=ress, k=ks, b=bins, u=units, e=extras):
        nsmall, scf, name, *flags = d["e"]
        yield (
            Ref(TABLES[d["t"]], (d["k"],), RESIDUALS[d["r"]], d["u"], d["b"], nsmall, scf),
            {"name": name, **dict(*flags)},
        )


def plus(a, b):
    return a + b


class Check:
    ID = "C04"
    ASSUMPTIONS = [
        "the factor of a sum of counts with different stress concentration"
        " factors is not specified by the property",
    ]
    MIN_OUTCOMES = {"sum": 1000, "refused": 1000, "nothing": 20}

    def family(self, tier):
        q = tier == "quick"
        return list(
            family(
                ["half", "mixed", "full"] if q else list(TABLES),
                ["none", "two", "long"] if q else list(RESIDUALS),
                [0, 1, 2],
                BINS[:2] if q else BINS,
                ["MPa", "ksi"],
                [(0, 1.0, None), (3, 1.0, "A"), (2, 1.5, "A"), (0, 1.5, "B", SOLVED)],
            )
        )

    def bound(self, tier):
        n = len(self.family(tier))
        return (
            f"all ordered pairs of {n} counts (cycles x residuals x time x bins x"
            " unit x small cycles/factor/name); all pairs of 36 resolved, corrected and plain counts; all triples of 12 counts in both"
            " groupings and by sum(); pairs of sums spanning time intervals; time"
            " stamps microseconds to years apart in four time zones; long"
            " sums up to 300 counts, counts of up to 6000 cycles; every null and foreign operand on both sides"
        )

    def tasks(self, tier):
        n = len(self.family(tier))
        step = 12
        for i in range(0, n, step):
            yield ("pairs", tier, i, min(n, i + step))
        for i in range(12):
            yield ("triples", i)
        for i in range(6):
            yield ("flags", i)
        yield ("spans",)
        yield ("clocks",)
        yield ("chains",)
        yield ("long",)
        yield ("nulls",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def _pair(self, rec, ra, ca, rb, cb, **kw):
        rec.step()
        if ra.addable(rb):
            total = must(plus, ca, cb)
            r = ra.add(rb)
            r.agree(total, **kw)
            require("a sum is not resolved yet", total.lffd_solved is False)
            rec.state(r.key())
            rec.outcome("sum")
        else:
            rejects("incompatible counts", plus, ca, cb, kinds=TypeError)
            rec.outcome("refused")
        rec.trace()

    def pairs(self, rec, tier, lo, hi):
        fam = self.family(tier)
        left = [(r, must(r.build, **kw)) for r, kw in fam[lo:hi]]
        for rb, kwb in fam:
            for ra, ca in left:
                with rec.case(ra.key(), rb.key()):
                    self._pair(rec, ra, ca, rb, must(rb.build, **kwb))

    def triples(self, rec, i):
        fam = [
            Ref(TABLES[t], (k,), RESIDUALS[r], nsmall=s)
            for t, r, s in (("half", "two", 1), ("mixed", "long", 0), ("heavy", "none", 2))
            for k in (0, 1, 2, 3)
        ]
        ra = fam[i]
        for rb, rc in itertools.product(fam, repeat=2):
            with rec.case(ra.key(), rb.key(), rc.key()):
                a, b, c = must(ra.build), must(rb.build), must(rc.build)
                order = max(ra.ks) <= min(rb.ks) and max(rb.ks) <= min(rc.ks)
                rec.step(3)
                if order:
                    r = ra.add(rb).add(rc)
                    r.agree(must(lambda: (a + b) + c), what="(a+b)+c ")
                    r.agree(must(lambda: a + (b + c)), what="a+(b+c) ")
                    r.agree(must(lambda: sum([a, b, c])), what="sum ")
                    rec.trace(3)
                    rec.outcome("sum")
                    rec.state(r.key())
                else:
                    rejects("unordered triple", lambda: (a + b) + c, kinds=TypeError)
                    rejects("unordered triple", lambda: a + (b + c), kinds=TypeError)
                    rec.trace(2)
                    rec.outcome("refused")

    def flags(self, rec, i):
        """Resolved and corrected operands, large numbers of small cycles."""
        fam = [
            (Ref(TABLES[t], (k,), RESIDUALS[r], nsmall=n), f)
            for t, r, n in (("pair", "three", 0), ("mixed", "none", 10**7), ("heavy", "two", 2**40))
            for k in (0, 1, 2)
            for f in ({}, SOLVED, CORRECTED, CORRECTED | {"lffd_solved": False})
        ]
        for (ra, fa), (rb, fb) in itertools.product(fam[i::6], fam):
            with rec.case(ra.key(), fa, rb.key(), fb):
                ca, cb = must(ra.build, **fa), must(rb.build, **fb)
                self._pair(rec, ra, ca, rb, cb)
                if fa == fb and ra.addable(rb):
                    same("correction", (ca + cb).mean_stress_corrected, ca.mean_stress_corrected)

    def spans(self, rec):
        """Operands that are sums themselves cover a time interval."""
        single = {k: Ref(TABLES["pair"], (k,), RESIDUALS["three"], nsmall=k) for k in range(5)}
        cc = {k: must(r.build) for k, r in single.items()}
        spans = []
        for i, j in itertools.combinations_with_replacement(range(5), 2):
            r = single[i].add(single[j])
            spans.append((r, must(plus, cc[i], cc[j])))
        spans += [(single[k], cc[k]) for k in single]
        for (ra, ca), (rb, cb) in itertools.product(spans, repeat=2):
            with rec.case(ra.ks, rb.ks):
                self._pair(rec, ra, ca, rb, cb)

    def clocks(self, rec):
        """Time stamps microseconds to years apart, in several zones, without zone."""
        steps = (-(10**15), -1, 0, 1, 999_999, 10**6, 86_400 * 10**6, 400 * 86_400 * 10**6)
        zones = (dt.timezone.utc, dt.timezone(dt.timedelta(hours=5, minutes=30)),
                 dt.timezone(dt.timedelta(hours=-8)), None)  # fmt: skip
        tab, res = TABLES["pair"], arr(RESIDUALS["three"])

        def count(us, zone):
            t = stamp(0) + dt.timedelta(microseconds=us)
            t = t.replace(tzinfo=None) if zone is None else t.astimezone(zone)
            return t, must(make, tab, timestamp=t, residuals_sequence=res)

        for (p, y), (q, z) in itertools.product(itertools.product(steps, zones), repeat=2):
            if (y is None) != (z is None):
                continue
            for r in (None, *steps) if y is z else (None,):
                with rec.case(p, str(y), q, str(z), r):
                    (ta, a), (tb, b) = count(p, y), count(q, z)
                    rec.step()
                    rec.trace()
                    rec.state((p, str(y), q, str(z), r))
                    if p > q:
                        rejects("earlier second count", plus, a, b, kinds=TypeError)
                        rec.outcome("refused")
                        continue
                    total = must(plus, a, b)
                    require("stamps of the sum", times(total) == sorted({ta, tb}))
                    require("stamp of the sum", total.timestamp == ta)
                    same_cycles("cycles of the sum", rows(total), list(tab) * 2)
                    rec.outcome("sum")
                    if r is None:
                        continue
                    tc, c = count(r, y)
                    if r < q:
                        rejects("count within a sum", plus, total, c, kinds=TypeError)
                        rec.outcome("refused")
                    else:
                        require("stamps of three",
                                times(must(plus, total, c)) == sorted({ta, tb, tc}))  # fmt: skip
                    if r > p:
                        rejects("sum before a count", plus, c, total, kinds=TypeError)
                        rec.outcome("refused")
                    else:
                        require("stamp of three", must(plus, c, total).timestamp == tc)
                    rec.trace(2)

    def long(self, rec):
        """Counts of many cycles and many-digit values."""
        for n, m in itertools.product((2, 40, 257, 1500, 6000), repeat=2):
            ra, rb = (
                Ref([(1.1 + j * 37 % 101 / 3, j * 53 % 89 / 7 - 6, 0.5 + j % 4 / 2) for j in range(k)],
                    (q,), [(-1) ** j * (1 + j * 29 % 83) / 3 for j in range(k)], nsmall=q)
                for q, k in enumerate((n, m))
            )  # fmt: skip
            with rec.case("long", n, m):
                a, b = must(ra.build), must(rb.build)
                self._pair(rec, ra, a, rb, b)
                rec.step()

    def chains(self, rec):
        for n in (5, 20, 100, 300):
            refs = [
                signal_ref([0, 3 + k % 4, 1, 2 + k % 3, -k % 5 - 1], k, nsmall=k % 3)
                for k in range(n)
            ]
            with rec.case("chain", n):
                total = must(lambda: sum(must(r.build) for r in refs))
                r = refs[0]
                for o in refs[1:]:
                    r = r.add(o)
                r.agree(total)
                rec.state(r.key())
                rec.step(n)
                rec.trace()
                rec.outcome("sum")

    def nulls(self, rec):
        nothing = [None, 0, 0.0, float("nan"), np.nan, np.float64("nan"), np.float64(0)]
        foreign = ["count", b"x", 1, -1, 2.5, [1], (1,), {"a": 1}, object(), stamp(0), 1j]
        for t in TABLES:
            for res in RESIDUALS:
                r = Ref(TABLES[t], (1,), RESIDUALS[res], nsmall=2, scf=1.25)
                cc = must(r.build, name=("A", None)[len(t) % 2])
                for z in nothing:
                    with rec.case(t, res, repr(z)):
                        r.agree(must(lambda: cc + z), what="count + nothing: ")
                        r.agree(must(lambda: z + cc), what="nothing + count: ")
                        r.agree(must(lambda: sum([cc])), what="sum of one: ")
                        for o in (cc + z, z + cc):
                            require("the count itself is given back", snapshot(o) == snapshot(cc))
                        rec.state((r.key(), repr(z)))
                        rec.step(2)
                        rec.trace(3)
                        rec.outcome("nothing")
                for z in foreign:
                    with rec.case(t, res, repr(type(z))):
                        rejects("foreign right operand", lambda: cc + z)
                        rejects("foreign left operand", lambda: z + cc)
                        rec.step(2)
                        rec.trace(2)
                        rec.outcome("refused")


CHECK = Check()
