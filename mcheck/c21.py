"""C21: equality of counts and curves."""
from __future__ import annotations

import copy
import itertools
import pickle

import numpy as np
from py_fatigue import CycleCount

from mcheck.core import Rec, must, require, same
from mcheck.counts import from_signal, make, snapshot, stamp, unchanged
from mcheck.curves import paris, sn


def base():
    return dict(
        tab=[(4.0, 2.0, 0.5), (2.0, 1.0, 1.0), (6.0, -1.0, 3.0)],
        k=0, residuals=[0.0, 4.0, -2.0, 3.0], unit="MPa", range_bin_lower_bound=0.2,
        range_bin_width=0.05, _mean_bin_lower_bound=-5.0, mean_bin_width=10.0,
        nr_small_cycles=2, lffd_solved=False, mean_stress_corrected="No",
        stress_concentration_factor=1.0, name="A",
    )  # fmt: skip


def row(i, j, v):
    t = [list(r) for r in base()["tab"]]
    t[i][j] = v
    return {"tab": t}


def variants():
    """Every single difference of a count, several values each."""
    tab = base()["tab"]
    for i, j in itertools.product(range(3), range(3)):
        for v in (tab[i][j] + 1, tab[i][j] * (1 + 2**-40), -tab[i][j]):
            yield row(i, j, v)
    yield {"tab": tab[:2]}
    yield {"tab": tab + tab[:1]}
    yield {"tab": tab[::-1]}
    yield {"tab": tab[1:] + tab[:1]}
    res = base()["residuals"]
    yield {"residuals_sequence": None}
    for r in ([], res[:-1], res + [1.0], res[::-1], res[:-1] + [3.5], [0.0], [1.0, 2.0]):
        yield {"residuals": r}
    for k in (1, 2, 50):
        yield {"k": k}
    for u in ("ksi", "mpa", "", "MPa "):
        yield {"unit": u}
    for f in ("range_bin_lower_bound", "range_bin_width", "_mean_bin_lower_bound", "mean_bin_width"):
        for d in (0.05, 1.0, 2.0**-40):
            yield {f: base()[f] + d}
    for n in (0, 1, 3):
        yield {"nr_small_cycles": n}
    yield {"lffd_solved": True}
    for c in ("DNVGL-RP-C203: {'detail_factor': 0.8}", "SWT: {}", ""):
        yield {"mean_stress_corrected": c}
    for s in (1.5, 2.0, 1 + 2**-40):
        yield {"stress_concentration_factor": s}
    for n in ("B", None, "", "A "):
        yield {"name": n}
    for ks in ((0, 1), (0, 2), (0, 1, 2), (0, 1, 3), (0, 2, 3)):
        yield {"_time_sequence": np.array([stamp(k) for k in ks])}
    yield {"_min_max_sequence": np.array([-9.0, 9.0])}


def build(kw):
    return must(lambda: make(**{**base(), **kw}))




def UP(v):
    """The next representable number."""
    return float(np.nextafter(v, np.inf))


SN = [
    dict(slope=m, intercept=a, endurance=n, color=c, unit_string=u)
    for (m, a), n, c, u in itertools.product(
        [(3.0, 12.0), ([3.0], [12.0]), (3.0, 12.5), (3.0, UP(12.0)), (UP(3.0), 12.0), (5.0, 12.0), ([3.0, 5.0], [12.0, 16.0]),
         ([3.0, 5.0], [12.0, 15.0]), ([3.0, 5.0, 7.0], [12.0, 16.0, 19.0]),
         ([3.0, 5.0], [12.0, UP(16.0)])],
        (np.inf, 1e9), ("k", "r"), ("MPa", "ksi"),
    )
]  # fmt: skip
PARIS = [
    dict(slope=m, intercept=a, threshold=t, critical=q, color=c, unit_string=u)
    for (m, a), t, q, c, u in itertools.product(
        [(3.0, 1e-9), ([3.0], [1e-9]), (3.0, 2e-9), (3.0, UP(1e-9)), (UP(3.0), 1e-9), ([2.0, 4.0], [1e-7, 1e-12]),
         ([2.0, 4.0], [1e-7, 2e-12])],
        (0.0, 20.0, UP(20.0)), (np.inf, 900.0), ("k", "r"), ("MPa √mm", "ksi √in"),
    )
]  # fmt: skip


def equal_pair(what, a, b, yes):
    """Compared both ways, also with !=, giving a plain truth value."""
    for x, y in ((a, b), (b, a)):
        got = must(lambda: x == y)
        require(f"{what}: == gives a truth value, not {type(got).__name__}",
                isinstance(got, (bool, np.bool_)))  # fmt: skip
        same(f"{what}: ==", bool(got), yes)
        same(f"{what}: !=", bool(must(lambda: x != y)), not yes)


class Check:
    ID = "C21"
    ASSUMPTIONS = ["curves are compared with the same explicit display colour"]
    MIN_OUTCOMES = {"equal": 500, "different": 5000, "foreign": 60, "curves": 1000}

    def bound(self, tier):
        n = len(list(variants()))
        return (
            f"all ordered pairs of {n + 1} counts differing in one part from a base count, "
            "each built twice, copied and pickled; counts of 7 to 5000 rows differing in one digit; all pairs of counts of all signals of up"
            f" to {4 if tier == 'quick' else 5} samples over 3 levels; all pairs of"
            f" {len(SN)} S-N and {len(PARIS)} crack growth curves; foreign objects"
        )

    def tasks(self, tier):
        n = len(list(variants())) + 1
        for i in range(0, n, 6):
            yield ("pairs", i, min(i + 6, n))
        for i in range(8):
            yield ("signals", 4 if tier == "quick" else 5, i, 8)
        for i in range(4):
            yield ("curves", "sn", i, 4)
            yield ("curves", "paris", i, 4)
        yield ("long",)
        yield ("derived",)
        yield ("foreign",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def pairs(self, rec, lo, hi):
        kws = [{}, *variants()]
        ccs = [build(k) for k in kws]
        twins = [build(k) for k in kws]
        for i in range(lo, hi):
            a = ccs[i]
            snap = snapshot(a)
            for what, b in (
                ("itself", a), ("twin", twins[i]), ("copy", copy.copy(a)),
                ("deep copy", copy.deepcopy(a)), ("pickle", pickle.loads(pickle.dumps(a))),
            ):  # fmt: skip
                with rec.case("equal", kws[i], what):
                    equal_pair(what, a, b, True)
                    rec.step(4)
                    rec.trace()
                    rec.outcome("equal")
            for j, b in enumerate(ccs):
                if i == j:
                    continue
                with rec.case("different", kws[i], kws[j]):
                    equal_pair("different counts", a, b, False)
                    rec.state((i, j))
                    rec.step(4)
                    rec.trace()
                    rec.outcome("different")
            unchanged("comparing", a, snap)

    def long(self, rec):
        """One entry of a long count changed by a fraction or by one digit."""
        for n in (7, 8, 9, 16, 33, 100, 1001, 5000):
            tab = [(2.0 + k % 7, k % 5 - 2.0, (0.5, 1.0, 3.0)[k % 3]) for k in range(n)]
            res = [(-1.0) ** k * (1 + k % 9) for k in range(n)]
            big = {"tab": tab, "residuals": res}
            a = build(big)
            equal_pair("twin", a, build(big), True)
            for k, (t, r) in enumerate(((tab[::-1], res), (tab[1:] + tab[:1], res),
                                        (tab, res[::-1]), (tab, res[1:] + res[:1]))):  # fmt: skip
                if (t, r) != (tab, res):
                    with rec.case("reordered", n, k):
                        b = build({"tab": t, "residuals": r})
                        equal_pair("reordered counts", a, b, False)
                        rec.step(2)
                        rec.trace()
                        rec.outcome("different")
            for col, at, d in itertools.product(
                (0, 1, 2, "residuals"), (0, 1, n // 2, n - 1), (1.0, UP(1.0) - 1)
            ):
                with rec.case("long", n, col, at, d):
                    t, r = [list(v) for v in tab], list(res)
                    if col == "residuals":
                        r[at] *= 1 + d
                    else:
                        t[at][col] = t[at][col] * (1 + d) or 2.0**-60
                    b = build({"tab": t, "residuals": r})
                    equal_pair("long counts", a, b, False)
                    rec.state(("long", n, col, at, d))
                    rec.step(4)
                    rec.trace()
                    rec.outcome("different")

    def signals(self, rec, n, i, m):
        ws = [w for k in range(2, n + 1) for w in itertools.product(range(3), repeat=k)
              if len(set(w)) > 1]  # fmt: skip
        ccs = [must(from_signal, w) for w in ws]
        snaps = [snapshot(c) for c in ccs]
        for x in range(i, len(ws), m):
            for y in range(len(ws)):
                with rec.case("signals", ws[x], ws[y]):
                    yes = snaps[x] == snaps[y]
                    equal_pair("counts of signals", ccs[x], ccs[y], yes)
                    rec.state((ws[x], ws[y]))
                    rec.step(4)
                    rec.trace()
                    rec.outcome("equal" if yes else "different")

    def derived(self, rec):
        """Counts reached in different ways."""
        a, b = build({}), build({"k": 1})
        sums = [must(lambda: a + b) for _ in range(2)]
        ways = {
            "sum": sums,
            "sum of different factors": [
                must(lambda: a + build({"k": 1, "stress_concentration_factor": 1.5}))
                for _ in range(2)
            ],
            "scaled": [must(lambda: a * 2), must(lambda: 2 * a)],
            "resolved": [must(a.solve_lffd), must(build({}).solve_lffd)],
            "corrected": [
                must(a.mean_stress_correction, detail_factor=0.8),
                must(build({}).mean_stress_correction, detail_factor=0.8),
            ],
            "imported": [
                must(CycleCount.from_rainflow, must(build({}).as_dict), stamp(0)) for _ in range(2)
            ],
        }
        flat = [(k, i, c) for k, v in ways.items() for i, c in enumerate(v)]
        for (k, i, c), (q, j, d) in itertools.product(flat, repeat=2):
            with rec.case("derived", k, i, q, j):
                equal_pair(f"{k} and {q}", c, d, k == q)
                rec.step(4)
                rec.trace()
                rec.outcome("equal" if k == q else "different")
        for k, v in ways.items():
            with rec.case("source", k):
                equal_pair(f"{k} and its source", v[0], a, False)

    def foreign(self, rec):
        things = [build({}), build({"residuals_sequence": None}), must(sn, 3.0, 12.0),
                  must(paris, 3.0, 1e-9)]  # fmt: skip
        others = [
            None, 0, 1.5, "MPa", (), [], {}, object(), CycleCount, np.float64(2), True,
            vars(build({})), stamp(0),
        ]  # fmt: skip
        for t, o in itertools.product(things, others):
            with rec.case("foreign", type(t).__name__, type(o).__name__):
                equal_pair("foreign object", t, o, False)
                rec.step(4)
                rec.trace()
                rec.outcome("foreign")
        for s, t in itertools.permutations(range(4), 2):
            if {s, t} != {0, 1}:
                with rec.case("mixed", s, t):
                    equal_pair("objects of different types", things[s], things[t], False)
                    rec.outcome("foreign")
        for seed in range(1, 6):
            # in containers
            with rec.case("container", seed):
                c = things[seed % 4]
                require("found in a list", c in [None, "x", copy.deepcopy(c)])
                require("not found in a list", c not in [None, "x", 3])
                rec.outcome("foreign")
                rec.trace(2)

    def curves(self, rec, kind, i, n):
        make_, pars = (sn, SN) if kind == "sn" else (paris, PARIS)
        first = [must(make_, **p) for p in pars]
        second = [must(make_, **p) for p in pars]

        def key(p):
            flat = {k: tuple(np.atleast_1d(v).tolist()) if k in ("slope", "intercept") else v
                    for k, v in p.items()}  # fmt: skip
            return tuple(flat.items())

        for x in range(i, len(pars), n):
            for y in range(len(pars)):
                with rec.case(kind, pars[x], pars[y]):
                    equal_pair("curves", first[x], second[y], key(pars[x]) == key(pars[y]))
                    rec.state((kind, x, y))
                    rec.step(4)
                    rec.trace()
                    rec.outcome("curves")
            for what, b in (("itself", first[x]), ("copy", copy.deepcopy(first[x]))):
                with rec.case(kind, pars[x], what):
                    equal_pair(what, first[x], b, True)
        base_ = dict(slope=3.0, intercept=12.0 if kind == "sn" else 1e-9, color="k")
        names = [("Air", "C", "N"), ("Water", "C", "N"), ("Air", "D", "N"), ("Air", "C", "M")]
        from py_fatigue import SNCurve
        from py_fatigue.material.crack_growth_curve import ParisCurve

        cls = SNCurve if kind == "sn" else ParisCurve
        for p, q in itertools.product(names, repeat=2):
            with rec.case(kind, p, q):
                mk = lambda t: must(  # noqa: E731
                    cls, environment=t[0], curve=t[1], norm=t[2], **base_
                )
                equal_pair("named curves", mk(p), mk(q), p == q)
                rec.outcome("curves")


CHECK = Check()
