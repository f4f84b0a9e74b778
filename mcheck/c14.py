"""C14: nonlinear damage rules against the documented recurrence."""
from __future__ import annotations

import itertools

import numba
import numpy as np
from py_fatigue.damage import stress_life as sl

from mcheck.core import Rec, close, must, rejects, require
from mcheck.counts import make
from mcheck.curves import life, sn, sn_ordered

CURVES = [
    ((3.0,), (12.0,), np.inf),
    (*sn_ordered((64.0,), (3.0, 5.0), 12.0), np.inf),
    (*sn_ordered((64.0,), (3.0, 5.0), 12.0), 3e7),
]
RANGES = (30.0, 39.0, 64.0, 100.0, 300.0, 640.0)
WEIGHTS = (0.5, 200.0, 4096.0)
ROWS = list(itertools.product(RANGES, WEIGHTS))
# rule -> (names, parameter sets)
RULES = {
    "pavlou": (
        ["pavlou", "Pavlou", "PAVLOU"],
        [{}, {"base_exponent": -0.5}, {"ultimate_stress": 700.0},
         {"base_exponent": -0.9, "ultimate_stress": 1200.0}, {"base_exponent": 0}],
    ),
    "manson": (
        ["manson", "manson halford", "manson and halford", "Manson-Halford", "MANSON HALFORD",
         "Manson and Halford"],
        [{}, {"base_exponent": 0.25}, {"base_exponent": 0.0}],
    ),
    "leve": (["leve", "Leve", "LEVE"], [{}, {"base_exponent": 1.5}, {"base_exponent": 1},
                                 {"base_exponent": 0}]),
    "si jian": (
        ["si jian", "si jian et al", "Si-Jian", "SI JIAN", "Si Jian et al"], [{}],
    ),
}  # fmt: skip


def model(rule, s, w, curve, base_exponent=None, ultimate_stress=900.0):
    n = life(s, *curve)
    k = len(s)
    if rule == "pavlou":
        b = -0.75 if base_exponent is None else base_exponent
        q = (np.asarray(s) / 2 / ultimate_stress) ** b
        e = [q[j + 1] / q[j] for j in range(k - 1)] + [1.0]
    elif rule == "manson":
        b = 0.4 if base_exponent is None else base_exponent
        e = [(n[j] / n[j + 1]) ** b for j in range(k - 1)] + [1.0]
    elif rule == "leve":
        e = [2.0 if base_exponent is None else base_exponent] * k
    else:
        e = [s[j + 1] / s[j] for j in range(k - 1)] + [1.0]
    d = 0.0
    for j in range(k):
        d = (d + w[j] / n[j]) ** e[j]
    return d


class Check:
    ID = "C14"
    ASSUMPTIONS = ["under the Manson-Halford rule every step has a finite life"]
    MIN_OUTCOMES = {"pavlou": 500, "manson": 500, "leve": 500, "si jian": 200,
                    "endurance": 200, "refused": 20}  # fmt: skip

    def bound(self, tier):
        k = "every 4th of " if tier == "quick" else ""
        return (
            f"all ordered spectra of one or two of {len(ROWS)} steps and {k}three, for"
            f" the four rules with all parameter sets and {len(CURVES)} curves, through"
            " arrays and counts; 4-step spectra of 4 steps; 5- to"
            " 7-step spectra passing a damage of one, stresses from 0.5 to 40000 and"
            " parameters of every magnitude; spectra of up to 3000 steps; every spelling of every"
            " rule; unknown names"
        )

    def tasks(self, tier):
        for i in range(24):
            yield ("steps", i, 24, 4 if tier == "quick" else 1)
        yield ("long",)
        yield ("wide",)
        yield ("many",)
        yield ("names",)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        numba.set_num_threads(1)
        self.sns = [must(sn, *c) for c in CURVES]
        getattr(self, kind)(rec, *a)

    def _one(self, rec, tab, rule, par, k, name=None):
        s = np.array([r for r, _ in tab])
        w = np.array([v for _, v in tab])
        if rule == "manson" and np.isinf(life(s, *CURVES[k])).any():
            return
        with rec.case(tab[:8], len(tab), rule, par, k, name):
            exp = model(rule, s, w, CURVES[k], **par)
            name = name or RULES[rule][0][0]
            got = must(sl.calc_nonlinear_damage, name, s, w, self.sns[k], **par)
            close("array damage", float(got), exp, atol=1e-300)
            cc = make([(r, 3.0, v) for r, v in tab])
            got = must(sl.get_nonlinear_damage, name, cc, self.sns[k], **par)
            close("count damage", float(got), exp, atol=1e-300)
            rec.state((tab, rule, str(par), k))
            rec.step(2 * len(tab))
            rec.trace(2)
            rec.outcome(rule)
            if np.isinf(life(s, *CURVES[k])).any():
                rec.outcome("endurance")

    def steps(self, rec, i, n, m):
        specs = itertools.chain(
            ((r,) for r in ROWS),
            itertools.product(ROWS, repeat=2),
            itertools.islice(itertools.product(ROWS, repeat=3), 0, None, m),
        )
        for q, tab in enumerate(itertools.islice(specs, i, None, n)):
            for rule, (_, pars) in RULES.items():
                for j, par in enumerate(pars):
                    for k in range(len(CURVES)):
                        if len(tab) < 3 or (q + j + k) % 3 == 0:
                            self._one(rec, tab, rule, par, k)

    def many(self, rec):
        """Spectra of many steps, rising, falling and mixed."""
        for n in (60, 101, 128, 1000, 3000):
            up = tuple((40.0 + 300.0 * j / n, 1.0 + j % 5) for j in range(n))
            mix = tuple((40.0 + j * 37 % 263, 0.5 + j * 11 % 17) for j in range(n))
            for tab, rule, k in itertools.product((up, up[::-1], mix), RULES, range(len(CURVES))):
                for par in RULES[rule][1]:
                    self._one(rec, tab, rule, par, k)

    def long(self, rec):
        base = [(100.0, 200.0), (300.0, 0.5), (39.0, 4096.0), (64.0, 200.0)]
        for tab in itertools.product(base, repeat=4):
            for rule in RULES:
                self._one(rec, tab, rule, {}, 1)
        for n in (10, 50):
            tab = tuple(base[(j * j) % 4] for j in range(n))
            for rule in RULES:
                self._one(rec, tab, rule, {}, 1)

    def wide(self, rec):
        """Stresses, weights and parameters of every magnitude; damage beyond one."""
        rng, wts = (0.5, 30.0, 640.0, 2500.0, 40000.0), (1e-3, 1.0, 3e4, 2e8)
        rows = list(itertools.product(rng, wts))
        pars = {
            "pavlou": [{}, {"ultimate_stress": 10.0}, {"base_exponent": 0.5},
                       {"base_exponent": -3, "ultimate_stress": 1e5}, {"ultimate_stress": 1}],
            "manson": [{}, {"base_exponent": 1.0}, {"base_exponent": -0.3}, {"base_exponent": 2}],
            "leve": [{}, {"base_exponent": 0.25}, {"base_exponent": 7}, {"base_exponent": -1.0}],
            "si jian": [{}],
        }  # fmt: skip
        for q, tab in enumerate(itertools.product(rows, repeat=2)):
            for rule, ps in pars.items():
                for par in ps:
                    self._one(rec, tab, rule, par, q % 2)
        # sequences that pass a damage of one and go on
        step = [(640.0, 2000.0), (640.0, 9000.0), (300.0, 20000.0), (64.0, 200.0)]
        for n in (5, 6, 7):
            for k in range(0, 4**n, (1, 3, 13)[n - 5]):
                tab = tuple(step[k // 4**j % 4] for j in range(n))
                for rule, ps in RULES.items():
                    self._one(rec, tab, rule, ps[1][k % len(ps[1])], k % 3)

    def names(self, rec):
        for rule, (names, pars) in RULES.items():
            for name in {n.lower().replace("-", " ") for n in names}:
                gaps = [i for i, ch in enumerate(name) if ch == " "]
                for seps in itertools.product(" -", repeat=len(gaps)):
                    v = list(name)
                    for i, ch in zip(gaps, seps):
                        v[i] = ch
                    v = "".join(v)
                    for spelled in (v, v.upper(), v.title(), v.capitalize(), v.swapcase()):
                        self._one(rec, ((100.0, 200.0), (300.0, 0.5)), rule, pars[0], 1, spelled)
        tab = ((100.0, 200.0), (300.0, 0.5), (64.0, 200.0))
        for rule, (names, pars) in RULES.items():
            for name, par in itertools.product(names, pars):
                self._one(rec, tab, rule, par, 1, name)

    def reject(self, rec):
        s, w = np.array([100.0, 64.0]), np.array([2.0, 3.0])
        cc = make([(100.0, 0, 2.0), (64.0, 0, 3.0)])
        for bad in ("", "miner", "pavlo", "linear", "leve2", "halford", "jian", "si", "none"):
            with rec.case(bad):
                rejects("unknown rule", sl.calc_nonlinear_damage, bad, s, w, self.sns[0])
                rejects("unknown rule", sl.get_nonlinear_damage, bad, cc, self.sns[0])
                rec.outcome("refused")
                rec.trace(2)
                rec.step(2)
        for rule, (u, v) in itertools.product(
            RULES, itertools.product(("MPa", "ksi", "psi"), repeat=2)
        ):
            with rec.case(rule, u, v):
                c = must(sn, 3.0, 12.0, unit_string=v)
                d = make([(100.0, 0, 2.0), (64.0, 0, 3.0)], unit=u)
                rec.step()
                rec.trace()
                if u == v:
                    must(sl.get_nonlinear_damage, rule, d, c)
                else:
                    rejects("unit mismatch", sl.get_nonlinear_damage, rule, d, c)
                    rec.outcome("refused")


CHECK = Check()
