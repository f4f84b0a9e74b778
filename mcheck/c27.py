"""C27: warnings of questionable operations, and silence of the others."""
from __future__ import annotations

import itertools
import re
import warnings

import numpy as np
from py_fatigue import SNCurve
from py_fatigue.cycle_count.rainflow import findcross
from py_fatigue.damage.stress_life import calc_nonlinear_damage, get_nonlinear_damage

from mcheck.core import Mismatch, Rec, close, must, same
from mcheck.counts import from_signal, make, snapshot, stamp
from mcheck.model import words

NAMES = ("A", "B b", None)
WIDTHS = ((0.05, 10.0), (0.5, 10.0), (0.05, 2.5), (0.25, 4.0), (0.0495, 9.9))
FACTORS = (1.0, 1.5, 0.25, 0.995)
RESIDUALS = (None, (0.0, 4.0, -2.0, 3.0))
TABS = ([(2.0, 1.0, 1.0), (3.0, -1.0, 0.5)], [(5.0, 0.0, 2.0)])


def heard(fn, *a, kind=UserWarning, **kw):
    """Result and plain texts of the warnings of exactly this kind."""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        out = must(fn, *a, **kw)
    return out, [re.sub(r"\x1b\[\d+m", "", str(w.message)) for w in log if w.category is kind]


def expect(what, texts, wanted):
    """wanted: the values each warning has to name, in any order of warnings."""
    if len(texts) != len(wanted):
        raise Mismatch(f"{what}: {len(texts)} warnings instead of {len(wanted)}: {texts}, {wanted}")
    left = list(texts)
    for parts in sorted(wanted, key=lambda p: -sum(map(len, p))):
        for t in left:
            if all(p in t for p in parts):
                left.remove(t)
                break
        else:
            raise Mismatch(f"{what}: no warning naming {parts} in {texts}")


def day(k):
    return stamp(k).strftime("%d %B %Y, %H:%M")


class State:
    """What decides about the warnings of a sum."""

    def __init__(self, name, widths, scf, res, k):
        self.name, self.widths, self.scf, self.res, self.k = name, widths, scf, res, k

    def add(self, o):
        want = []
        if self.name != o.name:
            want.append((str(self.name), str(o.name)))
        for i in (0, 1):
            if self.widths[i] != o.widths[i]:
                want.append((str(self.widths[i]), str(o.widths[i])))
        if self.scf != o.scf:
            want.append((str(self.scf), str(o.scf)))
        if not (self.res and o.res):
            want.append((day((o if self.res else self).k),) if self.res or o.res else ())
        w = tuple(max(a, b) for a, b in zip(self.widths, o.widths))
        return State(self.name, w, (self.scf + o.scf) / 2, True, self.k), want


class Check:
    ID = "C27"
    ASSUMPTIONS = [
        "the wording of a warning is free apart from the values it has to name",
        "sequences without a turning point are left out, the counting itself remarks on them",
    ]
    MIN_OUTCOMES = {"sum with 0 warnings": 30, "sum with 1 warnings": 200, "sum with 4 warnings": 200,
                    "null": 50, "scaled": 50, "resolved": 200, "corrected": 200, "rule": 60,
                    "level": 200, "alias": 20}  # fmt: skip

    def bound(self, tier):
        return (
            "all ordered pairs of 120 counts (name x bin widths x factor x residuals) and all"
            f" ordered triples of {24 if tier == 'quick' else 48}, every null operand, all scalings;"
            " both resolutions of every 3-level signal up to length 6, of every sum of two, of"
            " resolved and of residual-free counts; every correction with every subset of its"
            " parameters on single and summed, fresh and corrected counts; every nonlinear rule"
            " with every subset of its parameters; crossings of every 3-level signal up to length 5"
        )

    def tasks(self, tier):
        for i in range(8):
            yield ("pairs", i)
            yield ("triples", i, 24 if tier == "quick" else 48)
        yield ("scalings",)
        for i in range(4):
            yield ("resolutions", i)
        yield ("corrections",)
        yield ("rules",)
        yield ("levels",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    @staticmethod
    def family():
        return list(itertools.product(NAMES, WIDTHS, FACTORS, RESIDUALS))

    @staticmethod
    def build(f, k):
        name, (rw, mw), scf, res = f
        cc = make(TABS[k % 2], k, name=name, range_bin_width=rw, mean_bin_width=mw,
                  residuals_sequence=None if res is None else np.array(res),
                  stress_concentration_factor=scf)  # fmt: skip
        return cc, State(name, (rw, mw), scf, res is not None, k)

    def pairs(self, rec, i):
        fam = self.family()
        for f in fam[i::8]:
            a, sa = self.build(f, 0)
            before = snapshot(a)
            for g in fam:
                with rec.case(f, g):
                    b, sb = self.build(g, 1)
                    _, want = sa.add(sb)
                    _, texts = heard(lambda: a + b)
                    expect("sum", texts, want)
                    same("warning alters nothing", snapshot(a), before)
                    rec.state((f, g))
                    rec.step()
                    rec.trace()
                    rec.outcome(f"sum with {len(want)} warnings")
            for null in (None, 0, 0.0, float("nan"), np.float64("nan")):
                with rec.case(f, "null", repr(null)):
                    out, texts = heard(lambda: a + null)
                    expect("null operand", texts, [(day(0),)])
                    same("unchanged", snapshot(out), before)
                    out, texts = heard(lambda: null + a) if not isinstance(null, np.generic) else (a, [])
                    expect("null operand on the left", texts, [])
                    same("unchanged", snapshot(out), before)
                    rec.step(2)
                    rec.trace(2)
                    rec.outcome("null")

    def triples(self, rec, i, n):
        fam = self.family()
        fam = fam[:: len(fam) // n][:n]
        for f in fam[i::8]:
            a, sa = self.build(f, 0)
            for g, h in itertools.product(fam, repeat=2):
                with rec.case(f, g, h):
                    (b, sb), (c, sc) = self.build(g, 1), self.build(h, 2)
                    s, w1 = sa.add(sb)
                    _, w2 = s.add(sc)
                    _, texts = heard(sum, [a, b, c])
                    expect("sum of three", texts, w1 + w2)
                    t, w3 = sb.add(sc)
                    _, w4 = sa.add(t)
                    _, texts = heard(lambda: a + (b + c))
                    expect("sum of three, right", texts, w3 + w4)
                    rec.state((f, g, h))
                    rec.step(4)
                    rec.trace(2)

    def scalings(self, rec):
        for f, q in itertools.product(self.family(), (1, 2, 0.5, 3.75)):
            with rec.case("scale", f, q):
                a, s = self.build(f, 0)
                for fn in (lambda: a * q, lambda: q * a):
                    out, texts = heard(fn)
                    expect("scaling", texts, [] if s.scf == 1 else [(str(s.scf),)])
                    _, texts = heard(lambda: out * 2)
                    expect("scaling again", texts, [] if s.scf * q == 1 else [(str(s.scf * q),)])
                    rec.trace(2)
                    rec.step(2)
                rec.state((f, q))
                rec.outcome("scaled")

    def resolutions(self, rec, i):
        sigs = [x for x in words((-2, 0, 3), 2, 6) if len(set(x)) > 1]
        for j, x in enumerate(sigs[i::4]):
            with rec.case("resolve", x):
                a = must(from_signal, x, 0, name="n")
                b = must(from_signal, sigs[(7 * j) % len(sigs)], 1, name="n")
                both, texts = heard(lambda: a + b)
                expect("sum of like counts", texts, [])
                for cc, mode in itertools.product((a, both), ("residuals", "min-max")):
                    values = np.asarray(cc.residuals_sequence if mode == "residuals" else cc.min_max_sequence)
                    short = len(values) < 3
                    if not short and (np.diff(values) >= 0).all() | (np.diff(values) <= 0).all():
                        continue  # nothing turns, which the counting itself may remark on
                    out, texts = heard(cc.solve_lffd, mode)
                    expect(f"resolving by {mode}", texts, [()] if short else [])
                    if not short:
                        again, texts = heard(out.solve_lffd, mode)
                        if not texts:
                            raise Mismatch("resolving again is silent")
                        same("resolved stays", snapshot(again), snapshot(out))
                    out, texts = heard(cc.resolve_residuals)
                    expect("resolving", texts, [()] if len(cc.residuals_sequence) < 3 else [])
                    rec.step(3)
                    rec.trace(3)
                    rec.state((x, cc is a, mode))
                    rec.outcome("resolved")
        for tab in TABS:
            with rec.case("no residuals", tab):
                for mode in ("residuals", "min-max"):
                    cc = make(tab)
                    out, texts = heard(cc.solve_lffd, mode)
                    expect("resolving without residuals", texts, [()])
                    same("as it is", snapshot(out), snapshot(cc))

    def corrections(self, rec):
        sigs = [x for x in words((-2, 1, 5), 3, 5) if len(set(x)) > 1]
        kinds = [("dnvgl-rp-c203", "detail_factor", 0.8), ("DNVGL-RP-C203", "detail_factor", 0.6),
                 ("walker", "gamma", 0.5), ("Walker", "gamma", 0.3), ("swt", None, None),
                 ("smith-watson-topper", None, None)]  # fmt: skip
        preset = {"detail_factor": "0.8", "gamma": "0.5"}
        for j, x in enumerate(sigs):
            one = must(from_signal, x, 0, name="n")
            two = must(lambda: one + from_signal((0, 4, -1, 3, 1, 2), 1, name="n"))
            ready = must(one.solve_lffd)
            for cc, (kind, par, v), given in itertools.product((one, two, ready), kinds, (False, True)):
                with rec.case("correct", x, cc is one, cc is two, kind, given):
                    want = []
                    if not cc.lffd_solved and len(cc.residuals_sequence) < 3:
                        want.append(())  # too short to resolve
                    if len(cc.time_sequence) == 1:
                        want.append(())  # a single record
                    if par and not given:
                        want.append((preset[par],))
                    out, texts = heard(cc.mean_stress_correction, correction_type=kind,
                                       **({par: v} if par and given else {}))  # fmt: skip
                    expect("correction", texts, want)
                    again, texts = heard(out.mean_stress_correction, correction_type=kind)
                    expect("correcting again", texts, [(str(out.mean_stress_corrected),)])
                    same("corrected stays", snapshot(again), snapshot(out))
                    rec.state((x, cc is one, cc is two, kind, given))
                    rec.step(2)
                    rec.trace(2)
                    rec.outcome("corrected")

    def rules(self, rec):
        curve = SNCurve([3.0], [11.0], color="k")
        r, n = np.array([50.0, 80.0, 30.0]), np.array([10.0, 20.0, 0.5])
        cc = make([(a, 0.0, w) for a, w in zip(r, n)])
        pars = {
            "pavlou": dict(base_exponent=(-0.75, -0.5), ultimate_stress=(900, 1200.0)),
            "manson-halford": dict(base_exponent=(0.4, 0.25)),
            "leve": dict(base_exponent=(2, 3.0)),
            "si jian": {},
        }
        def spelled(k):
            return (k, k.upper(), k.title(), k.replace("-", " "), k.replace(" ", "-"))

        for rule, p in pars.items():
            if "manson" in rule:
                names = ("manson-halford", "Manson Halford", "MANSON HALFORD")
            else:
                names = spelled(rule)
            for name, given in itertools.product(
                names, itertools.product((0, 1, 2), repeat=len(p))
            ):
                with rec.case("rule", name, given):
                    kw = {k: vals[g - 1] for (k, vals), g in zip(p.items(), given) if g}
                    preset = dict(kw, **{k: vals[0] for (k, vals), g in zip(p.items(), given) if not g})
                    want = [(k, str(vals[0])) for (k, vals), g in zip(p.items(), given) if not g]
                    a, texts = heard(calc_nonlinear_damage, damage_rule=name, stress_range=r,
                                     count_cycle=n, sn_curve=curve, **kw)  # fmt: skip
                    expect("rule", texts, want)
                    b, texts = heard(get_nonlinear_damage, damage_rule=name, cycle_count=cc,
                                     sn_curve=curve, **kw)  # fmt: skip
                    expect("rule on a count", texts, want)
                    c, texts = heard(calc_nonlinear_damage, damage_rule=name, stress_range=r,
                                     count_cycle=n, sn_curve=curve, **preset)  # fmt: skip
                    expect("rule with everything given", texts, [])
                    for x, y, z in zip(np.atleast_1d(a), np.atleast_1d(b), np.atleast_1d(c)):
                        close("the preset is what the warning says", x, z)
                        close("and on the count", y, z)
                    rec.state((name, given))
                    rec.step(3)
                    rec.trace(3)
                    rec.outcome("rule")

    def levels(self, rec):
        for x in words((-1, 0, 2), 2, 5):
            for v in (-2.0, -1.0, -0.5, 0.0, 1.0, 2.0, 3.25):
                with rec.case("level", x, v):
                    out, texts = heard(findcross, np.array(x, float), v)
                    expect("crossings", texts, [] if len(out) else [(f"{v:g}",)])
                    rec.trace()
                    rec.step(len(x))
                    rec.outcome("level")
            rec.state(x)
        for m, a in (([3.0], [12.0]), ([3.0, 5.0], [12.0, 16.0])):
            curve = SNCurve(m, a, color="k")
            for v in (1.0, 30.0, 100.0, 1e4, [5.0, 50.0], np.array([1.0, 2.0, 900.0])):
                with rec.case("alias", m, str(v)):
                    for old, new in ((curve.n, curve.get_cycles), (curve.sigma, curve.get_stress)):
                        out, texts = heard(old, v, kind=FutureWarning)
                        same("announced removal", len(texts), 1)
                        exp, texts = heard(new, v, kind=FutureWarning)
                        same("no announcement", len(texts), 0)
                        close("same result", out, exp)
                        rec.step()
                        rec.trace()
                        rec.outcome("alias")


CHECK = Check()
