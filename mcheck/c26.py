"""C26: texts and summaries against the figures of the object they describe."""
from __future__ import annotations

import html
import itertools
import re

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from py_fatigue import SNCurve  # noqa: E402
from py_fatigue.damage import crack_growth as cg  # noqa: E402
from py_fatigue.geometry import HollowCylinder, InfiniteSurface  # noqa: E402
from py_fatigue.material.crack_growth_curve import ParisCurve  # noqa: E402

from mcheck.core import Mismatch, Rec, close, must, require, same  # noqa: E402
from mcheck.counts import from_signal, make, stamp, times  # noqa: E402
from mcheck.curves import growth, knee_cycles, knee_stress, paris, paris_from_knees, paris_knees, sn, sn_ordered, strength  # noqa: E402,E501

RANGES = (0.1, 2.0, 3.123456789, 80.0)
WEIGHTS = (0.5, 1.0, 2.5, 3.0, 70000.0)
ROWS = [(r, m, w) for r, w in itertools.product(RANGES, WEIGHTS) for m in (0.0, -4.0)]


def summary(cc) -> dict:
    """label -> value of the HTML summary."""
    text = must(cc._repr_html_)
    out = {}
    for tr in re.findall(r"<tr[^>]*>(.*?)</tr>", text, re.S):
        cells = [html.unescape(re.sub(r"<[^>]*>", "", c)).strip()
                 for c in re.findall(r"<t[hd][^>]*>(.*?)</t[hd]>", tr, re.S)]  # fmt: skip
        if len(cells) == 2:
            out[cells[0]] = cells[1]
    return out


def cell(s, *parts):
    hits = [v for k, v in s.items() if all(p in k for p in parts)]
    if len(hits) != 1:
        raise Mismatch(f"summary has {len(hits)} lines with {parts}: {list(s)}")
    return hits[0]


def number(what, text, exp, rel=1e-5):
    try:
        v = float(text)
    except ValueError:
        raise Mismatch(f"{what}: {text!r} instead of {exp}") from None
    if abs(v - exp) > rel * max(abs(exp), 1e-12):
        raise Mismatch(f"{what}: {text!r} instead of {exp}")


def svg_texts(curve) -> list:
    plt.rcParams["svg.fonttype"] = "none"
    before = plt.get_fignums()
    text = must(curve._repr_svg_)
    same("open figures", plt.get_fignums(), before)
    require("an SVG document", "<svg" in text and "</svg>" in text)
    return [html.unescape(t).strip() for t in re.findall(r"<text[^>]*>([^<]+)<", text) if t.strip()]


def points(texts, label):
    """(x, y) of every 'label: (x, y)' annotation."""
    return [tuple(map(float, m.groups())) for t in texts
            if (m := re.fullmatch(label + r": \(([^,]+), ([^)]+)\)", t))]  # fmt: skip


def near(what, got, exp, round2):
    """round2: which coordinate is rounded to two decimals; the other has three digits."""
    same(f"number of {what}", len(got), len(exp))
    for g, e in zip(got, exp):
        for k in (0, 1):
            tol = 0.00501 if k == round2 else 0.00501 * 10 ** np.floor(np.log10(abs(e[k]))) if e[k] else 0
            if not abs(g[k] - e[k]) <= tol * 1.001:
                raise Mismatch(f"{what}: {got} instead of {exp}")


class Check:
    ID = "C26"
    ASSUMPTIONS = ["numbers are shown with at least the digits shown today"]
    MIN_OUTCOMES = {"summary": 1000, "text": 500, "curve": 100, "drawn": 20, "geometry": 30,
                    "growth": 20}  # fmt: skip

    def bound(self, tier):
        return (
            f"summaries of every table of one or two of {len(ROWS)} rows and every third of three"
            " with every combination of unit, name, small cycles, factor and flags"
            " (rotating); texts of sums of 1 to 6 records; names of every combination of"
            " norm, category and environment switched between plain and HTML form in every"
            " sequence of 4 switches; drawn descriptions of 40 curves; crack geometries and"
            " propagation results"
        )

    def tasks(self, tier):
        for i in range(12):
            yield ("tables", i, 12, 8 if tier == "quick" else 3)
        yield ("texts",)
        yield ("names",)
        for k in range(6):
            yield ("drawn", k, 6)
        yield ("geometries",)
        yield ("growths",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def tables(self, rec, i, n, every):
        metas = list(itertools.product(
            ("MPa", "ksi"), ("A", "name <1> & co"), (0, 3, 10**6), (1.0, 1.5), (False, True),
            ("No", "SWT: {'gamma': 0.5}"), (0.2, 2.5),
        ))  # fmt: skip
        combos = itertools.chain(
            itertools.combinations(ROWS, 1),
            itertools.product(ROWS, repeat=2),
            itertools.islice(itertools.combinations_with_replacement(ROWS, 3), 0, None, every),
        )
        many = [tuple((1.0 + j * 37 % 101 / 4, j % 5, (0.5, 1.0, 2.5)[j % 3]) for j in range(q))
                for q in range(100, 1300, 50)]  # fmt: skip
        for k, tab in enumerate(itertools.islice(itertools.chain(combos, many), i, None, n)):
            if sum(t[2] for t in tab) > 1e5:
                continue
            unit, name, small, scf, solved, corr, lb = metas[(k * 7 + i) % len(metas)]
            with rec.case(tab[:8], len(tab), unit, name, small, scf, solved, corr, lb):
                cc = make(tab, 0, unit=unit, name=name, nr_small_cycles=small,
                          stress_concentration_factor=scf, lffd_solved=solved,
                          mean_stress_corrected=corr, range_bin_lower_bound=lb)  # fmt: skip
                s = summary(cc)
                full = [r for r, _, w in tab if w >= 1]
                shown = cell(s, "largest full stress range", unit)
                if full and max(full) > lb:
                    number("largest full range", shown, max(full))
                elif not full:
                    same("largest full range", shown in ("None", "NaN", ""), True)
                number("largest range", cell(s, "largest stress range", unit), max(r for r, _, _ in tab))
                number("full cycles", cell(s, "number of full cycles"), sum(int(w) for _, _, w in tab), 0)
                number("residuals", cell(s, "number of residuals"), sum(w % 1 == 0.5 for _, _, w in tab), 0)
                number("small cycles", cell(s, "number of small cycles"), small, 0)
                f = cell(s, "concentration factor")
                if scf == 1:
                    require("no factor", f in ("N/A", "1.0", "1"))
                else:
                    number("factor", f, scf)
                same("resolved", cell(s, "residuals resolved"), str(solved))
                same("correction", cell(s, "mean stress-corrected"), corr)
                require("name", any(name in (a, b) for a, b in s.items()))
                rec.state((tab, k % 3))
                rec.step(8)
                rec.trace()
                rec.outcome("summary")

    def texts(self, rec):
        fmt = "%d %b %Y, %H:%M"
        for n, k, name in itertools.product(range(1, 7), (0, 5, 10**5), ("A", "x y", "")):
            for gaps in itertools.product((0, 1, 150), repeat=min(n - 1, 3)):
                with rec.case("text", n, k, name, gaps):
                    at, ccs = k, []
                    for j in range(n):
                        ccs.append(from_signal([0, 3, -j - 1], at, name=name))
                        at += gaps[j % len(gaps)] if gaps else 0
                    total = must(lambda: sum(ccs))
                    for cc in (total, must(total.solve_lffd), must(lambda: total * 2)):
                        text = must(str, cc)
                        require(f"name in {text!r}", name in text)
                        for t in (times(cc)[0], times(cc)[-1]):
                            require(f"{t} in {text!r}", t.strftime(fmt) in text)
                        rec.trace()
                        rec.outcome("text")
                    rec.state((n, k, name, gaps))
                    rec.step(n)

    def names(self, rec):
        parts = (None, "", "DNVGL-RP-C203/2016", "B1 &", "Air, free corrosion")
        for cls, par in ((SNCurve, (3.0, 12.0)), (ParisCurve, (3.0, 1e-9))):
            for norm, cat, env in itertools.product(parts, repeat=3):
                with rec.case(cls.__name__, norm, cat, env):
                    c = must(cls, *par, norm=norm, curve=cat, environment=env, color="k")
                    plain = must(str, c)
                    same("name", plain, c.name)
                    lines = plain.splitlines()
                    same("lines", len(lines), 3)
                    for line, v in zip(lines, (norm, cat, env)):
                        require(f"{v!r} in {line!r}", line.rstrip(",").endswith(v or ""))
                        require(f"None in {line!r}", "None" not in line)
                    rec.state((cls.__name__, norm, cat, env))
                    for seq in itertools.product((False, True), repeat=4):
                        for flag in seq:
                            must(c.format_name, html_format=flag)
                            if flag:
                                same("lines", c.name.count("<br>"), 2)
                                require("no line break", "\n" not in c.name)
                                for v in (norm, cat, env):
                                    require("part kept", (v or "") in c.name)
                            else:
                                same("plain name", c.name, plain)
                            rec.step()
                        must(c.format_name)
                        same("plain by default", c.name, plain)
                        rec.trace()
                    rec.outcome("curve")

    def drawn(self, rec, k, n):
        cases = []
        for knees, slopes in (
            ((), (3.0,)), ((50.0,), (3.0, 5.0)), ((321.0, 4.5), (2.0, 4.0, 7.0)),
            ((300.0, 100.0, 20.0), (2.0, 3.0, 5.0, 9.0)),
        ):  # fmt: skip
            for a0, end, unit in ((11.0, np.inf, "MPa"), (12.3, 1e13, "ksi"), (12.0, 4.5e16, "MPa")):
                m, a = sn_ordered(knees, slopes, a0)
                if not knees or end > max(knee_cycles(m, a)):
                    cases.append(("sn", m, a, end, unit))
        for knees, slopes in (((), (3.0,)), ((100.0,), (2.0, 4.0)), ((30.0, 400.0), (5.0, 2.5, 8.0)),
                              ((25.0, 90.0, 600.0), (7.0, 3.0, 2.0, 5.0))):  # fmt: skip
            for lo, hi, unit in ((0.0, np.inf, "MPa √mm"), (20.0, 900.0, "MPa √m"), (20.5, np.inf, "ksi √in"),
                                 (0.0, 777.25, "MPa √mm")):  # fmt: skip
                m, c = paris_from_knees(knees, slopes, 1e-9)
                cases.append(("paris", m, c, lo, hi, unit))
        for c in cases[k::n]:
            with rec.case("drawn", *c):
                if c[0] == "sn":
                    _, m, a, end, unit = c
                    t = svg_texts(must(sn, list(m), list(a), end, unit_string=unit))
                    exp = list(zip(knee_cycles(m, a), knee_stress(m, a)))
                    got = [points(t, f"Knee {j + 1}") for j in range(len(exp))]
                    near("knees", [q for g in got for q in g], exp, 1)
                    e = [] if end == np.inf else [(end, float(strength(end, m, a)))]
                    near("endurance", points(t, "Endurance"), e, 1)
                else:
                    _, m, a, lo, hi, unit = c
                    t = svg_texts(must(paris, list(m), list(a), lo, hi, unit_string=unit))
                    ks = paris_knees(m, a)
                    exp = [(q, a[j] * q ** m[j]) for j, q in enumerate(ks)]
                    got = [points(t, f"Knee {j + 1}") for j in range(len(exp))]
                    near("knees", [q for g in got for q in g], exp, 0)
                    g = lambda v: float(growth(v, m, a))  # noqa: E731
                    near("threshold", points(t, "Threshold"), [(lo, g(lo))] if lo else [], 0)
                    near("critical", points(t, "Critical"), [(hi, g(hi))] if hi < np.inf else [], 0)
                    for label, v in (("Threshold", lo), ("Critical", hi)):
                        line = [q for q in t if q.startswith(f"{label}: ") and "(" not in q]
                        same(f"{label} lines", len(line), 1)
                        number(label, line[0].split()[1].strip(","), v, 0.006 / max(v, 1)) if v < np.inf else None
                        require(f"unit in {line[0]!r}", line[0].rstrip(",").endswith(unit))
                    a = [float(f"{v:.7e}") for v in a]
                num = r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?"
                for label, v in (("Slope", m), ("Intercept", a)):
                    line = " ".join(t)
                    got = re.findall(num, line[line.index(label + ":") :].split("]")[0].split(":")[1])
                    close(label, [float(q) for q in got], list(v), rtol=1e-6)
                require("unit on an axis", any(unit in q for q in t))
                for v in ("Norm: N", "Curve: C", "Environment: Air"):
                    require(v, any(q.startswith(v) for q in t))
                rec.state(c)
                rec.step(len(t))
                rec.trace()
                rec.outcome("drawn")
                rec.outcome("curve")

    def geometries(self, rec):
        for a, d, t, h, w in itertools.product((0.5, 2.25), (100.0, 7001.5), (10.0, 33.125), (1.0, 50.0), (2.0, 4.75)):
            with rec.case("tube", a, d, t, h, w):
                g = must(HollowCylinder, initial_depth=a, outer_diameter=d, thickness=t, height=h,
                         width_to_depth_ratio=w, crack_position="external")  # fmt: skip
                self._fields(g, dict(initial_depth=a, outer_diameter=d, thickness=t, height=h,
                                     width_to_depth_ratio=w, crack_position="external"))  # fmt: skip
                rec.state((a, d, t, h, w))
                rec.step()
                rec.trace(2)
                rec.outcome("geometry")
        for a in (0.125, 1.0, 3.75, 1e6):
            with rec.case("surface", a):
                self._fields(must(InfiniteSurface, initial_depth=a), dict(initial_depth=a))
                rec.trace(2)
                rec.outcome("geometry")

    @staticmethod
    def _fields(g, exp):
        for text in (must(str, g), must(repr, g)):
            require("class name", text.startswith(type(g).__name__))
            got = dict(re.findall(r"(\w+)=([^,\n]*)", text))
            for k, v in exp.items():
                require(f"{k} in {text!r}", k in got)
                same(k, got[k] if isinstance(v, str) else float(got[k]), v)

    def growths(self, rec):
        curve = must(paris, 3.0, 1e-9, 20.0, 900.0, unit_string="MPa √mm")
        for s, n, a in itertools.product((1.0, 50.0, 200.0, 400.0, 900.0), (1.0, 40.0, 3000.0), (1.0, 5.0)):
            with rec.case("growth", s, n, a):
                r = must(cg.get_crack_growth, make([(s, 0.0, n)]), curve,
                         must(InfiniteSurface, initial_depth=a))  # fmt: skip
                text = must(str, r).lower()
                same(f"failure in {text!r}", "no failure" not in text, bool(r.failure))
                rec.state((s, n, a, bool(r.failure)))
                rec.step()
                rec.trace()
                rec.outcome("growth")


CHECK = Check()
