"""C24: what plots draw, read back from the artists, against the depicted data."""
from __future__ import annotations

import itertools
import math

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from py_fatigue.cycle_count.utils import plot_aggregated_residuals  # noqa: E402
from py_fatigue.mean_stress import corrections as msc  # noqa: E402

from mcheck.c18 import convex, geometry  # noqa: E402
from mcheck.c23 import pieces, reference, same_markers  # noqa: E402
from mcheck.core import Rec, arr, chunks, close, must, rejects, require, same  # noqa: E402
from mcheck.counts import from_signal, make  # noqa: E402
from mcheck.curves import growth, knee_cycles, life, ordered, paris  # noqa: E402
from mcheck.curves import paris_from_knees, sn, sn_ordered, sn_params, strength  # noqa: E402
from mcheck.model import astm, words  # noqa: E402

CYCLES = [(1.0, 0.0), (2.0, -3.0), (2.0, 1.0), (4.0, 1.0)]
WEIGHTS = (0.5, 1.0, 2.0, 2.5)


def xy(line):
    return arr(line.get_xdata()), arr(line.get_ydata())


def contains(what, xs, points):
    for p in points:
        require(f"{what}: {p} is not drawn", np.any(np.abs(xs - p) <= 1e-9 * abs(p)))


def sn_families():
    for s in (3.0, 5.0):
        for a in (11.5, 13.617):
            yield (s,), (a,)
    for m, a in sn_params(2):
        if ordered(m, a) and all(1e3 < n < 1e11 for n in knee_cycles(m, a)):
            yield m, a
    yield sn_ordered((200.0, 50.0), (3.0, 4.5, 7.0), 12.0)
    yield sn_ordered((100.0, 80.0), (1.0, 3.0, 5.0), 10.0)


def paris_families():
    for m, c in (((3.0,), (1e-12,)), ((2.0,), (1e-8,))):
        yield m, c
    for ks in ((20.0,), (300.0,), (0.5,)):
        for sl in ((2.0, 3.0), (5.0, 3.0), (8.0, 2.5)):
            yield paris_from_knees(ks, sl, 1e-10)
    yield paris_from_knees((20.0, 300.0), (2.0, 4.0, 3.0), 1e-10)


class Check:
    ID = "C24"
    ASSUMPTIONS = [
        "plots are read back from the matplotlib and plotly objects, not from pixels",
        "markers of equal density may be drawn in either order",
        "crack fronts closer than 5 % of the depth to a straight line are left out",
    ]
    MIN_OUTCOMES = {"sn": 50, "paris": 30, "cycles": 500, "residuals": 100, "crack": 100,
                    "settings": 500, "correction": 500}  # fmt: skip

    def n(self, tier):
        return (2, 5) if tier == "quick" else (3, 7)

    def bound(self, tier):
        a, b = self.n(tier)
        return (
            "every ordered two-segment S-N curve of 6 slopes x 5 intercepts plus one- and"
            " three-segment ones with and without endurance, 12 Paris curves with and"
            " without threshold and critical value, in matplotlib and plotly, with"
            f" datasets; every table of up to {a} cycles out of 4 cycles x 4 weights in every"
            f" plot type, three tables with every combination of mode, bins, span, norm, weights"
            f" and transformation; corrections of up to three cycles; residuals of every signal over 3 levels up to length {b}; crack"
            " fronts of 4 diameters x 4 walls x 8 ratios x 4 depths; every way of handing"
            " over figure and axes"
        )

    def tasks(self, tier):
        a, b = self.n(tier)
        for k in range(8):
            yield ("curves", k)
            yield ("tables", a, k)
            yield ("residuals", b, k)
        for k in range(4):
            yield ("growth", k)
            yield ("cracks", k)
        yield ("axes",)
        for k in range(4):
            yield ("damage", k)
        yield ("aggregated",)
        for k in range(4):
            yield ("settings", k, 4)
        yield ("corrections",)

    def run(self, rec: Rec, kind, *a):
        try:
            getattr(self, kind)(rec, *a)
        finally:
            plt.close("all")

    # -- curves
    def curves(self, rec, k):
        fig, ax = plt.subplots()
        fam = [(m, a, e) for m, a in sn_families() for e in (np.inf, 1e7, 3e8, 2e10)]
        for m, a, e in chunks(fam, 8)[k]:
            kn = knee_cycles(m, a) if len(m) > 1 else []
            if kn and max(kn) > e:
                continue
            with rec.case("S-N", m, a, e):
                curve = must(sn, list(m), list(a), e, unit_string="ksi", color="#123456")
                ax.clear()
                must(curve.plot, fig=fig, ax=ax)
                same("lines", len(ax.lines), 1)
                line = ax.lines[0]
                self._sn_line(*xy(line), m, a, e, kn)
                same("label", line.get_label(), curve.name)
                same("colour", line.get_color(), "#123456")
                require("unit on the axis", "ksi" in ax.get_ylabel())
                same("scales", (ax.get_xscale(), ax.get_yscale()), ("log", "log"))
                data, layout = must(curve.plotly)
                same("plotly traces", len(data), 1)
                self._sn_line(arr(data[0].x), arr(data[0].y), m, a, e, kn)
                same("plotly name", data[0].name, curve.name)
                require("plotly unit", "ksi" in layout.yaxis.title.text)
                for n, s in (([1e5], [100.0]), ([1e5, 1e6, 1e7], [90.0, 80.0, 7.5]), (1e6, 50.0)):
                    ax.clear()
                    must(curve.plot, n, s, "mine", "#abcdef", fig, ax)
                    same("lines", len(ax.lines), 2)
                    x, y = xy(ax.lines[1])
                    close("dataset cycles", x, np.atleast_1d(n))
                    close("dataset stresses", y, np.atleast_1d(s))
                    same("dataset label", ax.lines[1].get_label(), "mine")
                    data, _ = must(curve.plotly, n, s, "mine")
                    same("plotly traces", len(data), 2)
                    close("plotly dataset", [data[1].x, data[1].y], [np.atleast_1d(n), np.atleast_1d(s)])
                    same("plotly dataset name", data[1].name, "mine")
                rejects("dataset lengths", curve.plot, [1e5], [1.0, 2.0], kinds=ValueError)
                rejects("dataset lengths", curve.plotly, [1e5, 1e6], [1.0], kinds=ValueError)
                if plt.gcf() is not fig:
                    plt.close(plt.gcf())
                rec.state((m, a, e))
                rec.step(5)
                rec.trace(5)
                rec.outcome("sn")

    @staticmethod
    def _sn_line(x, y, m, a, e, knees):
        require("drawn from left to right", bool(np.all(np.diff(x) >= 0)))
        close("points on the curve", y, strength(x, m, a, e))
        require("drawn from 1e4 to 1e9 cycles", x[0] <= 1e4 and x[-1] >= 1e9 * (1 - 1e-9))
        contains("knee", x, knees)
        if e < np.inf:
            contains("endurance", x, [e])
            require("drawn beyond the endurance", x[-1] > e)

    def growth(self, rec, k):
        fig, ax = plt.subplots()
        fam = []
        for m, c in paris_families():
            for lim in ((0.0, np.inf), (2.0, np.inf), (0.0, 900.0), (0.25, 2000.0), (3.0, 1e4)):
                fam.append((m, c, *lim))
        for m, c, lo, hi in chunks(fam, 4)[k]:
            kn = [(c[j] / c[j + 1]) ** (1 / (m[j + 1] - m[j])) for j in range(len(m) - 1)]
            if any(not lo < q < hi for q in kn):
                continue
            with rec.case("Paris", m, c, lo, hi):
                curve = must(paris, list(m), list(c), lo, hi, unit_string="ksi √in", color="#123456")
                ax.clear()
                must(curve.plot, fig=fig, ax=ax)
                same("lines", len(ax.lines), 1)
                x, y = xy(ax.lines[0])
                require("drawn from left to right", bool(np.all(np.diff(x) >= -1e-9 * x[1:])))
                require("within the limits", x[0] >= lo * (1 - 1e-9) and x[-1] <= hi)
                inner = (x > lo * (1 + 1e-9)) & (x < hi * (1 - 1e-9))
                require("points between the limits", inner.sum() > 10)
                close("points on the curve", y[inner], growth(x[inner], m, c))
                if len(kn):
                    contains("knee", x, kn)
                if lo > 0:
                    contains("threshold", x, [lo])
                    require("drops at the threshold", y[0] < y[inner][0])
                if hi < np.inf:
                    contains("critical value", x, [hi])
                    require("rises at the critical value", y[-1] > y[inner][-1])
                same("label", ax.lines[0].get_label(), curve.name)
                require("unit on the axis", "ksi √in" in ax.get_xlabel())
                require("unit on the axis", "in/cycle" in ax.get_ylabel())
                ax.clear()
                must(curve.plot, [5.0, 6.0], [1e-9, 1e-8], "mine", fig=fig, ax=ax)
                same("lines", len(ax.lines), 2)
                close("dataset", xy(ax.lines[1]), [[5.0, 6.0], [1e-9, 1e-8]])
                rejects("dataset lengths", curve.plot, [1.0], [1.0, 2.0], fig=fig, ax=ax)
                rec.state((m, c, lo, hi))
                rec.step(2)
                rec.trace(2)
                rec.outcome("paris")

    # -- counts
    def tables(self, rec, n, k):
        items = [(r, m, w) for (r, m), w in itertools.product(CYCLES, WEIGHTS)]
        tabs = [t for q in range(1, n + 1) for t in itertools.product(items, repeat=q)]
        fig = plt.figure()
        tabs += [tuple((1.0 + j * 37 % 101 / 4, j * 53 % 89 / 4 - 6, WEIGHTS[j % len(WEIGHTS)])
                       for j in range(q)) for q in (130, 3000)]  # fmt: skip
        for tab in chunks(tabs, 8)[k]:
            cc = must(make, tab, unit="ksi")
            pts = []
            for r, m, w in tab:
                pts += [(m, r)] * int(w)
            for r, m, w in tab:
                if w % 1:
                    pts.append((m, r))
            for kind in ("min-max", "mean-range", "counts-range", "counts-range-cumsum"):
                with rec.case("histogram", tab[:8], len(tab), kind):
                    fig.clear()
                    ax = fig.add_subplot()
                    out = must(cc.plot_histogram, plot_type=kind, bins=4, fig=fig, ax=ax)
                    require("figure and axes returned", out[0] is fig and out[1] is ax)
                    same("scatters", len(ax.collections), 1)
                    at, c = pieces(ax.collections[0])
                    if kind in ("min-max", "mean-range"):
                        p = pts
                        if kind == "min-max":
                            p = [(m - r / 2, m + r / 2) for m, r in pts]
                        h, _, _, where = reference(p, 4, None, 0, None)
                        exp = [(*q, h[i]) for q, i in zip(p, where)]
                        names = ("Min", "Max") if kind == "min-max" else ("Mean", "Range")
                        require(f"axes {kind}", names[0] in ax.get_xlabel() and names[1] in ax.get_ylabel())
                        require("unit", "ksi" in ax.get_xlabel() and "ksi" in ax.get_ylabel())
                    else:
                        big = sorted(((r, w) for r, _, w in tab), reverse=True)
                        cum = np.cumsum([w for _, w in big])
                        exp = [
                            (cum[i] if "cumsum" in kind else w, r, w)
                            for i, (r, w) in enumerate(big)
                        ]
                        require("unit", "ksi" in ax.get_ylabel())
                    same_markers(kind, at, c, exp)
                    require("labelled colour bar",
                            any("cycles" in x.get_ylabel() for x in fig.axes if x is not ax))  # fmt: skip
                    rec.state((tab, kind))
                    rec.step(len(tab))
                    rec.trace()
                    rec.outcome("cycles")
        cc = make([(2, 0, 1), (1, 1, 0.5)])
        for kind in ("", "range-mean", "minmax", None):
            with rec.case("unknown type", kind):
                rejects("unknown plot type", cc.plot_histogram, plot_type=kind)

    def residuals(self, rec, n, k):
        fig, ax = plt.subplots()
        sigs = [x for x in words((-1, 0, 2), 2, n) if len(set(x)) > 1]
        sigs += [tuple((-1) ** j * (1 + j * 29 % 83) for j in range(q)) for q in (64, 1200)]
        sigs += [tuple((-1) ** j * (700 - abs(j - q)) for j in range(1200)) for q in (0, 600, 1200)]
        for x in chunks(sigs, 8)[k]:
            with rec.case("residuals", x[:8], len(x)):
                cc = must(from_signal, x)
                res = astm(list(x))[1]
                for fn in (cc.plot_residuals_sequence, cc.plot_half_cycles_sequence):
                    ax.clear()
                    out = must(fn, fig=fig, ax=ax)
                    require("figure and axes returned", out[0] is fig and out[1] is ax)
                    same("lines", len(ax.lines), 2)
                    close("residuals", xy(ax.lines[0]), [range(len(res)), res])
                    px, py = xy(ax.lines[1])
                    close("their own residuals", py, astm(res)[1])
                    close("at their positions", py, [res[int(i)] for i in px])
                rec.state(x)
                rec.step(len(res))
                rec.trace(2)
                rec.outcome("residuals")

    def settings(self, rec, k, n):
        tabs = [
            [(1.0, 0.0, 2.0), (2.0, -3.0, 1.0), (4.0, 1.0, 0.5)],
            [(2.0, 1.0, 1.0), (2.0, 1.0, 1.0), (1.0, 0.0, 2.5), (3.0, -3.0, 0.5)],
            [(1.0, 0.0, 3.0), (2.0, 1.0, 2.0), (4.0, 1.0, 1.0), (4.0, -3.0, 0.5), (1.0, -3.0, 0.5)],
        ]
        bins = (2, 8, [1, 4], [[-8.0, -2.0, 0.5, 8.0], [-8.0, 0.0, 2.0, 8.0]], None)
        spans = (None, [[-4.0, 4.0], [-4.0, 4.0]], [[-0.5, 1.5], [0.0, 8.0]])
        fig = plt.figure()
        combos = itertools.product(
            tabs, ("min-max", "mean-range"), ("mountain", "valley", None), bins, spans,
            (False, True), (False, True), (None, np.negative),
        )  # fmt: skip
        for tab, kind, mode, b, s, normed, weighted, f in itertools.islice(combos, k, None, n):
            if b is None and kind != "min-max" or s and isinstance(b, list) and isinstance(b[0], list):
                continue
            with rec.case("settings", tab, kind, str(mode), b, s, normed, weighted, f is None):
                cc = must(make, tab)
                pts = [(m, r) for r, m, w in tab for _ in range(int(w))]
                pts += [(m, r) for r, m, w in tab if w % 1]
                if kind == "min-max":
                    pts = [(m - r / 2, m + r / 2) for m, r in pts]
                wt = [(0.5, 3.0, 2.0)[i % 3] for i in range(len(pts))] if weighted else None
                fig.clear()
                ax = fig.add_subplot()
                must(cc.plot_histogram, plot_type=kind, mode=mode, bins=b, bin_range=s, normed=normed,
                     weights=None if wt is None else np.array(wt), dens_func=f, fig=fig, ax=ax)  # fmt: skip
                if b is None and s is None:
                    b = [list(np.histogram_bin_edges([p[i] for p in pts], 50)) for i in (0, 1)]
                h, _, _, where = reference(pts, 50 if b is None else b, s, normed, wt)
                exp = [(*p, (h[q] if q else np.nan) * (-1 if f else 1)) for p, q in zip(pts, where)]
                at, c = pieces(ax.collections[0])
                same_markers(kind, at, c, exp)
                seen = [v for v in c.tolist() if v == v]
                if mode is None:
                    close("order of cycles", at, [p[:2] for p in exp])
                else:
                    same("drawing order", seen, sorted(seen, reverse=mode == "valley"))
                rec.state((str(tab), kind, str(mode), str(b), str(s), normed, weighted))
                rec.step(len(pts))
                rec.trace()
                rec.outcome("settings")

    def corrections(self, rec):
        pairs = [(0.0, 1.0), (1.0, 2.0), (-0.5, 2.0), (3.0, 2.0), (0.5, 4.0), (10.0, 1.0)]
        for n in (1, 2, 3):
            for some in itertools.permutations(pairs, n):
                m, a = np.array([p[0] for p in some]), np.array([p[1] for p in some])
                lo, hi = m - a, m + a
                for kind, par in (("dnvgl", 0.8), ("dnvgl", 0.6), ("walker", 0.25), ("walker", 0.7), ("swt", 0.5)):
                    with rec.case("correction", some, kind, par):
                        plt.close("all")
                        if kind == "dnvgl":
                            out = must(msc.dnvgl_mean_stress_correction, m, a, par, plot=True)
                            quiet = must(msc.dnvgl_mean_stress_correction, m, a, par)
                            exp = sorted(zip(lo / hi, np.asarray(out) / (2 * a)))
                        else:
                            fn, args = msc.swt_mean_stress_correction, ()
                            if kind == "walker":
                                fn, args = msc.walker_mean_stress_correction, (par,)
                            out = must(fn, m, a, *args, plot=True)
                            quiet = must(fn, m, a, *args)
                            exp = sorted(zip(2 * a, np.asarray(out)))
                        close("plotting changes nothing", out, quiet)
                        same("one figure", len(plt.get_fignums()), 1)
                        lines = [ln for ax in plt.gcf().axes for ln in ax.lines]
                        same("lines", len(lines), 1)
                        close("drawn correction", np.column_stack(xy(lines[0])), exp)
                        rec.state((some, kind, par))
                        rec.step(n)
                        rec.trace(2)
                        rec.outcome("correction")
        plt.close("all")

    # -- damage
    def damage(self, rec, k):
        fig = plt.figure()
        items = [(r, 0.0, w) for r in (1.0, 20.0, 50.0) for w in WEIGHTS]
        tabs = list(itertools.product(items, repeat=2))
        tabs += [tuple(items[j * j % len(items)] for j in range(n)) for n in (21, 100, 1200)]
        for q, tab in enumerate(chunks(tabs, 4)[k]):
            for f in (None, np.sqrt):
                with rec.case("damage", tab, f is None):
                    unit = ("MPa", "ksi", "psi")[q % 3]
                    curve = sn([3.0], [9.0], unit_string=unit)
                    df = must(lambda: make(tab, unit=unit).to_df().miner.damage(curve))
                    fig.clear()
                    ax = fig.add_subplot()
                    out = must(df.miner.plot_histogram, fig=fig, ax=ax, dens_func=f)
                    require("figure and axes returned", out[0] is fig and out[1] is ax)
                    at, c = pieces(ax.collections[0])
                    d = [w / float(life(r, [3.0], [9.0])) for r, _, w in tab]
                    exp = [(w, r, math.sqrt(q) if f else q) for (r, _, w), q in zip(tab, d)]
                    same_markers("damage", at, c, exp)
                    require("unit", unit in ax.get_ylabel())
                    rec.state((tab, f is None))
                    rec.step(2)
                    rec.trace()
                    rec.outcome("damage")

    def aggregated(self, rec):
        show, plt.show = plt.show, lambda *a, **k: None
        try:
            for n in range(1, 4):
                for lens in itertools.product((2, 3, 5), repeat=n):
                    dct, at = {}, 0
                    for i, m in enumerate(lens):
                        dct[f"p{i}"] = {
                            "A": {"idx": list(range(at, at + m)), "res": [((-1) ** j) * (j + i) for j in range(m)]},
                            "B": {"idx": [0, 1], "res": [9, -9]},
                        }
                        at += m
                    for minor in (True, False):
                        with rec.case("aggregated", lens, minor):
                            fig, ax = must(plot_aggregated_residuals, dct, "A", minor)
                            same("one line per period", len(ax.lines), n)
                            for (name, d), line in zip(dct.items(), ax.lines):
                                same("label", line.get_label(), name)
                                close(name, xy(line), [d["A"]["idx"], d["A"]["res"]])
                            plt.close(fig)
                            rec.state((lens, minor))
                            rec.step(n)
                            rec.trace()
        finally:
            plt.show = show

    # -- geometry
    def cracks(self, rec, k):
        fig, ax = plt.subplots()
        for d, wall, ratio, dep in itertools.product(
            [(10.0, 64.0, 100.0, 6000.0)[k]], (0.05, 0.2, 0.5, 0.9),
            (0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 4.0), (0.05, 0.25, 0.5, 0.9),
        ):  # fmt: skip
            t = wall * d / 2
            a = dep * t
            if not convex(a, d, ratio):
                continue
            with rec.case("crack", d, t, ratio, a):
                geo = must(geometry, a, d, t, ratio)
                ax.clear()
                out = must(geo.plot, fig=fig, ax=ax)
                require("figure and axes returned", out[0] is fig and out[1] is ax)
                ro, al = d / 2, ratio * a / (d / 2)
                tip = (-ro * math.cos(al), ro * math.sin(al))
                ah = a - ro * (1 - math.cos(al))
                r = (tip[1] ** 2 + ah**2) / (2 * ah)
                rest = []
                for line in ax.lines:
                    x, y = xy(line)
                    q = np.hypot(x, y)
                    if np.ptp(q) > 1e-9 * ro:
                        rest.append((x, y))
                        continue
                    turn = np.ptp(np.unwrap(np.arctan2(y, x)))
                    close("whole circle", turn, 2 * math.pi)
                    rec.outcome("outer" if abs(q[0] - ro) < 1e-9 * ro else "inner")
                    require("outline radius", min(abs(q[0] - ro), abs(q[0] - ro + t)) < 1e-9 * ro)
                same("lines", (len(ax.lines), len(rest)), (3, 1))
                x, y = rest[0]
                on_surface = np.abs(np.hypot(x, y) - ro) < 1e-6 * ro
                front = np.abs(np.hypot(x - (a - ro - r), y) - abs(r)) < 1e-6 * abs(r)
                require("front and mouth", bool(np.all(on_surface | front)))
                require("inside the section", bool(np.all(np.hypot(x, y) < ro * (1 + 1e-9))))
                ends = np.hypot(x - tip[0], np.abs(y) - tip[1]) < 1e-6 * a
                require("reaches both tips", bool(np.any(ends & (y > 0)) and np.any(ends & (y < 0))))
                require("reaches the depth", abs(ro - np.hypot(x, y).min() - a) < 1e-2 * a)
                jump = np.hypot(np.diff(x), np.diff(y)).max()
                require("drawn in one stroke", jump < 0.1 * (2 * math.pi * abs(r) + 2 * ro * al))
                rec.state((d, t, ratio, a))
                rec.step()
                rec.trace()
                rec.outcome("crack")
        with rec.case("internal", k):
            geo = must(geometry, 1.0, 100.0, 10.0, 2.0, pos="internal")
            rejects("internal crack", geo.plot, kinds=NotImplementedError)

    # -- figures and axes
    def axes(self, rec):
        cc = make([(2, 0, 1), (1, 1, 0.5), (4, -2, 2)], 0, [0, 2, -1, 3])
        curve = sn([3.0], [9.0])
        df = make([(2, 0, 1), (1, 1, 0.5)]).to_df().miner.damage(curve)
        fns = {
            "histogram": cc.plot_histogram,
            "counts": lambda **kw: cc.plot_histogram(plot_type="counts-range", **kw),
            "residuals": cc.plot_residuals_sequence,
            "half cycles": cc.plot_half_cycles_sequence,
            "sn": curve.plot,
            "paris": paris([3.0], [1e-12]).plot,
            "crack": geometry(1.0, 100.0, 10.0).plot,
            "damage": df.miner.plot_histogram,
        }
        for name, fn in fns.items():
            for give in ("nothing", "figure", "axes", "both", "second"):
                with rec.case("axes", name, give):
                    plt.close("all")
                    fig, axs = plt.subplots(1, 2)
                    before = [len(a.lines) + len(a.collections) for a in axs]
                    want = axs[1] if give != "second" else axs[0]
                    kw = {
                        "nothing": {},
                        "figure": {"fig": fig},
                        "axes": {"ax": want},
                        "both": {"fig": fig, "ax": want},
                        "second": {"fig": fig, "ax": want},
                    }[give]
                    f, a = must(fn, **kw)[:2]
                    drawn = [len(q.lines) + len(q.collections) for q in axs]
                    if give == "nothing":
                        require("a new figure", f is not fig and a in f.axes)
                        same("nothing drawn elsewhere", drawn, before)
                    else:
                        require("the given figure", f is fig)
                        require("axes of the figure", a in (axs[0], axs[1]))
                        if give != "figure":
                            require("the given axes", a is want)
                            other = 0 if want is axs[1] else 1
                            same("nothing drawn elsewhere", drawn[other], before[other])
                    require("something drawn", len(a.lines) + len(a.collections) > 0)
                    plt.close("all")
                    rec.state((name, give))
                    rec.step()
                    rec.trace()
            with rec.case("figure type", name):
                rejects("not a figure", fn, fig="figure", kinds=TypeError)


CHECK = Check()
