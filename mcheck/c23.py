"""C23: two-dimensional density histograms against cell-by-cell counting."""
from __future__ import annotations

import itertools

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from py_fatigue.cycle_count import histogram as ht  # noqa: E402

from mcheck.core import Mismatch, Rec, arr, chunks, close, must, rejects, require, same  # noqa: E402

XS = (0.0, 1.0, 2.0)
YS = (-4.0, 0.0, 1.0)
GRID = list(itertools.product(XS, YS))
BINS = [
    2,
    4,
    [1, 2],
    [[0.0, 0.5, 2.0], [-4.0, 0.0, 1.0]],
    [2, [-4.0, -1.0, 1.0, 2.0]],
    [[-1.0, 1.0, 3.0, 8.0], 1],
]
SPANS = [None, [[0.0, 1.0], [-4.0, 0.0]], [[0.5, 2.5], [-8.0, 8.0]]]
WEIGHTS = (0.5, 3.0, 2.0, 1.0)


def edges_of(spec, values, span):
    if not isinstance(spec, int):
        return list(spec)
    lo, hi = (min(values), max(values)) if span is None else span
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    return [lo + (hi - lo) * k / spec for k in range(spec + 1)]


def cell(v, edges):
    """Cells are closed below and open above, the last one closed."""
    if v < edges[0] or v > edges[-1]:
        return None
    if v == edges[-1]:
        return len(edges) - 2
    return max(k for k in range(len(edges) - 1) if edges[k] <= v)


def reference(pts, bins, span, normed, weights):
    bx, by = (bins, bins) if isinstance(bins, int) else bins
    sx, sy = span if span is not None else (None, None)
    ex = edges_of(bx, [p[0] for p in pts], sx)
    ey = edges_of(by, [p[1] for p in pts], sy)
    h = np.zeros((len(ex) - 1, len(ey) - 1))
    where = []
    for k, (x, y) in enumerate(pts):
        i, j = cell(x, ex), cell(y, ey)
        where.append(None if i is None or j is None else (i, j))
        if where[-1]:
            h[i, j] += 1.0 if weights is None else weights[k]
    if normed:
        area = np.diff(ex)[:, None] * np.diff(ey)[None, :]
        h = h / area / h.sum() if h.sum() else h * np.nan
    return h, ex, ey, where


def options():
    for b, s, n, w in itertools.product(range(len(BINS)), range(len(SPANS)), (0, 1), (0, 1)):
        if s and not any(isinstance(q, int) for q in np.atleast_1d(np.array(BINS[b], dtype=object))):
            continue  # the span only matters where a number of bins is given
        yield b, s, n, w


OPTS = list(options())


def pieces(im):
    xy = np.ma.getdata(im.get_offsets())
    c = np.ma.getdata(im.get_array())
    require("one colour per marker", len(xy) == len(c))
    return arr(xy), arr(c)


def key(t):
    return tuple((1, 0.0) if v != v else (0, round(float(v), 9)) for v in t)


def same_markers(what, xy, c, exp):
    got = sorted((tuple([*p, q]) for p, q in zip(xy.tolist(), c.tolist())), key=key)
    exp = sorted(exp, key=key)
    if len(got) != len(exp):
        raise Mismatch(f"{what}: {len(got)} markers instead of {len(exp)}")
    close(what, got, exp)


class Check:
    ID = "C23"
    ASSUMPTIONS = [
        "bin numbers and spans are chosen so that bin edges are exact",
        "markers of equal density may be drawn in either order",
    ]
    MIN_OUTCOMES = {"inside": 1000, "outside": 1000, "on edge": 100, "drawn": 500}

    def n(self, tier):
        return (3, 2) if tier == "quick" else (4, 3)

    def bound(self, tier):
        a, b = self.n(tier)
        return (
            f"every sequence of up to {a} points of a 3x3 grid with {len(OPTS)} combinations"
            " of bin specification, span, weights and normalisation; every point of a 13x13"
            " lattice mapped through 4 edge sets with a distinct value per cell; every"
            f" sequence of up to {b} points (and repeated clusters) drawn in every mode;"
            " clouds of up to 4840 points on and next to edges of up to 42000 cells at"
            " magnitudes 2^-40 to 2^60 with fractional and negative weights"
        )

    def tasks(self, tier):
        a, b = self.n(tier)
        for o in range(len(OPTS)):
            for k in range(1 if tier == "quick" else 6):
                yield ("counts", a, o, 1 if tier == "quick" else 6, k)
        for k in range(4):
            yield ("mapped", k)
        for k in range(8):
            yield ("drawn", b, k)
        for e in (-40, -9, 0, 10, 60):
            yield ("wide", e)
        yield ("refused",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def counts(self, rec, n, o, parts, k):
        b, s, normed, weighted = OPTS[o]
        bins, span = BINS[b], SPANS[s]
        seqs = [p for m in range(1, n + 1) for p in itertools.product(GRID, repeat=m)]
        for pts in chunks(seqs, parts)[k]:
            w = list(WEIGHTS[: len(pts)]) if weighted else None
            x, y = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
            with rec.case(pts, bins, span, normed, w):
                h, ex, ey, where = reference(pts, bins, span, normed, w)
                got, edges = must(
                    ht.make_histogram, x, y, bins=bins, bin_range=span,
                    normed=bool(normed), weights=None if w is None else np.array(w),
                )  # fmt: skip
                close("mean edges", edges[0], ex)
                close("range edges", edges[1], ey)
                close("histogram", got, h)
                if not normed:
                    total = sum(
                        (w[i] if w else 1.0) for i, c in enumerate(where) if c
                    )
                    close("total", np.sum(got), total)
                vals = must(ht.map_hist, x, y, got, edges)
                close("mapped back", vals, [h[c] if c else np.nan for c in where])
                rec.state((pts, o))
                rec.step(len(pts))
                rec.trace(2)
                for c in where:
                    rec.outcome("inside" if c else "outside")

    def mapped(self, rec, k):
        ex, ey = [
            ([0.0, 1.0, 2.0, 4.0], [-1.0, 0.0, 0.5]),
            ([-2.0, 3.0], [0.0, 1.0, 2.0]),
            ([0.0, 0.5, 1.0, 1.5, 2.0], [0.0, 1.0]),
            ([-1.0, 1.0, 1.5], [-3.0, 1.0, 2.0, 2.5, 3.0]),
        ][k]
        h = np.arange(1.0, (len(ex) - 1) * (len(ey) - 1) + 1).reshape(len(ex) - 1, -1) ** 2
        lat = [q / 2 - 2.5 for q in range(13)] + [9.0, -9.0]
        pts = list(itertools.product(lat, lat))
        exp = []
        for x, y in pts:
            i, j = cell(x, ex), cell(y, ey)
            exp.append(np.nan if i is None or j is None else h[i, j])
            rec.outcome("on edge" if x in ex or y in ey else "off edge")
        edges = (np.array(ex), np.array(ey))
        for size in (1, 2, 3, 7, len(pts)):
            for i in range(0, len(pts), size):
                part = pts[i : i + size]
                x, y = np.array([p[0] for p in part]), np.array([p[1] for p in part])
                with rec.case("map", k, part[0], size):
                    close("mapped", must(ht.map_hist, x, y, h.copy(), edges), exp[i : i + size])
                    rec.state((k, i, size))
                    rec.step(len(part))
                    rec.trace()

    def wide(self, rec, e):
        """Large clouds, negative weights, magnitudes, neighbours of every edge."""
        f = 2.0**e
        near = lambda v: (np.nextafter(v, -np.inf), v, np.nextafter(v, np.inf))  # noqa: E731
        for nx, ny in ((1, 3), (4, 4), (16, 2), (50, 40), (300, 140)):
            ex = [f * (k - 3) for k in range(nx + 1)]
            ey = [f * (k * 0.5 + 1) for k in range(ny + 1)]
            lx = [p for v in (ex[0], ex[len(ex) // 2], ex[-1]) for p in near(v)] + [f * -2.75, f * 0.125]
            ly = [p for v in (ey[0], ey[-2], ey[-1]) for p in near(v)] + [f * 1.25, f * 99]
            pts = [(float(x), float(y)) for x, y in itertools.product(lx, ly)]
            for m, w, normed, spec in itertools.product((1, 5, 40), (0, 1, 2), (0, 1), (0, 1)):
                if m == 40 and (nx != 4 or e):
                    continue
                cloud = pts * m
                wt = [None, [1 + 2.0**-45 * (i % 50) for i in range(len(cloud))],
                      [(-3.0, 0.5, 2.0, 7.0)[i % 4] for i in range(len(cloud))]][w]  # fmt: skip
                bins = [ex, ey] if spec else [nx, ny]
                span = None if spec else [[ex[0], ex[-1]], [ey[0], ey[-1]]]
                x, y = (np.array(v) for v in zip(*cloud))
                with rec.case("wide", e, nx, ny, m, w, normed, spec):
                    h, _, _, where = reference(cloud, bins, span, normed, wt)
                    got, edges = must(
                        ht.make_histogram, x, y, bins=bins, bin_range=span,
                        normed=bool(normed), weights=None if wt is None else np.array(wt),
                    )  # fmt: skip
                    close("edges", [*edges[0], *edges[1]], ex + ey)
                    close("histogram", got, h)
                    vals = must(ht.map_hist, x, y, got, edges)
                    exp = [h[c] if c else np.nan for c in where]
                    close("mapped back", vals, exp)
                    rec.state((e, nx, ny, m, w, normed, spec))
                    rec.step(len(cloud))
                    rec.trace(2)
                    for c in where:
                        rec.outcome("inside" if c else "outside")
                if normed or spec or nx > 4:
                    continue
                for mode in ("mountain", "valley", None):
                    with rec.case("wide draw", e, nx, ny, m, w, mode):
                        fig, ax = plt.subplots()
                        out = must(
                            ht.xy_hist2d, x, y, mode=mode, bins=bins, bin_range=span, fig=fig,
                            ax=ax, weights=None if wt is None else np.array(wt),
                            dens_func=np.positive,
                        )  # fmt: skip
                        xy, cols = pieces(out[2])
                        plt.close("all")
                        same("markers", len(xy), len(cloud))
                        close("coordinates", sorted(map(tuple, xy.tolist())), sorted(cloud))
                        seen = [v for v in cols.tolist() if v == v]
                        close("values", sorted(seen), sorted(v for v in exp if v == v))
                        if mode is None:
                            close("order of input", xy, cloud)
                        else:
                            same("drawing order", seen, sorted(seen, reverse=mode == "valley"))
                        rec.trace()
                        rec.outcome("drawn")

    def drawn(self, rec, n, k):
        fig, ax = plt.subplots()
        seqs = [p for m in range(1, n + 1) for p in itertools.product(GRID, repeat=m)]
        seqs += [(p,) * 4 + (q,) * 2 + (r,) for p, q, r in itertools.permutations(GRID[::2], 3)]
        for pts in chunks(seqs, 8)[k]:
            for mode, s, w, f in itertools.product(
                ("mountain", "valley", None), (0, 1), (0, 1), (0, 1)
            ):
                if f and (s or w):
                    continue
                x, y = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
                wt = [WEIGHTS[i % 4] for i in range(len(pts))] if w else None
                kw = {"dens_func": np.negative} if f else {}
                with rec.case("draw", pts, mode, s, w, f):
                    ax.clear()
                    out = must(
                        ht.xy_hist2d, x, y, mode=mode, bins=2, bin_range=SPANS[s],
                        weights=None if wt is None else np.array(wt), fig=fig, ax=ax, **kw,
                    )  # fmt: skip
                    require("figure and axes returned", out[0] is fig and out[1] is ax)
                    h, _, _, where = reference(pts, 2, SPANS[s], 0, wt)
                    c = [(h[q] if q else np.nan) * (-1 if f else 1) for q in where]
                    exp = [(*p, v) for p, v in zip(pts, c)]
                    xy, cols = pieces(out[2])
                    same_markers("markers", xy, cols, exp)
                    seen = [v for v in cols.tolist() if v == v]
                    if mode is None:
                        close("order of input", xy, [p[:2] for p in pts])
                    else:
                        up = mode == "mountain"
                        same("drawing order", seen, sorted(seen, reverse=not up))
                    require("input kept", x.tolist() == [p[0] for p in pts])
                    require("input kept", y.tolist() == [p[1] for p in pts])
                    rec.state((pts, str(mode), s, w, f))
                    rec.step(len(pts))
                    rec.trace()
                    rec.outcome("drawn")
        plt.close("all")

    def refused(self, rec):
        x = np.array([0.0, 1.0, 2.0])
        for n, m in itertools.permutations(range(1, 4), 2):
            with rec.case("lengths", n, m):
                rejects("different lengths", ht.make_histogram, x[:n], x[:m], kinds=ValueError)
                rec.trace()
        for mode in ("", "Mountain", "clip", "x", 0, False):
            with rec.case("mode", mode):
                rejects("unknown mode", ht.xy_hist2d, x, x, mode=mode, kinds=ValueError)
                plt.close("all")
                rec.trace()
        for ax in (None, 1):
            with rec.case("axes", ax):
                rejects("not a figure", ht.xy_hist2d, x, x, fig="figure", ax=ax, kinds=TypeError)
        with rec.case("own axes"):
            fig, axs = plt.subplots(1, 2)
            out = must(ht.xy_hist2d, x, x, ax=axs[0])
            require("drawn on the given axes", out[0] is fig and out[1] is axs[0])
            out = must(ht.xy_hist2d, x, x, fig=fig)
            require("drawn on the figure", out[0] is fig and out[1] in fig.axes)
            out = must(ht.xy_hist2d, x, x)
            require("a figure of its own", out[0] is not fig and out[1] in out[0].axes)
            plt.close("all")
            rec.trace(3)


CHECK = Check()
