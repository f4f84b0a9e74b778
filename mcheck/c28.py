"""C28: sampled times, random signals and the other helper functions."""
from __future__ import annotations

import itertools
import re
import warnings

import numpy as np
from py_fatigue import testing, utils, version
from py_fatigue.styling import py_fatigue_formatwarning

from mcheck.core import Rec, arr, close, must, rejects, require, same

KINDS = (
    ("normal", {}), ("normal", {"loc": 3.0, "scale": 0.1}), ("uniform", {}),
    ("uniform", {"low": -5.0, "high": 2.0}), ("exponential", {"scale": 4.0}),
    ("weibull", {"a": 2.0}), ("gamma", {"shape": 1.5}), ("standard_normal", {}),
)  # fmt: skip


class Check:
    ID = "C28"
    ASSUMPTIONS = [
        "sampling frequencies and times are dyadic, so the number of samples is exact",
        "the warning about durations between samples is left open",
    ]
    MIN_OUTCOMES = {"times": 500, "random": 500, "split": 1000, "chunks": 900, "version": 500,
                    "refused": 100, "dict": 100, "in place": 16}  # fmt: skip

    def bound(self, tier):
        n = 60 if tier == "quick" else 200
        return (
            "times for 9 frequencies x 12 durations x 6 starts, every refusal boundary;"
            " random signals of 8 kinds x 6 lengths x 6 seeds x 5 spans against the generator;"
            f" every division of 0..{n} by 1..{n // 2}, every list of length 0..{n // 2} in every"
            " chunk size; every version over 5 numbers and 7 suffixes and every malformed one;"
            " every dictionary of up to 3 of 8 entries; methods called in place and not"
        )

    def tasks(self, tier):
        n = 60 if tier == "quick" else 200
        yield ("sampled",)
        for i in range(4):
            yield ("random", i)
        yield ("splits", n)
        yield ("versions",)
        yield ("dicts",)
        yield ("inplace",)

    def run(self, rec: Rec, kind, *a):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            getattr(self, kind)(rec, *a)

    def sampled(self, rec):
        fss = (0.25, 0.5, 1.0, 2.0, 4, 8.0, 64.0, 256.0, 1024)
        durations = (0.25, 0.5, 1, 1.5, 1.75, 2.0, 7.25, 10.0, 16, 33.125, 100.0, 600.0)
        for fs, d, s in itertools.product(fss, durations, (0.0, 0.5, 1, 3.25, 100.0, 4096.0)):
            with rec.case("times", fs, d, s):
                if d < 1 / fs:
                    rejects("too short", testing.get_sampled_time, fs, d, s, kinds=ValueError)
                    rec.outcome("refused")
                    continue
                n = int(np.ceil(d * fs))
                exp = s + np.arange(n) / fs
                close("times", must(testing.get_sampled_time, fs, d, s), exp)
                if not s:
                    close("from zero by default", must(testing.get_sampled_time, fs=fs, duration=d), exp)
                rec.state((fs, d, s))
                rec.step(n)
                rec.trace()
                rec.outcome("times")
        bad = [(0, 1, 0), (-1, 1, 0), (-0.5, 10, 1), (1, -1, 0), (1, -0.001, 0), (10, -5, 2),
               (1, 1, -1), (4, 2, -0.001), (1e6, 1, -1e-9), (1, 0, 0), (1, 0.999, 0)]  # fmt: skip
        for b in bad:
            with rec.case("bad times", *b):
                rejects("times", testing.get_sampled_time, *b, kinds=ValueError)
                rec.outcome("refused")

    def random(self, rec, i):
        spans = ((-10.0, 50.0), (0.0, 1.0), (5.0, 0.25), (-1e6, 3e6), (2.0, -4.0))
        for (kind, kw), n, seed in list(itertools.product(KINDS, (2, 3, 10, 101, 4096, 20000), (0, 1, 2, 3, 42, 2**31)))[i::4]:
            t = np.arange(n) * 0.1
            raw = getattr(np.random.default_rng(seed), kind)(**kw, size=n)
            raw = (raw - raw.min()) / (raw.max() - raw.min())
            for lo, span in spans:
                with rec.case("random", kind, kw, n, seed, lo, span):
                    y = must(testing.get_random_data, t, seed=seed, random_type=kind, min_=lo, range_=span, **kw)
                    close("random data", y, raw * span + lo, atol=1e-9 * abs(span))
                    again = must(testing.get_random_data, t, seed, kind, lo, span, **kw)
                    same("reproducible", arr(again).tolist(), arr(y).tolist())
                    rec.state((kind, n, seed, lo))
                    rec.step(n)
                    rec.trace(2)
                    rec.outcome("random")
            with rec.case("default", kind, kw, n, seed):
                y = must(testing.get_random_data, t, seed=seed, random_type=kind, **kw)
                close("default span", y, raw * 50 - 10)
                rec.trace()
        with rec.case("all defaults"):
            raw = np.random.default_rng(2).normal(size=50)
            close("normal", must(testing.get_random_data, np.zeros(50)),
                  (raw - raw.min()) / (raw.max() - raw.min()) * 50 - 10)  # fmt: skip
        with rec.case("unknown"):
            rejects("unknown kind", testing.get_random_data, np.zeros(5), random_type="no such")

    def splits(self, rec, n):
        for what, by in itertools.product(range(n + 1), range(1, n // 2 + 1)):
            with rec.case("split", what, by):
                out = must(utils.split, what, by)
                same("parts", len(out), by)
                same("total", sum(out), what)
                require("as equal as possible", max(out) - min(out) <= 1)
                rec.state((what, by))
                rec.step()
                rec.trace()
                rec.outcome("split")
        big = [2**k + d for k in (15, 31, 53, 60) for d in (-1, 0, 1)] + [10**18 + 7]
        for what, by in itertools.product(big, (1, 2, 3, 7, 10, 4096)):
            with rec.case("split", what, by):
                out = must(utils.split, what, by)
                same("parts", len(out), by)
                same("total", sum(out), what)
                require("as equal as possible", max(out) - min(out) <= 1)
                rec.state((what, by))
                rec.step()
                rec.trace()
        sizes = itertools.product(range(n // 2 + 1), range(1, n // 2 + 3))
        for size, k in (*sizes, *itertools.product((1001, 20000, 70001), (1, 7, 100, 65536))):
            with rec.case("chunks", size, k):
                lst = [object() for _ in range(size)]
                out = must(lambda: list(utils.chunks(lst, k)))
                same("all in order", [id(x) for c in out for x in c], [id(x) for x in lst])
                same("full chunks", [len(c) for c in out], [min(k, size - j) for j in range(0, size, k)])
                rec.state(("c", size, k))
                rec.step()
                rec.trace()
                rec.outcome("chunks")

    def versions(self, rec):
        nums = (0, 1, 9, 10, 123)
        ends = ("", "-alpha.1", "-rc.0", "-beta.12", "-a1.5", "-RC.100", "-x-y.3")
        for a, b, c, e in itertools.product(nums, nums, nums, ends):
            with rec.case("version", a, b, c, e):
                v = must(version.parse_version, f"{a}.{b}.{c}{e}")
                same("numbers", (v.major, v.minor, v.patch), (a, b, c))
                m = re.fullmatch(r"-(.*)\.(\d+)", e)
                same("release", (v.release, v.num), (m[1], int(m[2])) if m else (None, None))
                rec.state((a, b, c, e))
                rec.step()
                rec.trace()
                rec.outcome("version")
            with rec.case("tag", a, b, c, e):
                same("numbers of a tag", must(version.parse_version, f"v{a}.{b}.{c}{e}"), v)
        for text in ("", "1", "1.2", "a.b.c", "1.2.", ".1.2", "1,2,3", "1.2.x", "one", "v1.2", "1..2"):
            with rec.case("malformed", text):
                rejects("version", version.parse_version, text, kinds=ValueError)
                rec.outcome("refused")
        with rec.case("own version"):
            v = must(version.parse_version, version.__version__)
            require("the package's own version", version.__version__.startswith(f"{v.major}.{v.minor}.{v.patch}"))
        for msg, cat in itertools.product(("text", "two\nlines", ""), (UserWarning, FutureWarning, RuntimeWarning)):
            with rec.case("warning", msg, cat.__name__):
                out = must(py_fatigue_formatwarning, msg, cat, "f.py", 3)
                require("message", msg in out)
                require("category", cat.__name__ in out)
                rec.trace()

    def dicts(self, rec):
        items = [("a", 1.0), ("b", -2.5), ("", 0.0), ("x y", 1e300), ("n", 3), ("s", "4.0"), (5, 6.0), ("z", None)]
        for n in range(4):
            for some in itertools.permutations(items, n):
                with rec.case("dict", some):
                    out = must(utils.to_numba_dict, dict(some))
                    same("entries", dict(out.items()),
                         {k: v for k, v in some if isinstance(k, str) and isinstance(v, float)})  # fmt: skip
                    rec.state(some)
                    rec.step()
                    rec.trace()
                    rec.outcome("dict")

    def inplace(self, rec):
        class Box:
            def __init__(self):
                self.v, self.log = 1, []

            @utils.inplacify
            def set(self, v, add=0):
                self.v = v + add
                return self

        for v, add, flag, kw in itertools.product((2, -3), (0, 5), (True, False, None, 1), (True, False)):
            with rec.case("in place", v, add, flag, kw):
                b = Box()
                extra = {} if flag is None else {"inplace": flag}
                out = must(b.set, v, add=add, **extra) if kw else must(b.set, v, add, **extra)
                require("is the object", (out is b) == bool(flag))
                same("result", out.v, v + add)
                same("object", b.v, v + add if flag else 1)
                rec.state((v, add, flag, kw))
                rec.step()
                rec.trace()
                rec.outcome("in place")


CHECK = Check()
