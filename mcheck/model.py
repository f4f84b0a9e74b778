"""Reference models written from the property texts (no py_fatigue code)."""
from __future__ import annotations

import itertools
from typing import Iterator, Sequence


# --------------------------------------------------------------------------
# ASTM E1049 three-point rainflow counting
# --------------------------------------------------------------------------
def reversals(x: Sequence) -> list:
    """First sample, every strict change of direction, last sample."""
    y = [x[0]]
    for v in x[1:]:
        if v != y[-1]:
            y.append(v)
    if len(y) < 3:
        return y
    out = [y[0]]
    for a, b, c in zip(y, y[1:], y[2:]):
        if (b > a) != (c > b):
            out.append(b)
    out.append(y[-1])
    return out


def astm(x: Sequence) -> tuple[list, list, list]:
    """(cycles, residual sequence, final stack) of a signal.

    cycles are (start, end, weight) in counting order.
    """
    cycles, starts, stack = [], [], []
    for v in reversals(x):
        stack.append(v)
        while len(stack) >= 3:
            newest = abs(stack[-1] - stack[-2])
            previous = abs(stack[-2] - stack[-3])
            if newest < previous:
                break
            if len(stack) == 3:  # previous range holds the starting point
                cycles.append((stack[0], stack[1], 0.5))
                starts.append(stack[0])
                stack.pop(0)
            else:
                cycles.append((stack[-3], stack[-2], 1.0))
                del stack[-3:-1]
    for a, b in zip(stack, stack[1:]):
        cycles.append((a, b, 0.5))
        starts.append(a)
    return cycles, starts + [x[-1]], stack


def table(cycles: Sequence) -> list:
    """(range, mean, weight) rows."""
    return [(abs(b - a), (a + b) / 2, w) for a, b, w in cycles]


# --------------------------------------------------------------------------
# enumerations
# --------------------------------------------------------------------------
def words(alphabet: Sequence, lo: int, hi: int) -> Iterator[tuple]:
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


def de_bruijn(k: int, n: int) -> list[int]:
    """Cyclic sequence over range(k) containing every word of length n once."""
    a = [0] * k * n
    seq: list[int] = []

    def db(t: int, p: int) -> None:
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


def compositions(n: int, parts: int) -> Iterator[tuple]:
    """All ways of writing n as an ordered sum of `parts` positive integers."""
    for cuts in itertools.combinations(range(1, n), parts - 1):
        edges = (0, *cuts, n)
        yield tuple(b - a for a, b in zip(edges, edges[1:]))
