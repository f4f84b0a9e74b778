"""Bounded-exhaustive explicit-state checks of py_fatigue."""
