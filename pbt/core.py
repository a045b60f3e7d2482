"""Violation type and small helpers shared by all checks."""

import math


class Violation(Exception):
    """The property under test does not hold for this case."""


def fail(msg):
    raise Violation(msg)


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(a, b, atol=1e-9, rtol=1e-9):
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def vclose(a, b, atol=1e-9, rtol=1e-9):
    return len(a) == len(b) and all(close(x, y, atol, rtol) for x, y in zip(a, b))


def norm3(v):
    return math.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
