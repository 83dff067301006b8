"""Concrete members of the families the harnesses quantify over."""
import math

FAMILY = 0


def vario(ps, d, fam=None):
    """Valid (conditionally negative definite) variograms with nugget; all
    unbounded, so that every difference between two distances shows."""
    f = FAMILY if fam is None else fam
    h = 0.0
    for k, p in enumerate(ps):
        h += abs(p) * (k + 1)
    h = 1.0 + h
    if f == 0:
        return 0.25 + 0.5 * h * (1.0 - math.exp(-d / (2.0 + 0.1 * h))) + 0.05 * h * abs(d) ** 0.9
    if f == 1:
        return 0.05 + 0.3 * h * abs(d) ** 1.6
    if f == 2:
        return h * math.sqrt(abs(d)) + 0.0
    return 0.75 + h * (1.0 - math.exp(-d)) + 0.02 * h * abs(d)


def scalar(name, vs):
    """An arbitrary non-linear function, different for every name."""
    k = sum(ord(ch) for ch in name) % 7 + 1
    r = 0.0
    for i, v in enumerate(vs):
        r += (0.3 + 0.1 * i) * v * v + math.sin((1.0 + 0.2 * i) * v + k)
    if len(vs) > 1:
        r += 0.05 * k * vs[0] * vs[1]
    return r


def any_solution(rows, rhs):
    """Some solution w of rows w = rhs, away from the smallest one."""
    import numpy as np

    R, t = np.array(rows, dtype=float), np.array(rhs, dtype=float)
    w, *_ = np.linalg.lstsq(R, t, rcond=None)
    u, s, vt = np.linalg.svd(R)
    rank = int((s > 1e-10 * max(1.0, s[0])).sum())
    for k, v in enumerate(vt[rank:]):
        w = w + (0.5 + 0.3 * k) * v
    return w
