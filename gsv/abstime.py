"""Independent arithmetic on absolute times (exact, in picoseconds)."""
import math
from fractions import Fraction

from .model import ESEQ, ESU, to_ps, walk


def unit_ps(u):
    """picoseconds per unit u, exactly, for decimal multiples of a second
    and of a minute"""
    f = float((1.0 * u).to('picosecond').m)
    e = round(math.log10(f))
    if abs(f / 10.0 ** e - 1) < 1e-6:
        return Fraction(10) ** e
    e = round(math.log10(f / 60))
    assert abs(f / 60 / 10.0 ** e - 1) < 1e-6, u
    return 60 * Fraction(10) ** e


def exact(q):
    """(value, tolerance) of a quantity in picoseconds"""
    k = unit_ps(q.u)
    m = q.m
    if isinstance(m, float):
        f = Fraction(m)
        return f * k, max(Fraction(1, 10**8) * k, abs(f * k) / 10**12)
    if hasattr(m, 'item'):
        m = m.item()
        return exact(m * q.u)
    return Fraction(m) * k, Fraction(0)


def same(q, ps):
    v, tol = exact(q)
    return abs(v - ps) <= tol


def fixed_times(conds):
    """all specified times of conditions: (points, [(offset or None, repeat, end or None)])"""
    points = set()
    repeats = []
    for c in conds:
        for x in walk(c):
            if x[0] == 'TimeInterval':
                d = x[1]
                if d.get('start') is not None and d.get('start_inclusive', True):
                    points.add(to_ps(d['start']))
                if d.get('end') is not None and d.get('end_inclusive', True):
                    points.add(to_ps(d['end']))
                if d.get('repeat') is not None:
                    repeats.append((to_ps(d['start']) if d.get('start') is not None else Fraction(0), to_ps(d['repeat'])))
            elif x[0] == 'TimeTermination' and x[2]:
                points.add(to_ps(x[1]))
    return points, repeats


def within(d, t):
    if d.get('start') is not None:
        s = to_ps(d['start'])
        if not (t >= s if d.get('start_inclusive', True) else t > s):
            return False
    if d.get('end') is not None:
        e = to_ps(d['end'])
        if not (t <= e if d.get('end_inclusive', True) else t < e):
            return False
    return True


def in_force(sc, over):
    from .drive import DEFAULT_TERM
    return {**DEFAULT_TERM, **sc.get('term', {}), **(over or {})}


__all__ = ['exact', 'same', 'unit_ps', 'fixed_times', 'within', 'in_force', 'ESU', 'ESEQ']
