"""Notations of absolute times."""
from fractions import Fraction

from ..abstime import same
from ..core import Violation
from ..drive import Driver, describe, gs
from ..gen import UNITS, gen_abs_scenario, spell
from ..model import UNIT_PS, to_ps

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('random durations written in all notations (number with unit object / short or long unit name, integer or decimal '
        'quantity, text with and without unit, several units) given to interval, termination and scheduler arguments: '
        'attributes, intervals, fixed points and start compared exactly with the duration; start / end pairs in mixed '
        'notations are rejected exactly if start is later; whole random schedulers with every time in a random notation '
        'compared with the reference automaton. Non-trivial: at least two notations of one time; distinct by notations')
MINIMA = {'notations': 2300, 'rejected': 140, 'accepted': 250, 'equal_bounds': 100, 'timestamps': 1600,
          'number': 310, 'unit_name': 300, 'quantity': 500, 'text': 390, 'number_text': 300, 'default_unit': 300}

LONG = {'ps': 'picosecond', 'ns': 'nanosecond', 'us': 'microsecond', 'ms': 'millisecond', 's': 'second',
        'minute': 'minute'}


def number(v):
    v = Fraction(v)
    if v.denominator == 1:
        return int(v)
    return float(v)


def decimal_text(v):
    v = Fraction(v)
    if v.denominator == 1:
        return str(int(v))
    n = 0
    while (v * 10 ** n).denominator != 1:
        n += 1
    d = str(int(v * 10 ** n)).rjust(n + 1, '0')
    s = f'{d[:-n]}.{d[-n:]}'
    assert Fraction(s) == v, (v, s)
    return s


def notation(ctx, rng, ps, shared_unit=None):
    """(value, unit argument or None, description) for a duration; with
    shared_unit the unit argument is fixed"""
    m = gs()
    reg = m._unit_registry
    v, u = spell(rng, ps)
    num = number(v)
    kind = rng.choice(['number', 'unit_name', 'quantity', 'text', 'number_text', 'float_quantity'])
    if shared_unit is not None:
        w = Fraction(ps, UNIT_PS[shared_unit])
        ok = 10**6 % w.denominator == 0 and w < 10**9
        if kind in ('number', 'unit_name', 'number_text'):
            if not ok:
                kind = 'quantity'
            else:
                v, u, num = w, shared_unit, number(w)
    ctx.count('notations')
    ctx.count(kind)
    name = rng.choice([u, LONG[u], LONG[u] + 's'])
    unit = getattr(reg, rng.choice([u, LONG[u]]))
    if kind == 'number':
        return num, unit, f'{num!r}, unit={unit!r}'
    if kind == 'unit_name':
        return num, name, f'{num!r}, unit={name!r}'
    if kind == 'quantity':
        return num * unit, None, f'{num!r}*{u}'
    if kind == 'float_quantity':
        return float(num) * unit, None, f'{float(num)!r}*{u}'
    if kind == 'text':
        t = decimal_text(v) + rng.choice(['', ' ']) + name
        return t, None, repr(t)
    t = decimal_text(v)
    return t, rng.choice([unit, name]), f'{t!r}, unit={name!r}'


def random_ps(rng):
    base = rng.choice([1, 1000, 10**6, 10**9, 10**12])
    k = rng.choice([rng.randint(1, 20), rng.randint(1, 999), rng.choice([10, 25, 50, 100, 250])])
    ps = base * k
    if rng.random() < .2:
        ps = 60 * 10**12 * rng.randint(1, 40) // rng.choice([1, 2, 4, 5, 10])
    elif rng.random() < .3 and base >= 1000:
        ps = base * k // 10
    return ps


def attrs(ctx, rng):
    m = gs()
    ps = random_ps(rng)
    seen = []
    ctx.desc = (ps, seen)

    def eq(q, what, text):
        ctx.check(q is not None and same(q, ps), lambda: f'{what} is {q!r} for {text}, which is {ps} ps')
    for _ in range(6):
        v, u, text = notation(ctx, rng, ps)
        seen.append(text)
        kw = {} if u is None else {'unit': u}
        c = m.TimeInterval(repeat=v, **kw)
        eq(c.repeat, 'repeat', text)
        ctx.check(len(c.absolute_intervals) == 1, 'one interval')
        eq(c.absolute_intervals[0], 'interval', text)
        c = m.TimeInterval(start=v, **kw)
        eq(c.start, 'start', text)
        eq(c.absolute_start, 'absolute_start', text)
        eq(c.absolute_fixed_points[0], 'fixed point', text)
        c = m.TimeInterval(end=v, **kw)
        eq(c.end, 'end', text)
        eq(c.absolute_fixed_points[0], 'fixed point', text)
        c = m.TimeTermination(v, **kw)
        eq(c.t, 't', text)
        eq(c.absolute_fixed_points[0], 'fixed point', text)
        c = m.TimeTermination(v, inclusive=False, **kw)
        ctx.check(c.absolute_fixed_points == [], 'fixed points of an exclusive termination')
        if u is None:
            s = m.Scheduler({'A': set()}, default_absolute_time_unit=v)
            eq(s.default_absolute_time_unit, 'default_absolute_time_unit', text)
            ctx.count('default_unit')
    # numbers without unit are milliseconds
    n = rng.choice([1, 3, 2.5, 0.25, '7', '0.5', 20])
    x = Fraction(str(n)) * 10**9
    for q in (m.TimeInterval(repeat=n).repeat, m.TimeInterval(start=n).start, m.TimeTermination(n).t):
        ctx.check(same(q, x), lambda: f'{n!r} without a unit is {q!r}')
    if len(set(seen)) > 1:
        ctx.distinct(seen)
        ctx.sample({'ps': ps, 'notations': seen})


def order(ctx, rng):
    m = gs()
    a = random_ps(rng)
    r = rng.random()
    b = a if r < .25 else (a + rng.choice([1, -1]) * rng.choice([a // 100, a // 10, a // 2, 9 * a]) if r < .6 else random_ps(rng))
    b = max(b, 0)
    unit = rng.choice(UNITS)
    va, ua, ta = notation(ctx, rng, a, unit)
    vb, ub, tb = notation(ctx, rng, b, unit)
    kw = {}
    if ua is not None or ub is not None:
        kw['unit'] = ua if ua is not None else ub
    ctx.desc = (ta, tb)
    try:
        c = m.TimeInterval(start=va, end=vb, **kw)
        rejected = False
    except m.condition.ConditionError:
        rejected = True
    ctx.count('rejected' if rejected else 'accepted')
    ctx.count('equal_bounds', a == b)
    ctx.check(rejected == (a > b), lambda: f'start {ta} ({a} ps), end {tb} ({b} ps): '
                                           f'{"rejected" if rejected else "accepted"}')
    if not rejected:
        ctx.check(same(c.start, a) and same(c.end, b), lambda: f'start {c.start}, end {c.end} for {ta}, {tb}')
    ctx.distinct(ta, tb)


def schedule(ctx, rng):
    m = gs()
    sc = gen_abs_scenario(rng, rng.choice(['STANDARD', 'EXACT_TIME']), nmax=4, runs=2, aligned=rng.random() < .7)
    texts = []

    def times(d, keys):
        unit = rng.choice(['ns', 'us', 'ms', 's'])
        kw = {}
        for k in keys:
            if d.get(k) is None:
                continue
            v, u, t = notation(ctx, rng, to_ps(d[k]).numerator, unit)
            texts.append(t)
            kw[k] = v
            if u is not None:
                kw['unit'] = u
        return kw

    def interval(c):
        d = c[1]
        kw = times(d, ('repeat', 'start', 'end'))
        for k in ('start_inclusive', 'end_inclusive'):
            if k in d:
                kw[k] = d[k]
        return m.TimeInterval(**kw)

    def termination(c):
        kw = times({'t': c[1]}, ('t',))
        if 'unit' in kw:
            return m.TimeTermination(kw['t'], c[2], kw['unit'])
        return m.TimeTermination(kw['t'], inclusive=c[2])
    if 'default_unit' in sc:
        v, u, t = notation(ctx, rng, to_ps(sc['default_unit']).numerator)
        if u is None:
            sc['default_unit_written'] = v
            texts.append(t)
    ctx.desc = (describe(sc), texts)
    drv = Driver(ctx, sc, rng, {'TimeInterval': interval, 'TimeTermination': termination})

    def observe(d, run, obs):
        t = d.sched.get_clock().time
        if t.absolute_enabled:
            ctx.count('timestamps')
            if not same(t.absolute, d.acceptor(None).states[0].abs):
                raise Violation(f'time is {t.absolute!r}, expected {d.acceptor(None).states[0].abs} ps')
    drv.steps(observe)
    if len(texts) > 1:
        ctx.distinct(ctx.desc)


GROUPS = {'attrs': (attrs, 500, 8000), 'order': (order, 1600, 20000), 'schedule': (schedule, 700, 10000)}
