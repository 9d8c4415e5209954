"""Clock and time history."""
from ..core import Violation
from ..drive import Driver, brief, describe, gs
from ..gen import gen_long, gen_scenario
from ..model import ATTR, CSE, ESEQ, ESU, LIFE, PASS, TS_NAMES
from ..monitors import check_clock, time_vec

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('(a) random tick histories applied directly to clocks and history trees of several depths, compared after every '
        'tick with a recount of the event log (value per scale, previous time, totals for random base units, also '
        'nonexistent ones); (b) random runs (finished, abandoned, several contexts, with and without time increment of '
        'the state update) with the clock compared with the reference automaton at every yield and afterwards, and '
        'totals for all earlier state updates and sequences. Non-trivial: the history has at least 3 units and 10 ticks; '
        'distinct by history')
MINIMA = {'ticks': 5800, 'queries': 7200, 'nonexistent_queries': 1000, 'clock_observations': 9700,
          'past_unit_queries': 3000, 'runs_finished': 300, 'skip_increment_runs': 50, 'long_sets': 4000}


def recount(events, query, path):
    """number of query ticks in the unit given by path {scale: index} (all
    scales down to the base); None if there is no such unit"""
    cur = {s: 0 for s in range(4)}
    exists = False
    n = 0

    def inside():
        return all(cur[s] == i for s, i in path.items())
    exists = inside()
    for e in events:
        if e == query and inside():
            n += 1
        cur[e] += 1
        for s in range(e):
            cur[s] = 0
        exists = exists or inside()
    return n if exists else None


def now(events):
    cur = [0] * 5
    for e in events:
        cur[e] += 1
        for s in range(e):
            cur[s] = 0
    return cur


def last_child(events, path, scale):
    """index of the last unit of scale in the unit given by path"""
    i = 0
    while recount(events, -1, {**path, scale: i}) is not None:
        i += 1
    return i - 1


def ticks(ctx, rng):
    m = gs()
    depth = rng.choice([None, None, PASS, ESU, ESEQ])
    clock = None
    if depth is None:
        clock = m.Clock()
        tree = clock.history
        maxd = ESU
    else:
        maxd = depth
        tree = m.time.TimeHistoryTree(max_depth=m.TimeScale(depth))
    weights = rng.choice([[8, 4, 2, 1], [4, 4, 4, 1], [1, 1, 1, 1], [20, 6, 1, .3]])
    events = []
    ctx.desc = ('ticks', depth, events)
    n = rng.choice([3, 12, 30, 60])
    ts = m.TimeScale

    def observe():
        real = time_vec(tree.current_time)
        ctx.check(real == now(events), lambda: f'time {real} after ticks {events}, expected {now(events)}')
        prev = None if tree.previous_time is None else time_vec(tree.previous_time)
        exp = now(events[:-1]) if events else None
        ctx.check(prev == exp, lambda: f'previous time {prev} after ticks {events}, expected {exp}')
        for s in range(4):
            ctx.check(tree.current_time[ts(s)] == real[s] and tree.current_time[s] == real[s],
                      lambda: f'time by scale {s} differs from {real}')
        if clock is not None:
            ctx.check(all(clock.get_time_by_time_scale(ts(s)) == real[s] for s in range(5)), 'get_time_by_time_scale')
            st = clock.simple_time
            ctx.check([st.consideration_set_execution, st.environment_state_update, st.environment_sequence] ==
                      [real[0], real[2], real[3]], lambda: f'simple time {st} differs from {real}')
    observe()
    for _ in range(n):
        e = rng.choices([CSE, PASS, ESU, ESEQ], weights)[0]
        if clock is not None and rng.random() < .5:
            clock._increment_time(ts(e))
        else:
            tree.increment_time(ts(e))
        events.append(e)
        ctx.count('ticks')
        observe()
        for _ in range(rng.choice([0, 1, 2])):
            query(ctx, rng, m, clock, tree, events, maxd)
    for _ in range(6):
        query(ctx, rng, m, clock, tree, events, maxd)
    if len(events) >= 10 and len({e for e in events if e >= ESU}) and events.count(ESU) + events.count(ESEQ) >= 2:
        ctx.distinct(depth, events)
        ctx.sample({'max_depth': depth, 'ticks': [TS_NAMES[e] for e in events[:12]]})


def query(ctx, rng, m, clock, tree, events, maxd):
    ts = m.TimeScale
    q = rng.choice([CSE, PASS, ESU, ESEQ])
    cur = now(events)
    ctx.count('queries')
    if clock is not None and rng.random() < .4:
        b = rng.choice([s for s in (PASS, ESU, ESEQ, LIFE) if s > q and (s >= maxd or s == LIFE)])
        idx = None if rng.random() < .6 or b == LIFE else rng.randint(0, cur[b] + 1)
        if b == LIFE:
            path = {}
        else:
            path = {}
            for s in range(ESEQ, b, -1):
                path[s] = cur[s]
            path[b] = cur[b] if idx is None else idx
        exp = recount(events, q, path)
        try:
            got = clock.get_total_times_relative(ts(q), ts(b), *([] if idx is None else [idx]))
        except m.time.TimeScaleError:
            got = None
        ctx.count('nonexistent_queries', exp is None)
        ctx.check(got == exp, lambda: f'Clock total of {TS_NAMES[q]} in {TS_NAMES[b]} {idx}: {got}, recount of ticks '
                                      f'{events}: {exp}')
        return
    given = {}
    for s in (LIFE, ESEQ, ESU, PASS):
        if rng.random() < .5:
            if s == LIFE:
                given[s] = 0
            elif rng.random() < .15:
                given[s] = None
            else:
                given[s] = rng.randint(0, max(1, cur[s] + 1 if s >= maxd else 2))
    base = min([s for s, v in given.items() if v is not None and s > q], default=LIFE)
    if base < maxd:
        # below the depth of the tree nothing is recorded
        exp = None
    else:
        path = {}
        exp = 0
        for s in range(ESEQ, base - 1, -1):
            i = given.get(s)
            if i is None:
                i = last_child(events, path, s)
            path[s] = i
            if recount(events, -1, path) is None:
                exp = None
                break
        if exp is not None:
            exp = recount(events, q, path)
    arg = {ts(k): v for k, v in given.items()}
    before = dict(arg)
    try:
        got = tree.get_total_times_relative(ts(q), *([arg] if arg or rng.random() < .5 else []))
    except m.time.TimeScaleError:
        got = None
    ctx.count('nonexistent_queries', exp is None)
    ctx.check(arg == before, 'the indices passed were modified')
    ctx.check(got == exp, lambda: f'total of {TS_NAMES[q]} for {given}: {got}, recount of ticks {events}: {exp} '
                                  f'(depth {maxd})')


def bad_queries(ctx, rng):
    """queries at or above the scale of the tree are errors"""
    m = gs()
    clock = m.Clock()
    for _ in range(rng.randint(0, 9)):
        clock._increment_time(m.TimeScale(rng.choice([0, 1, 2, 3])))
    for args in [(m.TimeScale.LIFE,), (m.TimeScale.LIFE, {m.TimeScale.ENVIRONMENT_SEQUENCE: 0})]:
        try:
            v = clock.history.get_total_times_relative(*args)
        except m.time.TimeScaleError:
            ctx.count('nonexistent_queries')
        else:
            raise Violation(f'total of LIFE is {v} instead of an error')
    ctx.count('queries', 2)


def scales(ctx, rng):
    """time scales are ordered by granularity"""
    ts = gs().TimeScale
    names = [n.upper() for n in TS_NAMES]
    ctx.check([t.name for t in ts] == names, lambda: f'time scales are {list(ts)}')
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            x, y = ts[a], ts[b]
            got = (x < y, x <= y, x > y, x >= y, x == y)
            ctx.check(got == (i < j, i <= j, i > j, i >= j, i == j), lambda: f'order of {a} and {b} is {got}')
        if i:
            ctx.check(ts.get_child(ts[a]) is ts[names[i - 1]], lambda: f'child of {a} is {ts.get_child(ts[a])}')
            ctx.check(ts.get_parent(ts[names[i - 1]]) is ts[a], lambda: f'parent of {names[i - 1]}')
    v = [rng.randint(0, 99) for _ in ATTR]
    t = gs().Time(**dict(zip(ATTR, v)))
    ctx.check(time_vec(t) == v and all(t[ts(i)] == t[i] == x for i, x in enumerate(v)), lambda: f'time constructed with {v} is {t}')
    i, x = rng.randrange(len(v)), rng.randint(0, 99)
    t[rng.choice([i, ts(i)])] = x
    v[i] = x
    ctx.check(time_vec(t) == v, lambda: f'time is {t} after setting value {i} to {x}, expected {v}')
    clock = gs().Clock()
    for i in range(len(v)):
        clock.time[ts(i)] = v[i]
    i, x = rng.randrange(len(v)), rng.randint(0, 99)
    clock.simple_time[rng.choice([i, ts(i)])] = x
    v[i] = x
    ctx.check(time_vec(clock.time) == v and all(clock.simple_time[ts(k)] == y for k, y in enumerate(v)),
              lambda: f'time is {clock.time} after setting value {i} of simple time to {x}, expected {v}')


def past(ctx, rng, drv, eid):
    """totals of all ended and the current state update and sequence"""
    m = gs()
    ts = m.TimeScale
    clock = drv.sched.get_clock(eid) if eid is not None else drv.sched.get_clock()
    acc = drv.acceptor(eid)
    results = []
    for st in acc.states:
        units = {}
        e = u = 0
        for unit, p, c in st.closed:
            units[e, u] = (p, c)
            if unit == ESU:
                u += 1
            else:
                e, u = e + 1, 0
        units[e, u] = (st.total[PASS, ESU], st.total[CSE, ESU])
        results.append((units, (e, u)))
    got = {}
    for k in results[0][0]:
        base = {ts.ENVIRONMENT_SEQUENCE: k[0], ts.ENVIRONMENT_STATE_UPDATE: k[1]}
        got[k] = (clock.history.get_total_times_relative(ts.PASS, base),
                  clock.history.get_total_times_relative(ts.CONSIDERATION_SET_EXECUTION, base))
        ctx.count('past_unit_queries', 2)
    ctx.check(got in [r[0] for r in results],
              lambda: f'(passes, consideration set executions) by (sequence, state update): {got}, expected {results[0][0]}')
    units, (e, u) = results[0]
    for s in range(e + 1):
        n = clock.get_total_times_relative(ts.ENVIRONMENT_STATE_UPDATE, ts.ENVIRONMENT_SEQUENCE, s)
        # the last state update of a sequence is the one not finished
        exp = max(k[1] for k in units if k[0] == s)
        ctx.check(n == exp, lambda: f'state updates of sequence {s}: {n}, expected {exp}')
        p = clock.get_total_times_relative(ts.PASS, ts.ENVIRONMENT_SEQUENCE, s)
        c = clock.get_total_times_relative(ts.CONSIDERATION_SET_EXECUTION, ts.ENVIRONMENT_SEQUENCE, s)
        ok = any((p, c) == tuple(sum(v[i] for k, v in r[0].items() if k[0] == s) for i in (0, 1)) for r in results)
        ctx.check(ok, lambda: f'passes and sets of sequence {s}: {p, c}, expected {units}')


def runs(ctx, rng):
    sc = gen_scenario(rng, nmin=1, nmax=5, runs=4, p=.6, depth=1)
    ctx.desc = describe(sc)
    drv = Driver(ctx, sc, rng)
    eids = [None] + (['x'] if rng.random() < .4 else [])
    from ..model import Acceptor  # noqa: F401
    for step in sc['steps']:
        for eid in eids:
            if step[0] == 'seq':
                if eid is None:
                    drv.sched.end_environment_sequence()
                else:
                    drv.sched.end_environment_sequence(eid)
                drv.acceptor(eid).end_sequence()
            else:
                skip = rng.random() < .15
                run = drv.start(step[1], eid, skip)
                for _ in range(step[2]):
                    if run.next() is None:
                        ctx.count('runs_finished')
                        ctx.count('skip_increment_runs', skip)
                        break
                    check_clock(ctx, drv, eid)
                    if rng.random() < .1:
                        past(ctx, rng, drv, eid)
                else:
                    run.close()
            check_clock(ctx, drv, eid)
            past(ctx, rng, drv, eid)
    t = drv.acceptor(None).states[0]
    if len(t.closed) >= 2 and t.total[CSE, LIFE] >= 8:
        ctx.distinct(ctx.desc)


def long(ctx, rng):
    """many sets or many runs"""
    sc = gen_long(rng)
    ctx.desc = brief(sc)
    drv = Driver(ctx, sc, rng)
    every = rng.choice([7, 23])
    n = [0]

    def on_yield(d, run, obs):
        n[0] += 1
        if n[0] % every == 0:
            check_clock(ctx, d, None)

    def after(d, step):
        n[0] += 1
        if n[0] % every == 0:
            check_clock(ctx, d, None)
        if n[0] % 100 == 0:
            past(ctx, rng, d, None)
    drv.steps(on_yield, None, after)
    check_clock(ctx, drv, None)
    past(ctx, rng, drv, None)
    ctx.distinct(ctx.desc)
    ctx.count('long_sets', len(drv.history[None]))


GROUPS = {'ticks': (ticks, 900, 16000), 'bad': (bad_queries, 30, 100), 'scales': (scales, 10, 50), 'runs': (runs, 900, 16000), 'long': (long, 8, 400)}
