"""Comparisons of scheduler state with the model at an observation point."""
from .model import ATTR, ESEQ, ESU, LIFE, PASS, CSE  # noqa: F401


def time_vec(t):
    return [getattr(t, a) for a in ATTR]


def check_clock(ctx, drv, eid):
    acc = drv.acceptor(eid)
    clock = drv.sched.get_clock(eid) if eid is not None else drv.sched.get_clock()
    real = time_vec(clock.time)
    exp = [s.time() for s in acc.states]
    ctx.check(real in exp, lambda: f'clock is {real} (finest scale first), expected {exp[0]}')
    prev = None if clock.previous_time is None else tuple(time_vec(clock.previous_time))
    ctx.check(prev in [s.prev for s in acc.states],
              lambda: f'previous time is {prev}, expected {acc.states[0].prev}')
    simple = [clock.simple_time.consideration_set_execution, clock.simple_time.environment_state_update,
              clock.simple_time.environment_sequence]
    ctx.check(simple == [real[0], real[2], real[3]], lambda: f'simple_time {simple} differs from time {real}')
    m = __import__('graph_scheduler')
    for q in range(3):
        for b in (ESU, ESEQ, LIFE):
            if q < b:
                v = clock.get_total_times_relative(m.TimeScale(q), m.TimeScale(b))
                ctx.check(v in [s.total[q, b] for s in acc.states],
                          lambda: f'total of scale {q} in current unit of scale {b} is {v}, '
                                  f'expected {acc.states[0].total[q, b]}')
    ctx.count('clock_observations')


def check_history(ctx, drv, eid):
    real = drv.sched.execution_list[eid]
    exp = drv.history[eid]
    ok = len(real) == len(exp) and all(drv.to_model(a) == b for a, b in zip(real, exp))
    ctx.check(ok, lambda: f'execution_list {real} differs from the sets yielded {[sorted(x) for x in exp]}')
    ctx.count('history_observations')


def check_counts(ctx, drv, eid, scales=range(5)):
    m = __import__('graph_scheduler')
    acc = drv.acceptor(eid)
    real = drv.sched.counts_total[eid]
    for ts in scales:
        got = {n: real[m.TimeScale(ts)][drv.lab[n]] for n in drv.lab}
        ctx.check(got in [s.cnt[ts] for s in acc.states],
                  lambda: f'counts at scale {m.TimeScale(ts).name} are {got}, expected {acc.states[0].cnt[ts]}')
    ctx.count('count_observations')


def useable_possible(sets, a, b):
    """possible numbers of executions of a since b last executed, given the
    sets of the run; both may be in one set in either order"""
    j = max((i for i, s in enumerate(sets) if b in s), default=None)
    if j is None:
        return {sum(a in s for s in sets)}
    n = sum(a in s for s in sets[j + 1:])
    return {n, n + 1} if a in sets[j] else {n}


def check_useable(ctx, drv, eid, sets):
    real = drv.sched.counts_useable[eid]
    for a in drv.lab:
        for b in drv.lab:
            if a != b:
                v = real[drv.lab[a]][drv.lab[b]]
                exp = useable_possible(sets, a, b)
                ctx.check(v in exp, lambda: f'usable executions of {a} for {b}: {v}, expected {sorted(exp)}; '
                                            f'sets of the run {[sorted(x) for x in sets]}')
    ctx.count('useable_observations')
