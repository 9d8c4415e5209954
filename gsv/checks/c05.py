from ..drive import Driver, brief, describe, gs
from ..gen import gen_long, gen_scenario, gen_time_cond
from ..model import CSE, ESEQ, ESU, LIFE, PASS, START_CONDS, TIME_CONDS, build, show

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('random schedulers, mostly with time-based node conditions; at every yield, after every run and after every '
        'ended sequence about 12 freshly generated time-based conditions (all classes, all admissible scales, n 0-9) are '
        'evaluated and compared with the totals of the reference automaton; yielded sets are compared online as well. '
        'Non-trivial: the history has at least 2 finished runs; distinct by scenario')
MINIMA = {'evaluations': 20000, 'satisfied': 3000, 'unsatisfied': 3000, 'between_runs': 300, 'ends_observed': 200, 'long_sets': 4000, 'long_evaluations': 1000}
NAMES = list(TIME_CONDS) + list(START_CONDS)


def probe(ctx, drv, eid, rng, n, gen):
    m = gs()
    acc = drv.acceptor(eid)
    for _ in range(n):
        c = gen()
        real = build(c, m, lambda x: drv.lab[x])
        got = bool(real.is_satisfied(scheduler=drv.sched, execution_id=eid))
        exp = {acc.sim.ev(c, s, None) for s in acc.states}
        ctx.count('evaluations')
        ctx.count('satisfied' if got else 'unsatisfied')
        ctx.count('class:' + c[0])
        ctx.check(got in exp, lambda: f'{show(c)} is {"" if got else "not "}satisfied at time {acc.states[0].time()} '
                                      f'(finest first) with totals {acc.states[0].total} and counts {acc.states[0].cnt}')


def boundary(rng, drv, eid):
    """a condition with n near the current value"""
    st = drv.acceptor(eid).states[0]
    c = gen_time_cond(rng, NAMES)
    if c[0] in TIME_CONDS:
        unit, op, default = TIME_CONDS[c[0]]
        scale = c[2] if len(c) > 2 and c[2] is not None else default
        n = max(0 if c[0] != 'EveryNPasses' else 1, st.total[unit, scale] + rng.choice([-1, 0, 0, 1, 1]))
        if rng.random() < .8:
            c = (c[0], n, *c[2:])
    return c


def case(ctx, rng):
    sc = gen_scenario(rng, nmin=1, nmax=5, runs=5, p=.8, depth=1, nwhen=False,
                      kinds=('time', 'time', 'time', 'start', 'static', 'comp'))
    for s in sc['steps'][:-1]:
        if rng.random() < .2:
            sc['steps'].append(('seq',))
    ctx.desc = describe(sc)
    drv = Driver(ctx, sc, rng)
    n = rng.choice([2, 4, 6])
    gen = lambda: boundary(rng, drv, None)  # noqa: E731
    probe(ctx, drv, None, rng, 10, gen)

    def on_yield(d, run, obs):
        probe(ctx, d, None, rng, n, gen)

    def after(d, step):
        ctx.count('between_runs')
        probe(ctx, d, None, rng, 12, gen)
    drv.steps(on_yield, None, after)
    if ctx_runs(sc) >= 2:
        ctx.distinct(ctx.desc)
        ctx.sample({'case': ctx.desc, 'time at the end': drv.acceptor(None).states[0].time()})


def ctx_runs(sc):
    return sum(s[0] == 'run' for s in sc['steps'])


def long(ctx, rng, kinds=('time', 'time', 'time', 'static', 'comp'), gen=boundary):
    """many sets or many runs"""
    sc = gen_long(rng, kinds=kinds)
    ctx.desc = brief(sc)
    drv = Driver(ctx, sc, rng)
    g = lambda: gen(rng, drv, None)  # noqa: E731
    every = rng.choice([13, 29, 60])
    n = [0]

    def on_yield(d, run, obs):
        n[0] += 1
        if n[0] % every == 0:
            probe(ctx, d, None, rng, 2, g)
            ctx.count('long_evaluations', 2)

    def after(d, step):
        if len(sc['steps']) < 9 or rng.random() < 1 / every:
            probe(ctx, d, None, rng, 8, g)
            ctx.count('long_evaluations', 8)
    drv.steps(on_yield, None, after)
    ctx.distinct(ctx.desc)
    ctx.count('long_sets', len(drv.history[None]))


GROUPS = {'case': (case, 1300, 25000), 'long': (long, 14, 700)}
