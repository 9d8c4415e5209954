from ..drive import Driver, brief, describe, gs
from ..gen import gen_long, gen_scenario
from ..model import ESU, build, show
from ..monitors import useable_possible

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('random schedulers with EveryNCalls and JustRan node conditions (several consumers of one producer, chains, '
        'mutual dependencies, nesting) over up to 4 runs; sets compared online with the automaton; at every yield '
        'EveryNCalls / JustRan conditions for all kinds of owners, bare, nested in composites and moved between owners, '
        'are evaluated and compared with the recorded sets. Non-trivial: 2 different sets; distinct by scenario')
MINIMA = {'every_evaluations': 10000, 'every_satisfied': 2000, 'just_evaluations': 5000, 'just_satisfied': 800,
          'moved': 500, 'sets_observed': 1500, 'long_sets': 5000, 'long_evaluations': 200}
ASSUMPTIONS = ['members of one set may be counted in either order, as the order within a set is unspecified']


def probes(ctx, drv, rng, sets, pool):
    """sets: of the current run so far"""
    m = gs()
    names = sorted(drv.lab)
    hist = drv.history[None]
    for _ in range(3):
        if len(names) > 1:
            d, x = rng.sample(names, 2)
            exp_n = useable_possible(sets, d, x)
            n = max(1, rng.choice(sorted(exp_n)) + rng.choice([-1, 0, 0, 1]))
            c = m.EveryNCalls(drv.lab[d], n)
            form = rng.random()
            top, neg = c, False
            if form < .15:
                top = m.All(c)
            elif form < .3:
                top = m.Any(m.Never(), m.All(m.Always(), c))
            elif form < .45:
                top, neg = m.Not(c), True
            elif form < .55:
                top, neg = m.All(m.Not(m.Any(c))), True
            moved = rng.random() < .4
            if moved:
                cs = m.ConditionSet()
                y = rng.choice(names)
                cs.add_condition(drv.lab[y], top)
                if rng.random() < .5:
                    cs.remove_condition(top)
                elif rng.random() < .5:
                    top.is_satisfied(scheduler=drv.sched, execution_id=None)
                cs.add_condition(drv.lab[x], top)
                ctx.count('moved')
            else:
                top.owner = drv.lab[x]
            got = bool(top.is_satisfied(scheduler=drv.sched, execution_id=None)) != neg
            exp = {v >= n for v in exp_n}
            ctx.count('every_evaluations')
            ctx.count('every_satisfied', got)
            ctx.check(got in exp, lambda: f'EveryNCalls({d}, {n}) of {x} within {top}, moved: {moved}, is '
                                          f'{"" if got else "not "}satisfied after {[sorted(s) for s in sets]} in this run')
        d = rng.choice(names)
        got = bool(m.JustRan(drv.lab[d]).is_satisfied(scheduler=drv.sched, execution_id=None))
        exp = bool(hist) and d in hist[-1]
        ctx.count('just_evaluations')
        ctx.count('just_satisfied', got)
        ctx.check(got == exp, lambda: f'JustRan({d}) is {got} after {[sorted(s) for s in hist][-5:]}')


def case(ctx, rng):
    sc = gen_scenario(rng, nmin=2, nmax=6, runs=4, p=.85, depth=2, nwhen=False,
                      kinds=('every', 'every', 'every', 'just', 'just', 'comp', 'static', 'time'))
    ctx.desc = describe(sc)
    drv = Driver(ctx, sc, rng)
    drv.acceptor(None)
    probes(ctx, drv, rng, [], None)
    drv.steps(lambda d, run, obs: probes(ctx, d, rng, run.sets, None))
    if len(set(drv.history[None])) > 1:
        ctx.distinct(ctx.desc)
        ctx.sample({'case': ctx.desc, 'sets': [sorted(x) for x in drv.history[None]][:12]})


def shared(ctx, rng):
    """one producer and several consumers with different rates"""
    k = rng.randint(2, 4)
    names = ['P', *[f'C{i}' for i in range(k)]]
    g = {'P': set()}
    conds = {'P': rng.choice([('Always',), ('EveryNPasses', 2), ('Not', ('AtPass', 1)), ('Any', [('AtPass', 0), ('JustRan', 'C0')])])}
    for i in range(k):
        g[f'C{i}'] = {'P'} if rng.random() < .8 else set()
        c = ('EveryNCalls', 'P', rng.randint(1, 4))
        r = rng.random()
        if r < .3:
            c = ('All', [c, rng.choice([('AfterPass', 1), ('EveryNPasses', 2), ('EveryNCalls', rng.choice(names), 1)])])
        elif r < .5:
            c = ('Any', [c, rng.choice([('AtPass', 1), ('JustRan', rng.choice(names)), ('EveryNCalls', rng.choice(names), 2)])])
        conds[f'C{i}'] = c
    sc = {'graph': g, 'conds': conds, 'steps': [], 'term': {ESU: ('AfterNPasses', rng.randint(3, 9))},
          'lab': {n: n for n in names}}
    for _ in range(rng.randint(1, 3)):
        sc['steps'].append(('run', None, rng.choice([3, 30])))
    ctx.desc = describe(sc)
    drv = Driver(ctx, sc, rng)
    drv.steps(lambda d, run, obs: probes(ctx, d, rng, run.sets, None))
    ctx.distinct(ctx.desc)


def long(ctx, rng):
    """many sets or many runs"""
    sc = gen_long(rng, kinds=('every', 'every', 'just', 'comp', 'time'), nwhen=False)
    ctx.desc = brief(sc)
    drv = Driver(ctx, sc, rng)
    every = rng.choice([23, 60])
    n = [0]

    def on_yield(d, run, obs):
        n[0] += 1
        if n[0] % every == 0:
            probes(ctx, d, rng, run.sets, None)
            ctx.count('long_evaluations')
    drv.steps(on_yield)
    ctx.distinct(ctx.desc)
    ctx.count('long_sets', len(drv.history[None]))


GROUPS = {'case': (case, 1200, 25000), 'shared': (shared, 500, 10000), 'long': (long, 14, 600)}
