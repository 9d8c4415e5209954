from ..drive import Driver, describe, gs
from ..gen import gen_scenario, gen_call_cond
from ..model import CALL_CONDS, ESU, build
from ..monitors import check_counts
from .c05 import long as long_scenario, probe

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('random schedulers with call-count and other node conditions; at every yield, after every run and ended '
        'sequence call-count conditions (all classes, nodes, all five scales, n around the current count) are evaluated '
        'and compared with counts recomputed by the reference automaton from the sets yielded; counts restart with each '
        'unit; conditions of nodes are removed or replaced between runs, which must not affect any count. Non-trivial: at least 2 runs and 2 different sets; distinct by scenario')
MINIMA = {'evaluations': 20000, 'satisfied': 3000, 'unsatisfied': 3000, 'between_runs': 300, 'ends_observed': 200, 'conditions_removed': 60, 'conditions_added': 60, 'long_sets': 4000, 'long_evaluations': 1000}


def boundary(rng, drv, eid):
    st = drv.acceptor(eid).states[0]
    nodes = sorted(drv.lab)
    c = gen_call_cond(rng, nodes)
    if rng.random() < .8:
        if c[0] in CALL_CONDS:
            v = st.cnt[c[3] if c[3] is not None else ESU][c[1]]
            c = (c[0], c[1], max(0, v + rng.choice([-1, 0, 0, 1, 1])), c[3])
        elif c[0] == 'AfterNCallsCombined':
            v = sum(st.cnt[c[3] if c[3] is not None else ESU][d] for d in c[1])
            c = (c[0], c[1], max(0, v + rng.choice([-1, 0, 0, 1, 1])), c[3])
    return c


def case(ctx, rng):
    sc = gen_scenario(rng, nmin=1, nmax=6, runs=4, p=.8, depth=1, nwhen=False,
                      kinds=('call', 'call', 'call', 'time', 'static', 'comp', 'every'))
    for s in sc['steps'][:-1]:
        if rng.random() < .2:
            sc['steps'].append(('seq',))
    ctx.desc = describe(sc)
    drv = Driver(ctx, sc, rng)
    n = rng.choice([2, 4, 6])
    gen = lambda: boundary(rng, drv, None)  # noqa: E731
    probe(ctx, drv, None, rng, 8, gen)
    edits = rng.choice([0, 0, .3, .6])

    def on_yield(d, run, obs):
        probe(ctx, d, None, rng, n, gen)

    def after(d, step):
        ctx.count('between_runs')
        probe(ctx, d, None, rng, 12, gen)
        check_counts(ctx, d, None)
        if rng.random() < edits:
            # counts are of nodes, whatever their conditions
            x = rng.choice(sorted(d.lab))
            if d.sc['conds'].get(x) is not None:
                del d.sc['conds'][x]
                cs = d.sched.conditions
                d.sched.remove_condition(d.lab[x] if d.lab[x] not in cs.conditions_structural else cs.conditions_basic[d.lab[x]])
                ctx.count('conditions_removed')
                ctx.desc['steps'].append(('remove condition of', x, 'after', step))
            else:
                c = gen_call_cond(rng, sorted(d.lab))
                d.sc['conds'][x] = c
                d.sched.add_condition(d.lab[x], build(c, gs(), lambda y: d.lab[y]))
                ctx.count('conditions_added')
                ctx.desc['steps'].append(('add condition', x, c, 'after', step))
            d.acceptor(None).sim.configure(d.sc['graph'], d.sc['conds'])
            check_counts(ctx, d, None)
            probe(ctx, d, None, rng, 4, gen)
            if rng.random() < .5:
                d.sched.end_environment_sequence()
                d.acceptor(None).end_sequence()
                ctx.desc['steps'].append('seq')
                check_counts(ctx, d, None)
                probe(ctx, d, None, rng, 8, gen)
    drv.steps(on_yield, None, after)
    if sum(s[0] == 'run' for s in sc['steps']) >= 2 and len(set(drv.history[None])) > 1:
        ctx.distinct(ctx.desc)
        ctx.sample({'case': ctx.desc, 'sets': [sorted(x) for x in drv.history[None]][:12]})


def long(ctx, rng):
    long_scenario(ctx, rng, ('call', 'call', 'call', 'time', 'static', 'comp', 'every'), boundary)


GROUPS = {'case': (case, 1300, 25000), 'long': (long, 14, 700)}
