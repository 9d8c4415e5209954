from ..drive import Driver, brief, describe
from ..gen import gen_long, gen_scenario, labeling
from ..model import CSE, ESU, PASS

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('random graph of 1-7 nodes (several shapes, labelings, dict or DiGraph), random nested conditions on nodes, '
        'random termination conditions, up to 3 runs with ended sequences and abandoned runs; every yielded set is '
        'compared online with all outcomes the reference automaton allows. Non-trivial: at least one run with two '
        'different sets and one node that did not execute in every set of its layer; distinct by graph, conditions, steps')
MINIMA = {'sets_observed': 1500, 'ends_observed': 200, 'long_sets': 5000, 'chained': 50, 'deep_sets': 1500}
ASSUMPTIONS = ['the order in which members of one layer are examined is unspecified, any is accepted']


def nontrivial(ctx, sc, drv):
    hist = [s for h in drv.history.values() for s in h]
    if len(set(hist)) >= 2:
        ctx.distinct(describe(sc))


def case(ctx, rng):
    sc = gen_scenario(rng, nmax=7, runs=4)
    ctx.desc = describe(sc)
    drv = Driver(ctx, sc, rng)
    drv.steps()
    nontrivial(ctx, sc, drv)
    ctx.sample({'case': ctx.desc, 'sets': [sorted(x) for h in drv.history.values() for x in h][:12]})


def cascade(ctx, rng):
    """wide layers whose nodes depend on each other"""
    sc = gen_scenario(rng, nmin=3, nmax=6, runs=2, kinds=('every', 'call', 'call', 'comp', 'every', 'just'), depth=2)
    if rng.random() < .7:
        # flatten: most nodes in one layer
        for n in sc['graph']:
            if rng.random() < .7:
                sc['graph'][n] = set()
    ctx.desc = describe(sc)
    drv = Driver(ctx, sc, rng)
    drv.steps()
    nontrivial(ctx, sc, drv)


def chain(ctx, rng):
    """nodes of one layer that execute because of each other, one after
    another"""
    n = rng.randint(7, 24)
    names = [f'N{i:02}' for i in range(n)]
    order = names[:]
    rng.shuffle(order)
    mode = rng.choice(['EveryNCalls', 'EveryNCalls', 'AtNCalls', 'AfterNCalls', 'AfterCall', 'JustRan', 'mixed'])
    graph = {x: set() for x in names}
    conds = {order[0]: rng.choice([('Always',), ('AtPass', rng.choice([0, 1])), ('EveryNPasses', 2), ('AfterPass', 0)])}

    def link(dep):
        k = rng.choice(['EveryNCalls', 'AtNCalls', 'AfterNCalls']) if mode == 'mixed' else mode
        if k == 'EveryNCalls':
            return (k, dep, 1)
        if k == 'JustRan':
            return (k, dep)
        if k == 'AfterCall':
            return (k, dep, 0, rng.choice([CSE, PASS]))
        return (k, dep, 1, rng.choice([CSE, CSE, PASS]))
    for a, b in zip(order, order[1:]):
        conds[b] = link(a)
        if rng.random() < .03:
            conds[b] = ('All', [conds[b], ('AfterPass', 0)])
    if rng.random() < .3:
        # a second layer behind
        for x in rng.sample(names, rng.randint(1, 3)):
            graph['Z' + x] = {x}
            names.append('Z' + x)
    if rng.random() < .5:
        vals = rng.sample(range(n * 2), len(names)) if rng.random() < .5 else list(range(len(names)))
        lab = dict(zip(rng.choice([names, order + names[n:], order[::-1] + names[n:]]), vals))
    else:
        lab = labeling(rng, names, rng.choice(['str', 'obj', 'long', 'tuple']))
    sc = {'graph': graph, 'conds': conds, 'mode': 'STANDARD', 'lab': lab,
          'steps': [('run', None, rng.choice([2, 4, 6])) for _ in range(rng.choice([1, 2]))]}
    ctx.desc = describe(sc)
    drv = Driver(ctx, sc, rng)
    drv.steps()
    ctx.count('chained', max([len(s) for h in drv.history.values() for s in h], default=0) >= 7)
    nontrivial(ctx, sc, drv)


def deep(ctx, rng):
    """many layers"""
    n = rng.randint(8, 40)
    names = [f'N{i:02}' for i in range(n)]
    order = names[:]
    rng.shuffle(order)
    graph = {}
    for i, x in enumerate(order):
        if i == 0 or rng.random() < .03:
            graph[x] = set()
        elif rng.random() < .1:
            # beside the one before
            graph[x] = set(graph[order[i - 1]])
        else:
            graph[x] = {order[i - 1], *(y for y in order[:i - 1] if rng.random() < .05)}
    conds = {}
    for i, x in enumerate(order):
        r = rng.random()
        if r < .25:
            conds[x] = ('Always',)
        elif r < .35 and i:
            conds[x] = ('EveryNCalls', order[i - 1], rng.choice([1, 1, 2]))
        elif r < .42:
            conds[x] = rng.choice([('EveryNPasses', 2), ('AtPass', rng.choice([0, 1])), ('AfterPass', 0), ('Never',)])
        elif r < .47:
            conds[x] = ('AfterNCalls', rng.choice(order), 1, rng.choice([PASS, ESU]))
    names = sorted(names)
    sc = {'graph': {x: graph[x] for x in names}, 'conds': conds, 'mode': 'STANDARD',
          'lab': labeling(rng, names, rng.choice(['str', 'int', 'obj', 'tuple'])), 'detour': 0,
          'steps': [('run', rng.choice([None, {ESU: ('AfterNPasses', 3)}]), 3 * n) for _ in range(rng.choice([1, 1, 2]))]}
    ctx.desc = describe(sc)
    drv = Driver(ctx, sc, rng)
    drv.steps()
    ctx.count('deep_sets', sum(map(len, drv.history.values())))
    nontrivial(ctx, sc, drv)


def long(ctx, rng):
    """many sets or many runs"""
    sc = gen_long(rng, kinds=('time', 'call', 'call', 'every', 'just', 'comp', 'custom', 'static'))
    ctx.desc = brief(sc)
    drv = Driver(ctx, sc, rng)
    drv.steps()
    ctx.count('long_sets', len(drv.history.get(None, ())))
    nontrivial(ctx, sc, drv)


GROUPS = {'mixed': (case, 1200, 30000), 'cascade': (cascade, 700, 15000), 'long': (long, 14, 700), 'chain': (chain, 120, 3000),
          'deep': (deep, 60, 2500)}
