import random

from ..drive import Driver, describe, gs, nx_of
from ..gen import gen_conds, gen_graph, gen_scenario, labeling, relabel_graph, gen_term
from ..model import ESU, build, layers_of, show
from ..monitors import time_vec

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('random acyclic graphs of 1-7 nodes (a third: 8-60 nodes) in 10 shapes and 10 labelings as dict (source keys '
        'omitted at random) or DiGraph, random node and termination conditions; the layers are compared with an '
        'independent layering, and every yielded set, in relation to the pass of the clock, is checked for ascending '
        'layers. Non-trivial: at least two layers and two different sets yielded; distinct by graph and conditions')
MINIMA = {'sets_observed': 1500, 'passes_observed': 400, 'queues_compared': 400, 'full_passes': 100,
          'most_layers': 20}


def monitor(ctx, sched, inv, layers, conds_desc, term=None, cap=60, eid=None):
    index = {n: i for i, x in enumerate(layers) for n in x}
    cur_pass, last = None, None
    kw = {} if term is None else {'termination_conds': term}
    run = sched.run(execution_id=eid, **kw) if eid is not None else sched.run(**kw)
    distinct = set()
    for i, s in zip(range(cap), run):
        ctx.count('sets_observed')
        ctx.check(all(x in inv for x in s), lambda: f'yielded {s}, which is not a set of nodes of the graph')
        obs = frozenset(inv[x] for x in s)
        distinct.add(obs)
        where = {index[n] for n in obs}
        ctx.check(len(where) <= 1, lambda: f'yielded set {sorted(obs)} is not within one of the layers {layers}')
        clock = sched.get_clock(eid) if eid is not None else sched.get_clock()
        p = tuple(time_vec(clock.time)[1:])
        if p != cur_pass:
            ctx.count('passes_observed')
            cur_pass, last = p, -1
        if where:
            k = where.pop()
            ctx.check(k > last, lambda: f'set {sorted(obs)} of layer {k} after a set of layer {last} in the same pass')
            last = k
    run.close()
    return distinct


def queue(ctx, sched, inv, layers):
    q = [frozenset(inv.get(x, x) for x in s) for s in sched.consideration_queue]
    ctx.check(q == layers, lambda: f'consideration queue {q} differs from the layers {layers}')
    idx = {inv.get(k, k): v for k, v in sched.consideration_queue_indices.items()}
    exp = {n: i for i, x in enumerate(layers) for n in x}
    ctx.check(idx == exp, lambda: f'consideration_queue_indices {idx}, expected {exp}')
    ctx.check({inv[n] for n in sched.nodes} == set(exp) and len(sched.nodes) == len(exp),
              lambda: f'nodes {sched.nodes}')
    ctx.count('queues_compared')


def schedule(ctx, rng):
    sc = gen_scenario(rng, nmax=7, runs=3)
    sc['mode'] = 'STANDARD'
    ctx.desc = describe(sc)
    m = gs()
    layers = layers_of(sc['graph'])
    lab = sc['lab']
    inv = {v: k for k, v in lab.items()}
    g = nx_of(sc['graph'], lab) if rng.random() < .3 else relabel_graph(rng, sc['graph'], lab, rng.random() < .5)
    sched = m.Scheduler(g, conditions={lab[n]: build(c, m, lambda x: lab[x]) for n, c in sc['conds'].items()})
    queue(ctx, sched, inv, layers)
    distinct = set()
    for step in sc['steps']:
        if step[0] == 'run':
            term = {**sc.get('term', {}), **(step[1] or {})}
            term = {m.TimeScale(k): build(c, m, lambda x: lab[x]) for k, c in term.items()}
            distinct |= monitor(ctx, sched, inv, layers, ctx.desc, term, cap=step[2], eid=rng.choice([None, None, 'x']))
        else:
            sched.end_environment_sequence()
    queue(ctx, sched, inv, layers)
    if len(layers) > 1 and len(distinct) > 1:
        ctx.distinct(ctx.desc)
        ctx.sample({'case': ctx.desc, 'layers': [sorted(x) for x in layers], 'sets': [sorted(x) for x in distinct][:8]})


def big(ctx, rng):
    """larger graphs"""
    n = rng.randint(8, 60)
    names = [f'n{i}' for i in range(n)]
    order = names[:]
    rng.shuffle(order)
    p = rng.choice([.02, .05, .1, .3])
    width = rng.choice([n, n, 4, 8])
    g = {x: {y for y in order[max(0, i - width):i] if rng.random() < p} for i, x in enumerate(order)}
    items = list(g.items())
    rng.shuffle(items)
    g = dict(items)
    ctx.desc = {k: sorted(v) for k, v in g.items()}
    lab = labeling(rng, names, rng.choice(['str', 'int', 'obj']))
    inv = {v: k for k, v in lab.items()}
    m = gs()
    layers = layers_of(g)
    real = nx_of(g, lab) if rng.random() < .3 else relabel_graph(rng, g, lab, rng.random() < .5)
    sched = m.Scheduler(real)
    queue(ctx, sched, inv, layers)
    if rng.random() < .5:
        # every node executes at its turn
        got = []
        for i, s in zip(range(2 * len(layers)), sched.run(
                termination_conds={m.TimeScale.ENVIRONMENT_STATE_UPDATE: m.AfterNPasses(2)})):
            got.append({inv[y] for y in s})
        ctx.check(got == 2 * layers, lambda: f'two passes without conditions give {got}, layers are {layers}')
        ctx.count('full_passes', 2)
        ctx.count('most_layers', len(layers) >= 10)
    for x in names:
        if rng.random() < .3:
            sched.add_condition(lab[x], build(rng.choice([
                ('EveryNPasses', 2), ('AfterPass', 1), ('AtPass', 0), ('Always',), ('EveryNCalls', rng.choice(names), 2)]),
                m, lambda y: lab[y]))
    d = monitor(ctx, sched, inv, layers, ctx.desc, {m.TimeScale.ENVIRONMENT_STATE_UPDATE: m.AfterNPasses(3)}, cap=200)
    if len(layers) > 1 and len(d) > 1:
        ctx.distinct(ctx.desc)


def edited(ctx, rng):
    """layers after changes of the graph"""
    g = gen_graph(rng, 2, 7)
    names = sorted(g)
    lab = labeling(rng, names)
    inv = {v: k for k, v in lab.items()}
    m = gs()
    sched = m.Scheduler(relabel_graph(rng, g, lab))
    ops = []
    for _ in range(rng.randint(1, 4)):
        a, b = rng.sample(names, 2)
        k = rng.choice(['AddEdgeTo', 'RemoveEdgeFrom', 'BeforeNode', 'AfterNode', 'WithNode', 'undo'])
        ops.append((k, a, b))
        ctx.desc = {'graph': {x: sorted(v) for x, v in g.items()}, 'ops': ops}
        if k == 'undo':
            if sched.conditions.structural_condition_order:
                sched.remove_condition(rng.choice(sched.conditions.structural_condition_order))
        else:
            c = getattr(m, k)(lab[b])
            try:
                sched.add_condition(lab[a], c)
            except m.ConditionError:
                sched.remove_condition(c)
        cur = {inv[x]: {inv[y] for y in v} for x, v in sched.graph.items()}
        layers = layers_of(cur)
        if layers is None:
            ctx.count('cyclic')
            continue
        queue(ctx, sched, inv, layers)
        d = monitor(ctx, sched, inv, layers, ctx.desc, {m.TimeScale.ENVIRONMENT_STATE_UPDATE: m.AfterNPasses(2)})
        if len(layers) > 1 and len(d) > 1:
            ctx.distinct(ctx.desc)


GROUPS = {'schedule': (schedule, 1600, 30000), 'big': (big, 250, 4000), 'edited': (edited, 600, 15000)}
