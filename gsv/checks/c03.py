from ..drive import Driver, describe, gs
from ..gen import gen_scenario, gen_graph, labeling
from ..model import ESU, build, layers_of, show

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('random graphs with 0-60 % of the nodes given simple conditions and the rest left unspecified; runs '
        'interleaved with edits (edges and structure conditions added / removed, conditions added / removed, ended '
        'sequences, abandoned runs), each set compared online with the automaton whose default rule is "all direct '
        'senders executed since the last execution"; runs without any condition are compared with the list of layers. '
        'Non-trivial: an unspecified node with a sender executed in some but not all passes, or after an edit')
MINIMA = {'sets_observed': 1500, 'default_runs': 100, 'edits': 500, 'runs_after_edit': 300}

KINDS = ('static', 'time', 'custom', 'start', 'call')


def case(ctx, rng):
    sc = gen_scenario(rng, nmin=2, nmax=7, runs=4, p=rng.choice([0, .3, .5]), kinds=KINDS, depth=0, nwhen=False, wide=.1)
    ctx.desc = describe(sc)
    drv = Driver(ctx, sc, rng)
    drv.steps()
    if any(sc['graph'][n] and n not in sc['conds'] for n in sc['graph']):
        sets = [s for h in drv.history.values() for s in h]
        if len(set(sets)) > 1:
            ctx.distinct(ctx.desc)
            ctx.sample({'case': ctx.desc, 'sets': [sorted(x) for x in sets][:10]})


def plain(ctx, rng):
    """no conditions at all: exactly the layers"""
    g = gen_graph(rng, 1, 9)
    sc = {'graph': g, 'conds': {}, 'steps': [], 'lab': labeling(rng, g)}
    ctx.desc = describe(sc)
    drv = Driver(ctx, sc, rng)
    layers = layers_of(g)
    m = gs()
    inv = drv.inv
    for _ in range(rng.randint(1, 3)):
        got = [frozenset(inv[x] for x in s) for s in drv.sched.run()]
        ctx.check(got == layers, lambda: f'default run yields {got}, the layers are {layers}')
        ctx.count('default_runs')
    k = rng.randint(1, 4)
    got = [frozenset(inv[x] for x in s) for s in
           drv.sched.run(termination_conds={m.TimeScale.ENVIRONMENT_STATE_UPDATE: m.AfterNPasses(k)})]
    ctx.check(got == layers * k, lambda: f'{k} default passes yield {got}, the layers are {layers}')
    ctx.count('default_runs')
    if len(layers) > 1:
        ctx.distinct(ctx.desc)


def edited(ctx, rng):
    sc = gen_scenario(rng, nmin=2, nmax=6, runs=1, p=rng.choice([0, .2, .4]), kinds=KINDS, depth=0, nwhen=False)
    sc['mode'] = 'STANDARD'
    sc['conds'] = dict(sc['conds'])
    names = sorted(sc['graph'])
    lab = sc['lab']
    m = gs()
    drv = Driver(ctx, sc, rng)
    sched = drv.sched
    ops = []
    ctx.desc = (describe(sc), ops)
    structural = []
    ran = False
    for _ in range(rng.randint(2, 6)):
        k = rng.choice(['run', 'run', 'add', 'del', 'reposition', 'undo', 'cond', 'uncond', 'seq'])
        if k == 'run':
            term = {ESU: rng.choice([('AfterNPasses', rng.randint(1, 4)), ('AllHaveRun', (), None)])}
            ops.append(('run', show(term[ESU])))
            run = drv.start(term)
            cap = rng.choice([4, 15, 15])
            while cap and run.next() is not None:
                cap -= 1
            run.close()
            if len(ops) > 1:
                ctx.count('runs_after_edit')
            ran = True
            continue
        if k == 'seq':
            sched.end_environment_sequence()
            drv.acceptor(None).end_sequence()
            ops.append(('seq',))
            continue
        a, b = rng.sample(names, 2)
        if k in ('add', 'del', 'reposition'):
            before = {drv.inv[x]: {drv.inv[y] for y in v} for x, v in sched.graph.items()}
            if k == 'add':
                c = sched.add_graph_edge(lab[a], lab[b])
            elif k == 'del':
                c = sched.remove_graph_edge(lab[a], lab[b])
            else:
                c = getattr(m, rng.choice(['BeforeNode', 'AfterNode', 'WithNode']))(lab[b])
                try:
                    sched.add_condition(lab[a], c)
                except m.ConditionError:
                    sched.remove_condition(c)
                    continue
            cur = {drv.inv[x]: {drv.inv[y] for y in v} for x, v in sched.graph.items()}
            if layers_of(cur) is None:
                sched.remove_condition(c)
                continue
            structural.append(c)
            ops.append((k if k != 'reposition' else type(c).__name__, a, b))
        elif k == 'undo':
            if not structural:
                continue
            c = rng.choice(structural)
            old = {drv.inv[x]: {drv.inv[y] for y in v} for x, v in sched.graph.items()}
            structural.remove(c)
            sched.remove_condition(c)
            ops.append(('undo', type(c).__name__, drv.inv[c.owner], drv.inv[c.node]))
        elif k == 'cond':
            c = rng.choice([('EveryNPasses', 2), ('Always',), ('AtPass', 0), ('AfterPass', 0), ('CustomPass', 2, 1)])
            sched.add_condition(lab[a], build(c, m, lambda x: lab[x]))
            sc['conds'][a] = c
            ops.append(('cond', a, show(c)))
        elif k == 'uncond':
            if a not in sc['conds']:
                continue
            sched.remove_condition(sched.conditions.conditions_basic[lab[a]])
            del sc['conds'][a]
            ops.append(('uncond', a))
        ctx.count('edits')
        try:
            cur = {drv.inv[x]: {drv.inv[y] for y in v} for x, v in sched.graph.items()}
        except m.ConditionError:
            return
        if layers_of(cur) is None:
            return
        drv.acceptor(None).sim.configure(cur, sc['conds'])
    term = {ESU: ('AfterNPasses', 3)}
    run = drv.start(term)
    while run.next() is not None:
        pass
    ctx.count('runs_after_edit')
    if ran and len(ops) > 1:
        ctx.distinct(ctx.desc)


GROUPS = {'case': (case, 1500, 25000), 'plain': (plain, 500, 6000), 'edited': (edited, 1500, 25000)}
