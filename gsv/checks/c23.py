"""Cyclic graphs are rejected until the cycle is gone."""
import warnings

from ..drive import Driver, describe, gs, nx_of, state_of
from ..gen import gen_conds, gen_digraph, gen_graph, labeling, relabel_graph
from ..gscgen import edges, layers, no_self, reach, show_graph
from ..model import build

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = ('schedulers whose base graph is acyclic or has cycles, changed by random sequences of edge and structure conditions '
        'and their removal; at random moments a run is started: with a cycle of several nodes it must raise before '
        'anything changes (snapshot of all contexts), without one it is followed by the reference automaton for the '
        'current graph. Warnings at creation of cycles are counted. Non-trivial: a graph was cyclic and later acyclic; '
        'distinct by sequence')
MINIMA = {'cyclic_runs': 350, 'acyclic_runs': 600, 'recovered': 200, 'cycles_created': 200, 'cyclic_base': 60,
          'partly_cyclic': 200, 'self_edges': 100, 'sets_observed': 3000, 'warned': 200}


def case(ctx, rng):
    m = gs()
    g = no_self(gen_digraph(rng, 2, 6)) if rng.random() < .5 else gen_graph(rng, 2, 7, wide=False)
    names = sorted(g)
    lab = labeling(rng, names)
    conds = gen_conds(rng, g, rng.choice([0, .3, .6]), depth=1)
    if rng.random() < .2:
        # nodes that are senders of themselves are no cycle of several nodes;
        # they have conditions, because they don't run by default
        for n in rng.sample(names, rng.randint(1, 2)):
            g[n].add(n)
            if n not in conds:
                conds[n] = rng.choice([('Always',), ('CustomPass', 2, rng.randrange(2))])
        ctx.count('self_edges')
    log = [show_graph(g), describe({'graph': {}, 'conds': conds})['conds'], {k: repr(v) for k, v in lab.items()}]
    ctx.desc = log
    real = {lab[n]: build(c, m, lambda x: lab[x]) for n, c in conds.items()}
    cyc = layers(g) is None
    mode = 'EXACT_TIME' if rng.random() < .2 else 'STANDARD'
    kw = {'mode': getattr(m.SchedulingMode, mode)} if mode != 'STANDARD' or rng.random() < .3 else {}
    log.append(mode)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        if rng.random() < .3:
            s = m.Scheduler(nx_of(g, lab), conditions=real, **kw)
        else:
            s = m.Scheduler(relabel_graph(rng, g, lab), conditions=real, **kw)
    if cyc:
        ctx.count('cyclic_base')
        ctx.count('warned', bool(rec))
        ctx.check(rec, 'no warning at construction with a cyclic graph')
    items = []
    cur = {k: set(v) for k, v in g.items()}
    was_cyclic = cyc
    recovered = False
    k = 0

    def fold():
        h = {n: set(v) for n, v in g.items()}
        for kind, a, b, _ in items:
            if kind == 'add':
                h[b].add(a)
            elif kind == 'drop':
                h[b].discard(a)
            elif kind == 'clear':
                h[b] = set()
        return h

    def change():
        nonlocal cur
        r = rng.random()
        pairs = [(a, b) for a in names for b in names if a != b]
        before = layers(cur) is None
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            if r < .35:
                a, b = rng.choice(pairs)
                if rng.random() < .6 and not before:
                    back = [(x, y) for x, y in pairs if x in reach(cur, y) or x == y]
                    a, b = rng.choice(back or pairs)
                log.append(('add', a, b))
                items.append(['add', a, b, s.add_graph_edge(lab[a], lab[b])])
            elif r < .7:
                es = sorted(e for e in edges(cur) if e[0] != e[1])
                if before and rng.random() < .8:
                    es = [(x, y) for x, y in es if x in reach(cur, y)]
                if not es:
                    return
                a, b = rng.choice(es)
                log.append(('drop', a, b))
                items.append(['drop', a, b, s.remove_graph_edge(lab[a], lab[b])])
            elif r < .8:
                b = rng.choice(names)

                def fn(graph):
                    graph[lab[b]] = set()
                    return graph
                c = m.CustomGraphStructureCondition(fn)
                log.append(('clear', b))
                items.append(['clear', None, b, c])
                s.add_condition(lab[rng.choice(names)], c)
            elif items:
                it = items.pop(rng.randrange(len(items)))
                log.append(('undo', *it[:3]))
                s.remove_condition(it[3])
                s.graph
        cur = fold()
        if layers(cur) is None and not before and log[-1][0] != 'undo':
            # going back to a graph that was reported before is silent
            ctx.count('cycles_created')
            ctx.count('warned', bool(rec))
            ctx.check(rec, lambda: f'no warning when {log[-1]} creates a cycle')

    def attempt():
        nonlocal was_cyclic, recovered, k
        lay = layers(cur)
        eid = rng.choice(['x', 'y', None])
        if lay is None:
            was_cyclic = True
            ctx.count('cyclic_runs')
            free = [n for n in names if not cur[n]]
            ctx.count('partly_cyclic', bool(free))
            log.append('run (cyclic)')
            before = state_of(s)
            run = s.run() if eid is None else s.run(execution_id=eid)
            try:
                x = next(run)
            except m.SchedulerError:
                pass
            except StopIteration:
                ctx.fail(f'a run of cyclic graph {show_graph(cur)} ends without error')
            else:
                ctx.fail(f'a run yields {x} on cyclic graph {show_graph(cur)}')
            after = state_of(s)
            ctx.check(after == before, lambda: f'a rejected run changes the state from {before} to {after}')
        else:
            k += 1
            ctx.count('acyclic_runs')
            if was_cyclic:
                recovered = True
                ctx.count('recovered')
            log.append('run')
            sc = {'graph': cur, 'conds': conds, 'lab': lab, 'mode': mode,
                  'steps': [('run', None, rng.choice([3, 12, 25])) for _ in range(rng.choice([1, 2]))]}
            drv = Driver(ctx, sc, rng, sched=s)
            drv.steps(eid=('new', k))
    for _ in range(rng.randint(2, 9)):
        if rng.random() < .6:
            attempt()
        change()
    # finally without cycle
    while layers(cur) is None:
        es = [(x, y) for x, y in sorted(edges(cur)) if x != y and x in reach(cur, y)]
        a, b = rng.choice(es)
        log.append(('drop', a, b))
        items.append(['drop', a, b, s.remove_graph_edge(lab[a], lab[b])])
        cur = fold()
    attempt()
    if recovered:
        ctx.distinct(str(log))
        ctx.sample(str(log)[:800])



GROUPS = {'case': (case, 1500, 16000)}
