"""Inputs are not changed, observation has no effect."""
import copy
import random

from ..drive import Driver, build_term, describe, gs, nx_of, state_of
from ..gen import gen_abs_scenario, gen_cond, gen_graph, gen_scenario, gen_seq_term, gen_term, labeling
from ..gscgen import gen_gsc, layers, no_self, show_graph
from ..model import ESEQ, ESU, build, walk

PROPERTY = 'C28'
LEVEL = 'exploration'
RULE = ('(a) two schedulers built from one graph object (dependency dict with sets, lists, tuples, frozensets, single nodes or '
        'missing keys, or networkx graph with attributes), condition dict, list or set and termination dicts, structure '
        'conditions with option dicts added, runs with override dicts; all inputs compared deeply (order, identity, types) '
        'with snapshots after each operation, the passed graph changed in between, both schedulers compared with the '
        'reference automaton; (b) scenarios run twice, once with random observations between and during runs, yields '
        'compared with the automaton and each other, counts, history and time before and after each observation. '
        'Non-trivial: an input had option or termination dicts, or at least 10 observations; distinct by scenario')
MINIMA = {'snapshots': 8000, 'graph_changes': 800, 'observations': 4500, 'condition_evaluations': 1900,
          'sets_observed': 8800, 'twins': 150, 'option_dicts': 57, 'nx_graphs': 110}


# ------------------------------------------------------------------ inputs
def freeze(x):
    """deep snapshot with order, types and identities"""
    import networkx as nx
    if isinstance(x, nx.DiGraph):
        return ('nx', [(id(n), freeze(d)) for n, d in x.nodes.items()],
                [(id(a), id(b), freeze(d)) for (a, b), d in x.edges.items()], freeze(x.graph))
    if isinstance(x, dict):
        return (type(x), [(id(k), freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x), [freeze(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return (type(x), sorted(id(v) for v in x))
    if isinstance(x, gs().ConditionSet):
        return ('set', freeze(x.conditions_basic), freeze(x.conditions_structural), [id(c) for c in x.structural_condition_order])
    return (type(x), id(x))


class Inputs:
    def __init__(self, ctx):
        self.ctx = ctx
        self.items = []

    def add(self, name, x):
        self.items.append((name, x, freeze(x), repr(x)))
        return x

    def refresh(self, x):
        self.items = [(n, y, freeze(y), repr(y)) if y is x else (n, y, f, r) for n, y, f, r in self.items]

    def check(self, after):
        for name, x, f, r in self.items:
            self.ctx.count('snapshots')
            self.ctx.check(freeze(x) == f, lambda: f'{name} changed by {after}: {r} is now {x!r}')


def written_graph(ctx, rng, g, lab):
    """the graph in one of the accepted forms"""
    if rng.random() < .3:
        ctx.count('nx_graphs')
        d = nx_of(g, lab)
        for n in d.nodes:
            if rng.random() < .4:
                d.nodes[n]['color'] = 'red'
        for e in d.edges:
            if rng.random() < .4:
                d.edges[e]['weight'] = 2
        d.graph['title'] = 'x'
        return d
    res = {}
    used = {x for v in g.values() for x in v}
    names = list(g)
    rng.shuffle(names)
    for n in names:
        if not g[n] and n in used and rng.random() < .4:
            continue
        vals = [lab[x] for x in sorted(g[n])]
        form = rng.choice([set, set, set, list, tuple, frozenset])
        if len(vals) == 1 and isinstance(vals[0], str) and rng.random() < .2:
            res[lab[n]] = vals[0]
        else:
            res[lab[n]] = form(vals)
    return res


def change_graph(rng, graph, lab):
    import networkx as nx
    nodes = list(lab.values())
    if isinstance(graph, nx.DiGraph):
        r = rng.random()
        if r < .4:
            graph.add_edge(rng.choice(nodes), rng.choice(nodes))
        elif r < .6:
            graph.add_edge(rng.choice(nodes), 'new node')
        elif r < .8:
            graph.remove_nodes_from(rng.sample(list(graph.nodes), min(1, len(graph.nodes))))
        else:
            graph.clear()
        return
    keys = list(graph)
    r = rng.random()
    if r < .5 and any(isinstance(graph[k], set) for k in keys):
        k = rng.choice([k for k in keys if isinstance(graph[k], set)])
        if rng.random() < .3:
            graph[k].clear()
        else:
            graph[k].add(rng.choice(nodes))
    elif r < .65 and any(isinstance(graph[k], list) for k in keys):
        graph[rng.choice([k for k in keys if isinstance(graph[k], list)])].append(rng.choice(nodes))
    elif r < .8 and keys:
        del graph[rng.choice(keys)]
    else:
        graph['new node'] = {rng.choice(nodes)}


def inputs(ctx, rng):
    m = gs()
    g = gen_graph(rng, 1, 6)
    names = sorted(g)
    lab = labeling(rng, names)
    inp = Inputs(ctx)
    graph = inp.add('graph', written_graph(ctx, rng, g, lab))
    log = []
    ctx.desc = {'graph': g, 'labels': {k: repr(v) for k, v in lab.items()}, 'form': repr(graph), 'log': log}
    worlds = []
    rich = False
    for k in range(rng.choice([1, 2, 2])):
        conds = {n: gen_cond(rng, names, 1) for n in names if rng.random() < .6}
        conds = {n: c for n, c in conds.items() if not any(x[0] == 'EveryNCalls' and x[1] == n for x in walk(c))}
        sc = {'graph': g, 'conds': conds, 'lab': lab, 'mode': 'STANDARD', 'steps': []}
        if rng.random() < .6:
            sc['term'] = {ESU: gen_term(rng, names)}
            if rng.random() < .4:
                sc['term'][ESEQ] = gen_seq_term(rng, names)
        real = {lab[n]: build(c, m, lambda x: lab[x]) for n, c in conds.items()}
        kw = {}
        if 'term' in sc:
            rich = True
            kw['termination_conds'] = inp.add('termination_conds', build_term(sc['term'], lab, rng))
        form = rng.choice(['dict', 'list', 'set', 'tuple'])
        if form == 'list':
            real = {n: [c] for n, c in real.items()}
        elif form == 'tuple':
            real = {n: (c,) for n, c in real.items()}
        elif form == 'set':
            real = m.ConditionSet(real)
        inp.add('conditions', real)
        how = rng.choice(['init', 'init', 'add', 'nothing'])
        if how == 'init':
            kw['conditions'] = real
        s = m.Scheduler(graph, **kw)
        if how == 'add':
            s.add_condition_set(real)
        elif how == 'nothing':
            sc['conds'] = {}
        inp.check('construction')
        worlds.append({'sc': sc, 's': s, 'items': [], 'g': {k: set(v) for k, v in g.items()}, 'drv': None, 'ctx': 0})
    ctx.desc['schedulers'] = [describe(w['sc']) for w in worlds]
    for i in range(rng.randint(3, 10)):
        w = rng.choice(worlds)
        s, sc = w['s'], w['sc']
        op = rng.choice(['run', 'run', 'run', 'gsc', 'gsc', 'undo', 'change', 'change', 'term', 'read'])
        log.append((worlds.index(w), op))
        if op == 'run':
            cur = w['g']
            lay = layers(cur)
            if lay is None or no_self(cur) != cur:
                continue
            sc2 = {**sc, 'graph': cur}
            drv = w['drv']
            if drv is None or drv.sc['graph'] != cur or drv.sc.get('term') != sc.get('term') or rng.random() < .3:
                drv = w['drv'] = Driver(ctx, sc2, rng, sched=s)
                w['ctx'] += 1
            over = {ESU: gen_term(rng, names)} if rng.random() < .6 else None
            if over and rng.random() < .4:
                over[ESEQ] = gen_seq_term(rng, names)
            eid = f'context {w["ctx"]}'
            log.append(('run', over))
            kw = {}
            if over:
                rich = True
                kw['termination_conds'] = inp.add('termination_conds of a run', build_term(over, lab, rng))
            run = drv.start(over, eid)
            # with the recorded dict
            run.gen.close()
            run.gen = s.run(execution_id=eid, **kw)
            for _ in range(rng.randint(1, 12)):
                if run.next() is None:
                    break
                if rng.random() < .2:
                    change_graph(rng, graph, lab)
                    inp.refresh(graph)
                    ctx.count('graph_changes')
                inp.check('a run')
            else:
                run.close()
        elif op == 'gsc' and len(names) > 1:
            spec = gen_gsc(rng, names, flags=('prune_cycles',), ops_p=.3)
            kw = {}
            for a, v in spec.items():
                if isinstance(v, dict):
                    kw[a] = inp.add(f'{a} of {spec["kind"]}', {lab[n]: rng.choice([getattr(m.Operation, o), o.lower()]) for n, o in v.items()})
                    rich = True
                    ctx.count('option_dicts')
                elif a not in ('kind', 'owner', 'nodes'):
                    kw[a] = v if isinstance(v, bool) else getattr(m.Operation, v)
            c = getattr(m, spec['kind'])(*[lab[n] for n in spec['nodes']], **kw)
            try:
                s.add_condition(lab[spec['owner']], c)
            except m.ConditionError:
                s.remove_condition(c)
                continue
            inv = {v: k for k, v in lab.items()}
            w['items'].append((c, w['g']))
            w['g'] = {inv[k]: {inv[x] for x in v} for k, v in s.graph.items()}
        elif op == 'undo' and w['items']:
            c, before = w['items'].pop()
            s.remove_condition(c)
            w['g'] = before
        elif op == 'change':
            change_graph(rng, graph, lab)
            inp.refresh(graph)
            ctx.count('graph_changes')
        elif op == 'term':
            rich = True
            term = {ESU: gen_term(rng, names)}
            if rng.random() < .4:
                term[ESEQ] = gen_seq_term(rng, names)
            s.termination_conds = inp.add('termination_conds assigned', build_term(term, lab, rng))
            sc["term"] = {**sc.get("term", {}), **term}
            w['sc'] = sc
        for w2 in worlds:
            real = w2['s'].graph
            exp = {lab[n]: {lab[x] for x in v} for n, v in w2['g'].items()}
            ctx.check(real == exp, lambda: f'graph of scheduler {worlds.index(w2)} is {real} instead of {show_graph(w2["g"])}')
        inp.check(op)
    if rich:
        ctx.distinct(ctx.desc)


# ------------------------------------------------------------- observation
def has_nwhen(c):
    return any(x[0] == 'NWhen' for x in walk(c))


def observe(ctx, rng, drv, eid, conds):
    """a random observation of the scheduler"""
    m = gs()
    s = drv.sched
    ctx.count('observations')
    rid = s.default_execution_id if eid is None else eid
    nodes = list(drv.lab.values())
    k = rng.randrange(-6, 22)
    if k < 6:
        c = rng.choice(conds)
        ctx.count('condition_evaluations')
        e = rng.choice([rid, rid, 'never used'])
        kw = {}
        if rng.random() < .4:
            # further arguments of this evaluation only, also those of custom conditions
            kw = {rng.choice([*getattr(c, 'kwargs', {}), 'other', 'other']): rng.choice([None, 0, 'x'])}
        try:
            c.is_satisfied(scheduler=s, execution_id=e, **kw)
        except Exception:
            # e.g. without clock or counts
            pass
        return f'evaluating {c}'
    if k == 6:
        return str([s.graph, s.dependency_dict]) and 'graph'
    if k == 7:
        return str([s.consideration_queue, s.consideration_queue_indices]) and 'consideration_queue'
    if k == 8:
        c = s.get_clock(rng.choice([rid, 'never used']))
        repr(c)
        return repr([c.time, c.simple_time, c.previous_time]) and 'clock'
    if k == 9:
        c = s.get_clock(rid)
        q, b = sorted(rng.sample(range(5), 2))
        try:
            c.get_total_times_relative(m.TimeScale(q), m.TimeScale(b))
        except Exception:
            pass
        return 'get_total_times_relative'
    if k == 10:
        return [repr(dict(s.counts_total)), repr(dict(s.counts_useable))] and 'counts'
    if k == 11:
        for e in list(s.counts_total):
            for ts in m.TimeScale:
                s.counts_total[e][ts][rng.choice(nodes)]
        return 'counts'
    if k == 12:
        return [repr(s.conditions), str(s.conditions), s.conditions.conditions] and 'conditions'
    if k == 13:
        return [str(c) + repr(c) for c in conds] and 'strings'
    if k == 14:
        s.get_absolute_conditions()
        return 'get_absolute_conditions'
    if k == 15:
        for c in conds:
            c.is_absolute, c.absolute_intervals, c.absolute_fixed_points, c.owner
        return 'absolute intervals'
    if k == 16:
        n = rng.choice(nodes)
        n in s, n in s.conditions, list(s.conditions), s.conditions.conditions.get(n), list(s.nodes)
        return 'containment'
    if k == 17:
        return [repr(s), s.mode, s.termination_conds, s.default_absolute_time_unit, s.default_execution_id] and 'attributes'
    if k == 18:
        return [repr(s.execution_list), repr(s.execution_timestamps), s.date_last_run_end] and 'history'
    if k == 19:
        copy.copy(s.get_clock(rid).time)
        copy.deepcopy(s.graph)
        return 'copies'
    if k == 20:
        g = s.graph
        m.clone_graph(g), m.dependency_dict_to_networkx_digraph(g), m.get_receivers(g), m.get_ancestors(g), m.get_descendants(g)
        return 'functions of the graph'
    t = s.get_clock(rid).time
    for ts in m.TimeScale:
        t[ts], s.get_clock(rid).get_time_by_time_scale(ts)
    return 'times'


def scenario(rng):
    if rng.random() < .35:
        return gen_abs_scenario(rng, rng.choice(['STANDARD', 'STANDARD', 'EXACT_TIME']), nmax=5, runs=3)
    return gen_scenario(rng, nmax=5, runs=3, p=.8)


def all_conditions(drv, sched):
    conds = []

    def add(c):
        if isinstance(c, gs().NWhen):
            return
        comp = list(getattr(c, 'args', ())) if isinstance(c, gs().condition.CompositeCondition) else []
        if not any(isinstance(x, gs().NWhen) for x in comp):
            conds.append(c)
        for x in comp:
            if isinstance(x, gs().Condition):
                add(x)
    for c in list(sched.conditions.conditions_basic.values()) + list(sched.termination_conds.values()):
        add(c)
    return conds


def observed(ctx, rng):
    sc = scenario(rng)
    ctx.desc = describe(sc)
    seed = rng.random()
    eid = rng.choice([None, 'e'])
    results = []
    n_obs = 0
    for watched in (True, False):
        drv = Driver(ctx, sc, random.Random(seed))
        s = drv.sched
        hist = []
        conds = all_conditions(drv, s)
        if not conds:
            conds = [gs().Always()]

        def look(times, run=None):
            nonlocal n_obs, conds
            if not watched:
                return
            for _ in range(times):
                if rng.random() < .3 and s.conditions.conditions_basic:
                    conds = all_conditions(drv, s) or conds
                before = state_of(s)
                what = observe(ctx, rng, drv, eid, conds)
                n_obs += 1
                now = state_of(s)
                ctx.check(now == before, lambda: f'{what} changed counts, history or time: '
                          f'{ {k: (before.get(k), now.get(k)) for k in {**before, **now} if before.get(k) != now.get(k)} }')

        def on_yield(d, run, obs):
            hist.append(obs)
            if rng.random() < .6:
                look(rng.randint(1, 3), run)
        look(rng.randint(0, 3))
        drv.steps(on_yield, eid=eid, after_step=lambda d, step: (hist.append(step[0]), look(rng.randint(0, 3))))
        results.append(hist)
    ctx.count('twins')
    ctx.check(results[0] == results[1], lambda: f'observed: {results[0]}, not observed: {results[1]}')
    if n_obs >= 10:
        ctx.distinct(ctx.desc)


GROUPS = {'inputs': (inputs, 1500, 24000), 'observed': (observed, 600, 10000)}
