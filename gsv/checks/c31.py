"""Invalid specifications are rejected where they are given."""
import warnings
from fractions import Fraction

import networkx as nx

from ..core import Skip
from ..drive import Driver, describe, gs, state_of
from ..gen import gen_abs_scenario, gen_scenario, labeling
from ..gscgen import OPS
from ..model import CALL_CONDS, TIME_CONDS
from ..monitors import check_clock, check_history

PROPERTY = 'C31'
LEVEL = 'exploration'
RULE = ('specifications generated valid or invalid by an independent rule (intervals in random units, comparators, '
        'parameters, validators, nodes and operations of structure conditions, graphs, termination conditions, units of '
        'time asked of a clock): invalid ones must raise the documented error, valid ones must be accepted; and invalid '
        'requests of every kind between the sets of running scenarios, after which conditions, graph, counts and history must '
        'be as before and the runs must go on like the reference automaton. Non-trivial: an invalid request; distinct by '
        'specification')
MINIMA = {'intervals_rejected': 200, 'intervals_accepted': 200, 'thresholds_rejected': 150, 'thresholds_accepted': 100,
          'structures_rejected': 300, 'structures_accepted': 200, 'graphs_rejected': 30, 'terminations_rejected': 120,
          'terminations_accepted': 60, 'evaluations_rejected': 150, 'clock_rejected': 100, 'requests': 2000,
          'unknown_bases': 100, 'sets_observed': 3000}

UNITS = {'s': 0, 'ms': -3, 'us': -6, 'ns': -9, 'ks': 3}


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def written(rng, m, n, unit):
    """n units as accepted by conditions, and the value of unit"""
    u = getattr(m._unit_registry, unit)
    r = rng.random()
    if r < .35:
        return f'{n} {unit}' if rng.random() < .5 else f'{n}{unit}'
    if r < .7:
        return n * u
    return Fraction(n) * u if rng.random() < .3 else float(n) * u


def interval(ctx, rng):
    m = gs()
    kw, val = {}, {}
    bare = rng.choice([*UNITS, None])
    close = rng.random() < .5
    base = rng.randint(1, 9) * 10 ** rng.randint(0, 3)
    for k in ('repeat', 'start', 'end'):
        if rng.random() < .65:
            u = rng.choice(list(UNITS))
            n = rng.randint(0 if k != 'repeat' else 1, 60)
            if close and k != 'repeat':
                # about the same time in different units
                u = rng.choice(['ms', 'us', 'ns'])
                n = base * 10 ** (-3 - UNITS[u]) + rng.choice([-1, 0, 0, 1])
            if bare is not None and rng.random() < .4:
                kw[k] = rng.choice([n, str(n)])
                u = bare
            else:
                kw[k] = written(rng, m, n, u)
            val[k] = n * Fraction(10) ** UNITS[u]
    for k in ('start_inclusive', 'end_inclusive'):
        if rng.random() < .3:
            kw[k] = rng.random() < .5
    if bare is not None:
        kw['unit'] = bare if rng.random() < .5 else getattr(m._unit_registry, bare)
    ctx.desc = {k: str(v) for k, v in kw.items()}
    bad = not val or ('start' in val and 'end' in val and val['start'] > val['end'])
    c, e = attempt(lambda: m.TimeInterval(**kw))
    ctx.count('intervals_rejected' if bad else 'intervals_accepted')
    if bad:
        ctx.distinct('interval', ctx.desc)
        ctx.check(isinstance(e, m.ConditionError), lambda: f'TimeInterval({ctx.desc}) gives {e or c}, not a condition error')
    else:
        ctx.check(e is None, lambda: f'TimeInterval({ctx.desc}) is rejected: {e!r}')
        ctx.check(c.is_absolute, f'TimeInterval({ctx.desc}) is not absolute')


class Node:
    pass


def threshold(ctx, rng):
    m = gs()
    node = Node()
    for a in ('value', 'other'):
        setattr(node, a, rng.choice([1.0, 0, [1.0, 2.0], None]))
    param = rng.choice(['value', 'other', 'missing', 'Value', 'value_', ''])
    comp = rng.choice(['<', '<=', '>', '>=', '==', '!=', '=', '=<', '=>', '<>', '', '===', 'lt', '> ', None, 'is', '=='])
    calls = []
    kw = {}
    validator = rng.random() < .4
    refuse = rng.random() < .5

    class Refused(Exception):
        pass

    def validate(dependency, parameter):
        calls.append((dependency, parameter))
        if refuse:
            raise Refused()
    if validator:
        kw['custom_parameter_validator'] = validate
    if rng.random() < .5:
        kw['custom_parameter_getter'] = lambda dependency, parameter: 1
    if rng.random() < .5:
        kw['indices'] = rng.choice([0, 1, [0], (1,), None])
    if rng.random() < .3:
        kw['atol' if rng.random() < .5 else 'rtol'] = .1
    ctx.desc = {'parameter': param, 'comparator': comp, **{k: str(v) for k, v in kw.items()}, 'refuse': refuse}
    bad_param = refuse if validator else param not in ('value', 'other')
    bad_comp = comp not in ('<', '<=', '>', '>=', '==', '!=')
    c, e = attempt(lambda: m.Threshold(node, param, 1, comp, **kw))
    ctx.count('thresholds_rejected' if bad_param or bad_comp else 'thresholds_accepted')
    if validator:
        ctx.check(calls == [(node, param)] or (calls == [] and bad_comp), lambda: f'validator called with {calls}')
    if bad_param or bad_comp:
        ctx.distinct('threshold', ctx.desc)
        good = isinstance(e, m.ConditionError) or (validator and refuse and isinstance(e, Refused))
        ctx.check(good, lambda: f'Threshold {ctx.desc} gives {e!r}, {c}')
    else:
        ctx.check(e is None, lambda: f'Threshold {ctx.desc} is rejected: {e!r}')


def structure(ctx, rng):
    m = gs()
    names = list('ABCDEFGHI')
    lab = labeling(rng, names)
    kind = rng.choice(['BeforeNodes', 'AfterNodes', 'BeforeNode', 'AfterNode', 'WithNode', 'AddEdgeTo', 'RemoveEdgeFrom',
                       'Custom'])
    if kind == 'Custom':
        arg = rng.choice([None, 5, 'x', {}, lambda graph: graph, lambda self, graph: graph, dict, Node])
        ctx.desc = ('Custom', str(arg))
        c, e = attempt(lambda: m.CustomGraphStructureCondition(arg))
        bad = not callable(arg)
    else:
        single = kind not in ('BeforeNodes', 'AfterNodes')
        k = rng.choice([0, 1, 1, 1, 2, 3]) if single or rng.random() < .8 else rng.randint(4, len(names) - 1)
        if kind == 'WithNode':
            k = 1
        nodes = [lab[n] for n in rng.sample(names, k)]
        bad = k == 0 or (single and k > 1)
        if k and rng.random() < (.25 if k < 4 else .4):
            nodes[rng.randrange(k)] = rng.choice([[], {}, set(), ([],), bytearray(b'')])
            bad = True
            hashable = [x for x in nodes if not isinstance(x, (list, dict, set, tuple, bytearray)) or x in ()]
        else:
            hashable = nodes
        kw = {}
        if kind not in ('AddEdgeTo', 'RemoveEdgeFrom'):
            args = ['subject_receivers'] if kind == 'WithNode' else ['subject_senders', 'subject_receivers']
            for a in args:
                r = rng.random()
                if r < .5 and len(hashable) == len(nodes) and k:
                    d = {x: rng.choice(OPS) for x in nodes}
                    if r < .1:
                        del d[rng.choice(nodes)]
                        bad = True
                    elif r < .2:
                        d[rng.choice([lab[n] for n in names if lab[n] not in nodes])] = rng.choice(OPS)
                        bad = True
                    elif r < .25 and k > 1:
                        x = rng.choice(nodes)
                        del d[x]
                        d[rng.choice([lab[n] for n in names if lab[n] not in nodes])] = rng.choice(OPS)
                        bad = True
                    for x in list(d):
                        if isinstance(d[x], str) and rng.random() < .5:
                            d[x] = m.Operation[d[x].upper()]
                    kw[a] = d
                elif r < .7:
                    kw[a] = rng.choice(OPS)
        ctx.desc = (kind, [repr(x) for x in nodes], {a: str(b) for a, b in kw.items()})
        c, e = attempt(lambda: getattr(m, kind)(*nodes, **kw))
    ctx.count('structures_rejected' if bad else 'structures_accepted')
    if bad:
        ctx.distinct('structure', ctx.desc)
        ctx.check(isinstance(e, m.ConditionError), lambda: f'{ctx.desc} gives {e!r}, {c}')
    else:
        ctx.check(e is None, lambda: f'{ctx.desc} is rejected: {e!r}')


BAD_GRAPHS = ['None', 'Graph', 'MultiGraph']


def bad_terms(rng, m):
    ts = rng.choice(list(m.TimeScale))
    good = {rng.choice([t for t in m.TimeScale if t is not ts]): m.AfterPass(3)} if rng.random() < .5 else {}
    bad = rng.choice([{ts: 5}, {ts: None}, {ts: True}, {ts: lambda: True}, {ts: m.BeforeNode('x')}, {ts: [m.Always()]},
                      {ts.name: 5}, {ts.name.lower(): m.AddEdgeTo('x')},
                      {'NO_SCALE': m.Always()}, {5: m.Always()}, {None: m.Always()}, {'': m.Always()},
                      {m.TimeScale: m.Always()}, {ts.name + '_': m.Always()}, {m.Always(): ts}])
    return {**good, **bad} if rng.random() < .5 else {**bad, **good}


def graphs(ctx, rng):
    """graphs and termination conditions given to a new scheduler"""
    m = gs()
    g = {'A': set(), 'B': {'A'}}
    if rng.random() < .3:
        kind = rng.choice(BAD_GRAPHS)
        arg = {'None': None, 'Graph': nx.Graph(), 'MultiGraph': nx.MultiGraph()}[kind]
        if arg is not None:
            arg.add_edge('A', 'B')
        ctx.desc = ('graph', kind)
        s, e = attempt(lambda: m.Scheduler(arg))
        ctx.count('graphs_rejected')
        ctx.check(isinstance(e, m.SchedulerError), lambda: f'graph {kind} gives {e!r}, {s}')
        return
    if rng.random() < .4:
        ts = rng.choice(list(m.TimeScale))
        key = rng.choice([ts, ts.name, ts.name.lower(), ts.name.title()])
        cond = rng.choice([m.Always(), m.All(m.AfterPass(2)), m.Condition(lambda: True), m.TimeTermination('5ms')])
        ctx.desc = ('termination', str(key), str(cond))
        ctx.count('terminations_accepted')
        s, e = attempt(lambda: m.Scheduler(g, termination_conds={key: cond}))
        ctx.check(e is None and s.termination_conds[ts] is cond, lambda: f'{ctx.desc} gives {e!r}')
        return
    bad = bad_terms(rng, m)
    ctx.desc = ('termination', {str(k): str(v) for k, v in bad.items()})
    ctx.count('terminations_rejected')
    ctx.distinct(ctx.desc)
    s, e = attempt(lambda: m.Scheduler(g, termination_conds=bad))
    ctx.check(isinstance(e, (TypeError, m.SchedulerError)), lambda: f'{ctx.desc} gives {e!r}, {s}')


def evaluation(ctx, rng):
    """conditions on time or calls evaluated without a scheduler"""
    m = gs()
    kind = rng.choice([*TIME_CONDS, *CALL_CONDS, 'EveryNCalls', 'JustRan', 'AllHaveRun', 'AfterNCallsCombined',
                       'combined without n'])
    n = rng.randint(0, 4)
    ctx.desc = (kind, n)
    ctx.count('evaluations_rejected')
    ctx.distinct(ctx.desc)
    if kind in TIME_CONDS:
        c = getattr(m, kind)(n)
    elif kind in CALL_CONDS:
        c = getattr(m, kind)('A', n)
    elif kind == 'EveryNCalls':
        c = m.EveryNCalls('A', n)
    elif kind == 'JustRan':
        c = m.JustRan('A')
    elif kind == 'AllHaveRun':
        c = m.AllHaveRun('A')
    elif kind == 'AfterNCallsCombined':
        c = m.AfterNCallsCombined('A', 'B', n=n)
    else:
        c = m.AfterNCallsCombined('A', 'B')
        s = m.Scheduler({'A': set(), 'B': {'A'}})
        next(s.run())
        r, e = attempt(lambda: c.is_satisfied(scheduler=s, execution_id=s.default_execution_id))
        ctx.check(isinstance(e, m.ConditionError), lambda: f'without n: {e!r}, {r}')
        return
    kw = {'execution_id': None} if rng.random() < .5 else {}
    if rng.random() < .5:
        kw['scheduler'] = None
    r, e = attempt(lambda: c.is_satisfied(**kw))
    ctx.check(isinstance(e, m.ConditionError), lambda: f'{c} evaluated without scheduler gives {e!r}, {r}')


def clock(ctx, rng):
    """units of time asked of a clock"""
    m = gs()
    c = m.Clock()
    scales = sorted(m.TimeScale)
    for _ in range(rng.randint(0, 25)):
        c._increment_time(rng.choice(scales[:-1]))
    q, b = rng.choice(scales), rng.choice(scales)
    before = str(c.history), repr(c.time)
    # the number of units of the base that have begun in the present ones
    begun = getattr(c.time, {0: 'consideration_set_execution', 1: 'pass_', 2: 'environment_state_update',
                             3: 'environment_sequence', 4: 'life'}[b.value]) + 1
    idx = rng.choice([None, begun, begun + 1, begun + 5, begun - 1, 0])
    ctx.desc = (str(c.time), str(q), str(b), idx)
    r, e = attempt(lambda: c.get_total_times_relative(q, b, idx))
    if q is m.TimeScale.LIFE or (b > q and b is not m.TimeScale.LIFE and idx is not None and idx >= begun):
        ctx.count('clock_rejected')
        ctx.distinct(ctx.desc)
        ctx.check(isinstance(e, m.time.TimeScaleError), lambda: f'{ctx.desc} gives {e!r}, {r}')
    ctx.check((str(c.history), repr(c.time)) == before, 'asking for times changed the clock')


KINDS = {'interval': interval, 'threshold': threshold, 'structure': structure, 'graphs': graphs, 'evaluation': evaluation,
         'clock': clock}


def construct(ctx, rng):
    KINDS[rng.choice(['interval', 'interval', 'threshold', 'structure', 'structure', 'graphs', 'graphs', 'evaluation', 'clock'])](
        ctx, rng)


# --------------------------------------------------------------- requests
def content(s):
    cs = s.conditions
    return (dict(cs.conditions_basic), {k: list(v) for k, v in cs.conditions_structural.items()}, list(cs.structural_condition_order),
            {k: v if not isinstance(v, list) else list(v) for k, v in cs.conditions.items()},
            {k: set(v) for k, v in s.graph.items()}, [set(x) for x in s.consideration_queue], dict(s.termination_conds),
            s.mode, s.default_execution_id)


def request(ctx, rng, drv, log):
    """one invalid request; nothing may change"""
    m, s = gs(), drv.sched
    lab = drv.lab
    names = sorted(lab)
    n = lab[rng.choice(names)]
    kind = rng.choice(['owner', 'owner_set', 'owner_item', 'term', 'term_run', 'base', 'ownerless', 'edge', 'attribute', 'item_none',
                       'absent', 'move'])
    errors = (m.ConditionError,)
    other = [lab[x] for x in names if lab[x] is not n]
    fn = None
    obj = None
    if kind in ('owner', 'owner_set', 'owner_item', 'move'):
        k = rng.choice(['BeforeNodes', 'AfterNodes', 'BeforeNode', 'AfterNode', 'WithNode', 'AddEdgeTo', 'RemoveEdgeFrom'])
        subj = [n]
        if k.endswith('Nodes') and other and rng.random() < .5:
            more = rng.sample(other, rng.randint(1, len(other)))
            subj = more + subj
            rng.shuffle(subj)
            ctx.count('many_subjects', len(subj) >= 4)
        obj = getattr(m, k)(*subj)
        if kind == 'move' and len(other) > len(subj) - 1:
            obj.owner = [x for x in other if x not in subj][0]
        own = obj.owner
        fn = {'owner': lambda: rng.choice([s, s.conditions]).add_condition(n, obj),
              'move': lambda: setattr(obj, 'owner', n),
              'owner_set': lambda: rng.choice([s, s.conditions]).add_condition_set({n: rng.choice([obj, [obj]])}),
              'owner_item': lambda: s.conditions.__setitem__(n, obj)}[kind]
    elif kind == 'term':
        errors = (TypeError, m.SchedulerError)
        fn = lambda: setattr(s, 'termination_conds', bad_terms(rng, m))  # noqa: E731
    elif kind == 'term_run':
        errors = (TypeError, m.SchedulerError)
        known = list(s.counts_total)
        eid = rng.choice(known) if known else None
        if eid is None:
            return
        fn = lambda: next(s.run(termination_conds=bad_terms(rng, m), execution_id=eid))  # noqa: E731
    elif kind == 'base':
        if any(x not in s.conditions.conditions_basic for x in s.graph):
            # starting anything completes the conditions
            return
        errors = (m.SchedulerError,)
        eid = f'rejected {len(log)}'
        fn = lambda: next(s.run(execution_id=eid, base_execution_id=rng.choice(['no such', 77, (1, 2)])))  # noqa: E731
        ctx.count('unknown_bases')
    elif kind == 'ownerless':
        c = rng.choice([m.Always, lambda: m.EveryNCalls(n, 2), lambda: m.AddEdgeTo(n)])()
        fn = lambda: rng.choice([s, s.conditions]).remove_condition(c)  # noqa: E731
    elif kind == 'edge':
        fn = lambda: rng.choice([s.add_graph_edge, s.remove_graph_edge])(n, n)  # noqa: E731
    elif kind in ('attribute', 'item_none'):
        # no conditions at all
        errors = (Exception,)
        bad = rng.choice([None, 5, 'Always'])
        fn = lambda: rng.choice([s.conditions.__setitem__, s.conditions.add_condition])(n, bad)  # noqa: E731
    elif kind == 'absent':
        before = content(s)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = rng.choice([s, s.conditions]).remove_condition(object())
        ctx.check(r is None and w, f'removing conditions of an unknown node gives {r}, {len(w)} warnings')
        ctx.check(content(s) == before, 'removing conditions of an unknown node changed something')
        return
    before, state = content(s), state_of(s)
    _, e = attempt(fn)
    log.append(kind)
    ctx.count('requests')
    ctx.check(isinstance(e, errors), lambda: f'invalid request {kind} gives {e!r}')
    now = content(s)
    ctx.check(now == before, lambda: f'{kind} was rejected ({e!r}) but left {[(a, b) for a, b in zip(before, now) if a != b]}')
    if obj is not None:
        ctx.check(obj.owner is own, lambda: f'{kind} was rejected but the owner of the condition is now {obj.owner!r}')
    # what is said of a context that has not run is no matter
    now = {k: v for k, v in state_of(s).items() if k in state}
    ctx.check(now == state, lambda: f'{kind} was rejected ({e!r}) but counts, history or time changed: {state} to {now}')


def running(ctx, rng):
    if rng.random() < .25:
        sc = gen_abs_scenario(rng, nmax=4)
    else:
        sc = gen_scenario(rng, nmax=5, runs=3, p=.7)
    log = []
    ctx.desc = {**describe(sc), 'log': log}
    drv = Driver(ctx, sc, rng)
    m = gs()
    if rng.random() < .5:
        # something to lose: an edge that is present already
        es = [(drv.lab[a], drv.lab[r]) for r, ss in sc['graph'].items() for a in ss]
        if es:
            for a, b in rng.sample(es, min(2, len(es))):
                drv.sched.add_graph_edge(a, b)
            ctx.count('with_structure')
    for step in sc['steps']:
        if step[0] == 'seq':
            drv.sched.end_environment_sequence()
            drv.acceptor(None).end_sequence()
            continue
        run = drv.start(step[1], None)
        for _ in range(min(step[2], 12)):
            for _ in range(rng.choice([0, 1, 1, 2])):
                request(ctx, rng, drv, log)
            if run.next() is None:
                break
        else:
            run.close()
        real = drv.sched.execution_list[drv.sched.default_execution_id]
        ctx.check([drv.to_model(x) for x in real] == drv.history[None], 'the history differs from the sets yielded')
    # a context whose start was rejected starts anew
    eid = next((e for e in list(drv.sched.clocks) if isinstance(e, str) and e.startswith('rejected')), 'new')
    run = drv.start(None, eid)
    for _ in range(5):
        if run.next() is None:
            break
    else:
        run.close()
    check_history(ctx, drv, eid)
    check_clock(ctx, drv, eid)
    if not log:
        raise Skip()
    ctx.distinct(ctx.desc)


GROUPS = {'construct': (construct, 3000, 60000), 'running': (running, 500, 10000)}
