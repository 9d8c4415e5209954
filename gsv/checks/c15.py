"""Absolute time in exact time mode."""
from ..abstime import fixed_times, within
from ..core import Skip
from ..drive import Driver, describe, gs
from ..gen import gen_abs_scenario
from ..gscgen import build_gsc, cyclic, gen_gsc, show_graph
from ..model import layers_of, to_ps
from .c14 import changed as changed_in, watch

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('random schedulers in exact time mode with conditions on absolute time (repeat, start, end, termination, '
        'composites, fractional magnitudes, mixed units), 1-3 runs; sets compared with the reference automaton in exact '
        'arithmetic; independently of it: equal steps, every specified time between the first and last moment is among '
        'the moments, and nodes governed by one interval execute at exactly start + k * repeat within the bounds. '
        'Graph structure conditions added and removed before and during runs change nothing that executes, the indices are the '
        'layers of the graph, all nodes are one set. '
        'Non-trivial: a run with 4 moments and an executed interval; distinct by scenario')
MINIMA = {'timestamps': 4800, 'interval_nodes_checked': 800, 'interval_executions': 2000, 'ends_observed': 400,
          'specified_times_hit': 2000, 'long_timestamps': 3000, 'order_compared': 1000, 'sets_with_structure': 1000,
          'conditions_changed': 400}
ASSUMPTIONS = ['times are decimal multiples of picoseconds with at most 13 significant digits']


def check_exact(ctx, drv, run, seq):
    conds = drv.acceptor(None).sim.conds
    times = [t for t, _ in seq]
    considered = set(times)
    if len(times) > 1:
        step = times[1] - times[0]
        ctx.check(step > 0 and all(times[i] == times[0] + i * step for i in range(len(times))),
                  lambda: f'times {times} ps are not equally spaced')
    points, repeats = fixed_times([*conds.values(), *run.term.values()])
    for p in points:
        if times[0] <= p <= times[-1]:
            ctx.check(p in considered, lambda: f'specified time {p} ps is not among the moments {times[:40]}')
            ctx.count('specified_times_hit')
    for off, rep in repeats:
        k = max(0, -(-(times[0] - off) // rep))
        while off + k * rep <= times[-1]:
            ctx.check(off + k * rep in considered,
                      lambda: f'repeat time {off + k * rep} ps ({off} + {k} * {rep}) is not among the moments {times[:40]}')
            ctx.count('specified_times_hit')
            k += 1
    interesting = False
    for n, c in conds.items():
        if c[0] != 'TimeInterval':
            continue
        d = c[1]
        got = [t for t, s in seq if n in s]
        if d.get('repeat') is None:
            exp = [t for t in times if within(d, t)]
        else:
            off = to_ps(d['start']) if d.get('start') is not None else 0
            rep = to_ps(d['repeat'])
            exp = [t for t in times if (t - off) % rep == 0 and within(d, t)]
        ctx.check(got == exp, lambda: f'{n} with {c} executes at {got} ps, expected {exp} ps (moments {times[:40]})')
        ctx.count('interval_nodes_checked')
        ctx.count('interval_executions', len(got))
        interesting = interesting or bool(got)
    return interesting


def case(ctx, rng):
    sc = gen_abs_scenario(rng, 'EXACT_TIME', nmax=6, runs=3, aligned=rng.random() < .3, comp=rng.choice([0, .2, .4]))
    ctx.desc = describe(sc)
    if 'default_unit' in sc:
        ctx.desc['default_unit'] = sc['default_unit']
    hit = []
    drv, rounds = watch(ctx, rng, sc, lambda *a: hit.append(check_exact(ctx, *a)))
    for run, absolute, seq in rounds:
        for t, s in seq:
            ctx.check(s <= set(sc['graph']), 'nodes')
    if any(hit) and any(len(r[2]) >= 4 for r in rounds):
        ctx.distinct(ctx.desc)
        ctx.sample({'case': ctx.desc, 'times (ps)': [[(int(t), sorted(s)) for t, s in r[2][:6]] for r in rounds[:2]]})


def long(ctx, rng):
    """runs of hundreds of moments, times far from 0"""
    sc = gen_abs_scenario(rng, 'EXACT_TIME', nmax=4, runs=2, aligned=rng.random() < .5, comp=.2, far=rng.choice([20, 60]))
    ctx.desc = describe(sc)
    drv, rounds = watch(ctx, rng, sc, lambda *a: check_exact(ctx, *a))
    ctx.count('long_timestamps', sum(len(r[2]) for r in rounds if r[1]))
    ctx.distinct(ctx.desc)


def one_set(ctx, rng):
    """graph structure conditions change the graph and the order it suggests, but nothing that runs"""
    m = gs()
    for _ in range(20):
        sc = gen_abs_scenario(rng, 'EXACT_TIME', nmax=6, runs=2, aligned=rng.random() < .5, comp=rng.choice([0, .3]))
        if len(sc['conds']) == len(sc['graph']) > 1:
            break
    else:
        raise Skip()
    drv = Driver(ctx, sc, rng)
    sched, lab, inv = drv.sched, drv.lab, drv.inv
    present = []
    ctx.desc = {**describe(sc), 'structure conditions': [], 'after sets': []}
    nsets = 0

    def compare():
        g = {inv[k]: {inv[x] for x in v} for k, v in sched.graph.items()}
        q = sched.consideration_queue
        ctx.check(len(q) == 1 and set(q[0]) == set(lab.values()), lambda: f'considered together are {q}, expected all nodes')
        exp = {lab[n]: i for i, l in enumerate(layers_of(g)) for n in l}
        got = sched.consideration_queue_indices
        ctx.check(got == exp, lambda: f'indices are {got}, expected {exp}, the layers of {show_graph(g)}')
        ctx.count('order_compared')

    def edit():
        if present and rng.random() < .3:
            sched.remove_condition(present.pop(rng.randrange(len(present))))
            ctx.desc['structure conditions'].append('remove')
        else:
            spec = gen_gsc(rng, sc['graph'], ops_p=0, flag_p=0)
            c = build_gsc(m, spec, lab, rng)
            try:
                sched.add_condition(lab[spec['owner']], c)
                bad = cyclic(sched.graph)
            except m.condition.ConditionError:
                bad = True
            present.append(c)
            if bad:
                sched.remove_condition(present.pop())
                return
            ctx.desc['structure conditions'].append(f"{spec['kind']} {spec['owner']} {spec['nodes']}")
        # removal may let a cycle appear
        while True:
            try:
                if not cyclic(sched.graph):
                    break
            except m.condition.ConditionError:
                pass
            sched.remove_condition(present.pop())
        ctx.desc['after sets'].append(nsets)

    def observe(d, run, obs):
        nonlocal nsets
        nsets += 1
        ctx.count('sets_with_structure', bool(present))
        if rng.random() < .2:
            edit()
        if rng.random() < .2:
            compare()
    compare()
    for _ in range(rng.choice([1, 2, 4])):
        edit()
        compare()
    drv.steps(observe)
    compare()
    if nsets >= 3 and present:
        ctx.distinct(ctx.desc)


def changed(ctx, rng):
    changed_in(ctx, rng, 'EXACT_TIME')


GROUPS = {'case': (case, 1500, 26000), 'one_set': (one_set, 300, 6000), 'long': (long, 40, 1200),
          'changed': (changed, 250, 6000)}
