"""Absolute time in standard mode."""
from fractions import Fraction

from ..abstime import exact, in_force, same, within
from ..drive import Driver, describe, gs
from ..gen import gen_abs_scenario, gen_graph, gen_interval, labeling, spell
from ..model import ESU, fgcd, is_abs, layers_of, quantity, to_ps, walk

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('random schedulers in standard mode with conditions on absolute time (repeat, start, end, termination, composites, '
        'units ps to minutes, also mixed), 1-3 runs; sets compared with the reference automaton in exact rational '
        'arithmetic, and independently of it the timestamps (one per set, equal steps of gcd / layers, no drift) and the '
        'execution times of nodes governed by a repeat interval (exactly the multiples of repeat plus the offset of the '
        'layer within the bounds). Non-trivial: a run with at least 4 timestamps and an executed repeat interval; '
        'distinct by scenario')
MINIMA = {'timestamps': 5600, 'repeat_nodes_checked': 600, 'repeat_executions': 1500, 'ends_observed': 500,
          'long_steps': 5000, 'unaligned_starts': 89, 'long_timestamps': 3000, 'conditions_changed': 400}
ASSUMPTIONS = ['times are decimal multiples of picoseconds with at most 13 significant digits']


def watch(ctx, rng, sc, mode_check):
    """runs the scenario; records (time, set) per run and calls mode_check"""
    m = gs()
    drv = Driver(ctx, sc, rng)
    sched = drv.sched
    rounds = []
    total = 0

    def observe(d, run, obs):
        nonlocal total
        conds = [*d.acceptor(None).sim.conds.values(), *run.term.values()]
        absolute = any(is_abs(c) for c in conds)
        t = sched.get_clock().time
        ctx.check(t.absolute_enabled == absolute, lambda: f'absolute time enabled: {t.absolute_enabled}, expected {absolute}')
        stamps = sched.execution_timestamps[None]
        if not rounds or rounds[-1][0] is not run:
            rounds.append((run, absolute, []))
        if not absolute:
            ctx.check(len(stamps) == total, lambda: f'{len(stamps)} timestamps, {total} expected')
            return
        total += 1
        ctx.check(len(stamps) == total, lambda: f'{len(stamps)} timestamps for {total} sets')
        ctx.check(same(t.absolute, d.acceptor(None).states[0].abs),
                  lambda: f'time is {t.absolute}, expected {d.acceptor(None).states[0].abs} ps')
        ctx.check(same(stamps[-1].absolute, d.acceptor(None).states[0].abs) and stamps[-1] is not t,
                  lambda: f'timestamp {stamps[-1]} at time {t}')
        ctx.count('timestamps')
        rounds[-1][2].append((d.acceptor(None).states[0].abs, obs))
    drv.steps(observe)
    # timestamps once more, at the end: they must not have changed
    allt = [t for r in rounds if r[1] for t, _ in r[2]]
    stamps = sched.execution_timestamps.get(None, [])
    ctx.check(len(stamps) == len(allt) and all(same(s.absolute, t) for s, t in zip(stamps, allt)),
              lambda: f'timestamps {[s.absolute for s in stamps]} at the end, at the yields {allt} ps')
    ctx.check(m is not None, '')
    for run, absolute, seq in rounds:
        if absolute:
            mode_check(drv, run, seq)
    return drv, rounds


def standard(ctx, drv, run, seq):
    sc = drv.sc
    layers = layers_of(sc['graph'])
    conds = drv.acceptor(None).sim.conds
    term = in_force(sc, None)
    term.update({k: v for k, v in run.term.items()})
    repeats = [to_ps(x[1]['repeat']) for c in [*conds.values(), *term.values()] for x in walk(c)
               if x[0] == 'TimeInterval' and x[1].get('repeat') is not None]
    g = Fraction(0)
    for r in repeats:
        g = fgcd(g, r)
    step = g / len(layers) if g else to_ps(sc.get('default_unit', (1, 'ms')))
    times = [t for t, _ in seq]
    ctx.check(all(times[i] == times[0] + i * step for i in range(len(times))),
              lambda: f'times {times} ps are not equally spaced by {step} ps')
    if not g or len(layers) == 1:
        return False
    interesting = False
    ctx.check(times[0] % g == 0, lambda: f'first time {times[0]} ps is no multiple of {g} ps')
    for n, c in conds.items():
        if c[0] != 'TimeInterval' or c[1].get('repeat') is None:
            continue
        i = next(k for k, x in enumerate(layers) if n in x)
        off, rep = i * step, to_ps(c[1]['repeat'])
        got = [t for t, s in seq if n in s]
        exp = []
        k = -(-(times[0] - off) // rep)
        while off + k * rep <= times[-1]:
            t = off + k * rep
            if within(c[1], t):
                exp.append(t)
            k += 1
        ctx.check(got == exp, lambda: f'{n} in layer {i} with {c} executes at {got} ps, expected {exp} ps '
                                      f'(run from {times[0]} to {times[-1]} ps, {len(layers)} layers, gcd {g})')
        ctx.count('repeat_nodes_checked')
        ctx.count('repeat_executions', len(got))
        interesting = interesting or bool(got)
    return interesting


def case(ctx, rng):
    aligned = rng.random() < .75
    sc = gen_abs_scenario(rng, 'STANDARD', nmax=6, runs=3, aligned=aligned, comp=rng.choice([0, .2, .4]))
    ctx.desc = describe(sc)
    if 'default_unit' in sc:
        ctx.desc['default_unit'] = sc['default_unit']
    ctx.count('unaligned_starts', not aligned)
    hit = []
    drv, rounds = watch(ctx, rng, sc, lambda *a: hit.append(standard(ctx, *a)))
    if any(hit) and any(len(r[2]) >= 4 for r in rounds):
        ctx.distinct(ctx.desc)
        ctx.sample({'case': ctx.desc, 'times (ps)': [[(int(t), sorted(s)) for t, s in r[2][:6]] for r in rounds[:2]]})


def changed(ctx, rng, mode='STANDARD'):
    """conditions added or replaced between runs"""
    sc = gen_abs_scenario(rng, mode, nmax=4, runs=4, aligned=rng.random() < .75, comp=.2)
    tau = sc['tau']
    names = sorted(sc['graph'])
    steps = []
    for step in sc['steps'] + [('run', None, 15)]:
        if steps:
            for _ in range(rng.choice([0, 1, 1, 2])):
                far = rng.choice([1, 1, 5, 20])
                c = gen_interval(rng, tau, rng.choice([1, 2, 3]), lambda ps: spell(rng, ps), start_p=.7, aligned=True, far=far)
                if rng.random() < .2:
                    c = rng.choice([('Always',), ('Any', [c, ('Never',)]), ('Not', c), ('AfterPass', 0)])
                steps.append(('cond', rng.choice(names), c))
        steps.append(step[:2] + (min(step[2], 15),) if step[0] == 'run' else step)
    sc['steps'] = steps
    ctx.desc = describe(sc)
    drv, rounds = watch(ctx, rng, sc, lambda *a: None)
    if any(r[1] and r[2] for r in rounds):
        ctx.distinct(ctx.desc)


def long(ctx, rng):
    """runs of hundreds of moments, times far from 0"""
    sc = gen_abs_scenario(rng, 'STANDARD', nmax=3, runs=2, aligned=rng.random() < .75, comp=.2, far=rng.choice([20, 60]))
    ctx.desc = describe(sc)
    drv, rounds = watch(ctx, rng, sc, lambda *a: standard(ctx, *a))
    ctx.count('long_timestamps', sum(len(r[2]) for r in rounds if r[1]))
    ctx.distinct(ctx.desc)


def drift(ctx, rng):
    """long runs, number of layers without finite binary expansion"""
    m = gs()
    k = rng.choice([2, 3, 3, 5, 6, 7, 9])
    g = {chr(65 + i): ({chr(64 + i)} if i else set()) for i in range(k)}
    base = rng.choice([1, 2, 5, 7, 10, 25]) * rng.choice([10**6, 10**9, 10**8])
    reps = {n: base * rng.choice([1, 2, 3]) for n in rng.sample(sorted(g), rng.randint(1, k))}
    conds = {n: m.TimeInterval(repeat=quantity(spell(rng, r), m)) for n, r in reps.items()}
    gcd = 0
    for r in reps.values():
        gcd = int(fgcd(gcd, r))
    step = Fraction(gcd, k)
    ctx.desc = ('drift', k, reps)
    n = rng.choice([200, 500])
    sched = m.Scheduler(g, conditions=conds, termination_conds={
        m.TimeScale.ENVIRONMENT_STATE_UPDATE: m.AfterNConsiderationSetExecutions(n)})
    for i, s in enumerate(sched.run()):
        t = sched.get_clock().time.absolute
        ctx.check(same(t, i * step), lambda: f'time of set {i} is {t}, expected {i} * {step} ps')
        layer = chr(65 + i % k)
        if layer in reps:
            exp = (i * step - (i % k) * step) % reps[layer] == 0
            ctx.check((layer in s) == exp, lambda: f'set {i} (layer of {layer}) is {s}; {layer} expected: {exp}')
        ctx.count('long_steps')
    ctx.check(len(sched.execution_timestamps[None]) == n and i == n - 1, 'number of timestamps')
    last, _ = exact(sched.execution_timestamps[None][-1].absolute)
    ctx.check(same(sched.execution_timestamps[None][-1].absolute, (n - 1) * step), lambda: f'last timestamp {last}')
    ctx.distinct(ctx.desc, n)


__all__ = ['ESU', 'gen_graph', 'labeling']
GROUPS = {'case': (case, 1400, 24000), 'drift': (drift, 60, 600), 'long': (long, 40, 1200),
          'changed': (changed, 250, 6000)}
