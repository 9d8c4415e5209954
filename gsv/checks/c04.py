from ..drive import Driver, build_term, describe, gs, DEFAULT_TERM
from ..gen import gen_graph, gen_scenario, gen_term, gen_seq_term, labeling, relabel_graph
from ..model import ESEQ, ESU, TS_NAMES, build, layers_of, show

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('random schedulers with simple node conditions; histories of 2-6 runs with random termination conditions for '
        'both scales given at construction, by assignment (also None) and per run, with TimeScale and string keys in '
        'any case; conditions that become satisfied while a node is considered or between sets; the point at which each run ends is compared online with the automaton, termination_conds and the '
        'given dictionaries with a record of what was given, and invalid entries must be rejected without effect. '
        'Non-trivial: a finished run of at least one set that was not ended by the default condition')
MINIMA = {'ends_observed': 500, 'invalid_rejected': 100, 'term_dicts_compared': 1500, 'events_observed': 300,
          'without_execution': 150}
KINDS = ('static', 'time', 'every', 'call', 'custom', 'static')


def case(ctx, rng):
    sc = gen_scenario(rng, nmin=1, nmax=5, runs=1, p=.6, kinds=KINDS, depth=0, nwhen=False)
    sc.pop('term', None)
    names = sorted(sc['graph'])
    if rng.random() < .7:
        sc['term'] = {}
        if rng.random() < .8:
            sc['term'][ESU] = gen_term(rng, names)
        if rng.random() < .4:
            sc['term'][ESEQ] = gen_seq_term(rng, names)
    ops = []
    sc['steps'] = ops
    ctx.desc = (describe(sc), ops)
    m = gs()
    lab = sc['lab']
    TS = m.TimeScale

    def given(term):
        """dictionary for the scheduler, and what it should stand for"""
        d, objs = {}, {}
        for ts, c in term.items():
            o = build(c, m, lambda x: lab[x])
            key = TS(ts)
            if rng.random() < .5:
                key = rng.choice([str.lower, str.upper, str.title])(TS_NAMES[ts])
            d[key] = o
            objs[TS(ts)] = o
        return d, objs

    init, init_objs = given(sc.get('term', {}))
    init_copy = dict(init)
    sched = m.Scheduler(
        relabel_graph(rng, sc['graph'], lab),
        conditions={lab[n]: build(c, m, lambda x: lab[x]) for n, c in sc['conds'].items()},
        termination_conds=init if init or rng.random() < .5 else None,
        mode=getattr(m.SchedulingMode, sc['mode']))
    drv = Driver(ctx, sc, rng, sched=sched)
    base_objs = {**{k: v for k, v in sched.termination_conds.items()}}
    for k, v in init_objs.items():
        ctx.check(base_objs.get(k) is v, lambda: f'termination_conds after construction: {base_objs}')
    base_term = dict(drv.term)
    cur_objs = dict(base_objs)

    def same(objs):
        t = sched.termination_conds
        ctx.count('term_dicts_compared')
        ctx.check(set(t) == set(objs) and all(t[k] is objs[k] for k in objs),
                  lambda: f'termination_conds {show_t(t)}, expected {show_t(objs)}')

    def show_t(t):
        return {str(k): str(v) for k, v in t.items()}

    same(base_objs)
    ctx.check(set(base_objs) == {TS.ENVIRONMENT_SEQUENCE, TS.ENVIRONMENT_STATE_UPDATE},
              lambda: f'termination_conds {show_t(base_objs)}')
    nontrivial = False
    for _ in range(rng.randint(2, 6)):
        k = rng.choice(['run', 'run', 'run', 'set', 'none', 'invalid', 'seq'])
        if k == 'run':
            over = {}
            if rng.random() < .6:
                if rng.random() < .8:
                    over[ESU] = gen_term(rng, names)
                if rng.random() < .3:
                    over[ESEQ] = gen_seq_term(rng, names)
            ops.append(('run', {TS_NAMES[a]: show(b) for a, b in over.items()}))
            d, objs = given(over)
            copy = dict(d)
            run = drv.start(None)
            run.gen = sched.run(termination_conds=d) if over or rng.random() < .5 else sched.run()
            run.term = {**drv.term, **over}
            n, end = 0, False
            while n < 30:
                obs = run.next()
                if obs is None:
                    end = True
                    break
                n += 1
            run.close()
            if end and n and (over or sc.get('term')):
                nontrivial = True
            ctx.check(list(d.items()) == list(copy.items()), lambda: f'run changed its termination_conds argument to {d}')
        elif k == 'set':
            new = {}
            if rng.random() < .7:
                new[ESU] = gen_term(rng, names)
            if rng.random() < .4:
                new[ESEQ] = gen_seq_term(rng, names)
            ops.append(('set', {TS_NAMES[a]: show(b) for a, b in new.items()}))
            d, objs = given(new)
            copy = dict(d)
            sched.termination_conds = d
            ctx.check(list(d.items()) == list(copy.items()), lambda: f'setting termination_conds changed the argument to {d}')
            drv.term.update(new)
            cur_objs.update(objs)
        elif k == 'none':
            ops.append(('set', None))
            sched.termination_conds = None
            drv.term = dict(base_term)
            cur_objs = dict(base_objs)
        elif k == 'seq':
            ops.append(('seq',))
            sched.end_environment_sequence()
            drv.acceptor(None).end_sequence()
        else:
            bad = rng.choice([
                {'not a scale': m.Always()},
                {TS.ENVIRONMENT_STATE_UPDATE: 3},
                {TS.ENVIRONMENT_STATE_UPDATE: m.AddEdgeTo(lab[names[0]])},
                {3: m.Always()},
                {TS.ENVIRONMENT_SEQUENCE: m.Never(), 'nope': m.Always()},
                {'environment_state_update': 'always'},
                {TS.ENVIRONMENT_STATE_UPDATE: True},
            ])
            ops.append(('invalid', str(bad)))
            try:
                how = rng.random()
                if how < .4:
                    sched.termination_conds = bad
                elif how < .8:
                    g = sched.run(termination_conds=bad)
                    next(g)
                else:
                    m.Scheduler({1: set()}, termination_conds=bad)
            except (m.SchedulerError, TypeError):
                ctx.count('invalid_rejected')
            else:
                ctx.fail(f'invalid termination conditions {bad} accepted')
        same(cur_objs)
    ctx.check(list(init.items()) == list(init_copy.items()), lambda: f'the constructor changed its argument to {init}')
    if nontrivial:
        ctx.distinct(ctx.desc)
        ctx.sample(ctx.desc)


def events(ctx, rng):
    """conditions become satisfied at any moment: while a node is considered,
    whether it executes or not, or between sets"""
    m = gs()
    g = gen_graph(rng, 2, 7)
    names = sorted(g)
    layers = layers_of(g)
    where = {n: i for i, x in enumerate(layers) for n in x}
    lab = labeling(rng, names)
    inv = {v: k for k, v in lab.items()}
    left = rng.randint(1, 25)
    how = rng.choice(['considered', 'considered', 'considered', 'yield'])
    share = rng.choice([0, 0, .1, .5])
    timed = rng.random() < .25
    log, seen = [], []
    at = [None]
    ctx.desc = ({k: sorted(v) for k, v in g.items()}, left, how, share, timed)

    def satisfied():
        log.append(('asked', at[0] is not None))
        return at[0] is not None

    def node_condition(n):
        def consider():
            nonlocal left
            log.append(n)
            if at[0] is not None:
                seen.append(n)
            elif how == 'considered':
                left -= 1
                if left <= 0:
                    at[0] = n
            return rng.random() < share
        return m.Condition(consider)
    conds = {lab[n]: node_condition(n) for n in names}
    scale = rng.choice([m.TimeScale.ENVIRONMENT_STATE_UPDATE, m.TimeScale.ENVIRONMENT_SEQUENCE])
    if timed:
        # every layer is a moment, also without executions
        conds[lab[names[0]]] = m.Any(conds[lab[names[0]]], m.TimeInterval(repeat='1ms', start='1000s'))
    sched = m.Scheduler(relabel_graph(rng, g, lab), conditions=conds)
    term = {t: m.Never() for t in (m.TimeScale.ENVIRONMENT_STATE_UPDATE, m.TimeScale.ENVIRONMENT_SEQUENCE)}
    term[scale] = m.Condition(satisfied)
    if rng.random() < .5:
        run = sched.run(termination_conds=term)
    else:
        sched.termination_conds = term
        run = sched.run()
    n = 0
    for s in run:
        n += 1
        obs = {inv[x] for x in s}
        if at[0] is not None:
            ctx.check(at[0] != 'yield', lambda: f'set {obs} after the run should have ended')
            ctx.check(all(where[x] == where[at[0]] for x in obs),
                      lambda: f'{obs} executes after the termination condition was satisfied while {at[0]} was considered')
        if how == 'yield':
            left -= 1
            if left <= 0:
                at[0] = 'yield'
        if n > 400:
            run.close()
            ctx.count('not_ended')
            return
    ctx.check(at[0] is not None, 'the run ended before its termination condition was satisfied')
    late = [x for x in seen if at[0] == 'yield' or where[x] != where[at[0]]]
    ctx.check(not late, lambda: f'{late} considered after the termination condition was satisfied ({at[0]})')
    ctx.count('events_observed')
    ctx.count('without_execution', how == 'considered' and share < .2)
    ctx.distinct(ctx.desc)


GROUPS = {'case': (case, 2500, 40000), 'events': (events, 500, 15000)}
