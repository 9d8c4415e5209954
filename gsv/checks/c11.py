"""Execution contexts and schedulers do not influence each other."""
import sys
import threading
import types
from random import Random

from ..core import Ctx, Skip, Violation
from ..abstime import same
from ..drive import Driver, build_term, describe, gs, state_of
from ..gen import EqObj, Obj, gen_abs_scenario, gen_scenario, relabel_graph
from ..model import ATTR, Overflow, build, quantity
from ..monitors import check_clock, check_counts, check_history, check_useable

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('random schedulers with stateful conditions run in 2-4 contexts (several runs each, finished and abandoned, '
        'contexts created from a base context at random moments) interleaved at single sets; each context is followed by '
        'its own reference automaton, and clock, counts, usable counts and history of all contexts are compared after '
        'steps of any of them; (b) several schedulers of one process, sharing graph objects, interleaved; (c) schedulers '
        'in 4 threads with forced switching every microsecond; (d) two schedulers taking the same steps with other '
        'identifiers of the contexts, all state compared. Non-trivial: at least 2 contexts (schedulers) yielded 3 '
        'sets each, interleaved; distinct by scenario and interleaving')
MINIMA = {'sets_observed': 8000, 'switches': 2000, 'context_comparisons': 5000, 'based_contexts': 100,
          'thread_runs': 100, 'scheduler_switches': 500, 'times_compared': 1500}
ASSUMPTIONS = ['one scheduler is not driven by two threads at the same time']


def observe(ctx, drv, eid, run_sets):
    check_history(ctx, drv, eid)
    check_clock(ctx, drv, eid)
    check_counts(ctx, drv, eid)
    if eid in run_sets:
        check_useable(ctx, drv, eid, run_sets[eid])
    ctx.count('context_comparisons')


def contexts(ctx, rng):
    timed = rng.random() < .25
    if timed:
        sc = gen_abs_scenario(rng, rng.choice(['STANDARD', 'STANDARD', 'EXACT_TIME']), nmax=4, runs=3)
    else:
        sc = gen_scenario(rng, nmin=1, nmax=5, runs=3, p=.75, depth=1)
    for n in sc['conds']:
        if not timed and rng.random() < .15:
            sc['conds'][n] = ('NWhen', ('Always',), rng.randint(1, 3))
    pool = ['x', 5, ('t', 1), Obj('ctx'), EqObj('ctx'), frozenset([1]), 'y', 0, '']
    if rng.random() < .3:
        sc['default_id'] = rng.choice(['main', 1, ('d',)])
    # identifiers that have equal texts or hashes
    pool = pool if rng.random() < .6 else rng.choice(
        [[1, '1', (1,), '(1,)'], [None, 'None', b'None', ()], [-1, -2, '-1', 2 ** 61 - 2], [Obj('ctx'), Obj('ctx'), '<ctx>', 'ctx'],
         ['x', 'X', ' x', ('x',)]])
    pool = [i for i in pool if i is not None]   # None is the default context
    ids = [sc.get('default_id')] + rng.sample(pool, rng.randint(1, 3) if rng.random() < .9 else len(pool))
    ids = list(dict.fromkeys(ids))
    log = []
    ctx.desc = (describe(sc), 'contexts', ids, log)
    drv = Driver(ctx, sc, rng)
    over = [s[1] for s in sc['steps'] if s[0] == 'run']
    active, done, run_sets, yielded = {}, {i: 0 for i in ids}, {}, {i: 0 for i in ids}
    stamps = {i: [] for i in ids}

    def times(k):
        # time of the context and times of its sets; those before a base
        # context was copied are the ones of the base
        real = drv.sched.execution_timestamps.get(k, [])
        ctx.check(len(real) == len(stamps[k]) and all(same(a.absolute, b) for a, b in zip(real, stamps[k])),
                  lambda: f'timestamps of context {k!r} are {[str(t.absolute) for t in real]}, time at its sets '
                          f'{stamps[k]} ps')
        now = drv.sched.get_clock(k).time.absolute
        ctx.check(any(same(now, s.abs) for s in drv.acc[k].states),
                  lambda: f'time of context {k!r} is {now}, expected {drv.acc[k].states[0].abs} ps')
        ctx.count('times_compared')
    last = None
    switches = 0
    if drv.sched.default_execution_id != ids[0]:
        raise Violation('default execution id')
    for _ in range(rng.choice([20, 40, 70])):
        i = rng.choice(ids) if rng.random() < .6 or last is None else last
        if i not in active:
            if done[i] >= 3:
                continue
            base = NotImplemented
            if i not in drv.acc and i != ids[0] and rng.random() < .5:
                known = [k for k in drv.acc if k in drv.sched.counts_total]
                if known:
                    base = rng.choice(known)
                    ctx.count('based_contexts')
            elif i in drv.acc and rng.random() < .1:
                base = rng.choice(list(drv.sched.counts_total))   # no effect
            eid = i
            if i == ids[0] and (i is None or rng.random() < .5):
                eid = None
            active[i] = drv.start(rng.choice(over), eid, False, base)
            log.append(('start', i, base))
        run = active[i]
        if not run.started and run.base is not NotImplemented and i not in drv.acc:
            stamps[i] = list(stamps[run.base])
        obs = run.next()
        log.append((i, 'END' if obs is None else sorted(obs)))
        run_sets[i] = run.sets
        if last is not None and last != i:
            ctx.count('switches')
            switches += 1
        last = i
        if obs is None:
            ctx.check(run.result == drv.sched.execution_list[i], 'result of the run is not the history of its context')
            del active[i]
            done[i] += 1
        else:
            yielded[i] += 1
            if drv.acc[i].sim.absolute:
                stamps[i].append(drv.acc[i].states[0].abs)
            if rng.random() < .05:
                run.close()
                del active[i]
                done[i] += 1
                log.append(('close', i))
        if i not in active and rng.random() < .3:
            if i == ids[0] and rng.random() < .5:
                drv.sched.end_environment_sequence()
            else:
                drv.sched.end_environment_sequence(i)
            drv.acceptor(i).end_sequence()
            log.append(('seq', i))
        for k in list(drv.acc):
            if k == i or rng.random() < .4:
                observe(ctx, drv, k, run_sets)
                if timed:
                    times(k)
    for r in active.values():
        r.close()
    if sum(v >= 3 for v in yielded.values()) >= 2 and switches >= 4:
        ctx.distinct(ctx.desc)
        ctx.sample(ctx.desc)


class SharedGraphDriver(Driver):
    pass


def schedulers(ctx, rng):
    """several schedulers in one process, some of the same scenario"""
    a = gen_scenario(rng, nmin=1, nmax=5, runs=2, p=.75, depth=1)
    scs = [a, a if rng.random() < .6 else gen_scenario(rng, nmin=1, nmax=5, runs=2, p=.75, depth=1)]
    if rng.random() < .3:
        scs.append(a)
    ctx.desc = [describe(s) for s in scs]
    drvs = [Driver(ctx, s, rng) for s in scs]
    gens = [stepper(d) for d in drvs]
    live = list(range(len(gens)))
    order = []
    while live:
        k = rng.choice(live)
        order.append(k)
        try:
            next(gens[k])
        except StopIteration:
            live.remove(k)
        if len(order) > 1 and order[-2] != k:
            ctx.count('scheduler_switches')
        j = rng.randrange(len(drvs))
        if None in drvs[j].acc and None in drvs[j].sched.counts_total:
            check_history(ctx, drvs[j], None)
            check_clock(ctx, drvs[j], None)
            check_counts(ctx, drvs[j], None)
    if all(len(d.history.get(None, ())) >= 3 for d in drvs):
        ctx.distinct(ctx.desc, order)


def stepper(drv):
    for step in drv.sc['steps']:
        if step[0] == 'run':
            run = drv.start(step[1])
            for _ in range(step[2]):
                obs = run.next()
                yield
                if obs is None:
                    break
            else:
                run.close()
        else:
            drv.sched.end_environment_sequence()
            drv.acceptor(None).end_sequence()
            yield


def threads(ctx, rng):
    """one scheduler per thread"""
    base = gen_scenario(rng, nmin=2, nmax=5, runs=2, p=.8, depth=1)
    jobs = []
    for t in range(4):
        sc = base if rng.random() < .5 else gen_scenario(rng, nmin=2, nmax=5, runs=2, p=.8, depth=1)
        jobs.append((sc, __import__('random').Random(rng.random()), Ctx()))
    ctx.desc = [describe(j[0]) for j in jobs]
    errors = []
    start = threading.Barrier(len(jobs))

    def work(sc, r, c):
        try:
            start.wait(10)
            for _ in range(3):
                drv = Driver(c, sc, r)
                for _ in stepper(drv):
                    pass
                check_history(c, drv, None)
                check_counts(c, drv, None)
                check_clock(c, drv, None)
                c.count('thread_runs')
        except Skip:
            pass
        except Exception as e:
            errors.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ths = [threading.Thread(target=work, args=j) for j in jobs]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for j in jobs:
        for k, v in j[2].counters.items():
            ctx.count(k, v)
    if errors:
        raise errors[0]
    ctx.distinct(ctx.desc)


def rename(state, names):
    return {(k, names[e]): v for (k, e), v in state.items()}


def identifiers(ctx, rng):
    """two schedulers, the same steps, other identifiers of the contexts (one
    of them None, where it is not the default); all state is the same"""
    sc = gen_abs_scenario(rng, 'STANDARD', nmax=4, runs=3) if rng.random() < .2 else \
        gen_scenario(rng, nmin=1, nmax=5, runs=3, p=.75, depth=1)
    sc['lab'] = {n: n for n in sc['graph']}
    n = rng.randint(2, 3)
    pool = ['x', 5, ('t', 1), Obj('ctx'), EqObj('ctx'), frozenset([1]), 0, '', 'main', False, 2.5, b'', ()]
    a = rng.sample([i for i in pool if i is not False], n)
    b = [rng.choice([i for i in pool if i != 0 and i is not False]), None, *rng.sample(['k', ('k',), -1], n - 2)]
    rng.shuffle(a)
    over = [s[1] for s in sc['steps'] if s[0] == 'run']
    g = relabel_graph(rng, sc['graph'], sc['lab'])
    ctx.desc = (describe(sc), a, b)
    m = gs()

    def make(ids):
        kw = {'termination_conds': build_term(sc['term'], sc['lab'], Random(0))} if sc.get('term') else {}
        if 'default_unit' in sc:
            kw['default_absolute_time_unit'] = quantity(sc['default_unit'], m)
        return m.Scheduler({k: set(v) for k, v in g.items()}, default_execution_id=ids[0],
                           conditions={k: build(c, m) for k, c in sc['conds'].items()}, **kw)
    scheds = [make(a), make(b)]
    active, log, yielded = {}, [], [0] * n
    for _ in range(rng.choice([15, 30, 50])):
        i = rng.randrange(n)
        if i not in active and rng.random() < .25:
            # by identifier, also that of the default context
            for s, ids in zip(scheds, (a, b)):
                s.end_environment_sequence(*([] if i == 0 and rng.random() < .3 else [ids[i]]))
            log.append(('seq', i))
        else:
            if i not in active:
                o = rng.choice(over)
                known = [k for k in range(n) if a[k] in scheds[0].counts_total]
                base = rng.choice(known) if known and rng.random() < .4 else None
                runs = []
                for s, ids in zip(scheds, (a, b)):
                    kw = {} if base is None else {'base_execution_id': ids[base]}
                    if o is not None:
                        kw['termination_conds'] = build_term(o, sc['lab'], Random(0))
                    runs.append(s.run(execution_id=ids[i], **kw))
                active[i] = runs
                log.append(('start', i, base))
            got = [next(r, None) for r in active[i]]
            ctx.check(got[0] == got[1], lambda: f'context {a[i]!r} yields {got[0]}, in the same steps context {b[i]!r} '
                                                f'yields {got[1]}; steps {log}')
            log.append((i, None if got[0] is None else sorted(got[0])))
            if got[0] is None:
                del active[i]
            else:
                yielded[i] += 1
                ctx.count('sets_observed')
        states = [rename({k: v for k, v in state_of(s).items()}, {x: j for j, x in enumerate(ids)})
                  for s, ids in zip(scheds, (a, b))]
        ctx.check(states[0] == states[1], lambda: f'after the steps {log} state of contexts {a} and {b} differ in '
                                                  f'{ {k: (states[0].get(k), states[1].get(k)) for k in {**states[0], **states[1]} if states[0].get(k) != states[1].get(k)} }')
        ctx.count('context_comparisons')
        for j in range(n):
            # also by an object that has the context as default
            got = [s.get_clock(ids[j] if rng.random() < .7 else types.SimpleNamespace(default_execution_id=ids[j])).time
                   for s, ids in zip(scheds, (a, b))]
            got = [[getattr(t, x) for x in ATTR] for t in got]
            ctx.check(got[0] == got[1], lambda: f'clocks {got}')
    if sum(y >= 3 for y in yielded) >= 2:
        ctx.distinct(ctx.desc, log)


GROUPS = {'contexts': (contexts, 900, 16000), 'schedulers': (schedulers, 300, 5000), 'threads': (threads, 60, 1200),
          'identifiers': (identifiers, 150, 3000)}
