"""Recorded history and counts."""
from ..abstime import same
from ..drive import Driver, brief, describe, gs
from ..gen import gen_abs_scenario, gen_long, gen_scenario
from ..model import CSE, ESEQ, ESU, LIFE, PASS
from ..monitors import check_counts, check_history, check_useable

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('random schedulers (also absolute time), 1-2 contexts, 1-5 runs each, finished or abandoned after a random yield, '
        'sequences ended; at every yield and between runs the recorded history is compared with copies of the sets '
        'yielded (object and value), the value returned by runs with the history, counts at all five scales and usable '
        'counts with a recount of the yielded sets, timestamps with the yields in absolute time. Non-trivial: at least 2 '
        'runs and 2 different sets; distinct by scenario')
MINIMA = {'history_observations': 9400, 'count_observations': 9400, 'useable_observations': 8000,
          'results_compared': 500, 'timestamps': 1400, 'recounts': 5000, 'runs_abandoned': 300, 'long_sets': 4000}


class Recount:
    """counts of executions from the yielded sets and the ends of units"""

    def __init__(self, drv):
        self.drv = drv
        self.c = {s: {n: 0 for n in drv.lab} for s in range(5)}

    def reset(self, scale):
        for s in range(scale + 1):
            for n in self.c[s]:
                self.c[s][n] = 0

    def add(self, obs):
        for n in obs:
            for s in (ESU, ESEQ, LIFE):
                self.c[s][n] += 1

    def check(self, ctx, eid, obs):
        """state update, sequence and life counts; and those of the set yielded"""
        m = gs()
        real = self.drv.sched.counts_total[eid]
        for s in (ESU, ESEQ, LIFE):
            got = {n: real[m.TimeScale(s)][self.drv.lab[n]] for n in self.drv.lab}
            ctx.check(got == self.c[s], lambda: f'counts at scale {m.TimeScale(s).name} are {got}, sets yielded give '
                                                f'{self.c[s]}')
        if obs is not None:
            got = {n for n in self.drv.lab if real[m.TimeScale(CSE)][self.drv.lab[n]]}
            ctx.check(got == set(obs) and all(real[m.TimeScale(CSE)][self.drv.lab[n]] == 1 for n in obs),
                      lambda: f'counts of the consideration set execution {got}, yielded {sorted(obs)}')
            got = {n for n in self.drv.lab if real[m.TimeScale(PASS)][self.drv.lab[n]]}
            ctx.check(got >= set(obs), lambda: f'counts of the pass {got}, yielded {sorted(obs)}')
        ctx.count('recounts')


def case(ctx, rng):
    if rng.random() < .3:
        sc = gen_abs_scenario(rng, rng.choice(['STANDARD', 'STANDARD', 'EXACT_TIME']), nmax=5, runs=4)
    else:
        sc = gen_scenario(rng, nmin=1, nmax=6, runs=5, p=.7, depth=1)
    if rng.random() < .2:
        sc['default_id'] = rng.choice(['main', 3])
    ctx.desc = describe(sc)
    drv = Driver(ctx, sc, rng)
    sched = drv.sched
    eids = [drv.default_id] + (['other'] if rng.random() < .4 else [])
    recount = {e: Recount(drv) for e in eids}
    copies = {e: [] for e in eids}
    stamps = {e: [] for e in eids}
    runs = 0

    def compare(eid):
        hist = sched.execution_list[eid]
        ctx.check(isinstance(hist, list) and len(hist) == len(copies[eid]) and all(a == b == c for a, (b, c) in zip(hist, copies[eid])),
                  lambda: f'history {hist} differs from the sets yielded {[c for _, c in copies[eid]]}')
        check_history(ctx, drv, eid)
        check_counts(ctx, drv, eid)
        ts = sched.execution_timestamps.get(eid, [])
        ctx.check(len(ts) == len(stamps[eid]) and all(same(a.absolute, b) for a, b in zip(ts, stamps[eid])),
                  lambda: f'timestamps {[t.absolute for t in ts]}, time at the yields {stamps[eid]} ps')
    for step in sc['steps']:
        for eid in eids:
            if step[0] == 'seq':
                sched.end_environment_sequence(eid)
                drv.acceptor(eid).end_sequence()
                recount[eid].reset(ESEQ)
                if eid in sched.counts_total:
                    recount[eid].check(ctx, eid, None)
                    compare(eid)
                continue
            run = drv.start(step[1], None if eid == drv.default_id and rng.random() < .5 else eid, rng.random() < .1)
            recount[eid].reset(ESU)
            runs += 1
            limit = rng.choice([step[2], step[2], rng.randint(1, 6)])
            for _ in range(limit):
                obs = run.next()
                if obs is None:
                    ctx.count('results_compared')
                    ctx.check(run.result == sched.execution_list[eid],
                              lambda: f'the run returned {run.result}, the history is {sched.execution_list[eid]}')
                    break
                copies[eid].append((run.raw, set(run.raw)))
                recount[eid].add(obs)
                acc = drv.acceptor(eid)
                if acc.sim.absolute:
                    stamps[eid].append(acc.states[0].abs)
                    ctx.count('timestamps')
                recount[eid].check(ctx, eid, obs)
                if rng.random() < .6:
                    compare(eid)
                check_useable(ctx, drv, eid, run.sets)
            else:
                run.close()
                ctx.count('runs_abandoned')
            compare(eid)
            recount[eid].check(ctx, eid, None)
            for other in eids:
                if other in sched.counts_total:
                    compare(other)
    if runs >= 2 and len({c for h in drv.history.values() for c in h}) > 1:
        ctx.distinct(ctx.desc)
        ctx.sample({'case': ctx.desc, 'sets': [sorted(x) for x in drv.history[eids[0]]][:12]})


def long(ctx, rng):
    """many sets or many runs"""
    sc = gen_long(rng)
    ctx.desc = brief(sc)
    drv = Driver(ctx, sc, rng)
    recount = Recount(drv)
    sched = drv.sched
    copies = []
    for step in sc['steps']:
        if step[0] == 'seq':
            sched.end_environment_sequence()
            drv.acceptor(None).end_sequence()
            recount.reset(ESEQ)
            continue
        run = drv.start(step[1])
        recount.reset(ESU)
        for _ in range(step[2]):
            obs = run.next()
            if obs is None:
                ctx.count('results_compared')
                ctx.check(run.result == sched.execution_list[None],
                          lambda: f'the run returned {len(run.result)} sets, the history has {len(sched.execution_list[None])}')
                break
            copies.append((run.raw, set(run.raw)))
            recount.add(obs)
            recount.check(ctx, None, obs)
            if rng.random() < .02:
                check_useable(ctx, drv, None, run.sets)
        else:
            run.close()
        recount.check(ctx, None, None)
    hist = sched.execution_list[None]
    ctx.check(len(hist) == len(copies) and all(a == b == c for a, (b, c) in zip(hist, copies)),
              lambda: f'history of {len(hist)} sets differs from the {len(copies)} sets yielded')
    check_counts(ctx, drv, None)
    ctx.count('long_sets', len(copies))
    ctx.distinct(ctx.desc)


GROUPS = {'case': (case, 1300, 24000), 'long': (long, 12, 600)}
