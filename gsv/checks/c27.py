"""Abandoned and failing runs."""
from ..abstime import same
from ..core import Skip
from ..drive import Driver, describe, gs, state_of
from ..gen import gen_abs_scenario, gen_scenario
from ..model import ATTR, CSE, ESEQ, ESU, PASS, Overflow
from ..monitors import check_clock, check_history
from .c13 import Recount

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = ('scenarios (also absolute time, several contexts) whose runs are closed, dropped, left suspended or ended by '
        'throw() after a random yield, or ended by an error or interrupt raised at a random evaluation of a condition or '
        'termination condition, or by invalid termination conditions; after that the history, counts and clock are '
        'compared with a recount of the yielded sets and the reference automaton, other contexts with a snapshot, and all '
        'later runs in this and new contexts with the automaton. In group every_point the fault is injected at every '
        'evaluation and every yield of a run in turn. Non-trivial: a run after a fault executed a node; distinct by '
        'scenario and faults')
MINIMA = {'faults': 1400, 'condition_errors': 530, 'termination_errors': 290, 'left_suspended': 100,
          'abandoned': 510, 'runs_after_fault': 1100, 'sets_observed': 10000, 'others_compared': 800,
          'new_contexts': 210, 'interrupts': 23, 'mid_cascade': 60}


class Fault(Exception):
    pass


class Stop(BaseException):
    """as asyncio.CancelledError and others"""


class Injector:
    """raises at the given evaluation from now on"""

    def __init__(self):
        self.left = None
        self.exc = Fault
        self.raised = None

    def condition(self, kind):
        def func(n=0):
            if self.left is not None:
                self.left -= 1
                if self.left < 0:
                    self.left = None
                    self.raised = kind
                    raise self.exc('injected')
            return True
        return func


def wrap(rng, c, kind):
    f = ('Fault', kind)
    return ('All', [f, c] if rng.random() < .5 else [c, f])


def scenario(rng):
    if rng.random() < .3:
        sc = gen_abs_scenario(rng, rng.choice(['STANDARD', 'STANDARD', 'EXACT_TIME']), nmax=4, runs=3)
        # counts evaluations: when another one in the same set fails, it
        # depends on their order whether it was evaluated
        sc['conds'] = {n: c[1] if c[0] == 'NWhen' else c for n, c in sc['conds'].items()}
    else:
        sc = gen_scenario(rng, nmax=5, runs=3, p=.8, nwhen=False, labels=rng.random() < .5)
    sc['conds'] = {n: wrap(rng, c, 'condition') if rng.random() < .8 else c for n, c in sc['conds'].items()}
    for n in sc['graph']:
        if n not in sc['conds'] and rng.random() < .4:
            sc['conds'][n] = ('All', [('Fault', 'condition'), ('Always',)])
    term = dict(sc.get('term', {}))
    for ts, default in ((ESU, ('AllHaveRun', (), None)), (ESEQ, ('Never',))):
        if rng.random() < .7:
            term[ts] = wrap(rng, term.get(ts, default), 'termination')
    sc['term'] = term
    return sc


def setup(ctx, rng, sc):
    m = gs()
    inj = Injector()

    def build_fault(c):
        return m.Condition(inj.condition(c[1]))
    drv = Driver(ctx, sc, rng, extra={'Fault': build_fault}, hooks={'Fault': lambda c, s, owner: True})
    return inj, drv


def advance(run, inj):
    """like run.next(), but returns the error if one was injected"""
    drv = run.drv
    if not run.started:
        run.acc = drv.acceptor(run.eid, run.base)
        run.acc.begin(run.term)
        run.started = True
    # the real run goes first: an error is judged by the states before
    try:
        s = next(run.gen)
    except StopIteration as e:
        run.result = e.value
        return None, judge(run, None)
    except BaseException as e:
        if inj.raised is None:
            raise
        kind, inj.raised = inj.raised, None
        if not isinstance(e, inj.exc):
            drv.ctx.fail(f'{inj.exc.__name__} raised in a {kind} condition leaves the run as {type(e).__name__}: {e}')
        return kind, None
    obs = drv.to_model(s)
    run.raw = s
    judge(run, obs)
    run.sets.append(obs)
    drv.history[run.eid].append(obs)
    count_stamps(drv, run)
    return None, obs


def count_stamps(drv, run):
    rid = real_id(drv, run.eid)
    if not hasattr(drv, 'stamps'):
        drv.stamps = {}
    drv.stamps[rid] = drv.stamps.get(rid, 0) + bool(drv.sched.get_clock(rid).time.absolute_enabled)


def check_stamps(ctx, drv, eid):
    rid = real_id(drv, eid)
    got = drv.sched.execution_timestamps.get(rid, [])
    exp = getattr(drv, 'stamps', {}).get(rid, 0)
    ctx.check(len(got) == exp, lambda: f'{len(got)} timestamps in context {rid!r}, {exp} sets were yielded in absolute time')
    ctx.count('timestamps_counted', exp)


def judge(run, obs):
    drv = run.drv
    try:
        exp = run.acc.observe(obs, run.skip)
    except Overflow:
        drv.ctx.count('overflow')
        raise Skip()
    drv.ctx.count('sets_observed' if obs is not None else 'ends_observed')
    if exp is not None:
        got = 'END' if obs is None else tuple(sorted(obs))
        drv.ctx.fail(f'run yields {got}, possible are {exp}; sets of this context before: '
                     f'{[sorted(x) for x in drv.history[run.eid]][-20:]} (this run: {len(run.sets)})')
    return obs


def after_error(ctx, drv, run, recount):
    """state after an error raised in an evaluation"""
    sched, eid = drv.sched, run.eid
    t = sched.get_clock(eid).time
    real = [getattr(t, a) for a in ATTR]

    # of executions that did not happen none may be left; whether those of the
    # pass and of the consideration set execution were already reset is open
    total = {ts: {n: sched.counts_total[eid][gs().TimeScale(ts)][drv.lab[n]] for n in drv.lab} for ts in range(5)} \
        if eid in sched.counts_total else None
    eid = run.eid if total is None else eid

    def matches(s):
        return (s.time() == real and (not run.acc.sim.absolute or same(t.absolute, s.abs)) and
                (total is None or all(s.cnt[ts] == total[ts] or ts in (CSE, PASS) and not any(total[ts].values())
                                      for ts in total)))
    before = [(s.time(), str(s.abs), s.cnt) for s in run.acc.states]
    try:
        ok = run.acc.interrupted(matches, run.skip)
    except Overflow:
        raise Skip()
    ctx.check(ok, lambda: f'after an error the clock is {real}, {t.absolute}, counts by scale {total}; at the last yield it was {before}, '
                          f'sets of the run {[sorted(x) for x in run.sets]}')
    check_default_history(ctx, drv) if eid is None else check_history(ctx, drv, eid)
    check_stamps(ctx, drv, run.eid)
    recount.check(ctx, real_id(drv, eid), None)


def others(drv, eid):
    return {k: v for k, v in state_of(drv.sched).items() if k[1] != eid}


def real_id(drv, eid):
    return drv.sched.default_execution_id if eid is None else eid


EXCS = [Fault, Fault, ValueError, KeyError, KeyboardInterrupt, Stop, SystemExit, LookupError, AttributeError, AssertionError, IndexError, RuntimeError]


def case(ctx, rng):
    sc = scenario(rng)
    log = []
    ctx.desc = {**describe(sc), 'log': log}
    inj, drv = setup(ctx, rng, sc)
    sched = drv.sched
    eids = [None, 'other'][:rng.choice([1, 1, 2])]
    if eids == [None] and rng.random() < .3:
        eids = ['one']
    recount = {e: Recount(drv) for e in eids}
    suspended, faults, after = [], 0, False
    steps = sc['steps'] * 2
    if rng.random() < .3:
        steps = steps + [('new',)] + sc['steps']
    for step in steps:
        eid = rng.choice(eids)
        if step[0] == 'new':
            eids.append(('new', len(eids)))
            recount[eids[-1]] = Recount(drv)
            ctx.count('new_contexts')
            continue
        if step[0] == 'seq':
            sched.end_environment_sequence(real_id(drv, eid))
            drv.acceptor(eid).end_sequence()
            recount[eid].reset(ESEQ)
            log.append(('seq', eid))
            continue
        rid = real_id(drv, eid)
        plan = rng.choice(['error', 'error', 'error', 'close', 'drop', 'suspend', 'throw', 'finish', 'arguments'])
        inj.exc = rng.choice(EXCS)
        inj.left = None
        if plan == 'arguments':
            if rid not in sched.counts_total:
                continue
            before = state_of(sched)
            ts = m_ts(rng)
            bad = rng.choice([{ts: 5}, {'no scale': gs().Always()}, {5: gs().Always()}, {ts: gs().BeforeNode('x')}, 7])
            try:
                next(sched.run(termination_conds=bad, execution_id=rid))
            except (TypeError, gs().SchedulerError):
                pass
            else:
                ctx.fail(f'termination conditions {bad} are accepted')
            ctx.check(state_of(sched) == before, lambda: f'a run that rejects {bad} changed counts, history or time')
            ctx.count('faults')
            log.append(('arguments', eid))
            continue
        other = others(drv, rid)
        run = drv.start(step[1], eid, rng.random() < .1)
        recount[eid].reset(ESU)
        if after:
            ctx.count('runs_after_fault')
        stop = rng.choice([1, 1, 2, 3, 4, 6, 9])
        end, n = None, 0
        if plan == 'error' and rng.random() < .4:
            inj.left = rng.randint(0, 25)
        while n < (stop if plan not in ('error', 'finish') else min(step[2], 25)):
            if plan == 'error' and n == stop and inj.left is None:
                inj.left = rng.randint(0, 12)
            kind, obs = advance(run, inj)
            if kind:
                end = 'error'
                ctx.count('faults')
                ctx.count(f'{kind}_errors')
                ctx.count('interrupts', not issubclass(inj.exc, Exception))
                after_error(ctx, drv, run, recount[eid])
                log.append(('error', kind, inj.exc.__name__, eid, n))
                break
            if obs is None:
                end = 'finished'
                ctx.count('runs_finished')
                log.append(('finished', eid, n))
                break
            n += 1
            if after and obs:
                ctx.distinct(ctx.desc)
            recount[eid].add(obs)
            recount[eid].check(ctx, rid, obs)
            if suspended and rng.random() < .1:
                suspended.pop().gen.close()
        inj.left = None
        if end is None:
            log.append((plan, eid, n))
            before = state_of(sched)
            if plan in ('suspend',):
                suspended.append(run)
                ctx.count('left_suspended')
            elif plan == 'throw':
                try:
                    run.gen.throw(Fault('thrown'))
                except Fault:
                    pass
                else:
                    ctx.fail('an error thrown into a run is swallowed')
            elif plan == 'drop':
                run.gen = None
            else:
                run.gen.close()
            run.acc.abandon()
            ctx.count('abandoned')
            ctx.count('faults')
            ctx.check(state_of(sched) == before, lambda: f'ending a run ({plan}) changed counts, history or time: '
                                                         f'{before} to {state_of(sched)}')
        if end != 'finished':
            after = True
            faults += 1
        check_default_history(ctx, drv) if eid is None else check_history(ctx, drv, eid)
        if end != 'error':
            check_clock(ctx, drv, eid)
        check_stamps(ctx, drv, eid)
        recount[eid].check(ctx, rid, None)
        now = others(drv, rid)
        ctx.count('others_compared')
        ctx.check(now == other, lambda: f'a run in context {rid!r} changed other contexts: {diff(other, now)}')
    for r in suspended:
        before = state_of(sched)
        r.gen.close()
        ctx.check(state_of(sched) == before, 'closing an earlier run changed counts, history or time')


def check_default_history(ctx, drv):
    real = drv.sched.execution_list[drv.sched.default_execution_id]
    ctx.check([drv.to_model(x) for x in real] == drv.history[None],
              lambda: f'history {real} differs from the sets yielded {[sorted(x) for x in drv.history[None]]}')


def m_ts(rng):
    return rng.choice([gs().TimeScale.ENVIRONMENT_STATE_UPDATE, gs().TimeScale.ENVIRONMENT_SEQUENCE])


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in {**a, **b} if a.get(k) != b.get(k)}


def every_point(ctx, rng):
    """one run interrupted at each of its evaluations and yields in turn"""
    sc = scenario(rng)
    while len(sc['graph']) > 4:
        sc = scenario(rng)
    lab = sc['lab']
    ctx.desc = describe(sc)
    first = [s for s in sc['steps'] if s[0] == 'run'][0]
    k = 0
    by_yield = rng.random() < .3
    while k < 60:
        sc['lab'] = lab
        inj, drv = setup(ctx, rng, sc)
        if rng.random() < .5:
            inj.exc = rng.choice(EXCS)
        recount = Recount(drv)
        eid = 'e'
        if k % 2:
            # something before that
            run = drv.start(None, eid)
            for _ in range(4):
                obs = run.next()
                if obs is None:
                    break
                count_stamps(drv, run)
                recount.add(obs)
            run.close()
        run = drv.start(first[1], eid)
        recount.reset(ESU)
        if not by_yield:
            inj.left = k
        hit = False
        for n in range(12):
            if by_yield and n == k + 1:
                run.close()
                hit = True
                ctx.count('abandoned')
                break
            kind, obs = advance(run, inj)
            if kind:
                hit = True
                ctx.count(f'{kind}_errors')
                after_error(ctx, drv, run, recount)
                break
            if obs is None:
                break
            recount.add(obs)
        inj.left = None
        recount.check(ctx, eid, None)
        if not hit:
            break
        ctx.count('faults')
        ctx.count('runs_after_fault')
        k += 1
        for nxt, limit in ((eid, 8), ('new', 5)):
            if nxt == 'new' and k % 3:
                continue
            run = drv.start(first[1] if rng.random() < .5 else None, nxt)
            if nxt == 'new':
                ctx.count('new_contexts')
                recount = Recount(drv)
            recount.reset(ESU)
            for n in range(limit):
                obs = run.next()
                if obs is None:
                    break
                count_stamps(drv, run)
                recount.add(obs)
                recount.check(ctx, nxt, obs)
                if obs:
                    ctx.distinct(ctx.desc, k)
            check_history(ctx, drv, nxt)
            check_stamps(ctx, drv, nxt)
            check_clock(ctx, drv, nxt)


def cascade(ctx, rng):
    """errors after some nodes of a consideration set were found to run"""
    m = gs()
    names = list('ABCDEF')[:rng.randint(2, 6)]
    fail = rng.choice(names)
    inj = Injector()
    inj.exc = rng.choice(EXCS)
    flag = {}

    def func(n=0):
        ctx.count('evaluations')
        if flag.get('on'):
            c = s.counts_total['e'][m.TimeScale.LIFE]
            if sum(c.values()) > flag['sum']:
                flag['mid'] = True
            raise inj.exc('injected')
        return True
    s = m.Scheduler({n: set() for n in names}, conditions={fail: m.Condition(func)})
    ctx.desc = {'nodes': names, 'fails': fail, 'error': inj.exc.__name__}
    total, esu, log = 0, 0, []
    for _ in range(rng.randint(2, 8)):
        flag['on'] = rng.random() < .6
        flag['sum'] = total * len(names)
        flag['mid'] = False
        run = s.run(execution_id='e', termination_conds={m.TimeScale.ENVIRONMENT_STATE_UPDATE: m.AfterNPasses(2)})
        esu = 0
        log.append(flag['on'])
        try:
            for x in run:
                ctx.check(x == set(names), f'yielded {x}')
                total += 1
                esu += 1
                if rng.random() < .3:
                    flag['on'] = True
        except inj.exc:
            ctx.count('faults')
            ctx.count('condition_errors')
            ctx.count('mid_cascade', flag['mid'])
        for scale, n in ((m.TimeScale.LIFE, total), (m.TimeScale.ENVIRONMENT_SEQUENCE, total), (m.TimeScale.ENVIRONMENT_STATE_UPDATE, esu)):
            got = dict(s.counts_total['e'][scale])
            ctx.check(got == dict.fromkeys(names, n), lambda: f'counts at {scale} are {got}, each node was yielded {n} times')
        ctx.check(len(s.execution_list['e']) == total, 'history differs from the sets yielded')
    ctx.distinct(ctx.desc, log)


GROUPS = {'case': (case, 1200, 20000), 'every_point': (every_point, 150, 3000), 'cascade': (cascade, 300, 3000)}
