"""Schedulers of one process do not influence each other."""
import gc
import sys
import threading

from ..core import Ctx, Skip, Violation
from ..drive import Driver, describe, gs, nx_of
from ..gen import gen_abs_scenario, gen_conds, gen_scenario, relabel_graph
from ..model import build
from ..monitors import check_clock, check_history

PROPERTY = 'C32'
LEVEL = 'exploration'
RULE = ('2 to 4 schedulers of random scenarios (sharing graph objects, node objects, execution contexts, termination '
        'dictionaries or nothing; standard and absolute time) advanced set by set in random order, while others are made, '
        'used, edited, made to fail and dropped: each must follow its own reference automaton, history and clock; and '
        'schedulers in threads switched as often as possible. Non-trivial: the run of one is interrupted by another that '
        'yields; distinct by scenarios and order')
MINIMA = {'sets_observed': 10000, 'switches': 6000, 'shared_graph': 150, 'shared_labels': 150, 'shared_conditions': 300, 'disturbers': 600,
          'absolute': 150, 'threads': 200, 'thread_sets': 1500, 'thread_switches': 300, 'disturber_failures': 60, 'edits': 200}


class Boom(Exception):
    pass


def member(rng, first, shared):
    """a scenario that shares things with the first"""
    if first is None or shared is None:
        return gen_abs_scenario(rng, nmax=4) if rng.random() < .3 else gen_scenario(rng, nmax=5, runs=3)
    if shared in ('labels', 'conditions'):
        # same nodes in another graph
        for _ in range(8):
            sc = gen_scenario(rng, nmin=len(first['graph']), nmax=len(first['graph']), runs=3, labels=False)
            if set(sc['graph']) == set(first['lab']):
                sc = {**sc, 'lab': first['lab']}
                if shared == 'conditions':
                    sc['conds'] = first['conds']
                    for k in ('default_unit', 'default_unit_written', 'mode', 'term'):
                        sc.pop(k, None)
                        if k in first:
                            sc[k] = first[k]
                return sc
        return sc
    # the same graph, other conditions; or only other runs
    sc = gen_scenario(rng, nmax=4, runs=3, labels=False)
    nodes = sorted(first['graph'])
    res = {k: v for k, v in first.items() if k != 'steps'}
    if rng.random() < .6 and 'default_unit' not in first:
        res['conds'] = gen_conds(rng, first['graph'], .7)
    res['steps'] = [s if s[0] == 'seq' else ('run', None, s[2]) for s in sc['steps']]
    assert nodes
    return res


class Play:
    """the steps of a scenario one set at a time"""

    def __init__(self, ctx, sc, rng, eid, graph=None, term=None, common=None):
        self.ctx, self.eid = ctx, eid
        sched = None
        self.drv = drv = Driver(ctx, sc, rng, sched=False)
        m = gs()
        conds = {drv.lab[n]: build(c, m, lambda x: drv.lab[x]) for n, c in sc['conds'].items()}
        kw = {}
        if 'default_unit' in sc:
            from ..model import quantity
            kw['default_absolute_time_unit'] = sc.get('default_unit_written') or quantity(sc['default_unit'], m)
        if sc.get('term'):
            kw['termination_conds'] = term
        if graph is None:
            graph = nx_of(sc['graph'], drv.lab) if rng.random() < .3 else relabel_graph(rng, sc['graph'], drv.lab)
        if common is not None and sc['conds'] is common[0]:
            # conditions and their set in common
            if not common[1]:
                common[1].append(m.ConditionSet(conds) if rng.random() < .7 else conds)
            kw['conditions'] = common[1][0]
            conds = {}
            ctx.count('shared_conditions')
        elif rng.random() < .5:
            kw['conditions'] = m.ConditionSet(conds) if rng.random() < .5 else conds
            conds = {}
        drv.sched = m.Scheduler(graph, mode=getattr(m.SchedulingMode, sc.get('mode', 'STANDARD')), **kw)
        for n, c in conds.items():
            drv.sched.add_condition(n, c)
        self.todo = list(sc['steps'])
        self.run = None
        self.sets = 0

    def advance(self):
        """False if there is nothing left"""
        drv = self.drv
        if self.run is None:
            if not self.todo:
                return False
            step = self.todo.pop(0)
            if step[0] == 'seq':
                drv.sched.end_environment_sequence(self.eid)
                drv.acceptor(self.eid).end_sequence()
                return True
            self.run = drv.start(step[1], self.eid)
            self.left = min(step[2], 20)
        obs = self.run.next()
        self.left -= 1
        if obs is None:
            self.run = None
            self.finish()
        else:
            self.sets += 1
            if not self.left:
                self.run.close()
                self.run = None
                self.finish()
        return True

    def finish(self):
        eid = self.drv.sched.default_execution_id if self.eid is None else self.eid
        if self.eid is not None:
            check_history(self.ctx, self.drv, eid)
        check_clock(self.ctx, self.drv, self.eid)


def disturb(ctx, rng, drv, graph, eid):
    """another scheduler of the same nodes, used in some way"""
    m = gs()
    ctx.count('disturbers')
    lab = drv.lab
    nodes = list(lab.values())
    kind = rng.choice(['fail', 'edit', 'run', 'structure', 'units', 'drop'])
    g = graph if graph is not None and rng.random() < .6 else relabel_graph(rng, drv.sc['graph'], lab)
    kw = {}
    if kind == 'units':
        kw['default_absolute_time_unit'] = rng.choice(['7s', '1us', '40ns'])
    if rng.random() < .5:
        kw['default_execution_id'] = eid if eid is not None else drv.sched.default_execution_id
    s = m.Scheduler(g, **kw)
    a, b = rng.choice(nodes), rng.choice(nodes)
    if kind == 'fail':
        left = [rng.randint(0, 6)]

        def boom():
            left[0] -= 1
            if left[0] < 0:
                raise Boom()
            return True
        s.add_condition(a, m.Condition(boom))
        try:
            for i, _ in enumerate(s.run()):
                if i > 10:
                    break
        except Boom:
            ctx.count('disturber_failures')
        return
    s.add_condition(a, rng.choice([m.Never(), m.Always(), m.EveryNPasses(2)]))
    if kind == 'edit':
        ctx.count('edits')
        try:
            s.add_graph_edge(a, b)
        except (m.ConditionError, ValueError):
            pass
        s.termination_conds = {m.TimeScale.ENVIRONMENT_STATE_UPDATE: m.AfterPass(1)}
        s.mode = m.SchedulingMode.EXACT_TIME if rng.random() < .5 else m.SchedulingMode.STANDARD
        s.add_condition_set({b: m.Always()})
        s.graph.clear()
        s.conditions.conditions_basic.pop(a, None)
        return
    if kind == 'structure':
        others = [x for x in nodes if x is not a]
        if others:
            try:
                s.add_condition(a, rng.choice([m.BeforeNodes, m.AfterNodes])(*rng.sample(others, min(2, len(others)))))
                s.graph
            except (m.ConditionError, m.SchedulerError):
                # operations in conflict, or a cycle
                return
    if kind == 'units':
        s.add_condition(a, m.TimeInterval(repeat='3us', start='1ms'))
    over = {m.TimeScale.ENVIRONMENT_STATE_UPDATE: m.AfterPass(rng.randint(0, 3))}
    gen = s.run(termination_conds=over, execution_id=rng.choice([eid, None, 'other']))
    for _ in range(rng.randint(0, 8)):
        if next(gen, None) is None:
            break
    if rng.random() < .5:
        s.end_environment_sequence()
    if kind == 'drop':
        del gen, s
        if rng.random() < .2:
            gc.collect()
    elif rng.random() < .5:
        # its generator ends later, at any moment
        return gen


def interleaved(ctx, rng):
    shared = rng.choice(['graph', 'graph', 'labels', 'labels', 'conditions', 'conditions', None])
    scs = [member(rng, None, None)]
    common = None
    if shared == 'conditions':
        first = scs[0]
        first.setdefault('lab', {n: n for n in first['graph']})
        first['conds'] = {n: c for n, c in first['conds'].items() if 'NWhen' not in repr(c) and rng.random() < .8}
        common = (first['conds'], [])
    for _ in range(rng.choice([1, 1, 2, 3])):
        scs.append(member(rng, scs[0], shared))
    if shared == 'graph':
        ctx.count('shared_graph')
    elif shared is not None:
        ctx.count('shared_labels')
    ctx.count('absolute', sum('default_unit' in sc for sc in scs))
    order = []
    ctx.desc = {'shared': shared, 'schedulers': [describe(sc) for sc in scs], 'order': order}
    lab0 = scs[0].get('lab') or {n: n for n in scs[0]['graph']}
    graph = None
    if shared == 'graph':
        graph = nx_of(scs[0]['graph'], lab0) if rng.random() < .4 else relabel_graph(rng, scs[0]['graph'], lab0)
    eid = rng.choice([None, 'shared', ('c', 1)])
    terms = {}
    plays = []
    pending = list(range(len(scs)))
    alive = []
    kept = []
    last = None
    disturbed = 0
    while pending or alive:
        if pending and (not alive or rng.random() < .15):
            i = pending.pop(0)
            sc = scs[i]
            lab = sc.get('lab') or {n: n for n in sc['graph']}
            term = None
            if sc.get('term'):
                # one dictionary and condition objects for all
                from ..drive import build_term
                key = id(sc['term'])
                if key not in terms:
                    terms[key] = build_term(sc['term'], lab, rng)
                term = terms[key]
            p = Play(ctx, sc, rng, eid if rng.random() < .7 else None, graph if shared == 'graph' else None, term, common)
            p.i = i
            plays.append(p)
            alive.append(p)
            continue
        if rng.random() < .06 and disturbed < 6:
            disturbed += 1
            order.append('other')
            p = rng.choice(plays)
            try:
                kept.append(disturb(ctx, rng, p.drv, graph if shared == 'graph' else None, eid))
            except (gs().SchedulerError, gs().ConditionError):
                # its own problem
                ctx.count('disturber_failures')
        p = rng.choice(alive)
        if last is not p and last is not None and last.run is not None:
            ctx.count('switches')
        last = p
        order.append(p.i)
        if not p.advance():
            alive.remove(p)
    if sum(p.sets > 0 for p in plays) < 2:
        raise Skip()
    ctx.distinct(ctx.desc)


def threads(ctx, rng):
    """schedulers of pass-based scenarios, each in a thread of its own"""
    scs = [gen_scenario(rng, nmax=4, runs=2)]
    shared = rng.choice(['graph', 'labels', None])
    for _ in range(rng.choice([1, 2, 3])):
        scs.append(member(rng, scs[0], shared) if shared else gen_scenario(rng, nmax=4, runs=2))
    ctx.desc = {'threads': [describe(sc) for sc in scs], 'shared': shared}
    lab0 = scs[0]['lab']
    graph = relabel_graph(rng, scs[0]['graph'], lab0) if shared == 'graph' else None
    import random
    from ..drive import build_term
    seeds = [rng.random() for _ in scs]
    results = [None] * len(scs)
    trace = []
    barrier = threading.Barrier(len(scs))

    def work(i):
        r = random.Random(seeds[i])
        c = Ctx()
        try:
            barrier.wait(20)
            sc = scs[i]
            term = build_term(sc['term'], sc.get('lab') or {n: n for n in sc['graph']}, r) if sc.get('term') else None
            p = Play(c, sc, r, 'shared', graph, term)
            while p.advance():
                trace.append(i)
            results[i] = (c, p.sets, None)
        except BaseException as e:
            results[i] = (c, 0, e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(scs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(30)
    finally:
        sys.setswitchinterval(old)
    if any(r is None for r in results):
        raise Skip()
    ctx.count('thread_switches', sum(a != b for a, b in zip(trace, trace[1:])))
    errors = [r[2] for r in results if r[2] is not None]
    for r in results:
        ctx.count('thread_sets', r[1])
        ctx.count('assertions', r[0].counters.get('assertions', 0))
    for e in errors:
        if isinstance(e, Violation):
            raise e
    for e in errors:
        if not isinstance(e, Skip):
            raise e
    if errors:
        raise Skip()
    ctx.count('threads', len(scs))
    ctx.distinct(ctx.desc)


GROUPS = {'interleaved': (interleaved, 400, 9000), 'threads': (threads, 60, 1500)}
