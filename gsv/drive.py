"""Runs real schedulers along with the reference model."""
import sys

from .model import ESEQ, ESU, TS_NAMES, Acceptor, Overflow, Sim, build, layers_of, show
from .core import Skip, Violation
from .gen import fresh, relabel_graph

DEFAULT_TERM = {ESU: ('AllHaveRun', (), None), ESEQ: ('Never',)}


def gs():
    return sys.modules['graph_scheduler']


def nx_of(g, lab=None):
    import networkx as nx
    d = nx.DiGraph()
    lab = lab or {n: n for n in g}
    d.add_nodes_from(lab[n] for n in g)
    for r, ss in g.items():
        for s in ss:
            d.add_edge(lab[s], lab[r])
    return d


def build_term(term, lab, rng=None, extra=None, node=None):
    m = gs()
    res = {}
    for ts, c in term.items():
        key = m.TimeScale(ts)
        if rng is not None and rng.random() < .4:
            key = rng.choice([str.lower, str.upper, str.title])(TS_NAMES[ts])
        res[key] = build(c, m, node or (lambda n: lab[n]), extra)
    return res


def describe(sc):
    conds = {n: show(c) for n, c in sc.get('conds', {}).items()}
    d = {'graph': {k: sorted(v) for k, v in sc['graph'].items()}, 'conds': conds}
    if sc.get('mode', 'STANDARD') != 'STANDARD':
        d['mode'] = sc['mode']
    if sc.get('term'):
        d['term'] = {TS_NAMES[k]: show(v) for k, v in sc['term'].items()}
    steps = []
    for s in sc.get('steps', ()):
        if s[0] == 'run':
            steps.append(('run', {TS_NAMES[k]: show(v) for k, v in s[1].items()} if s[1] else None, *s[2:]))
        else:
            steps.append(s)
    d['steps'] = steps
    lab = sc.get('lab')
    if lab and any(k != v for k, v in lab.items()):
        d['labels'] = {k: repr(v) for k, v in lab.items()}
    return d


def brief(sc):
    """describe, many equal steps combined"""
    d = describe(sc)
    steps = []
    for s in d['steps']:
        if steps and steps[-1][1] == s:
            steps[-1][0] += 1
        else:
            steps.append([1, s])
    d['steps'] = [(n, 'x', s) if n > 1 else s for n, s in steps]
    return d


# part of the schedulers whose graph results from edge conditions
DETOUR = .08


def detour(rng, sc):
    """another base graph, and the edges to add and to remove that lead to
    the graph"""
    g = sc['graph']
    if len(g) < 2 or sc.get('mode') == 'EXACT_TIME':
        return g, []
    base = {n: set(v) for n, v in g.items()}
    edits = []
    edges = sorted((s, r) for r in g for s in g[r])
    for s, r in rng.sample(edges, min(len(edges), rng.choice([0, 1, 1, 2, 3]))):
        if s != r:
            base[r].discard(s)
            edits.append((True, s, r))
    pos = {n: i for i, x in enumerate(layers_of(base) or []) for n in x}
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        s, r = rng.sample(sorted(g), 2)
        # the graphs in between have no cycles
        if s not in g[r] and s not in base[r] and pos and pos[s] < pos[r]:
            base[r].add(s)
            edits.insert(0, (False, s, r))
    return base, edits


class Driver:
    """one scheduler, one model automaton per execution context"""

    def __init__(self, ctx, sc, rng, extra=None, hooks=None, sched=None):
        self.ctx = ctx
        self.sc = sc
        self.rng = rng
        self.lab = sc.get('lab') or {n: n for n in sc['graph']}
        self.inv = {v: k for k, v in self.lab.items()}
        self.extra, self.hooks = extra, hooks
        m = gs()
        self.term = {**DEFAULT_TERM, **sc.get('term', {})}
        if sched is None:
            base, self.edits = detour(rng, sc) if rng.random() < sc.get('detour', DETOUR) else (sc['graph'], [])
            g = relabel_graph(rng, base, self.lab, omit=rng.random() < .3)
            if rng.random() < .25:
                g = nx_of(base, self.lab)
            # nodes given to conditions are equal to those of the graph, but
            # may be other objects
            same = rng.random() < .6
            node = lambda x: self.lab[x] if same else fresh(self.lab[x])  # noqa: E731
            self.real_conds = {
                n: build(c, m, node, extra) for n, c in sc['conds'].items()}
            kw = {}
            if 'default_unit' in sc:
                from .model import quantity
                kw['default_absolute_time_unit'] = sc.get('default_unit_written') or quantity(sc['default_unit'], m)
            if 'default_id' in sc:
                kw['default_execution_id'] = sc['default_id']
            if sc.get('term'):
                kw['termination_conds'] = build_term(sc['term'], self.lab, rng, extra, node)
            cs = {node(n): c for n, c in self.real_conds.items()}
            how = rng.random()
            if how < .4:
                kw['conditions'] = m.ConditionSet(cs)
                cs = {}
            elif how < .6:
                kw['conditions'] = cs
                cs = {}
            self.sched = m.Scheduler(
                g, mode=getattr(m.SchedulingMode, sc.get('mode', 'STANDARD')), **kw)
            if rng.random() < .5:
                for n, c in cs.items():
                    self.sched.add_condition(n, c)
                cs = {}
            for add, a, b in self.edits:
                (self.sched.add_graph_edge if add else self.sched.remove_graph_edge)(self.lab[a], self.lab[b])
            for n, c in cs.items():
                self.sched.add_condition(n, c)
            if self.edits:
                ctx.count('graphs_by_edits')
        else:
            self.sched = sched
        self.acc = {}
        self.history = {}
        self.default_id = sc.get('default_id')

    def acceptor(self, eid, base=NotImplemented):
        if eid is None:
            eid = self.default_id
        if eid not in self.acc and base is not NotImplemented:
            # counts and history of the base context, new clock
            src = self.acceptor(base)
            self.acceptor(eid)
            states = []
            for s in src.states:
                t = src.sim.new_state()
                t.cnt = {k: dict(v) for k, v in s.cnt.items()}
                t.last, t.nexec = s.last, s.nexec
                states.append(t)
            self.acc[eid].states = states
            self.history[eid] = list(self.history[base])
        if eid not in self.acc:
            sim = Sim(self.sc['graph'], self.sc['conds'], self.sc.get('mode', 'STANDARD'),
                      self.sc.get('default_unit', (1, 'ms')), self.hooks)
            self.acc[eid] = Acceptor(sim)
            self.history[eid] = []
        return self.acc[eid]

    def to_model(self, s):
        try:
            res = frozenset(self.inv[x] for x in s)
            if any(self.lab[self.inv[x]] is not x for x in s):
                raise Violation(f'yielded {s!r}, which are not the node objects of the graph of this scheduler')
            return res
        except (KeyError, TypeError):
            raise Violation(f'yielded {s!r} that is not a set of nodes of the graph')

    def start(self, over=None, eid=None, skip_esu=False, base=NotImplemented, **kwargs):
        return Run(self, over, eid, skip_esu, kwargs, base)

    def steps(self, on_yield=None, on_end=None, after_step=None, eid=None):
        """performs the steps of the scenario"""
        for step in self.sc['steps']:
            if step[0] == 'run':
                run = self.start(step[1], eid)
                n = 0
                while n < step[2]:
                    obs = run.next()
                    if obs is None:
                        self.ctx.count('runs_finished')
                        if on_end:
                            on_end(self, run)
                        break
                    n += 1
                    if on_yield:
                        on_yield(self, run, obs)
                else:
                    run.close()
                    self.ctx.count('runs_abandoned')
            elif step[0] == 'cond':
                # another basic condition of a node
                _, n, c = step
                self.sched.add_condition(self.lab[n], build(c, gs(), lambda x: self.lab[x], self.extra))
                self.sc = {**self.sc, 'conds': {**self.sc['conds'], n: c}}
                for acc in self.acc.values():
                    acc.sim.configure(self.sc['graph'], self.sc['conds'])
                    for s in acc.states:
                        s.nwhen.pop(n, None)
                self.ctx.count('conditions_changed')
            elif step[0] == 'seq':
                if eid is None:
                    self.sched.end_environment_sequence()
                else:
                    self.sched.end_environment_sequence(eid)
                self.acceptor(eid).end_sequence()
                self.ctx.count('sequences_ended')
            if after_step:
                after_step(self, step)


class Run:
    def __init__(self, drv, over, eid, skip_esu, kwargs, base=NotImplemented):
        self.drv = drv
        self.eid = drv.default_id if eid is None else eid
        self.base = base
        self.skip = skip_esu
        kw = dict(kwargs)
        if eid is not None:
            kw['execution_id'] = eid
        if base is not NotImplemented:
            kw['base_execution_id'] = base
        if skip_esu:
            kw['skip_environment_state_update_time_increment'] = True
        if over is not None:
            kw['termination_conds'] = build_term(over, drv.lab, drv.rng, drv.extra)
        self.gen = drv.sched.run(**kw)
        self.acc = None
        self.term = {**drv.term, **(over or {})}
        self.started = False
        self.result = None
        self.sets = []

    def next(self):
        """next observation, compared with the model"""
        drv = self.drv
        if not self.started:
            self.acc = drv.acceptor(self.eid, self.base)
            self.acc.begin(self.term)
            self.started = True
        acc = self.acc
        try:
            s = next(self.gen)
            obs = drv.to_model(s)
            self.raw = s
        except StopIteration as e:
            obs = None
            self.result = e.value
        try:
            exp = acc.observe(obs, self.skip)
        except Overflow:
            drv.ctx.count('overflow')
            raise Skip()
        drv.ctx.count('sets_observed' if obs is not None else 'ends_observed')
        if exp is not None:
            got = 'END' if obs is None else tuple(sorted(obs))
            drv.ctx.fail(
                f'run yields {got}, possible are {exp}; before that in this context: '
                f'{[sorted(x) for x in drv.history[self.eid]][-30:]} (this run: {len(self.sets)} sets)')
        if obs is not None:
            self.sets.append(obs)
            drv.history[self.eid].append(obs)
        return obs

    def close(self):
        self.gen.close()
        if self.started:
            self.acc.abandon()


TIME_FIELDS = ('consideration_set_execution', 'pass_', 'environment_state_update', 'environment_sequence')


def state_of(s):
    """counts, history and time of all contexts; zero is like absent"""
    res = {}
    for e in list(s.counts_total):
        res['total', e] = {(ts.name, n): c for ts, v in s.counts_total[e].items() for n, c in v.items() if c}
    for e in list(s.counts_useable):
        res['useable', e] = {(a, b): c for a, v in s.counts_useable[e].items() for b, c in v.items() if c}
    for e, v in s.execution_list.items():
        res['list', e] = [frozenset(x) for x in v]
    for e, v in s.execution_timestamps.items():
        res['stamps', e] = [str(t) for t in v]
    for e, c in s.clocks.items():
        t = [getattr(c.time, f) for f in TIME_FIELDS]
        res['time', e] = t if any(t) else []
        res['absolute', e] = str(c.time.absolute) if c.time.absolute.magnitude else ''
    return {k: v for k, v in res.items() if v}
