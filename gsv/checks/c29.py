"""Edited schedulers."""
import random

from ..drive import Driver, build_term, describe, gs, nx_of
from ..gen import gen_abs_scenario, gen_cond, gen_graph, gen_seq_term, gen_term, labeling, relabel_graph
from ..gscgen import build_gsc, gen_gsc, layers, no_self, show_graph
from ..model import ESEQ, ESU, TS_NAMES, build, show, walk

PROPERTY = 'C29'
LEVEL = 'exploration'
RULE = ('random sequences of up to 30 edits of one scheduler or its condition set (conditions added, replaced, assigned, '
        'removed, moved to other nodes, edges and structure conditions added and removed, termination conditions and mode '
        'changed), interleaved with runs (finished, abandoned, suspended) and reads; at random moments the graph is compared '
        'with the structure conditions built anew and folded over the base graph, and runs in new contexts of the edited '
        'and of a newly built scheduler are compared with the reference automaton for the content, and with each other when it '
        'allows one schedule. Non-trivial: at least 5 edits before a compared run; distinct by sequence')
MINIMA = {'edits': 4700, 'compared_runs': 1100, 'fresh_sets': 4000, 'removed': 270, 'moved': 95,
          'structural_edits': 1300, 'term_edits': 250, 'mode_edits': 150, 'absolute_runs': 100,
          'sets_observed': 10000, 'equal_runs': 400}


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.m = ctx, rng, gs()
        self.pool = []
        if rng.random() < .35:
            sc = gen_abs_scenario(rng, nmax=6)
            while len(sc['graph']) < 2:
                sc = gen_abs_scenario(rng, nmax=6)
            self.g = sc['graph']
            self.pool = [c for c in sc['conds'].values()
                         if all(x[0] in ('All', 'Any', 'Not', 'TimeInterval', 'TimeTermination') for x in walk(c))]
            self.abs_term = [c for c in [sc['term'][ESU]] if c[0] == 'TimeTermination']
        else:
            self.g = gen_graph(rng, 2, 6, wide=False)
            self.abs_term = []
        self.names = sorted(self.g)
        self.lab = labeling(rng, self.names)
        self.inv = {v: k for k, v in self.lab.items()}
        self.conds = {}     # name: (spec, real)
        self.gscs = []      # (spec, real)
        self.removed = []   # (spec, real) to be added again
        self.term = {}
        self.mode = 'STANDARD'
        self.log = []
        self.n = 0
        self.suspended = []
        seed = rng.random()
        self.base = relabel_graph(random.Random(seed), self.g, self.lab)
        kw = {}
        init = rng.random() < .5
        if init:
            for n in self.names:
                if rng.random() < .5:
                    self.conds[n] = self.new(n)
            kw['conditions'] = {self.lab[n]: r for n, (_, r) in self.conds.items()}
        if rng.random() < .3:
            self.term = self.new_term()
            kw['termination_conds'] = build_term(self.term, self.lab, rng)
        self.s = self.m.Scheduler(nx_of(self.g, self.lab) if rng.random() < .2 else self.base, **kw)
        # where cycles are pruned, the result may depend on the order of nodes
        self.base = {k: set(self.base[k]) for k in self.s.graph}
        # the ones given to the constructor remain the ones for None
        self.init_term = dict(self.term)

    def spec(self, n):
        rng = self.rng
        if self.pool and rng.random() < .5:
            return rng.choice(self.pool)
        while True:
            c = gen_cond(rng, self.names, 1)
            if not any(x[0] == 'EveryNCalls' and x[1] == n for x in walk(c)):
                return c

    def real(self, spec):
        return build(spec, self.m, lambda x: self.lab[x])

    def new(self, n):
        c = self.spec(n)
        return c, self.real(c)

    def new_term(self):
        rng = self.rng
        t = {ESU: gen_term(rng, self.names)}
        if self.abs_term and rng.random() < .5:
            t[ESU] = self.abs_term[0]
        if rng.random() < .3:
            t[ESEQ] = gen_seq_term(rng, self.names)
        if rng.random() < .2:
            del t[ESU]
        return t

    # ------------------------------------------------------------- edits
    def edit(self):
        rng, s, m = self.rng, self.s, self.m
        n = rng.choice(self.names)
        node = self.lab[n]
        op = rng.choice(['add', 'add', 'add', 'item', 'set', 'remove', 'remove', 'move', 'gsc', 'gsc', 'edge', 'cut', 'ungsc',
                         'ungsc', 'term', 'mode', 'again', 'read'])
        target = s if rng.random() < .5 else s.conditions
        self.ctx.count('edits')
        entry = [op]
        if op == 'add':
            self.drop_basic(n)
            self.conds[n] = self.new(n)
            entry += [n, show(self.conds[n][0])]
            target.add_condition(node, self.conds[n][1])
        elif op == 'item':
            if self.gscs and rng.random() < .5:
                return
            gscs, self.gscs = self.gscs, [x for x in self.gscs if x[0]['owner'] != n]
            g = self.graph()
            if g is None or layers(g) is None or no_self(g) != g:
                # no graph to run without them
                self.gscs = gscs
                return
            self.conds[n] = self.new(n)
            entry += [n, show(self.conds[n][0])]
            s.conditions[node] = self.conds[n][1]
        elif op == 'set':
            add = {x: self.new(x) for x in rng.sample(self.names, rng.randint(1, len(self.names)))}
            entry += [(x, show(c)) for x, (c, _) in add.items()]
            self.conds.update(add)
            arg = {self.lab[x]: r for x, (_, r) in add.items()}
            target.add_condition_set(m.ConditionSet(arg) if rng.random() < .5 else arg)
        elif op == 'remove':
            if n not in self.conds:
                return
            spec, real = self.conds.pop(n)
            entry += [n]
            self.ctx.count('removed')
            if rng.random() < .5 and not any(x[0]['owner'] == n for x in self.gscs):
                target.remove_condition(node)
            else:
                target.remove_condition(real)
            self.removed.append((spec, real))
        elif op == 'move':
            b = rng.choice(self.names)
            if n not in self.conds or b == n:
                return
            spec, real = self.conds[n]
            if any(x[0] == 'EveryNCalls' and x[1] == b for x in walk(spec)):
                return
            entry += [n, b]
            self.ctx.count('moved')
            target.remove_condition(real)
            del self.conds[n]
            self.conds[b] = (spec, real)
            target.add_condition(self.lab[b], real)
        elif op == 'again':
            if not self.removed:
                return
            spec, real = self.removed.pop(rng.randrange(len(self.removed)))
            if any(x[0] == 'EveryNCalls' and x[1] == n for x in walk(spec)):
                return
            entry += [n, show(spec)]
            self.conds[n] = (spec, real)
            target.add_condition(node, real)
        elif op in ('gsc', 'edge', 'cut'):
            self.ctx.count('structural_edits')
            if op == 'gsc':
                spec = gen_gsc(rng, self.names, flags=('prune_cycles', 'reconnect_non_subject_receivers'), ops_p=.1)
                real = build_gsc(m, spec, self.lab)
            else:
                a, b = rng.sample(self.names, 2)
                spec = {'kind': 'AddEdgeTo' if op == 'edge' else 'RemoveEdgeFrom', 'owner': a if op == 'edge' else b,
                        'nodes': (b if op == 'edge' else a,)}
            entry += [{k: v for k, v in spec.items()}]
            if op == 'gsc':
                self.gscs.append((spec, real))
                try:
                    target.add_condition(self.lab[spec['owner']], real)
                except m.ConditionError:
                    pass
            elif op == 'edge':
                self.gscs.append((spec, s.add_graph_edge(self.lab[a], self.lab[b])))
            else:
                self.gscs.append((spec, s.remove_graph_edge(self.lab[a], self.lab[b])))
            g = self.graph()
            if g is None or layers(g) is None or no_self(g) != g:
                # does not apply, or no graph to run
                spec, real = self.gscs.pop()
                target.remove_condition(real)
                entry.append('removed again')
        elif op == 'ungsc':
            if not self.gscs:
                return
            self.ctx.count('structural_edits')
            i = rng.randrange(len(self.gscs))
            spec, real = self.gscs.pop(i)
            g = self.graph()
            if g is None or layers(g) is None or no_self(g) != g:
                self.gscs.insert(i, (spec, real))
                return
            entry += [(spec['kind'], spec['owner'], spec['nodes'])]
            target.remove_condition(real)
        elif op == 'term':
            self.ctx.count('term_edits')
            if rng.random() < .2:
                entry.append(None)
                self.term = dict(self.init_term)
                s.termination_conds = None
            else:
                t = self.new_term()
                entry.append({TS_NAMES[k]: show(v) for k, v in t.items()})
                # scales that are not given are kept
                self.term = {**self.term, **t}
                s.termination_conds = build_term(t, self.lab, rng)
        elif op == 'mode':
            self.ctx.count('mode_edits')
            self.mode = rng.choice(['STANDARD', 'EXACT_TIME'])
            entry.append(self.mode)
            s.mode = getattr(m.SchedulingMode, self.mode)
        else:
            [s.graph, s.consideration_queue, str(s.conditions), s.get_absolute_conditions()]
        self.n += 1
        self.log.append(tuple(entry))

    def drop_basic(self, n):
        if n in self.conds and self.rng.random() < .3:
            self.removed.append(self.conds[n])
            self.s.remove_condition(self.conds[n][1])

    def graph(self):
        """base graph with structure conditions equal to the present ones"""
        g = {k: set(v) for k, v in self.base.items()}
        for spec, _ in self.gscs:
            c = build_gsc(self.m, spec, self.lab)
            c.owner = self.lab[spec['owner']]
            try:
                g = c.modify_graph(g)
            except self.m.ConditionError:
                return None
        return {self.inv[k]: {self.inv[x] for x in v} for k, v in g.items()}

    # -------------------------------------------------------------- runs
    def scenario(self):
        sc = {'graph': self.graph(), 'conds': {n: c for n, (c, _) in self.conds.items()}, 'lab': self.lab, 'mode': self.mode,
              'steps': []}
        if self.term:
            sc['term'] = dict(self.term)
        return sc

    def run(self):
        """a run that is not compared"""
        rng = self.rng
        run = self.s.run(execution_id=rng.choice(['a', 'b', None]))
        k = rng.randint(0, 6)
        self.log.append(('run', k))
        for _ in range(k):
            if next(run, None) is None:
                return
        if rng.random() < .3:
            self.suspended.append(run)
        else:
            run.close()

    def fresh(self, sc):
        m, rng = self.m, self.rng
        conds = {}
        names = list(self.conds)
        for n in names:
            conds[self.lab[n]] = [self.real(self.conds[n][0])]
        s = m.Scheduler(self.base, conditions=conds, mode=getattr(m.SchedulingMode, self.mode),
                        **({'termination_conds': build_term(self.term, self.lab, rng)} if self.term else {}))
        for spec, _ in self.gscs:
            s.add_condition(self.lab[spec['owner']], build_gsc(m, spec, self.lab))
        return s

    def compare(self, k):
        ctx, rng = self.ctx, self.rng
        sc = self.scenario()
        real = {self.inv[a]: {self.inv[b] for b in v} for a, v in self.s.graph.items()}
        ctx.check(real == sc['graph'], lambda: f'graph is {show_graph(real)}, structure conditions give {show_graph(sc["graph"])}')
        ctx.desc = {'start': self.start, 'log': self.log, 'content': describe(sc)}
        ctx.count('compared_runs')
        sets = []
        limit = rng.randint(4, 14)
        unique = True
        for s in (self.s, self.fresh(sc)):
            drv = Driver(ctx, sc, random.Random(0), sched=s)
            eid = f'new {k}' if rng.random() < .9 or s is not self.s else ('new', k)
            run = drv.start(None, eid)
            res = []
            for i in range(limit):
                obs = run.next()
                if s is not self.s:
                    ctx.count('fresh_sets')
                res.append(obs)
                if obs is None:
                    break
            else:
                run.close()
            if drv.acceptor(eid).sim.absolute:
                ctx.count('absolute_runs')
            unique = unique and drv.acceptor(eid).unique
            sets.append(res)
        if unique:
            ctx.count('equal_runs')
            ctx.check(sets[0] == sets[1], lambda: f'edited scheduler yields {sets[0]}, a new one {sets[1]}')
        if self.n >= 5:
            ctx.distinct(self.start, self.log)


def case(ctx, rng):
    w = World(ctx, rng)
    w.start = {'graph': show_graph(w.g), 'conds': {n: show(c) for n, (c, _) in w.conds.items()},
               'term': {TS_NAMES[k]: show(v) for k, v in w.term.items()}, 'labels': {k: repr(v) for k, v in w.lab.items()}}
    ctx.desc = {'start': w.start, 'log': w.log}
    if rng.random() < .5:
        w.run()
    for k in range(rng.randint(1, 5)):
        for _ in range(rng.randint(1, 7)):
            w.edit()
            ctx.desc = {'start': w.start, 'log': w.log}
            if rng.random() < .15:
                w.run()
        if w.suspended and rng.random() < .5:
            w.suspended.pop().close()
        w.compare(k)


GROUPS = {'case': (case, 1600, 25000)}
