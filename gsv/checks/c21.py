"""The graph is the base graph with the present structure conditions."""
from ..drive import gs, nx_of
from ..gen import fresh, gen_graph, labeling, relabel_graph
from ..gscgen import build_gsc, gen_gsc, layers, show_graph

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('random sequences of up to 25 additions, removals, item assignments, changes of owner, failing applications, reads '
        'and runs on one scheduler (or its condition set), starting from a random graph and conditions given at '
        'construction; at random moments graph, layers, indices and the sets of a default run are compared with the fold of '
        'newly built equal conditions over the base graph. Non-trivial: at least 3 structure conditions were present and '
        'one was removed; distinct by sequence')
MINIMA = {'operations': 3100, 'graph_reads': 4000, 'failing_applied': 150, 'recovered': 100, 'default_runs': 90,
          'owner_changes': 100, 'emptied': 41, 'cyclic_graphs': 100, 'positions_removed': 300}


class Boom(Exception):
    pass


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.m = ctx, rng, gs()
        self.g = gen_graph(rng, 2, 7, wide=False)
        self.names = sorted(self.g)
        self.lab = labeling(rng, self.names)
        self.inv = {v: k for k, v in self.lab.items()}
        self.log = []
        # [spec, real condition, owner it was added for, current owner]
        self.items = []
        self.most = self.removed = 0

    # ------------------------------------------------------------ items
    def new(self, bad=False, owner=None):
        rng = self.rng
        if bad:
            kind = rng.choice(['missing', 'boom', 'missing'])
            o = owner or rng.choice(self.names)
            if kind == 'boom':
                spec = {'kind': 'boom', 'owner': o, 'nodes': ()}
            else:
                spec = {'kind': rng.choice(['AddEdgeTo', 'BeforeNode', 'RemoveEdgeFrom', 'WithNode', 'AfterNodes']),
                        'owner': o, 'nodes': ('?',)}
        elif rng.random() < .15:
            spec = {'kind': 'custom', 'owner': owner or rng.choice(self.names), 'nodes': (),
                    'drop': rng.sample(self.names, rng.randint(0, 2)), 'add': tuple(rng.sample(self.names, 2))}
        else:
            spec = gen_gsc(rng, self.names, owner=owner, flags=('prune_cycles', 'reconnect_non_subject_receivers'),
                           ops_p=rng.choice([0, 0, .2]))
        return [spec, self.build(spec), spec['owner'], spec['owner']]

    def build(self, spec):
        lab = {**self.lab, '?': 'not in graph'}
        m = self.m
        if spec['kind'] == 'boom':
            def boom(graph):
                raise Boom()
            return m.CustomGraphStructureCondition(boom)
        if spec['kind'] == 'custom':
            drop, (a, b) = [lab[n] for n in spec['drop']], [lab[n] for n in spec['add']]

            def fn(graph):
                for n in drop:
                    graph[n] = set()
                graph[b].add(a)
                return graph
            return m.CustomGraphStructureCondition(fn)
        return build_gsc(m, spec, lab)

    def fold(self):
        """graph by the present conditions, or an error type"""
        g = {k: set(v) for k, v in self.base.items()}
        for spec, _, _, owner in self.items:
            c = self.build(spec)
            c.owner = self.lab[owner]
            try:
                g = c.modify_graph(g)
            except (self.m.condition.ConditionError, Boom) as e:
                return type(e)
        return g

    def to_model(self, g):
        return {self.inv[k]: {self.inv[x] for x in v} for k, v in g.items()}

    # ------------------------------------------------------------ checks
    def read(self):
        ctx, s = self.ctx, self.s
        exp = self.fold()
        if isinstance(exp, type):
            ctx.count('failing_reads')
            for what in self.rng.sample(['graph', 'consideration_queue', 'consideration_queue_indices'], 2):
                try:
                    r = getattr(s, what)
                except exp:
                    continue
                ctx.fail(f'{what} is {r} although a condition that is present cannot be applied; {self.state()}')
            return
        exp = self.to_model(exp)
        lay = layers(exp)
        ctx.count('cyclic_graphs', lay is None)
        lay = [set()] if lay is None else [{self.lab[n] for n in x} for x in lay]
        for what in self.rng.sample(['graph', 'consideration_queue', 'consideration_queue_indices', 'dependency_dict'], 3):
            ctx.count('graph_reads')
            got = getattr(s, what)
            if what in ('graph', 'dependency_dict'):
                got = self.to_model(got)
                ctx.check(got == exp, lambda: f'{what} is {show_graph(got)}, expected {show_graph(exp)}; {self.state()}')
            elif what == 'consideration_queue':
                ctx.check(got == lay, lambda: f'layers are {got}, expected {lay} of {show_graph(exp)}; {self.state()}')
            else:
                idx = {n: i for i, x in enumerate(lay) for n in x}
                ctx.check(got == idx, lambda: f'indices are {got}, expected {idx} of {show_graph(exp)}; {self.state()}')

    def state(self):
        return f'present: {[(x[0]["kind"], x[3], x[0]["nodes"]) for x in self.items]}'

    def run(self):
        ctx, s = self.ctx, self.s
        exp = self.fold()
        lay = None if isinstance(exp, type) else layers(self.to_model(exp))
        if lay is None:
            try:
                next(s.run(execution_id='r'))
            except (self.m.SchedulerError, self.m.condition.ConditionError, Boom):
                return
            ctx.fail(f'a run starts on a cyclic graph or with a failing condition; {self.state()}')
        if any(n in v for n, v in exp.items()):
            # nodes that have themselves as sender never run by default
            return
        lay = [{self.lab[n] for n in x} for x in lay]
        ctx.count('default_runs')
        got = []
        part = self.rng.random() < .2
        for x in s.run(execution_id=self.rng.choice(['r', 'q'])):
            got.append(x)
            if part and self.rng.random() < .5:
                break
        ctx.check(got == lay[:len(got)] and (part or len(got) == len(lay)),
                  lambda: f'default run gives {got}, layers are {lay}; {self.state()}')

    # ------------------------------------------------------------ operations
    def expect_add(self, fn, items, eager):
        """fn adds items; errors are raised at once if eager"""
        self.items.extend(items)
        exp = self.fold()
        try:
            fn()
        except (self.m.condition.ConditionError, Boom) as e:
            self.ctx.check(eager and isinstance(exp, type) and isinstance(e, exp),
                           lambda: f'addition raises {e!r}; {self.state()}')
            self.ctx.count('failing_applied')
            return
        if isinstance(exp, type):
            self.ctx.count('failing_applied')
            self.ctx.check(not eager, lambda: f'no error at addition of a condition that fails; {self.state()}')

    def remove(self, it, by_owner=False):
        i = next(k for k, x in enumerate(self.items) if x is it)
        self.ctx.count('positions_removed', i < len(self.items) - 1)
        del self.items[i]
        self.removed += 1
        if it[3] != it[2]:
            it[1].owner = self.lab[it[2]]
            it[3] = it[2]
        target = self.rng.choice([self.s, self.s.conditions])
        r = target.remove_condition(fresh(self.lab[it[2]]) if by_owner else it[1])
        self.ctx.check(r is it[1], lambda: f'remove_condition returns {r}')


def case(ctx, rng):
    w = World(ctx, rng)
    m, lab = w.m, w.lab
    if rng.random() < .3:
        graph = nx_of(w.g, lab)
    else:
        graph = relabel_graph(rng, w.g, lab, omit=rng.random() < .3)
    items = [w.new() for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    conds = {}
    for it in items:
        conds.setdefault(lab[it[2]], []).append(it[1])
    # the order of a dictionary is that of its keys
    items = [next(x for x in items if x[1] is c) for v in conds.values() for c in v]
    form = rng.choice(['dict', 'set', 'later'])
    ctx.desc = w.log
    w.log.append((show_graph(w.g), {k: repr(v) for k, v in lab.items()}, [x[0] for x in items], form))
    if form == 'later':
        w.s = m.Scheduler(graph)
        w.base = {k: set(v) for k, v in w.s.graph.items()}
        if conds:
            w.expect_add(lambda: w.s.add_condition_set(conds), items, True)
    else:
        probe = m.Scheduler(graph)
        w.base = {k: set(v) for k, v in probe.graph.items()}
        w.items = items
        exp = w.fold()
        arg = conds if form == 'dict' else m.ConditionSet(conds)
        try:
            w.s = m.Scheduler(graph, conditions=arg)
        except m.condition.ConditionError as e:
            ctx.check(isinstance(exp, type), lambda: f'construction raises {e!r}')
            return
        ctx.check(not isinstance(exp, type), 'construction with a condition that fails raises no error')
    ctx.check(w.to_model(w.base) == w.g, lambda: f'base graph is {w.base}')
    s = w.s
    for _ in range(rng.randint(4, 25)):
        op = rng.choice(['add', 'add', 'add', 'add', 'cset_add', 'edge', 'edge', 'unedge', 'many', 'item', 'remove', 'remove',
                         'remove', 'remove_owner', 'bad', 'owner', 'run', 'read', 'clear', 'readd', 'basic'])
        ctx.count('operations')
        if op in ('add', 'cset_add', 'bad'):
            it = w.new(bad=op == 'bad')
            eager = op == 'add' or op == 'bad' and rng.random() < .6
            w.log.append((op, it[0]))
            target = s if eager else s.conditions
            w.expect_add(lambda: target.add_condition(fresh(lab[it[2]]), it[1]), [it], eager)
            if op == 'bad' and rng.random() < .7:
                if rng.random() < .5:
                    w.read()
                if rng.random() < .3:
                    it2 = w.new()
                    w.log.append(('add', it2[0]))
                    w.expect_add(lambda: s.conditions.add_condition(lab[it2[2]], it2[1]), [it2], False)
                w.log.append('remove bad')
                w.remove(it)
                ctx.count('recovered')
                if rng.random() < .7:
                    w.read()
        elif op in ('edge', 'unedge'):
            a, b = rng.sample(w.names, 2)
            w.log.append((op, a, b))
            kind, o, n = ('AddEdgeTo', a, b) if op == 'edge' else ('RemoveEdgeFrom', b, a)
            spec = {'kind': kind, 'owner': o, 'nodes': (n,)}
            it = [spec, None, o, o]

            def fn():
                f = s.add_graph_edge if op == 'edge' else s.remove_graph_edge
                it[1] = f(lab[a], lab[b])
            bad = isinstance(w.fold(), type)
            w.expect_add(fn, [it], True)
            if bad:
                it[1] = s.conditions.structural_condition_order[-1]
            ctx.check(it[1].owner == lab[o], lambda: f'{op} {a} {b} gives a condition of {it[1].owner}')
        elif op == 'many':
            its = [w.new() for _ in range(rng.randint(2, 3))]
            d = {}
            for it in its:
                d.setdefault(lab[it[2]], []).append(it[1])
            its = [next(x for x in its if x[1] is c) for v in d.values() for c in v]
            d = {k: v[0] if len(v) == 1 and rng.random() < .5 else v for k, v in d.items()}
            w.log.append((op, [x[0] for x in its]))
            arg = m.ConditionSet(d) if rng.random() < .4 else d
            w.expect_add(lambda: s.add_condition_set(arg), its, True)
        elif op == 'item':
            # replaces all structure conditions of the node
            it = w.new()
            old = [x for x in w.items if x[2] == it[2]]
            if any(x[3] != x[2] for x in old):
                continue
            w.log.append((op, it[0]))
            w.removed += len(old)
            w.items = [x for x in w.items if x[2] != it[2]]
            w.items.append(it)
            s.conditions[lab[it[2]]] = it[1]
        elif op == 'remove' and w.items:
            it = rng.choice(w.items)
            w.log.append((op, it[0]))
            w.remove(it)
        elif op == 'remove_owner':
            fit = [x for x in w.items if sum(y[2] == x[2] for y in w.items) == 1
                   and lab[x[2]] not in s.conditions.conditions_basic]
            if fit:
                it = rng.choice(fit)
                w.log.append((op, it[0]))
                w.remove(it, by_owner=True)
        elif op == 'owner' and w.items:
            it = rng.choice(w.items)
            fit = [n for n in w.names if n not in it[0]['nodes']]
            if fit and '?' not in it[0]['nodes']:
                it[3] = rng.choice(fit)
                w.log.append((op, it[0], it[3]))
                it[1].owner = lab[it[3]]
                ctx.count('owner_changes')
        elif op == 'run':
            w.log.append(op)
            w.run()
        elif op == 'clear' and rng.random() < .3:
            w.log.append(op)
            for it in rng.sample(w.items, len(w.items)):
                w.remove(it)
            ctx.count('emptied')
            w.read()
        elif op == 'readd' and w.items:
            it = rng.choice(w.items)
            w.log.append((op, it[0]))
            w.remove(it)
            if rng.random() < .5:
                w.read()
            eager = rng.random() < .6
            target = s if eager else s.conditions
            w.expect_add(lambda: target.add_condition(fresh(lab[it[2]]), it[1]), [it], eager)
        elif op == 'basic':
            # does not matter for the graph
            n = rng.choice(w.names)
            if lab[n] not in s.conditions.conditions_basic:
                w.log.append((op, n))
                c = m.AtPass(0)
                try:
                    s.add_condition(lab[n], c)
                except (m.condition.ConditionError, Boom) as e:
                    ctx.check(isinstance(w.fold(), type), lambda: f'unexpected {e!r}')
                if rng.random() < .8:
                    s.remove_condition(c)
                else:
                    s.conditions.conditions_basic[lab[n]].func = lambda: True
        if rng.random() < .5:
            w.read()
        w.most = max(w.most, len(w.items))
    w.read()
    order = [x[1] for x in w.items]
    got = s.conditions.structural_condition_order
    ctx.check(len(got) == len(order) and all(a is b for a, b in zip(got, order)), lambda: f'order is {got}; {w.state()}')
    if w.most >= 3 and w.removed:
        ctx.distinct(str(w.log))
        ctx.sample(str(w.log)[:800])


GROUPS = {'case': (case, 900, 16000)}
