"""Edge conditions and custom structure conditions."""
import collections
import copy
import functools
import warnings

from ..drive import gs, nx_of
from ..gen import fresh, gen_graph, labeling, relabel_graph
from ..gscgen import layers, no_self, show_graph

PROPERTY = 'C30'
LEVEL = 'exploration'
RULE = ('random sequences of up to 20 edge and custom structure conditions added to schedulers (by condition or edge method) '
        'and removed in any order, or applied directly to graphs (cyclic ones too); after each the graph, layers, indices '
        'and warnings are compared with sets of edges changed independently, custom functions of all kinds of callables '
        'check their arguments; in between default runs. Non-trivial: at least 3 conditions were present at once and one '
        'was removed; distinct by sequence')
MINIMA = {'edits': 2800, 'graphs': 4400, 'layers': 3200, 'warned': 700, 'custom': 660, 'with_self': 280,
          'undone': 1500, 'direct': 750, 'runs': 200, 'removed_edges': 400, 'returned_conditions': 740}


class Functions:
    """custom functions of all kinds with the same effect"""

    def __init__(self, ctx, change, expect_kwargs):
        self.ctx, self.change, self.kw = ctx, change, expect_kwargs
        self.cond = None
        self.seen = None

    def note(self, cond, graph):
        self.seen = (cond, {k: set(v) for k, v in graph.items()})
        return self.change(graph)

    def method(self, graph):
        return self.note(None, graph)

    def __call__(self, graph):
        return self.note(None, graph)

    def make(self, rng):
        k = rng.choice(['plain', 'self', 'self', 'self_kw', 'lambda', 'method', 'callable', 'partial', 'default', 'positional',
                        'self_annotated', 'wrapped', 'lambda_self'])
        note = self.note
        if k == 'plain':
            def fn(graph):
                return note(None, graph)
        elif k == 'self':
            def fn(self, graph):
                return note(self, graph)
        elif k == 'self_kw':
            def fn(self, graph, *, flag=True):
                assert flag is True
                return note(self, graph)
        elif k == 'self_annotated':
            def fn(self: object, deps: dict, extra=()) -> dict:
                return note(self, deps)
        elif k == 'lambda':
            fn = lambda g: note(None, g)  # noqa: E731
        elif k == 'lambda_self':
            fn = lambda self, g: note(self, g)  # noqa: E731
        elif k == 'method':
            fn = self.method
        elif k == 'callable':
            fn = self
        elif k == 'partial':
            fn = functools.partial(lambda x, graph: note(None, graph), 5)
        elif k == 'default':
            def fn(graph, option=None, *more, **kwargs):
                assert option is None and not more and not kwargs
                return note(None, graph)
        elif k == 'wrapped':
            def inner(self, graph):
                return note(self, graph)

            @functools.wraps(inner)
            def fn(*args):
                return inner(*args)
        else:
            def fn(graph, /):
                return note(None, graph)
        self.has_self = k in ('self', 'self_kw', 'self_annotated', 'lambda_self', 'wrapped')
        return fn


def gen_change(rng, names, lab, sizes=False):
    """(name, function on the real graph, function on the model); sizes:
    other nodes may be in the result"""
    a, b = rng.choice(names), rng.choice(names)
    style = rng.choice(['inplace', 'new', 'new', 'replace'])
    kind = rng.choice(['flip', 'clear', 'add', 'reverse', 'chain', 'same'])
    if sizes and rng.random() < .3:
        kind = rng.choice(['drop', 'grow', 'empty', 'other'])

    def apply(g, x, y):
        if kind == 'flip' and x != y:
            if x in g[y]:
                g[y].discard(x)
                g[x].add(y)
            else:
                g[y].add(x)
        elif kind == 'clear':
            g[x] = set()
        elif kind == 'add' and x != y:
            g[y].add(x)
        elif kind == 'drop':
            g.pop(x)
            for v in g.values():
                v.discard(x)
        elif kind == 'grow':
            g['new node'] = {x}
            g[y].add('new node')
        elif kind == 'empty':
            g.clear()
        elif kind == 'other':
            g.clear()
            g['new node'] = {x}
        elif kind == 'reverse':
            r = {k: set() for k in g}
            for k, v in g.items():
                for s in v:
                    r[s].add(k)
            for k in g:
                g[k] = r[k]
        return g

    def chain(order):
        return {n: set(order[:i][-1:]) for i, n in enumerate(order)}

    def real(graph):
        if kind == 'chain':
            return chain([lab[n] for n in names])
        if style == 'inplace':
            return apply(graph, lab[a], lab[b])
        if style == 'replace':
            g = apply({k: set(v) for k, v in graph.items()}, lab[a], lab[b])
            graph.clear()
            graph.update(g)
            return graph
        g = apply({k: set(v) for k, v in graph.items()}, lab[a], lab[b])
        # the copy given may be changed
        for v in graph.values():
            v.clear()
        return g

    def model(g):
        if kind == 'chain':
            return chain(names)
        return apply(copy.deepcopy(g), a, b)
    return (kind, style, a, b), real, model


class Item:
    def __init__(self, ctx, rng, names, lab, sizes=False):
        m = gs()
        self.ctx = ctx
        self.kind = rng.choice(['add', 'add', 'remove', 'remove', 'custom'])
        self.fns = None
        if self.kind == 'custom':
            ctx.count('custom')
            self.what, real, self.model = gen_change(rng, names, lab, sizes)
            self.kw = {'option': rng.randint(0, 9)} if rng.random() < .4 else {}
            self.fns = Functions(ctx, real, self.kw)
            if self.what[0] == 'same' and rng.random() < .5:
                # without signature or from a library
                fn, self.fns = rng.choice([dict, collections.OrderedDict, copy.copy]), None
            else:
                fn = self.fns.make(rng)
                ctx.count('with_self', self.fns.has_self)
            args, kw = ((fn,), {}) if rng.random() < .7 else ((), {'process_graph_function': fn})
            self.cond = m.CustomGraphStructureCondition(*args, **kw, **self.kw)
            self.owner = rng.choice(names)
        else:
            a, b = rng.sample(names, 2)
            self.edge = (a, b)
            self.what = (a, b)
            self.owner = a if self.kind == 'add' else b
            other = b if self.kind == 'add' else a
            self.cond = (m.AddEdgeTo if self.kind == 'add' else m.RemoveEdgeFrom)(fresh(lab[other]))

    def apply(self, g):
        if self.kind == 'custom':
            return self.model(g)
        g = copy.deepcopy(g)
        a, b = self.edge
        if self.kind == 'add':
            g[b].add(a)
        else:
            g[b].discard(a)
        return g

    def check_call(self, before, lab):
        """arguments of the last call of a custom function"""
        if self.fns is None or self.fns.seen is None:
            return
        cond, graph = self.fns.seen
        ctx = self.ctx
        exp = {lab[n]: {lab[x] for x in v} for n, v in before.items()}
        ctx.check(graph == exp, lambda: f'custom function {self.what} got {graph}, the graph is {exp}')
        ctx.check(cond is (self.cond if self.fns.has_self else None),
                  lambda: f'custom function with self={self.fns.has_self} got {cond} as first argument, the condition is {self.cond}')
        for k, v in self.kw.items():
            ctx.check(getattr(self.cond, k) == v, f'option {k} of the custom condition is not {v}')

    def __repr__(self):
        return f'{self.kind}{self.what}'


def fold(base, items):
    g = base
    for i in items:
        g = i.apply(g)
    return g


def sequence(ctx, rng):
    m = gs()
    base = gen_graph(rng, 2, 7)
    names = sorted(base)
    lab = labeling(rng, names)
    inv = {v: k for k, v in lab.items()}
    real = nx_of(base, lab) if rng.random() < .25 else relabel_graph(rng, base, lab, omit=rng.random() < .3)
    log = []
    ctx.desc = {'graph': show_graph(base), 'labels': {k: repr(v) for k, v in lab.items()}, 'log': log}
    items, most, removed = [], 0, 0
    init = [Item(ctx, rng, names, lab) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    if init and len({i.owner for i in init}) == len(init):
        s = m.Scheduler(real, conditions={lab[i.owner]: i.cond for i in init})
        items = list(init)
        log.append(('at construction', repr(init)))
    else:
        s = m.Scheduler(real)

    def compare():
        exp = fold(base, items)
        got = {inv[k]: {inv[x] for x in v} for k, v in s.graph.items()}
        ctx.count('graphs')
        ctx.check(got == exp, lambda: f'graph is {show_graph(got)}, expected {show_graph(exp)} with {items}')
        lay = layers(exp)
        if lay is not None:
            ctx.count('layers')
            lay = [{lab[n] for n in x} for x in lay]
            q = s.consideration_queue
            ctx.check(q == lay, lambda: f'layers are {q}, expected {lay}')
            idx = {n: i for i, x in enumerate(lay) for n in x}
            ctx.check(s.consideration_queue_indices == idx, lambda: f'indices are {s.consideration_queue_indices}, expected {idx}')
        return exp, lay
    for _ in range(rng.randint(2, 20)):
        before = fold(base, items)
        if items and rng.random() < .35:
            i = rng.randrange(len(items))
            it = items.pop(i)
            log.append(('undo', repr(it)))
            ctx.count('undone')
            removed += 1
            t = rng.choice([s, s.conditions])
            t.remove_condition(it.cond)
        else:
            it = Item(ctx, rng, names, lab)
            how = rng.choice(['cond', 'cond', 'method', 'method', 'set', 'condset']) if it.kind != 'custom' else rng.choice(['cond', 'set', 'condset'])
            log.append((how, repr(it)))
            ctx.count('edits')
            items.append(it)
            most = max(most, len(items))
            # removals may be handled on access
            s.graph
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                if how == 'method':
                    a, b = it.edge
                    fn = s.add_graph_edge if it.kind == 'add' else s.remove_graph_edge
                    args = (lab[a], lab[b])
                    it.cond = fn(*args) if rng.random() < .5 else fn(sender=args[0], receiver=args[1])
                    ctx.count('returned_conditions')
                    ctx.check(isinstance(it.cond, m.AddEdgeTo if it.kind == 'add' else m.RemoveEdgeFrom) and it.cond.owner is lab[it.owner],
                              lambda: f'{fn.__name__}{args} returns {it.cond!r} with owner {it.cond.owner!r}')
                elif how == 'cond':
                    s.add_condition(lab[it.owner], it.cond)
                elif how == 'set':
                    s.add_condition_set({lab[it.owner]: it.cond if rng.random() < .5 else [it.cond]})
                else:
                    s.conditions.add_condition(lab[it.owner], it.cond)
                # conditions added to the condition set are applied on access
                s.graph
            after = fold(base, items)
            if it.kind == 'remove':
                a, b = it.edge
                if a in before[b]:
                    ctx.count('removed_edges')
                    ctx.check(layers(after) is None or no_self(after) != after or not w,
                              lambda: f'removal of the edge {a} -> {b} warns: {[str(x.message) for x in w]}')
                else:
                    ctx.count('warned')
                    ctx.check(len(w) > 0, f'no warning by removal of the edge {a} -> {b}, which is not in {show_graph(before)}')
            elif it.kind == 'add':
                ctx.check(layers(after) is None or no_self(after) != after or not w,
                          lambda: f'addition of the edge {it.edge} warns: {[str(x.message) for x in w]}')
            it.check_call(before, lab)
        if rng.random() < .8:
            exp, lay = compare()
            if lay is not None and no_self(exp) == exp and not s.conditions.conditions_basic and rng.random() < .15:
                ctx.count('runs')
                got = list(s.run(execution_id=len(log)))
                ctx.check(got == lay, lambda: f'default run after {log} yields {got}, layers are {lay}')
    compare()
    if rng.random() < .5:
        # remove all
        for it in rng.sample(items, len(items)):
            s.remove_condition(it.cond)
            items.remove(it)
            ctx.count('undone')
            log.append(('undo', repr(it)))
            compare()
    if most >= 3 and removed:
        ctx.distinct(ctx.desc)


def direct(ctx, rng):
    """modify_graph"""
    g = gen_graph(rng, 2, 7)
    names = sorted(g)
    if rng.random() < .4:
        for _ in range(rng.randint(1, 3)):
            a, b = rng.choice(names), rng.choice(names)
            g[b] = g[b] | {a}
    g = {k: set(v) for k, v in g.items()}
    lab = labeling(rng, names)
    it = Item(ctx, rng, names, lab, True)
    ctx.desc = {'graph': show_graph(g), 'condition': repr(it), 'labels': {k: repr(v) for k, v in lab.items()}}
    it.cond.owner = lab[it.owner]
    form = rng.choice([set, set, frozenset, list])
    real = {lab[k]: form(lab[x] for x in v) for k, v in g.items()}
    snap = {k: form(v) for k, v in real.items()}
    for _ in range(rng.randint(1, 3)):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            res = it.cond.modify_graph(real)
        ctx.count('direct')
        exp = it.apply(g)
        exp = {lab.get(n, n): {lab.get(x, x) for x in v} for n, v in exp.items()}
        ctx.check(res == exp, lambda: f'{it} gives {res}, expected {exp}')
        ctx.check(real == snap and res is not real, lambda: f'{it} changed its argument to {real}')
        it.check_call(g, lab)
        if it.kind == 'remove':
            ctx.check(bool(w) == (it.edge[0] not in g[it.edge[1]]), lambda: f'warnings of {it} for {show_graph(g)}: {[str(x.message) for x in w]}')
            ctx.count('warned' if w else 'removed_edges')
        # the result belongs to the caller
        for v in res.values():
            v.clear()
    ctx.distinct(ctx.desc)
    if rng.random() < .1:
        # self is given as the first argument, or not at all
        def late(graph, self):
            return graph
        c = gs().CustomGraphStructureCondition(late)
        c.owner = lab[it.owner]
        try:
            c.modify_graph(real)
        except gs().condition.ConditionError:
            ctx.count('late_self')
        else:
            ctx.fail('a custom function whose second argument is self is called')


GROUPS = {'sequence': (sequence, 1500, 25000), 'direct': (direct, 1500, 20000)}
