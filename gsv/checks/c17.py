"""Purity and node set of graph structure conditions, rejections."""
from ..core import Skip
from ..drive import gs
from ..gen import gen_digraph, gen_graph, labeling
from ..gscgen import build_gsc, gen_gsc, show_graph

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('one to three random graph structure conditions (all classes, operations and options, also custom ones) applied one '
        'after the other to random acyclic and cyclic graphs whose nodes are of all kinds of hashables; snapshot of the '
        'argument before and after, identity of every set of argument and result, the nodes referred to, and repeated '
        'applications are compared; and requests that must be rejected. Non-trivial: the result differs from the '
        'argument; distinct by graph and condition')
MINIMA = {'applications': 1600, 'changed_graphs': 1100, 'rejected': 430, 'cyclic_graphs': 300, 'set_identities': 7200}


def snapshot(g):
    return [(k, id(v), frozenset(v)) for k, v in g.items()]


def case(ctx, rng):
    m = gs()
    if rng.random() < .35:
        g = gen_digraph(rng, 2, 6)
        ctx.count('cyclic_graphs')
    else:
        g = gen_graph(rng, 2, 7)
    names = sorted(g)
    lab = labeling(rng, names)
    inv = {v: k for k, v in lab.items()}
    graph = {lab[k]: {lab[x] for x in v} for k, v in g.items()}
    desc = [show_graph(g), {k: repr(v) for k, v in lab.items()}]
    ctx.desc = desc
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < .12:
            owner = rng.choice(names)
            extra = rng.choice(names)

            def fn(gr):
                # changes its argument, which must be a copy
                for v in gr.values():
                    v.discard(lab[owner])
                if owner != extra:
                    gr[lab[extra]].add(lab[owner])
                return gr
            c = m.CustomGraphStructureCondition(fn)
            c.owner = lab[owner]
            desc.append(('custom', owner, extra))
        else:
            spec = gen_gsc(rng, names)
            owner = spec['owner']
            desc.append(spec)
            c = build_gsc(m, spec, lab, rng)
            c.owner = lab[owner]
            nodes = c.nodes
        before = snapshot(graph)
        try:
            res = c.modify_graph(graph)
        except m.condition.ConditionError as e:
            ctx.check(snapshot(graph) == before, 'the argument is changed by an application that fails')
            ctx.check('onflict' in str(e), lambda: f'unexpected {e!r}')
            ctx.count('conflicts')
            continue
        ctx.count('applications')
        ctx.check(snapshot(graph) == before, lambda: f'the argument is changed to {graph}, it was {before}')
        ctx.check(res is not graph, 'the argument itself is returned')
        ctx.check(list(map(type, res.values())) == [set] * len(res), lambda: f'values of {res} are not sets')
        ids = [id(v) for v in res.values()]
        ctx.count('set_identities', len(ids))
        ctx.check(len(set(ids)) == len(ids), lambda: f'nodes share sets in {res}')
        ctx.check(not set(ids) & {id(v) for v in graph.values()}, lambda: f'{res} shares sets with the argument')
        ctx.check(set(res) == set(graph), lambda: f'nodes {set(res)} instead of {set(graph)}')
        ctx.check(all(x in graph for v in res.values() for x in v), lambda: f'{res} refers to other nodes')
        ctx.check(all(lab[inv[k]] is k for k in res), lambda: f'{res} has other node objects')
        again = c.modify_graph(graph)
        ctx.check(again == res, lambda: f'second application gives {again}, the first {res}')
        ctx.check(snapshot(graph) == before, 'the argument is changed by a second application')
        # a change of the result changes neither graph nor later results
        keep = {k: set(v) for k, v in res.items()}
        for v in again.values():
            v.clear()
        third = c.modify_graph({k: set(v) for k, v in graph.items()})
        ctx.check(third == keep and res == keep, lambda: f'result {third} after a former result was changed, {keep} before')
        ctx.check(c.owner == lab[owner], 'owner changed')
        if isinstance(desc[-1], dict):
            ctx.check(c.nodes == nodes, 'subjects changed')
        if keep != graph:
            ctx.count('changed_graphs')
            ctx.distinct(desc[0], str(desc[-1]))
            ctx.sample({'graph': desc[0], 'condition': str(desc[-1]),
                        'result': {inv[k]: sorted(inv[x] for x in v) for k, v in keep.items()}})
        graph = keep


def reject(ctx, rng):
    """requests that are errors"""
    m = gs()
    g = gen_graph(rng, 2, 6)
    names = sorted(g)
    lab = labeling(rng, names)
    graph = {lab[k]: {lab[x] for x in v} for k, v in g.items()}
    before = snapshot(graph)
    spec = gen_gsc(rng, names)
    kind = rng.choice(['noowner', 'missing_subject', 'missing_owner', 'unhashable', 'nonodes', 'toomany', 'owner_in_nodes',
                       'owner_in_nodes_set', 'missing_op', 'alien_op', 'add_missing'])
    ctx.desc = (kind, spec, show_graph(g))
    single = spec['kind'] in ('BeforeNode', 'AfterNode', 'WithNode', 'AddEdgeTo', 'RemoveEdgeFrom')
    cls = getattr(m.condition, spec['kind'])
    E = m.condition.ConditionError

    def expect(fn, what):
        ctx.count('rejected')
        try:
            r = fn()
        except E:
            ctx.check(snapshot(graph) == before, f'the graph is changed by {what} although it is rejected')
            return
        ctx.fail(f'{what} is not rejected but gives {r}')
    if kind == 'noowner':
        c = build_gsc(m, spec, lab)
        expect(lambda: c.modify_graph(graph), 'application of a condition without owner')
        c.owner = lab[spec['owner']]
        c.owner = None
        expect(lambda: c.modify_graph(graph), 'application after the owner was removed')
    elif kind == 'missing_subject':
        n = rng.choice(spec['nodes'])
        c = build_gsc(m, {k: v for k, v in spec.items() if not k.startswith('subject')}, {**lab, n: 'absent node'})
        c.owner = lab[spec['owner']]
        expect(lambda: c.modify_graph(graph), 'application with a subject that is not in the graph')
    elif kind == 'missing_owner':
        c = build_gsc(m, spec, lab)
        c.owner = 'absent node'
        expect(lambda: c.modify_graph(graph), 'application with an owner that is not in the graph')
    elif kind == 'add_missing':
        c = build_gsc(m, spec, lab)
        s = m.Scheduler(graph)
        expect(lambda: s.add_condition('absent node', c), 'addition with an owner that is not in the graph')
    elif kind == 'unhashable':
        args = [lab[n] for n in spec['nodes']]
        args[rng.randrange(len(args))] = rng.choice([[], {}, set(), ([],)])
        expect(lambda: cls(*args), 'an unhashable subject')
    elif kind == 'nonodes':
        if spec['kind'] == 'WithNode':
            raise Skip()
        expect(lambda: cls(), 'no subject')
    elif kind == 'toomany':
        if not single or spec['kind'] == 'WithNode' or len(names) < 2:
            raise Skip()
        expect(lambda: cls(*[lab[n] for n in names[:rng.randint(2, len(names))]]), 'more than one subject')
    elif kind.startswith('owner_in_nodes'):
        c = build_gsc(m, spec, lab)
        n = lab[rng.choice(spec['nodes'])]
        if kind == 'owner_in_nodes':
            def fn():
                c.owner = n
        elif rng.random() < .5:
            def fn():
                m.Scheduler(graph).add_condition(n, c)
        else:
            def fn():
                m.ConditionSet({n: c})
        expect(fn, 'an owner that is a subject')
    else:
        if spec['kind'] in ('AddEdgeTo', 'RemoveEdgeFrom'):
            raise Skip()
        arg = rng.choice(['subject_receivers'] if spec['kind'] == 'WithNode' else ['subject_receivers', 'subject_senders'])
        if kind == 'missing_op':
            ops = {lab[n]: 'KEEP' for n in spec['nodes'][1:]}
        else:
            ops = {lab[n]: 'KEEP' for n in spec['nodes']}
            ops[lab[spec['owner']]] = 'KEEP'
        expect(lambda: cls(*[lab[n] for n in spec['nodes']], **{arg: ops}), f'{arg} with operations {ops}')
    ctx.distinct(kind, spec['kind'], len(names))


GROUPS = {'case': (case, 4000, 80000), 'reject': (reject, 1800, 12000)}
