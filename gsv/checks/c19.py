"""Results and conflicts of neighbor operations."""
from ..core import Skip
from ..drive import gs
from ..gen import gen_digraph, gen_graph, labeling
from ..gscgen import (
    FLAGS, OPS, REPOSITION, already_valid, apply, build_gsc, edges, gen_gsc, op_edges, self_free, set_op, show_graph,
)

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('random repositioning conditions (and the generic operation condition) with random operations, given as members '
        'or names and per subject, on random acyclic and cyclic graphs: the edges of the result without pruning and '
        'reconnection, and the conflict errors, are compared with an independent computation of the set operations; with '
        'pruning and reconnection nothing else may appear; every operation is also called directly on random sets. '
        'Non-trivial: an operation other than the default is given; distinct by graph and condition')
MINIMA = {'operations': 900, 'results': 860, 'conflict_errors': 150, 'conflicts_ignored': 39, 'per_subject': 150,
          'with_postprocessing': 300, 'schedulers': 41}


def ops(ctx, rng):
    m = gs()
    items = [rng.choice([i, str(i), (i,)]) for i in range(8)]
    s = set(rng.sample(items, rng.randint(0, 6)))
    c = set(rng.sample(items, rng.randint(0, 6)))
    s0, c0 = set(s), set(c)
    ctx.check({o.upper() for o in OPS} == set(m.Operation.__members__), 'the members of Operation are not the documented ones')
    for o in OPS:
        r = getattr(m.Operation, o)(s, c)
        ctx.count('operations')
        ctx.check(r == set_op(o, s0, c0), lambda: f'{o}({s0}, {c0}) is {r}')
        ctx.check(s == s0 and c == c0, lambda: f'{o} changes its arguments')


def case(ctx, rng):
    m = gs()
    g = gen_digraph(rng, 2, 6) if rng.random() < .25 else gen_graph(rng, 2, 7)
    names = sorted(g)
    if len(names) < 2:
        raise Skip()
    spec = gen_gsc(rng, names, (*REPOSITION, '_GSCWithOperations'), ops_p=rng.choice([0, .3, .6, 1]), flags=())
    plain = rng.random() < .65
    if plain:
        spec['prune_cycles'] = spec['reconnect_non_subject_receivers'] = False
        if rng.random() < .3:
            spec['remove_new_self_referential_edges'] = False
    else:
        for f in FLAGS[:3]:
            if rng.random() < .25:
                spec[f] = rng.random() < .5
    if rng.random() < .3:
        spec['ignore_conflicts'] = rng.random() < .8
    lab = labeling(rng, names)
    ctx.desc = (show_graph(g), spec)
    if len(already_valid(spec, g)) == len(spec['nodes']):
        raise Skip()
    c = build_gsc(m, spec, lab, rng)
    res, _ = apply(m, spec, g, lab, rng, c)
    exp, conflicts = op_edges(spec, g)
    ignore = spec.get('ignore_conflicts', False)
    ctx.count('per_subject', any(isinstance(v, dict) for v in spec.values()))
    if any(k.startswith(('owner_', 'subject_')) for k in spec):
        ctx.distinct(ctx.desc)
    if res is None:
        ctx.count('conflict_errors')
        ctx.check(conflicts and not ignore, f'a conflict is reported although the operations agree (ignore: {ignore})')
        if rng.random() < .3:
            # nothing changes in a scheduler
            graph = {lab[k]: {lab[x] for x in v} for k, v in g.items()}
            s = m.Scheduler(graph)
            before = {k: set(v) for k, v in s.graph.items()}
            try:
                s.add_condition(lab[spec['owner']], c)
                ctx.fail('a scheduler does not report the conflict')
            except m.condition.ConditionError:
                pass
            ctx.count('schedulers')
            s.remove_condition(c)
            ctx.check(s.graph == before, lambda: f'graph {s.graph} after a conflicting condition was removed, {before} before')
        return
    ctx.check(ignore or not conflicts, lambda: f'no conflict is reported about edges {sorted(conflicts)}')
    ctx.count('conflicts_ignored', bool(conflicts))
    ctx.count('results')
    if spec.get('remove_new_self_referential_edges', True):
        exp = self_free(exp, g)
    got = edges(res)
    if not spec.get('prune_cycles', True) and not spec.get('reconnect_non_subject_receivers', True):
        ctx.check(got == exp, lambda: f'result {show_graph(res)} lacks {sorted(exp - got)} and has {sorted(got - exp)} '
                                      'besides the edges given by the operations')
        ctx.sample({'graph': show_graph(g), 'condition': spec, 'result': show_graph(res)})
    else:
        ctx.count('with_postprocessing')
        o = spec['owner']
        rec = {r for s, r in edges(g) if s == o}
        for s, r in got - exp:
            ctx.check(spec.get('reconnect_non_subject_receivers', True) and s in g[o] and r in rec,
                      lambda: f'result {show_graph(res)} has edge {s} -> {r} given neither by operations nor by reconnection')
        if not spec.get('prune_cycles', True):
            ctx.check(exp <= got, lambda: f'result {show_graph(res)} lacks {sorted(exp - got)}')


GROUPS = {'case': (case, 5000, 100000), 'ops': (ops, 400, 3000)}
