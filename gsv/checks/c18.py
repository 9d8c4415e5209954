"""Positions established by Before / After / With conditions."""
from ..core import Skip
from ..drive import gs
from ..gen import gen_graph, labeling
from ..gscgen import (
    OP_ARGS, REPOSITION, already_valid, apply, build_gsc, cyclic, edges, gen_gsc, of_edges, op_edges, reach, receivers_of,
    required, self_free, show_graph,
)
from ..model import layers_of

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('random Before / After / With conditions with random operations and options on random acyclic graphs: edges of the '
        'result required by the condition, layers of the result (computed independently and by a scheduler that is run), '
        'edges that must stay, self-edges, edges removed although they are in no cycle, remaining cycles that could be '
        'broken, conditions that already hold. Non-trivial: the graph is changed; distinct by graph and condition')
MINIMA = {'positions': 660, 'acyclic_results': 610, 'already_valid': 150, 'pruned': 60, 'untouched_edges': 2000,
          'scheduler_runs': 240, 'conflicts': 30, 'default_before': 55}


def pick(rng, g):
    names = sorted(g)
    if rng.random() < .15 and any(g.values()):
        # a condition that holds already, for all or some subjects
        kind = rng.choice(['BeforeNodes', 'AfterNodes', 'WithNode'])
        owner = rng.choice(names)
        rec = receivers_of(g)
        fit = {'BeforeNodes': rec[owner], 'AfterNodes': g[owner],
               'WithNode': {n for n in names if n != owner and g[n] == g[owner]}}[kind]
        if fit:
            k = 1 if kind == 'WithNode' else rng.randint(1, min(3, len(fit)))
            sub = rng.sample(sorted(fit), k)
            if kind != 'WithNode' and rng.random() < .3:
                sub += [n for n in names if n != owner and n not in sub][:1]
            return gen_gsc(rng, names, [kind], owner=owner, subjects=sub)
    if rng.random() < .12:
        # a condition that nearly holds: senders differ but have the same
        # ancestors, the same layer, or all but one of them
        owner, x = rng.sample(names, 2)
        if x in reach(g, owner):
            owner, x = x, owner
        anc = {n for n in names if n != x and x in reach(g, n)}
        if anc and owner not in anc and x not in reach(g, owner):
            top = {n for n in anc if not any(n != k and k in reach(g, n) for k in anc)}
            kind = rng.random()
            if kind < .6:
                g[owner] = top | {n for n in anc if rng.random() < .5}
            elif kind < .8:
                g[owner] = set(g[x]) - {rng.choice(sorted(g[x]))}
            else:
                g[owner] = set(g[x])
            if not cyclic(g) and g[owner] != g[x]:
                if rng.random() < .5:
                    owner, x = x, owner
                return gen_gsc(rng, names, ['WithNode'], owner=owner, subjects=[x])
    return gen_gsc(rng, names, REPOSITION)


def case(ctx, rng):
    m = gs()
    g = gen_graph(rng, 2, 8)
    names = sorted(g)
    if len(names) < 2:
        raise Skip()
    spec = pick(rng, g)
    lab = labeling(rng, names)
    inv = {v: k for k, v in lab.items()}
    ctx.desc = (show_graph(g), spec)
    o, subj = spec['owner'], spec['nodes']
    res, raw = apply(m, spec, g, lab, rng)
    ok = already_valid(spec, g)
    if len(ok) == len(subj):
        ctx.count('already_valid')
        ctx.check(res == g, lambda: f'{res} although the condition already holds')
        ctx.distinct(ctx.desc)
        return
    if res is None:
        ctx.count('conflicts')
        return
    ctx.count('positions')
    show = lambda: f'result {show_graph(res)} '
    for s, r in required(spec):
        ctx.check(s in res[r], lambda: show() + f'without the required edge {s} -> {r}')
    if spec['kind'] == 'WithNode':
        ctx.check(res[o] == res[subj[0]], lambda: show() + 'where senders of owner and subject differ')
        ctx.check(o not in res[subj[0]] and subj[0] not in res[o], lambda: show() + 'with an edge between owner and subject')
    cyc = cyclic(res)
    if not cyc:
        ctx.count('acyclic_results')
        idx = {n: i for i, lay in enumerate(layers_of(res)) for n in lay}
        for n in subj:
            good = {'B': idx[o] < idx[n], 'A': idx[o] > idx[n], 'W': idx[o] == idx[n]}[spec['kind'][0]]
            ctx.check(good, lambda: show() + f'where {o} is in layer {idx[o]} and {n} in layer {idx[n]}')
        if rng.random() < .4:
            ctx.count('scheduler_runs')
            s = m.Scheduler({lab[k]: {lab[x] for x in v} for k, v in g.items()})
            s.add_condition(lab[o], build_gsc(m, spec, lab, rng))
            pos = {}
            for i, x in enumerate(s.run()):
                for n in x:
                    pos[inv[n]] = i
            ctx.check(pos == idx, lambda: f'nodes run in layers {pos}, those of the graph are {idx}')
    # edges not concerned
    new, old = edges(res), edges(g)
    touched = {o, *subj}
    reconnect = spec.get('reconnect_non_subject_receivers', True)
    rec = receivers_of(g)
    for s in names:
        for r in names:
            if s in touched or r in touched:
                continue
            was, now = (s, r) in old, (s, r) in new
            ctx.count('untouched_edges')
            if was:
                # only edges of the owner and reversed ones are removed
                # from cycles
                ctx.check(now, lambda: show() + f'without edge {s} -> {r} that has neither owner nor subject')
            elif now:
                ctx.check(reconnect and s in g[o] and r in rec[o],
                          lambda: show() + f'with new edge {s} -> {r} that has neither owner nor subject')
    if spec.get('remove_new_self_referential_edges', True):
        ctx.check(all((n, n) not in new for n in names), lambda: show() + 'with a new self-edge')
    ops, conflicts = op_edges(spec, g)
    if spec.get('remove_new_self_referential_edges', True):
        ops = self_free(ops, g)
    before = of_edges(names, ops)
    gone = ops - new
    prune = spec.get('prune_cycles', True)
    for s, r in gone:
        ctx.count('pruned')
        ctx.check(prune, lambda: show() + f'without {s} -> {r} although cycles are not pruned')
        ctx.check(s in reach(before, r), lambda: show() + f'without {s} -> {r}, which was in no cycle of {show_graph(before)}')
        ctx.check((s, r) not in required(spec), lambda: show() + f'without the required edge {s} -> {r}')
        ctx.check(o in (s, r) or (s, r) not in old,
                  lambda: show() + f'without {s} -> {r} of the original graph, which is no edge of the owner')
    if spec['kind'] == 'BeforeNode' and prune and not any(k.endswith(('senders', 'receivers')) and k in OP_ARGS['BeforeNode']
                                                          for k in spec):
        ctx.count('default_before')
        ctx.check(not cyc, lambda: show() + 'with a cycle')
    if cyc and prune:
        ctx.count('cycles_left')
    if cyclic(before) and prune:
        ctx.count('cycles_before_pruning')
    if res != g:
        ctx.distinct(ctx.desc)
        ctx.sample({'graph': show_graph(g), 'condition': spec, 'result': show_graph(res)})


GROUPS = {'case': (case, 4000, 80000)}
