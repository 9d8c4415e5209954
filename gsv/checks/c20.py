"""Reconnection of former senders and receivers of a moved node."""
from ..core import Skip
from ..drive import gs
from ..gen import gen_graph, labeling
from ..gscgen import REPOSITION, already_valid, apply, edges, gen_gsc, reach, receivers_of, show_graph

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = ('random Before / After / With conditions with random operations and options on random acyclic graphs, applied with '
        'and without reconnection: paths from former senders to former receivers of the owner, and the edges in which the '
        'two results differ. Non-trivial: reconnection added an edge; distinct by graph and condition')
MINIMA = {'pairs': 1500, 'edges_added': 370, 'paths_kept': 500, 'reversed_pairs': 1, 'already_valid': 20}


def case(ctx, rng):
    m = gs()
    g = gen_graph(rng, 3, 8)
    names = sorted(g)
    rec = receivers_of(g)
    mid = [n for n in names if g[n] and rec[n]]
    if not mid:
        raise Skip()
    owner = rng.choice(mid) if rng.random() < .9 else None
    spec = gen_gsc(rng, names, REPOSITION, owner=owner)
    spec.pop('reconnect_non_subject_receivers', None)
    if rng.random() < .3:
        spec['reconnect_non_subject_receivers'] = True
    o, subj = spec['owner'], spec['nodes']
    lab = labeling(rng, names)
    ctx.desc = (show_graph(g), spec)
    res, _ = apply(m, spec, g, lab, rng)
    off, _ = apply(m, {**spec, 'reconnect_non_subject_receivers': False}, g, lab, rng)
    if res is None:
        ctx.check(off is None, 'a conflict is reported with reconnection only')
        raise Skip()
    if len(already_valid(spec, g)) == len(subj):
        ctx.count('already_valid')
        ctx.check(res == off == g, 'reconnection changes a graph for which the condition holds')
        return
    show = lambda: f'result {show_graph(res)} (without reconnection {show_graph(off)}): '
    pairs = {(s, r) for s in g[o] for r in rec[o] if r not in subj}
    for s, r in pairs:
        ctx.count('pairs')
        if r in reach(res, s):
            ctx.count('paths_kept')
        else:
            ctx.count('reversed_pairs')
            ctx.check(s in reach(res, r), lambda: show() + f'no path from the former sender {s} to the former receiver {r}')
    on_e, off_e = edges(res), edges(off)
    ctx.check(off_e <= on_e, lambda: show() + f'reconnection removed {sorted(off_e - on_e)}')
    for s, r in on_e - off_e:
        ctx.count('edges_added')
        ctx.check((s, r) in pairs, lambda: show() + f'reconnection added {s} -> {r}')
        ctx.check(not (s in off[o] and o in off[r]), lambda: show() + f'{s} -> {r} added although both are connected via {o}')
        ctx.check(s not in reach(res, r), lambda: show() + f'{s} -> {r} added although {r} is before {s}: closes a cycle')
    if on_e != off_e:
        ctx.distinct(ctx.desc)
        ctx.sample({'graph': show_graph(g), 'condition': spec, 'added': sorted(on_e - off_e)})


GROUPS = {'case': (case, 9000, 150000)}
