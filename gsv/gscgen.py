"""Random graph structure conditions, and what they should do."""
import zlib

from .gen import fresh

OPS = ('KEEP', 'REPLACE', 'DISCARD', 'INTERSECTION', 'UNION', 'MERGE', 'DIFFERENCE', 'INVERSE_DIFFERENCE',
       'SYMMETRIC_DIFFERENCE')
FLAGS = ('reconnect_non_subject_receivers', 'remove_new_self_referential_edges', 'prune_cycles', 'ignore_conflicts')
REPOSITION = ('BeforeNodes', 'BeforeNode', 'WithNode', 'AfterNodes', 'AfterNode')
EDGE = ('AddEdgeTo', 'RemoveEdgeFrom')
OP_ARGS = {
    'BeforeNodes': {'owner_senders': 'MERGE', 'owner_receivers': 'KEEP', 'subject_senders': 'KEEP', 'subject_receivers': 'KEEP'},
    'WithNode': {'owner_senders': 'MERGE', 'owner_receivers': 'KEEP', 'subject_senders': 'MERGE', 'subject_receivers': 'KEEP'},
    'AfterNodes': {'owner_senders': 'KEEP', 'owner_receivers': 'MERGE', 'subject_senders': 'MERGE', 'subject_receivers': 'KEEP'},
}
OP_ARGS['BeforeNode'] = OP_ARGS['BeforeNodes']
OP_ARGS['AfterNode'] = OP_ARGS['AfterNodes']
# an operation for all arguments of the base class
OP_ARGS['_GSCWithOperations'] = dict.fromkeys(
    ('owner_senders', 'owner_receivers', 'subject_senders', 'subject_receivers'), 'KEEP')


def set_op(op, s, c):
    """the operation, independently of the implementation"""
    if op == 'KEEP':
        return set(s)
    if op == 'REPLACE':
        return set(c)
    if op == 'DISCARD':
        return set()
    if op == 'INTERSECTION':
        return {x for x in s if x in c}
    if op in ('UNION', 'MERGE'):
        return {*s, *c}
    if op == 'DIFFERENCE':
        return {x for x in s if x not in c}
    if op == 'INVERSE_DIFFERENCE':
        return {x for x in c if x not in s}
    return {x for x in {*s, *c} if (x in s) != (x in c)}


def gen_gsc(rng, names, kinds=None, owner=None, ops_p=None, flag_p=.2, flags=FLAGS, subjects=None):
    """{'kind', 'owner', 'nodes', operations and flags that are given}"""
    names = sorted(names)
    kind = rng.choice(kinds or ('BeforeNodes', 'BeforeNode', 'WithNode', 'AfterNodes', 'AfterNode',
                                'AddEdgeTo', 'RemoveEdgeFrom'))
    if owner is None:
        owner = rng.choice(names)
    others = [n for n in names if n != owner]
    n = 1
    if kind in ('BeforeNodes', 'AfterNodes', '_GSCWithOperations'):
        n = min(len(others), rng.choice([1, 1, 2, 2, 3]) if rng.random() < .93 else rng.randint(4, 9))
    spec = {'kind': kind, 'owner': owner, 'nodes': tuple(subjects or rng.sample(others, n))}
    if kind in EDGE:
        return spec
    p = ops_p if ops_p is not None else rng.choice([0, .2, .5])
    for a in OP_ARGS[kind]:
        if kind == 'WithNode' and a in ('owner_senders', 'subject_senders'):
            continue
        if rng.random() < p:
            if a.startswith('subject') and rng.random() < .35:
                spec[a] = {x: rng.choice(OPS) for x in spec['nodes']}
            else:
                spec[a] = rng.choice(OPS)
    for f in flags:
        if rng.random() < flag_p:
            spec[f] = f == 'ignore_conflicts'
    return spec


def op_of(spec, arg, node=None):
    v = spec.get(arg, OP_ARGS[spec['kind']][arg])
    return v[node] if isinstance(v, dict) else v


def build_gsc(m, spec, lab, rng=None):
    """the real condition"""
    def op(name):
        if rng is None:
            return getattr(m.Operation, name)
        return rng.choice([getattr(m.Operation, name), name, name.lower(), name.title()])
    # the nodes given are equal to those of the graph, but may be other objects
    other = zlib.crc32(repr((spec['nodes'], spec['owner'])).encode()) % 5 > 2
    node = (lambda n: fresh(lab[n])) if other else lambda n: lab[n]
    kw = {}
    for k, v in spec.items():
        if k in ('kind', 'owner', 'nodes'):
            continue
        if k in FLAGS:
            kw[k] = v
        elif isinstance(v, dict):
            kw[k] = {node(n): op(o) for n, o in v.items()}
        else:
            kw[k] = op(v)
    return getattr(m.condition, spec['kind'])(*[node(n) for n in spec['nodes']], **kw)


def receivers_of(g):
    res = {n: set() for n in g}
    for r, ss in g.items():
        for s in ss:
            res[s].add(r)
    return res


def edges(g):
    return {(s, r) for r, ss in g.items() for s in ss}


def reach(g, a):
    """nodes that can be reached from a by at least one edge"""
    rec = receivers_of(g)
    seen, todo = set(), [a]
    while todo:
        for x in rec[todo.pop()]:
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return seen


def cyclic(g):
    return any(n in reach(g, n) for n in g)


def already_valid(spec, g):
    o = spec['owner']
    if spec['kind'].startswith('Before'):
        return [n for n in spec['nodes'] if o in g[n]]
    if spec['kind'].startswith('After'):
        return [n for n in spec['nodes'] if n in g[o]]
    if spec['kind'] == 'WithNode':
        return [n for n in spec['nodes'] if g[n] == g[o]]
    return []


def required(spec):
    o = spec['owner']
    if spec['kind'].startswith('Before'):
        return {(o, n) for n in spec['nodes']}
    if spec['kind'].startswith('After'):
        return {(n, o) for n in spec['nodes']}
    return set()


def without_mutual(spec, g):
    """original neighbors: edges between owner and subjects do not count"""
    h = {k: set(v) for k, v in g.items()}
    if spec['kind'] in REPOSITION:
        for n in spec['nodes']:
            h[n].discard(spec['owner'])
            h[spec['owner']].discard(n)
    return h


def op_edges(spec, g):
    """(edges by the operations and the condition itself, conflicts):
    before self-edges, cycles and reconnection are handled"""
    o, subj = spec['owner'], spec['nodes']
    h = without_mutual(spec, g)
    rec = receivers_of(h)
    targets = (o, *subj)
    new_s = {o: set_op(op_of(spec, 'owner_senders'), h[o], set().union(*[h[n] for n in subj]))}
    new_r = {o: set_op(op_of(spec, 'owner_receivers'), rec[o], set().union(*[rec[n] for n in subj]))}
    for n in subj:
        new_s[n] = set_op(op_of(spec, 'subject_senders', n), h[n], h[o])
        new_r[n] = set_op(op_of(spec, 'subject_receivers', n), rec[n], rec[o])
    conflicts = {(s, r) for s in targets for r in targets if (s in new_s[r]) != (r in new_r[s])}
    res = set()
    for s in g:
        for r in g:
            if s in new_r:
                yes = r in new_r[s]
            elif r in new_s:
                yes = s in new_s[r]
            else:
                yes = s in h[r]
            if yes:
                res.add((s, r))
    if spec['kind'] == 'WithNode':
        n = subj[0]
        both = {s for s, r in res if r in (o, n)}
        res |= {(s, r) for s in both for r in (o, n)}
    return res | required(spec), conflicts


def apply(m, spec, g, lab, rng=None, cond=None):
    """(result in model names or None if there is a condition error,
    raw result)"""
    inv = {v: k for k, v in lab.items()}
    c = cond or build_gsc(m, spec, lab, rng)
    c.owner = lab[spec['owner']]
    real = {lab[k]: {lab[x] for x in v} for k, v in g.items()}
    try:
        r = c.modify_graph(real)
    except m.condition.ConditionError:
        return None, None
    return {inv[k]: {inv[x] for x in v} for k, v in r.items()}, r


def self_free(es, g):
    """without self-edges that g has not"""
    return {(s, r) for s, r in es if s != r or s in g[s]}


def of_edges(names, es):
    g = {n: set() for n in names}
    for s, r in es:
        g[r].add(s)
    return g


def show_graph(g):
    return {k: sorted(v) for k, v in sorted(g.items())}


def no_self(g):
    return {k: {x for x in v if x != k} for k, v in g.items()}


def layers(g):
    """layers of the graph, None if there is a cycle of several nodes;
    self-edges do not matter"""
    from .model import layers_of
    g = no_self(g)
    return None if cyclic(g) else layers_of(g)
