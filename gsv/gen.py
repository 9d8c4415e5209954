"""Random graphs, conditions and scenarios."""
from fractions import Fraction

from .model import CALL_CONDS, CSE, ESEQ, ESU, LIFE, PASS, TIME_CONDS, layers_of, walk

NAMES = list('ABCDEFGHIJKLMNOP')


class Obj:
    """node that is neither orderable nor a string"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'


class EqObj:
    """node whose instances are equal by name"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, EqObj) and other.name == self.name

    def __hash__(self):
        return hash(('EqObj', self.name))

    def __repr__(self):
        return f'={self.name}='


def fresh(x):
    """another object equal to x where there can be one"""
    if type(x) is tuple:
        return tuple([fresh(y) for y in x])
    if type(x) is frozenset:
        return frozenset([fresh(y) for y in x])
    if type(x) is EqObj:
        return EqObj(x.name)
    if type(x) in (int, float):
        return type(x)(repr(x))
    if type(x) is str:
        return ''.join(list(x))
    return x


LABELINGS = ('str', 'str', 'str', 'int', 'obj', 'tuple', 'mixed', 'eqobj', 'frozenset', 'long', 'twin', 'falsy')


def labeling(rng, nodes, kind=None):
    """{model name: actual node}"""
    kind = kind or rng.choice(LABELINGS)
    nodes = list(nodes)
    if kind == 'str':
        return {n: n for n in nodes}
    if kind == 'int':
        vals = rng.sample(range(0, 100), len(nodes))
        return dict(zip(nodes, vals))
    if kind == 'obj':
        return {n: Obj(n) for n in nodes}
    if kind == 'eqobj':
        return {n: EqObj(n) for n in nodes}
    if kind == 'tuple':
        return {n: ('t', n) for n in nodes}
    if kind == 'frozenset':
        return {n: frozenset([n, 1]) for n in nodes}
    if kind == 'long':
        return {n: f'node with name {n}-{rng.randint(0, 999)}' for n in nodes}
    if kind == 'twin':
        # different nodes whose texts or hashes are equal
        k = rng.randint(1, 9)
        pool = rng.choice([[k, str(k), Obj(str(k)), Obj(str(k)), EqObj(str(k)), (k,), f'({k},)', f'={k}='],
                           [-1, -2, '-1', '-2', (-1,), (-2,), 2 ** 61 - 3, -1.5],
                           [Obj('x') for _ in nodes]])
        vals = pool + [('t', n) for n in nodes[len(pool):]]
        vals = vals[:max(len(nodes), 2)]
        rng.shuffle(vals)
        return dict(zip(nodes, vals))
    if kind == 'falsy':
        vals = [0, '', (), frozenset(), b''] + list(range(1, len(nodes)))
        vals = vals[:max(len(nodes), 1)] if len(nodes) > 5 else rng.sample(vals, len(nodes))
        rng.shuffle(vals)
        return dict(zip(nodes, vals))
    res = {}
    for i, n in enumerate(nodes):
        res[n] = rng.choice([n, i, (n, i), Obj(n), frozenset([n]), EqObj(n), float(i) + .5])
    return res


def no_iter_labels(lab):
    """_DependencyValidation handles iterable nodes differently"""
    return lab


WIDE = .06


def wide_graph(rng, n):
    """n nodes, few edges, some nodes with many senders or receivers"""
    order = NAMES[:n]
    rng.shuffle(order)
    hubs = rng.sample(range(n), rng.choice([0, 1, 1, 2]))
    p = rng.choice([0, .5, .9])
    g = {x: set() for x in order}
    for i, x in enumerate(order):
        if i and rng.random() < p:
            g[x].add(order[rng.randint(max(0, i - 3), i - 1)])
        for h in hubs:
            if rng.random() < .8:
                if i < h:
                    g[order[h]].add(x)
                elif i > h:
                    g[x].add(order[h])
    items = list(g.items())
    rng.shuffle(items)
    return dict(items)


def gen_graph(rng, nmin=1, nmax=7, wide=True):
    if wide and nmin < nmax >= 4 and rng.random() < WIDE:
        return wide_graph(rng, rng.randint(nmax + 1, 14))
    n = rng.randint(nmin, nmax)
    names = NAMES[:n]
    order = names[:]
    rng.shuffle(order)
    shape = rng.choice(['random', 'random', 'random', 'chain', 'layered', 'star', 'tree', 'sparse', 'full'])
    g = {x: set() for x in order}
    for i, x in enumerate(order):
        if shape == 'chain':
            if i:
                g[x].add(order[i - 1])
        elif shape == 'star':
            if i:
                if rng.random() < .5:
                    g[x].add(order[0])
                else:
                    g[order[-1]].add(x) if x != order[-1] else g[x].add(order[0])
        elif shape == 'tree':
            if i:
                g[x].add(order[rng.randint(0, i - 1)])
        elif shape == 'layered':
            k = 2
            lay = i // k
            for j in range(i):
                if j // k == lay - 1 and rng.random() < .7:
                    g[x].add(order[j])
        else:
            p = {'random': rng.choice([.2, .4, .6]), 'sparse': .12, 'full': 1.0}[shape]
            for j in range(i):
                if rng.random() < p:
                    g[x].add(order[j])
    items = list(g.items())
    rng.shuffle(items)
    return dict(items)


def gen_digraph(rng, nmin=1, nmax=6, selfp=0.05):
    """possibly cyclic"""
    n = rng.randint(nmin, nmax)
    names = NAMES[:n]
    p = rng.choice([.1, .2, .35, .5])
    g = {}
    order = names[:]
    rng.shuffle(order)
    for x in order:
        g[x] = {y for y in names if (x != y and rng.random() < p) or (x == y and rng.random() < selfp)}
    return g


def relabel_graph(rng, g, lab, omit=False):
    """the graph given to the scheduler: nodes replaced, key order and
    set order shuffled, optionally without keys for some source nodes"""
    used = set()
    for v in g.values():
        used |= v
    items = [(k, v) for k, v in g.items() if not (omit and not v and k in used and rng.random() < .6)]
    rng.shuffle(items)
    res = {}
    for k, v in items:
        v = sorted(v)
        rng.shuffle(v)
        res[lab[k]] = {lab[x] for x in v}
    return res


# part of scenarios with numbers beyond the usual
LARGE = .05

N_SMALL = [0, 1, 1, 2, 2, 3]


def gen_time_cond(rng, names=None):
    k = rng.choice(names or list(TIME_CONDS))
    if k in ('AtEnvironmentStateUpdateStart', 'AtEnvironmentSequenceStart'):
        return (k,)
    if k == 'AtEnvironmentStateUpdateNStart':
        return (k, rng.choice([0, 1, 1, 2]), rng.choice([None, ESEQ, LIFE]))
    if k == 'AtEnvironmentSequenceNStart':
        return (k, rng.choice([0, 1, 1]))
    unit = TIME_CONDS[k][0]
    n = rng.choice(N_SMALL)
    if k == 'EveryNPasses':
        n = max(1, n)
    elif unit == CSE and rng.random() < .4:
        n = rng.randint(2, 9)
    if unit == ESEQ:
        return (k, rng.choice([0, 1, 1, 2]))
    scales = [ESU, ESEQ, LIFE] if unit < ESU else [ESEQ, LIFE]
    if rng.random() < .5:
        return (k, n)
    return (k, n, rng.choice(scales))


def gen_call_cond(rng, nodes, names=None):
    k = rng.choice(names or [*CALL_CONDS, 'AfterNCallsCombined', 'AllHaveRun'])
    scale = None if rng.random() < .4 else rng.choice([CSE, PASS, ESU, ESEQ, LIFE])
    if k in CALL_CONDS:
        return (k, rng.choice(nodes), rng.choice(N_SMALL), scale)
    m = rng.randint(0 if k == 'AllHaveRun' else 1, min(3, len(nodes)))
    deps = tuple(rng.sample(nodes, m))
    if k == 'AfterNCallsCombined':
        return (k, deps, rng.choice([1, 2, 2, 3, 4, 5]), scale)
    return (k, deps, scale)


def gen_cond(rng, nodes, depth=2, nwhen=True, kinds=None, top=True):
    """random basic condition without absolute time"""
    kinds = kinds or ('static', 'time', 'time', 'call', 'call', 'every', 'every', 'just', 'start', 'comp', 'comp', 'custom')
    r = rng.choice(kinds)
    if r == 'comp' and depth > 0:
        k = rng.choice(['All', 'Any', 'Not', 'And', 'Or'])
        if k == 'Not':
            return ('Not', gen_cond(rng, nodes, depth - 1, False, kinds, False))
        return (k, [gen_cond(rng, nodes, depth - 1, False, kinds, False) for _ in range(rng.randint(1, 3))])
    if top and nwhen and rng.random() < .08:
        return ('NWhen', gen_cond(rng, nodes, depth - 1, False, kinds, False), rng.choice([1, 1, 2, 3]))
    if r == 'static':
        return (rng.choice(['Always', 'Always', 'Never']),)
    if r == 'time':
        return gen_time_cond(rng)
    if r == 'start':
        return gen_time_cond(rng, ['AtEnvironmentStateUpdateStart', 'AtEnvironmentSequenceStart',
                                   'AtEnvironmentStateUpdateNStart', 'AtEnvironmentSequenceNStart'])
    if r == 'call':
        return gen_call_cond(rng, nodes)
    if r == 'every':
        return ('EveryNCalls', rng.choice(nodes), rng.choice([1, 1, 2, 2, 3, 4]))
    if r == 'just':
        return ('JustRan', rng.choice(nodes))
    if r == 'custom':
        m = rng.choice([2, 3])
        return (rng.choice(['CustomPass', 'WhileNotPass']), m, rng.randrange(m))
    return gen_time_cond(rng)


def gen_term(rng, nodes, depth=1):
    """a condition that ends runs in most cases"""
    r = rng.random()
    if r < .3:
        return ('AllHaveRun', (), None)
    if r < .5:
        return ('AfterNPasses', rng.randint(1, 5))
    if r < .6:
        return ('AfterNCalls', rng.choice(nodes), rng.randint(1, 4), None)
    if r < .7:
        return ('AfterNConsiderationSetExecutions', rng.randint(1, 9))
    if r < .75:
        return ('AllHaveRun', tuple(rng.sample(nodes, rng.randint(1, len(nodes)))), rng.choice([None, PASS, ESEQ]))
    if r < .8:
        return ('JustRan', rng.choice(nodes))
    if r < .83:
        return fresh_term(rng, nodes)
    if depth > 0:
        k = rng.choice(['All', 'Any', 'Any', 'Not'])
        if k == 'Not':
            return ('Not', gen_cond(rng, nodes, 0, False, ('time', 'call'), False))
        return (k, [gen_term(rng, nodes, depth - 1), gen_cond(rng, nodes, 1, False, ('time', 'call', 'just', 'comp'), False)])
    return ('AfterPass', rng.randint(0, 3))


def fresh_term(rng, nodes):
    """holds as a pass or set begins, when its counts are 0 again"""
    k, n = rng.choice([('BeforeNCalls', 1), ('BeforeNCalls', 1), ('AtNCalls', 0)])
    c = (k, rng.choice(nodes), n, rng.choice([PASS, PASS, CSE]))
    if rng.random() < .2:
        c = ('Not', ('AllHaveRun', (c[1],), c[3]))
    return ('All', [('AfterNPasses', rng.randint(1, 3), rng.choice([None, ESEQ])), c])


def gen_seq_term(rng, nodes):
    r = rng.random()
    if r < .5:
        return ('Never',)
    if r < .7:
        return ('AfterNEnvironmentStateUpdates', rng.randint(1, 3))
    if r < .85:
        return ('AfterNPasses', rng.randint(2, 8), ESEQ)
    if r < .95:
        return ('AfterNCalls', rng.choice(nodes), rng.randint(2, 6), ESEQ)
    return fresh_term(rng, nodes) if rng.random() < .5 else gen_term(rng, nodes)


def gen_conds(rng, graph, p=.7, **kw):
    nodes = sorted(graph)
    res = {}
    for n in nodes:
        if rng.random() < p:
            c = gen_cond(rng, nodes, **kw)
            # documented as unknown behavior
            while any(x[0] == 'EveryNCalls' and x[1] == n for x in walk(c)):
                c = gen_cond(rng, nodes, **kw)
            res[n] = c
    return res


def _grow(rng, c, nodes, ends=False):
    """condition c with larger numbers and more components"""
    k = c[0]
    if k in ('All', 'Any', 'And', 'Or'):
        cs = [_grow(rng, x, nodes, ends) for x in c[1]]
        if not ends:
            cs += [gen_cond(rng, nodes, 0, False, ('static', 'time', 'call', 'just'), False)
                   for _ in range(rng.choice([0, 0, 2, 6, 10]))]
        return (k, cs)
    if k == 'Not':
        return (k, _grow(rng, c[1], nodes, ends))
    if k == 'NWhen':
        return (k, _grow(rng, c[1], nodes), c[2] * rng.choice([1, 4, 11]))
    more = rng.choice([0, 4, 8, 15, 31])
    if k in TIME_CONDS:
        if TIME_CONDS[k][0] in (ESU, ESEQ):
            more = rng.choice([0, 1, 3, 7, 9])
        return (k, c[1] + more, *c[2:])
    if k in CALL_CONDS:
        return (k, c[1], c[2] + more, *c[3:])
    if k == 'AfterNCallsCombined':
        return (k, c[1], c[2] + more, c[3])
    if k == 'EveryNCalls':
        return (k, c[1], c[2] + rng.choice([0, 3, 7, 12]))
    return c


def _enlarge(rng, sc):
    """larger numbers, longer and more runs"""
    nodes = sorted(sc['graph'])
    sc['conds'] = {n: _grow(rng, c, nodes) for n, c in sc['conds'].items()}
    if 'term' in sc:
        sc['term'] = {k: _grow(rng, c, nodes, True) for k, c in sc['term'].items()}
    steps = []
    many = rng.random() < .5
    for s in sc['steps'] * (rng.randint(2, 6) if many else 1):
        if s[0] == 'run':
            over = s[1] and {k: _grow(rng, c, nodes, True) for k, c in s[1].items()}
            s = ('run', over, rng.choice([10, 30]) if many else rng.choice([100, 160]))
        steps.append(s)
        if many and rng.random() < .5:
            steps.append(('seq',))
    sc['steps'] = steps


def gen_scenario(rng, nmin=1, nmax=6, runs=3, p=.7, labels=True, term=True, large=True, wide=.02, **kw):
    if large and nmin < nmax and rng.random() < LARGE:
        # wide or deep
        nmin, nmax = nmax, nmax + 5
    if large and nmin < nmax and rng.random() < wide:
        g = wide_graph(rng, rng.randint(8, 14))
    else:
        g = gen_graph(rng, nmin, nmax, wide=False)
    nodes = sorted(g)
    sc = {
        'graph': g,
        'conds': gen_conds(rng, g, p, **kw),
        'mode': 'STANDARD' if rng.random() < .93 else 'EXACT_TIME',
        'steps': [],
        'lab': labeling(rng, nodes) if labels else {n: n for n in nodes},
    }
    if term and rng.random() < .6:
        sc['term'] = {}
        if rng.random() < .9:
            sc['term'][ESU] = gen_term(rng, nodes)
        if rng.random() < .3:
            sc['term'][ESEQ] = gen_seq_term(rng, nodes)
    for _ in range(rng.randint(1, runs)):
        over = None
        if term and rng.random() < .3:
            over = {rng.choice([ESU, ESU, ESEQ]): gen_term(rng, nodes)}
        sc['steps'].append(('run', over, rng.choice([12, 25, 25, 40])))
        if rng.random() < .3:
            sc['steps'].append(('seq',))
    if large and rng.random() < LARGE:
        _enlarge(rng, sc)
    return sc


def _far(rng, c, top):
    """condition c with numbers up to top"""
    k = c[0]
    if k in ('All', 'Any', 'And', 'Or'):
        return (k, [_far(rng, x, top) for x in c[1]])
    if k == 'Not':
        return (k, _far(rng, c[1], top))
    if rng.random() < .3:
        return c

    def n():
        return rng.choice([rng.randint(10, top), rng.randint(top // 2, top), min(top, rng.choice([64, 100, 127, 128, 255, 256, 257, 500, 512, 999, 1000, 1001, 1023, 1024, 1025]))])
    if k == 'NWhen':
        return (k, _far(rng, c[1], top), n())
    if k in TIME_CONDS:
        if k == 'EveryNPasses':
            return (k, rng.choice([7, 64, 100, n()]), *c[2:])
        return (k, n(), *c[2:])
    if k in CALL_CONDS:
        return (k, c[1], n(), *c[3:])
    if k == 'AfterNCallsCombined':
        return (k, c[1], n(), c[3])
    if k == 'EveryNCalls':
        return (k, c[1], rng.choice([13, 100, n()]))
    return c


def gen_long(rng, kinds=('time', 'time', 'call', 'call', 'every', 'comp', 'static'), **kw):
    """few nodes, many sets or many runs, numbers to match"""
    g = gen_graph(rng, 1, 3)
    nodes = sorted(g)
    style = rng.choice(['passes', 'passes', 'runs', 'runs', 'sequences'])
    top = {'passes': 1300, 'runs': 700, 'sequences': 400}[style]
    conds = gen_conds(rng, g, .6, kinds=kinds, depth=1, **kw)
    conds = {n: _far(rng, c, top) for n, c in conds.items()}
    if all(n in conds for n in nodes) and rng.random() < .7:
        # something executes in most passes
        first = [n for n in nodes if not g[n]]
        del conds[rng.choice(first)]
    sc = {'graph': g, 'conds': conds, 'mode': 'STANDARD' if rng.random() < .9 else 'EXACT_TIME',
          'steps': [], 'lab': {n: n for n in nodes}}
    if style == 'passes':
        sc['term'] = {ESU: rng.choice([('Never',), ('AfterNPasses', rng.randint(1000, 1200)),
                                       ('AfterNCalls', rng.choice(nodes), rng.randint(900, 1100), None),
                                       ('Any', [('AfterNConsiderationSetExecutions', rng.randint(1000, 1500)), _far(rng, gen_term(rng, nodes), top)])])}
        sc['steps'] = [('run', None, rng.randint(1100, 1600)), ('run', None, 20)]
        if rng.random() < .5:
            sc['steps'].insert(1, ('seq',))
    else:
        sc['term'] = {ESU: ('Any', [('AfterNPasses', rng.choice([1, 1, 2])),
                                    rng.choice([('AllHaveRun', (), None), ('AfterNConsiderationSetExecutions', 2)])])}
        if rng.random() < .3:
            sc['term'][ESEQ] = ('AfterNEnvironmentStateUpdates', rng.randint(100, top))
        n = top + rng.randint(0, 200)
        ends = .004 if style == 'runs' else .9
        for _ in range(n):
            sc['steps'].append(('run', None, 6))
            if rng.random() < ends:
                sc['steps'].append(('seq',))
    return sc


# ------------------------------------------------------------ absolute time
def gen_time(rng, unit, lo, hi, mult=1):
    return (Fraction(rng.randint(lo, hi) * mult), unit)


def layer_index(graph):
    return {n: i for i, x in enumerate(layers_of(graph)) for n in x}


UNITS = ('ps', 'ns', 'us', 'ms', 's', 'minute')


def spell(rng, ps, prefer=None, decimals=3):
    """ps picoseconds as (magnitude, unit) in some unit in which it is a
    short decimal; magnitudes are Fractions"""
    from .model import UNIT_PS
    opts = []
    for u in UNITS:
        v = Fraction(ps, UNIT_PS[u])
        if v.denominator == 1 and v < 10**6:
            opts.append((v, u))
        elif 10**decimals % v.denominator == 0:
            opts.append((v, u))
    if prefer and rng.random() < .6:
        best = [o for o in opts if o[1] == prefer]
        if best:
            return best[0]
    return rng.choice(opts) if opts else (Fraction(ps), 'ps')


def gen_interval(rng, tau, spread, spell_it, repeat_p=.85, start_p=.4, end_p=.35, aligned=True, sub=None, far=1):
    """TimeInterval specification with times in multiples of tau"""
    d = {}

    def t(lo, hi):
        k = rng.randint(lo, hi)
        if not aligned and sub and rng.random() < .6:
            return spell_it(k * tau + rng.randrange(sub) * (tau // sub))
        return spell_it(k * tau)
    while not d:
        if rng.random() < repeat_p:
            d['repeat'] = t(1, spread)
            if d['repeat'][0] == 0:
                del d['repeat']
        lo = 0
        if rng.random() < start_p:
            d['start'] = t(0, 2 * spread * far)
        if rng.random() < end_p:
            d['end'] = t(0, 4 * spread * far)
        from .model import to_ps
        if 'start' in d and 'end' in d and to_ps(d['start']) > to_ps(d['end']):
            d['start'], d['end'] = d['end'], d['start']
        if 'start' in d and rng.random() < .3:
            d['start_inclusive'] = rng.random() < .3
        if 'end' in d and rng.random() < .3:
            d['end_inclusive'] = rng.random() < .3
    return ('TimeInterval', d)


def gen_abs_scenario(rng, mode='STANDARD', nmax=5, runs=3, aligned=True, comp=.3, far=1):
    """far: times and numbers of sets are larger by about that factor"""
    g = gen_graph(rng, 1, nmax)
    nodes = sorted(g)
    base = rng.choice([1000, 10**6, 10**9, 10**12])        # ns us ms s in ps
    tau = base * rng.choice([1, 1, 2, 3, 5, 10, 25, 100])
    if rng.random() < .3:
        tau = base // 10 * rng.choice([1, 2, 3, 5, 7])
    if rng.random() < .15:
        # many digits
        tau = rng.randrange(10**6, 10**rng.randint(7, 13))
    mult = rng.choice([1, 1, 2, 3])
    prefer = {1000: 'ns', 10**6: 'us', 10**9: 'ms', 10**12: 's'}[base]
    mixed = rng.random() < .5

    def spell_it(ps):
        return spell(rng, ps, None if mixed else prefer)
    tau_m = tau * mult
    spread = rng.choice([1, 2, 3, 4])
    sub = rng.choice([2, 4, 5])
    if mode == 'STANDARD' and rng.random() < .2:
        sub = rng.choice([100, 1000, 10**4])
    if tau_m % sub:
        sub = 1

    def interval(**kw):
        return gen_interval(rng, tau_m, spread, spell_it, aligned=aligned, sub=sub, far=far, **kw)

    def term_time(hi=12):
        k = rng.randint(0, hi * far)
        ps = k * tau_m + (rng.randrange(sub) * (tau_m // sub) if rng.random() < .3 else 0)
        return ('TimeTermination', spell_it(ps), rng.random() < .7)

    def interval_term():
        # intervals that end a run
        r = rng.random()
        if r < .3:
            return ('Not', interval())
        return ('All', [interval(), rng.choice([('AfterNConsiderationSetExecutions', rng.randint(1, 6)),
                                                ('AfterNPasses', rng.randint(1, 3)), ('AllHaveRun', (), None)])])

    def cond(n, depth):
        r = rng.random()
        if depth and r < comp:
            k = rng.choice(['All', 'Any', 'Any', 'Not', 'NWhen'])
            if k == 'Not':
                return ('Not', cond(n, 0))
            if k == 'NWhen':
                if depth < 2:
                    return cond(n, 0)
                return ('NWhen', cond(n, 0), rng.randint(1, 3))
            return (k, [cond(n, depth - 1) for _ in range(rng.randint(1, 2))] +
                    [gen_cond(rng, nodes, 0, False, ('static', 'time', 'call', 'just'), False)])
        if r < .85:
            return interval()
        if r < .93:
            return term_time(6)
        return gen_cond(rng, nodes, 0, False, ('static', 'time', 'call'), False)
    conds = {n: cond(n, 2) for n in nodes if rng.random() < .75}
    for n, c in list(conds.items()):
        if any(x[0] == 'EveryNCalls' and x[1] == n for x in walk(c)):
            del conds[n]
    sc = {'graph': g, 'conds': conds, 'mode': mode, 'steps': [], 'lab': labeling(rng, nodes), 'tau': tau_m}
    if rng.random() < .3:
        sc['default_unit'] = spell_it(tau)
    r = rng.random()
    if r < .6:
        sc['term'] = {ESU: term_time()}
    elif r < .75:
        sc['term'] = {ESU: ('Any', [term_time(), ('AfterNPasses', rng.randint(1, 8 * far))])}
    elif r < .9:
        sc['term'] = {ESU: ('AfterNPasses', rng.randint(1, 8 * far))}
    elif r < .95:
        sc['term'] = {ESU: ('Not', ('Not', term_time()))}
    else:
        sc['term'] = {ESU: interval_term()}
    if rng.random() < .15:
        sc['term'][ESEQ] = term_time(20)
    for _ in range(rng.randint(1, runs)):
        over = None
        if rng.random() < .3:
            over = {ESU: rng.choice([('AfterNPasses', rng.randint(1, 6 * far)), term_time(25), interval_term()])}
        sc['steps'].append(('run', over, rng.choice([12, 25, 40]) if far == 1 else rng.choice([400, 700])))
        if rng.random() < .2:
            sc['steps'].append(('seq',))
    return sc
