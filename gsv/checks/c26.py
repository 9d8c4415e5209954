"""Conditions on the state of nodes."""
from fractions import Fraction

from ..drive import Driver, describe, gs
from ..gen import gen_cond, gen_scenario
from ..model import ESEQ, ESU

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('(a) WhenFinished, -Any, -All and Threshold evaluated repeatedly with node states changing in between, for several '
        'contexts, all comparators, nested values, tolerances whose boundaries are represented exactly, values that are infinite or no number, and custom getters; '
        '(b) the same in conditions and termination conditions of runs interleaved in up to three contexts, states changed '
        'after each yielded set, all yields compared with the reference automaton reading the same states; (c) unsupported '
        'nodes, parameters and comparators. Non-trivial: the conditions were observed both satisfied and not; distinct by '
        'condition and results')
MINIMA = {'evaluations': 9100, 'satisfied': 4000, 'boundary': 1500, 'custom_getter': 300, 'errors': 370,
          'sets_observed': 3700, 'finished_evaluations': 5000, 'runs_finished': 400}

OPS = ['<', '<=', '>', '>=', '==', '!=']


class Node:
    def __init__(self, name):
        self.name = name
        self.status = {}
        self.default = False
        self.value = 0
        self.asked = 0

    def is_finished(self, execution_id=None):
        self.asked += 1
        return self.status.get(execution_id, self.default)

    def __repr__(self):
        return f'node {self.name}'


class EqNode(Node):
    def __eq__(self, other):
        return isinstance(other, Node) and self.name == other.name

    def __hash__(self):
        return hash(self.name)


class Plain:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'plain {self.name}'


def nodes_for(rng, names):
    cls = rng.choice([Node, Node, EqNode])
    return {n: cls(n) for n in names}


def truthy(rng, v):
    import numpy as np
    return rng.choice([True, 1, 'yes', [0], np.bool_(True)] if v else [False, 0, '', None, [], np.bool_(False)])


def eighth(rng, lo=-40, hi=40):
    return Fraction(rng.randint(lo, hi), 8)


def compare(v, t, op, atol=0, rtol=0):
    if op == '==':
        return abs(v - t) <= atol + rtol * abs(t)
    if op == '!=':
        return not abs(v - t) <= atol + rtol * abs(t)
    return {'<': v < t, '<=': v <= t, '>': v > t, '>=': v >= t}[op]


def as_number(rng, x):
    import numpy as np
    k = rng.choice(['float', 'float', 'int', 'np', 'zero', 'fraction', 'str', 'one'])
    if isinstance(x, float):
        # not a number or infinite
        return {'np': np.float64(x), 'zero': np.array(x), 'str': repr(x)}.get(k, x)
    if k == 'int' and x.denominator == 1:
        return int(x)
    if k == 'np':
        return np.float64(x)
    if k == 'zero':
        return np.array(float(x))
    if k == 'fraction':
        return x
    if k == 'str':
        return repr(float(x))
    return float(x)


def container(rng, depth):
    """(build(x), path): build puts x at path"""
    import numpy as np
    path, kinds = [], []
    for _ in range(depth):
        kinds.append(rng.choice(['list', 'tuple', 'dict', 'dict']))
        path.append(rng.choice(['k', 3, ('a', 1)]) if kinds[-1] == 'dict' else rng.choice([0, 1, 2, -1]))
    if rng.random() < .2:
        path = [rng.randint(-2, 1) for _ in range(depth)]

        def build_array(x):
            a = np.full([2] * depth, 1000.)
            a[tuple(path)] = float(x)
            return a
        return build_array, path

    def build(x):
        r = x
        for k, i in zip(reversed(kinds), reversed(path)):
            if k == 'dict':
                r = {i: r, 'other': 1000}
            else:
                seq = [1000, 2000, 3000]
                seq[i] = r
                r = seq if k == 'list' else tuple(seq)
        return r
    return build, path


def gen_threshold(ctx, rng, node, eids):
    """(condition, description, set(x per eid))"""
    m = gs()
    op = rng.choice(OPS)
    t = eighth(rng)
    atol = rtol = 0
    if op in ('==', '!=') and rng.random() < .7:
        atol = rng.choice([0, Fraction(rng.randint(1, 16), 8)])
        rtol = rng.choice([0, Fraction(1, 4), Fraction(1, 2), 1])
    depth = rng.choice([0, 0, 1, 1, 2, 3]) if rng.random() < .93 else rng.randint(4, 7)
    build, path = container(rng, depth)
    name = rng.choice(['value', 'output', 'x y'])
    kw = {}
    if atol:
        kw['atol'] = float(atol)
    if rtol:
        kw['rtol'] = float(rtol)
    if depth:
        kw['indices'] = rng.choice([list, tuple, iter])(path)
        if depth == 1 and isinstance(path[0], int) and rng.random() < .5:
            kw['indices'] = path[0]
    cur = {}
    style = rng.choice(['attribute', 'attribute', 'getter', 'getter_context', 'property'])
    getter = None
    # the value depends on the context
    per_context = style == 'getter_context'
    if style.startswith('getter'):
        ctx.count('custom_getter')
        name = rng.choice(['param', 'output port', 3])
        store = {}
        if per_context:
            def getter(dependency, parameter, execution_id):
                assert dependency is node and parameter == name
                return store[execution_id]
        else:
            def getter(dependency, parameter):
                assert dependency is node and parameter == name
                return store['any']
        kw['custom_parameter_getter'] = getter
        called = []
        kw['custom_parameter_validator'] = lambda d, p: called.append((d, p))

        def put(eid, v):
            store[eid] = v
            store['any'] = v
    else:
        def put(eid, v):
            setattr(node, name, v)

    def change(eid, x):
        v = build(as_number(rng, x) if depth else as_number(rng, x))
        put(eid, v)
        if per_context:
            cur[eid] = x
        else:
            for e in eids:
                cur[e] = x
    for e in eids:
        change(e, eighth(rng))
    thr = rng.choice([float, float, lambda x: int(x) if x.denominator == 1 else float(x)])(t)
    args = (node, name, thr, op)
    if rng.random() < .3:
        kw.update(dependency=node, parameter=name, threshold=thr, comparator=op)
        args = ()
    c = m.Threshold(*args, **kw)
    if style.startswith('getter'):
        ctx.check(called == [(node, name)], f'validator was called with {called}')
    desc = (op, str(t), str(atol), str(rtol), style, depth, str(path))

    def new_value():
        ctx_b = rng.random()
        if ctx_b > .97:
            ctx.count('special_values')
            return float(rng.choice(['nan', 'nan', 'inf', '-inf']))
        if ctx_b < .5:
            ctx.count('boundary')
            d = atol + rtol * abs(t)
            return t + rng.choice([-1, 1]) * d + rng.choice([0, 0, 1, -1]) * Fraction(1, 2 ** rng.choice([6, 6, 20, 34, 42]))
        return eighth(rng)

    def model(eid):
        return compare(cur[eid], t, op, atol, rtol)
    return c, desc, change, new_value, model


def direct_threshold(ctx, rng):
    m = gs()
    node = rng.choice([Node, EqNode])('A')
    eids = rng.choice([['e0', 'e1', 'e2'], ['e0', None, 0]])[:rng.randint(1, 3)]
    c, desc, change, new_value, model = gen_threshold(ctx, rng, node, eids)
    ctx.desc = desc
    wrapped = rng.choice([None, None, m.Not, m.All, m.Any])
    cond = c if wrapped is None else wrapped(c)
    if rng.random() < .5:
        m.Scheduler({node: set()}, conditions={node: cond})
    res = []
    for _ in range(rng.randint(2, 8)):
        eid = rng.choice(eids)
        change(eid, new_value())
        for e in eids:
            exp = model(e)
            got = bool(cond.is_satisfied(scheduler=None, execution_id=e))
            ctx.count('evaluations')
            ctx.count('satisfied', got)
            if wrapped is m.Not:
                exp = not exp
            ctx.check(got == exp, lambda: f'{cond} is {got}, value {[v for k, v in vars(node).items() if k != "status"]} in context {e}')
            res.append(got)
    if len(set(res)) == 2:
        ctx.distinct(desc, res)


def direct_finished(ctx, rng):
    m = gs()
    names = list('ABCDE')[:rng.randint(1, 5)]
    nodes = nodes_for(rng, names)
    s = m.Scheduler({nodes[n]: set() for n in names})
    k = rng.choice(['WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll'])
    deps = [rng.choice(names)] if k == 'WhenFinished' else rng.sample(names, rng.randint(0, len(names)))
    c = getattr(m, k)(*[nodes[d] for d in deps])
    neg = rng.random() < .3
    cond = m.Not(c) if neg else c
    if rng.random() < .5:
        s.add_condition(nodes[rng.choice(names)], cond)
    ctx.desc = (k, deps, neg)
    eids = ['e0', 'e1', None][:rng.randint(1, 3)]
    state = {(n, e): False for n in names for e in eids}
    used = deps or names
    res, hist = [], []
    for _ in range(rng.randint(2, 10)):
        for n in names:
            for e in eids:
                if rng.random() < .4:
                    state[n, e] = rng.random() < .5
                    nodes[n].status[e] = truthy(rng, state[n, e])
        e = rng.choice(eids)
        vals = [state[n, e] for n in used]
        exp = (all if k == 'WhenFinishedAll' else any)(vals)
        got = bool(cond.is_satisfied(scheduler=s, execution_id=e))
        ctx.count('evaluations')
        ctx.count('finished_evaluations')
        ctx.count('satisfied', got)
        hist.append(vals)
        ctx.check(got == (exp != neg), lambda: f'{cond} is {got} in context {e} with finished {dict(zip(used, vals))}')
        res.append(got)
    if len(set(res)) == 2:
        ctx.distinct(ctx.desc, hist)


def runs(ctx, rng):
    m = gs()
    sc = gen_scenario(rng, nmax=5, runs=1, p=.7, labels=False)
    names = sorted(sc['graph'])
    nodes = nodes_for(rng, names)
    sc['lab'] = nodes
    eids = ['e0', 'e1', 'e2'][:rng.randint(1, 3)]
    thresholds, fin, cur = [], {}, {}

    def leaf():
        k = rng.choice(['WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll', 'Threshold', 'Threshold'])
        if k == 'Threshold':
            # each on an own object, since values are containers of one condition
            th = gen_threshold(ctx, rng, Node('p'), eids)
            thresholds.append(th)
            return ('Threshold', len(thresholds) - 1)
        if k == 'WhenFinished':
            return (k, (rng.choice(names),))
        return (k, tuple(rng.sample(names, rng.randint(0, len(names)))))

    def mix(c, p):
        if rng.random() > p:
            return c
        r = rng.random()
        if r < .4:
            return leaf()
        if r < .5:
            return ('Not', leaf())
        other = c if c[0] != 'NWhen' else gen_cond(rng, names, 0, False, ('static', 'just', 'call'), False)
        return (rng.choice(['All', 'Any', 'And', 'Or']), [leaf(), other])
    sc['conds'] = {n: mix(sc['conds'].get(n, ('Always',)), .7) for n in names}
    if rng.random() < .6:
        sc['term'] = {**sc.get('term', {}), ESU: ('Any', [mix(('AllHaveRun', (), None), .9), ('AfterNPasses', rng.randint(2, 6))])}
    if rng.random() < .2:
        sc['term'] = {**sc.get('term', {}), ESEQ: mix(('Never',), 1)}

    def h_fin(c, s, owner):
        ctx.count('finished_evaluations')
        return (all if c[0] == 'WhenFinishedAll' else any)(fin.get((n, cur['eid']), False) for n in (c[1] or names))
    hooks = {k: h_fin for k in ('WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll')}
    hooks['Threshold'] = lambda c, s, owner: thresholds[c[1]][4](cur['eid'])
    extra = {k: (lambda c: getattr(m, c[0])(*[nodes[n] for n in c[1]])) for k in list(hooks)[:3]}
    extra['Threshold'] = lambda c: thresholds[c[1]][0]
    ctx.desc = {**describe(sc), 'thresholds': [t[1] for t in thresholds]}
    drv = Driver(ctx, sc, rng, extra=extra, hooks=hooks)

    def change():
        for n in names:
            for e in eids:
                if rng.random() < .3:
                    fin[n, e] = rng.random() < .5
                    nodes[n].status[e] = truthy(rng, fin[n, e])
        for t in thresholds:
            if rng.random() < .4:
                t[2](rng.choice(eids), t[3]())
    active = {}
    total = 0
    while total < 40:
        change()
        e = rng.choice(eids)
        cur['eid'] = e
        if e not in active:
            active[e] = drv.start(eid=e)
        total += 1
        if active[e].next() is None:
            ctx.count('runs_finished')
            del active[e]
            if rng.random() < .3:
                break
    for e in active:
        active[e].close()
    ctx.distinct(ctx.desc, [sorted(x) for e in drv.history for x in drv.history[e]])


def errors(ctx, rng):
    m = gs()
    kind = rng.choice(['node', 'node', 'run', 'parameter', 'comparator', 'later', 'several', 'getter'])
    good = [Node(x) for x in 'AB']
    bad = rng.choice([Plain('P'), 'str', 5, ('t', 1), frozenset(['x']), None])
    ctx.desc = (kind, repr(bad))
    ctx.count('errors')

    def expect(fn, what):
        try:
            r = fn()
        except m.ConditionError:
            return
        except Exception as e:
            ctx.fail(f'{what} raises {type(e).__name__}: {e} instead of a ConditionError')
        ctx.fail(f'{what} gives {r!r} instead of a ConditionError')
    if kind in ('node', 'run', 'later'):
        k = rng.choice(['WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll'])
        for g in good:
            g.default = k == 'WhenFinishedAll'
        deps = [bad]
        if k != 'WhenFinished':
            deps = rng.sample([*good, bad], 3) if rng.random() < .6 else []
        graph = {good[0]: set(), good[1]: {good[0]}, bad: {good[0]}}
        ctx.desc = (kind, k, repr(deps))
        s = m.Scheduler(graph)
        c = getattr(m, k)(*deps)
        if kind == 'node':
            expect(lambda: c.is_satisfied(scheduler=s, execution_id='e'), f'{k}{tuple(deps)} for an unsupported node')
        elif kind == 'run':
            s.add_condition(good[1], c)
            expect(lambda: list(s.run()), f'run with {k}{tuple(deps)} for an unsupported node')
        else:
            run = s.run(termination_conds={m.TimeScale.ENVIRONMENT_STATE_UPDATE: m.All(m.AllHaveRun(), c)})
            expect(lambda: list(run), f'run with termination {k}{tuple(deps)} for an unsupported node')
    elif kind == 'several':
        # a value of several items can not be compared without indices
        import numpy as np
        x, y = eighth(rng), eighth(rng)
        build, path = container(rng, rng.randint(1, 2))
        v = rng.choice([build(float(x)), [float(x), float(y)], np.array([float(x), float(y)]), (float(x),) * 2,
                        {'a': float(x), 'b': float(y)}])
        if rng.random() < .3:
            # no numbers
            v = rng.choice([None, '', 'none', [], (), {}, [None], object(), set(), b'', 'a1'])
        good[0].value = v
        op = rng.choice(OPS)
        c = m.Threshold(good[0], 'value', float(rng.choice([x, y])), op)
        ctx.desc = (kind, repr(v), op)
        try:
            r = c.is_satisfied(scheduler=None, execution_id='e')
        except Exception:
            pass
        else:
            ctx.fail(f'comparison {op} of {v!r} without indices gives {r!r} instead of an error')
    elif kind == 'getter':
        # an error raised by a getter is that of the condition
        err = rng.choice([AttributeError, KeyError, TypeError, ValueError, RuntimeError, IndexError])('getter')
        good[0].value = rng.choice([1, 2.5, [1], {'a': 1}])

        def getter(*args, **kwargs):
            raise err
        kw = {'indices': rng.choice([0, 'a', [0]])} if rng.random() < .3 else {}
        c = m.Threshold(good[0], 'value', 1, rng.choice(OPS), custom_parameter_getter=getter, **kw)
        try:
            r = c.is_satisfied(scheduler=None, execution_id='e')
        except (type(err), m.ConditionError) as e:
            ctx.check(e is err or isinstance(e, m.ConditionError), lambda: f'raised {e!r} instead of the error of the getter')
        else:
            ctx.fail(f'comparison is {r!r} although the getter raises {err!r}')
    elif kind == 'parameter':
        name = rng.choice(['values', 'valu', ' value', 'Value'])
        expect(lambda: m.Threshold(rng.choice([good[0], 'str', 7]), name, 1, '<'), 'Threshold with a missing parameter')
    else:
        op = rng.choice(['=', '===', '<>', '', 'lt', '!', '=<', None, '> ', '&'])
        expect(lambda: m.Threshold(good[0], 'value', 1, op), f'Threshold with comparator {op!r}')
    ctx.distinct(ctx.desc)


GROUPS = {'direct_threshold': (direct_threshold, 2500, 40000), 'direct_finished': (direct_finished, 2000, 30000),
          'runs': (runs, 1200, 20000), 'errors': (errors, 1500, 6000)}
