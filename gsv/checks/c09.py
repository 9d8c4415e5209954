import functools
import inspect

from ..core import Skip
from ..drive import gs
from ..gen import gen_graph, labeling, relabel_graph

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('random function signatures (positional-only, required and optional, keyword-only, *args, **kwargs) in the form '
        'of functions, lambdas, methods, class and static methods, partials, callable objects (also unhashable ones) and '
        'wrapped functions that record what they receive, in Condition / While / WhileNot, alone or nested, evaluated '
        'directly and during runs with random arguments; what was received is compared with an independent binding, the '
        'value with its truth value, raised errors by identity. Non-trivial: function with at least 2 parameters of '
        'which at least one received a given argument; distinct by signature, form and arguments')
MINIMA = {'calls_recorded': 5000, 'run_calls_recorded': 500, 'termination_calls_recorded': 1000, 'errors_propagated': 200, 'args_dropped': 500,
          'kwargs_dropped': 500}
NAMES = ['a', 'b', 'c', 'd', 'x', 'y']


class Err(Exception):
    pass


def gen_sig(rng):
    """list of (kind, name, has default)"""
    sig = []
    names = NAMES[:]
    rng.shuffle(names)
    special = ['scheduler', 'execution_id', 'kw1']
    opt = False
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        opt = opt or rng.random() < .25
        sig.append(('PO', names.pop(), opt))
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        opt = opt or rng.random() < .3
        nm = rng.choice(special) if special and rng.random() < .35 else (names.pop() if names else None)
        if nm is None:
            break
        if nm in special:
            special.remove(nm)
        sig.append(('PK', nm, opt))
    if rng.random() < .3:
        sig.append(('VA', 'args', False))
    for _ in range(rng.choice([0, 0, 1, 2])):
        nm = rng.choice(special) if special and rng.random() < .6 else (names.pop() if names else None)
        if nm is None:
            break
        if nm in special:
            special.remove(nm)
        sig.append(('KO', nm, rng.random() < .6))
    if rng.random() < .3:
        sig.append(('VK', 'kwargs', False))
    return sig


DEFAULT = 'default'


def source(sig, first=None):
    parts = [first] if first else []
    star = False
    for i, (k, n, d) in enumerate(sig):
        if k == 'VA':
            parts.append('*args')
            star = True
        elif k == 'VK':
            parts.append('**kwargs')
        else:
            if k == 'KO' and not star:
                parts.append('*')
                star = True
            parts.append(f'{n}=DEFAULT' if d else n)
        if k == 'PO' and not (i + 1 < len(sig) and sig[i + 1][0] == 'PO'):
            parts.append('/')
    return ', '.join(parts)


def make(sig, rec, rng):
    """callable of random form; (callable, form)"""
    fields = ', '.join(f"'{n}': {n}" for k, n, d in sig)
    form = rng.choice(['def', 'def', 'lambda', 'method', 'classmethod', 'static', 'callable', 'unhashable', 'partial', 'wrapped', 'slots'])
    if form in ('method', 'classmethod', 'callable', 'unhashable', 'slots'):
        src = f'def f({source(sig, "self_")}):\n    return rec({{{fields}}})\n'
    else:
        src = f'def f({source(sig)}):\n    return rec({{{fields}}})\n'
    if form == 'lambda':
        src = f'f = lambda {source(sig)}: rec({{{fields}}})\n'
    ns = {'rec': rec, 'DEFAULT': DEFAULT}
    exec(src, ns)
    f = ns['f']
    if form == 'method':
        cls = type('C', (), {'f': f})
        return cls().f, form
    if form == 'classmethod':
        return type('C', (), {'f': classmethod(f)}).f, form
    if form == 'static':
        return type('C', (), {'f': staticmethod(f)}).f, form
    if form == 'callable':
        return type('C', (), {'__call__': f})(), form
    if form == 'unhashable':
        return type('C', (), {'__call__': f, '__eq__': lambda a, b: type(a) is type(b), '__hash__': None})(), form
    if form == 'slots':
        return type('C', (), {'__call__': f, '__slots__': ()})(), form
    if form == 'partial':
        return functools.partial(f), form
    if form == 'wrapped':
        @functools.wraps(f)
        def g(*a, **k):
            return f(*a, **k)
        return g, form
    return f, form


def binding(sig, args, kwargs):
    """what the function should receive; None if it cannot be called"""
    pos = [(k, n, d) for k, n, d in sig if k in ('PO', 'PK')]
    va = any(k == 'VA' for k, _, _ in sig)
    vk = any(k == 'VK' for k, _, _ in sig)
    named = {n for k, n, _ in sig if k in ('PK', 'KO')}
    slots = 0
    for k, n, d in pos:
        if k == 'PK' and d and n in kwargs:
            break
        slots += 1
    if va:
        used = list(args)
    else:
        used = list(args[:slots])
    kw = {k: v for k, v in kwargs.items() if k in named or vk}
    res = {}
    for i, (k, n, d) in enumerate(pos):
        if i < len(used):
            if k == 'PK' and n in kw:
                return None, None, None
            res[n] = used[i]
        elif k == 'PK' and n in kw:
            res[n] = kw[n]
        elif d:
            res[n] = DEFAULT
        else:
            return None, None, None
    for k, n, d in sig:
        if k == 'VA':
            res['args'] = tuple(used[len(pos):])
        elif k == 'KO':
            if n in kw:
                res[n] = kw[n]
            elif d:
                res[n] = DEFAULT
            else:
                return None, None, None
        elif k == 'VK':
            res['kwargs'] = {a: b for a, b in kw.items() if a not in named}
            if any(a in {n for kk, n, _ in sig if kk == 'PO'} for a in kw):
                # goes to **kwargs
                pass
    return res, len(args) - len(used), len(kwargs) - len(kw)


def gen_args(rng, sig):
    """arguments of which most sets are valid"""
    npos = sum(k in ('PO', 'PK') and not d and n not in ('scheduler', 'execution_id', 'kw1') for k, n, d in sig)
    n = rng.choice([npos, npos, npos + 1, npos + 2, max(0, npos - 1), 0])
    args = [('p', i) for i in range(n)]
    kw = {}
    names = [nm for k, nm, _ in sig if k in ('PK', 'KO')][n if rng.random() < .8 else 0:]
    for nm in names:
        if nm not in ('scheduler', 'execution_id') and rng.random() < .6:
            kw[nm] = rng.choice([('k', nm), ('k', nm), ('k', nm), None, False])
    for nm in ('kw1', 'kw2', 'z'):
        if rng.random() < .25:
            kw[nm] = rng.choice([('k', nm), ('k', nm), ('k', nm), None, False])
    return args, kw


VALUES = [True, False, 0, 1, None, '', 'x', [], [0], 0.0, 2.5, (), {}, {1: 2}]


def direct(ctx, rng):
    m = gs()
    for _ in range(8):
        sig = gen_sig(rng)
        got = []
        value = rng.choice(VALUES)
        err = Err('from the condition') if rng.random() < .12 else None

        def rec(d):
            got.append(d)
            if err is not None:
                raise err
            return value
        f, form = make(sig, rec, rng)
        args, kw = gen_args(rng, sig)
        cut = rng.randint(0, len(args))
        ckw, ekw = {}, {}
        for k, v in kw.items():
            r = rng.random()
            if r < .4:
                ckw[k] = v
            elif r < .8:
                ekw[k] = v
            else:
                ckw[k] = ('overridden', k)
                ekw[k] = v
        # attributes of the condition are named after keyword arguments
        eid = rng.choice([None, 'eid', 3])
        if rng.random() < .5:
            ekw['scheduler'] = ('k', 'scheduler')
        total = {**ckw, **ekw, 'execution_id': eid}
        exp, da, dk = binding(sig, args, total)
        ctx.desc = {'signature': source(sig), 'form': form, 'condition args': args[:cut], 'condition kwargs': ckw,
                    'evaluation args': args[cut:], 'evaluation kwargs': ekw, 'execution_id': eid, 'value': value}
        if exp is None:
            ctx.count('invalid_skipped')
            continue
        wrapper = rng.choice(['Condition', 'Condition', 'While', 'WhileNot', 'All', 'Any', 'Not', 'NWhen'])
        if wrapper in ('All', 'Any'):
            if cut != len(args):
                # these hand on keyword arguments
                cut = len(args)
                ctx.desc['condition args'], ctx.desc['evaluation args'] = args, []
        ctx.desc['wrapper'] = wrapper
        cls = wrapper if wrapper in ('Condition', 'While', 'WhileNot') else 'Condition'
        cls = getattr(m, cls, None) or getattr(m.condition, cls)
        c = cls(f, *args[:cut], **ckw)
        inner = c
        if wrapper in ('All', 'Any', 'Not'):
            c = getattr(m, wrapper)(c)
        elif wrapper == 'NWhen':
            # NWhen always passes these on
            c = m.NWhen(c, 5)
            total.setdefault('scheduler', None)
            exp, da, dk = binding(sig, args, total)
            if exp is None:
                ctx.count('invalid_skipped')
                continue
        neg = wrapper in ('Not', 'WhileNot')
        ekw_copy, ckw_copy = dict(ekw), dict(inner.kwargs)
        if form == 'method' and rng.random() < .5:
            # the plain function, called with the object, is another callable with one parameter more
            got.clear()
            plain = [('PO' if sig and sig[0][0] == 'PO' else 'PK', 'self_', False), *sig]
            exp_plain, _, _ = binding(plain, [f.__self__, *args], total)
            if exp_plain is not None:
                exp_plain.pop('self_')
                try:
                    m.utilities.call_with_pruned_args(f.__func__, f.__self__, *args, **total)
                except Err as e:
                    ctx.check(e is err, 'another error')
                ctx.check(got == [exp_plain], lambda: f'plain function received {got}, expected {exp_plain}')
                ctx.count('plain_function_first')
        for again in range(rng.choice([1, 1, 2, 3])):
            got.clear()
            try:
                res = c.is_satisfied(*args[cut:], execution_id=eid, **ekw)
            except Err as e:
                ctx.check(e is err, lambda: f'raised {e!r} instead of the error of the function')
                ctx.count('errors_propagated')
            else:
                ctx.check(err is None, 'the error raised by the function did not reach the caller')
                ctx.check(bool(res) == (bool(value) != neg), lambda: f'result {res!r} for returned value {value!r}, {wrapper}')
            ctx.check(len(got) == 1, lambda: f'function called {len(got)} times')
            ctx.check(got[0] == exp, lambda: f'function received {got[0]}, expected {exp}')
            ctx.count('calls_recorded')
        ctx.check(inner.kwargs == ckw_copy and inner.args == tuple(args[:cut]), 'evaluation changed the condition')
        ctx.count('args_dropped', da > 0)
        ctx.count('kwargs_dropped', dk > 0)
        if len(sig) >= 2 and any(v != DEFAULT for v in exp.values()):
            ctx.distinct(source(sig), form, args, cut, sorted(total), wrapper)
            ctx.sample(ctx.desc)


def in_run(ctx, rng):
    m = gs()
    g = gen_graph(rng, 1, 4)
    lab = labeling(rng, g)
    log = []
    conds = {}
    desc = {}
    bad = None
    runkw = {}
    for k in ('kw1', 'kw2', 'x', 'b'):
        if rng.random() < .4:
            runkw[k] = rng.choice([('run', k), ('run', k), None, 0, False])
    sched = m.Scheduler(relabel_graph(rng, g, lab))
    ahead = rng.random() < .3
    eid = rng.choice([None, 'e1', 7])
    for n in sorted(g):
        if rng.random() < .3 and conds:
            continue
        sig = gen_sig(rng)
        args, kw = gen_args(rng, sig)
        kw = {k: v for k, v in kw.items()}
        total = {**kw, **runkw, 'scheduler': sched, 'execution_id': eid}
        exp, da, dk = binding(sig, args, total)
        if exp is None:
            continue
        value = rng.choice(VALUES)

        def rec(d, n=n, value=value, exp=exp):
            log.append(n)
            ctx.count('run_calls_recorded')
            ctx.check(d == exp, lambda: f'condition of {n} received {d}, expected {exp}')
            if n == bad:
                raise err
            return value
        f, form = make(sig, rec, rng)
        c = m.Condition(f, *args, **kw)
        if rng.random() < .3:
            c = m.All(m.Always(), c)
        conds[n] = (c, value)
        desc[n] = (source(sig), form, args, kw, value)
        sched.add_condition(lab[n], c)
    terms = {m.TimeScale.ENVIRONMENT_STATE_UPDATE: m.AfterNPasses(3)}
    if rng.random() < .5:
        # functions in termination conditions, without effect on the end
        sig = gen_sig(rng)
        args, kw = gen_args(rng, sig)
        exp, da, dk = binding(sig, args, {**kw, **runkw, 'scheduler': sched, 'execution_id': eid})
        if exp is not None:
            def rec_term(d, exp=exp):
                ctx.count('termination_calls_recorded')
                ctx.check(d == exp, lambda: f'termination condition received {d}, expected {exp}')
                return value_term
            f, form = make(sig, rec_term, rng)
            c = m.Condition(f, *args, **kw)
            how = rng.choice(['sequence', 'any', 'all', 'not'])
            value_term = rng.choice([v for v in VALUES if bool(v) == (how in ('all', 'not'))])
            if how == 'sequence':
                terms[m.TimeScale.ENVIRONMENT_SEQUENCE] = c
            elif how == 'not':
                terms[m.TimeScale.ENVIRONMENT_SEQUENCE] = m.Not(c)
            else:
                terms[m.TimeScale.ENVIRONMENT_STATE_UPDATE] = getattr(m, how.title())(c, m.AfterNPasses(3))
            desc['termination'] = (how, source(sig), form, args, kw, value_term)
    if not conds:
        raise Skip()
    if rng.random() < .15:
        bad = rng.choice(sorted(conds))
    err = Err('in run')
    ctx.desc = {'graph': {k: sorted(v) for k, v in g.items()}, 'conditions': desc, 'run kwargs': runkw, 'eid': eid, 'raises': bad}
    inv = {v: k for k, v in lab.items()}
    try:
        if ahead:
            sched.termination_conds = terms
            run = sched.run(execution_id=eid, **runkw)
        else:
            run = sched.run(execution_id=eid, termination_conds=terms, **runkw)
        sets = [{inv[x] for x in s} for s in run]
    except Err as e:
        ctx.check(e is err, 'another error')
        ctx.check(bad is not None, 'unexpected error')
        ctx.count('errors_propagated')
    else:
        ctx.check(bad is None, 'the error raised by the condition did not reach the caller of run')
        for n, (c, value) in conds.items():
            k = sum(n in s for s in sets)
            ctx.check(k == (3 if value else 0), lambda: f'{n} whose condition always returns {value!r} executed {k} times in 3 passes')
        ctx.distinct(ctx.desc)


GROUPS = {'direct': (direct, 2400, 50000), 'run': (in_run, 800, 15000)}
