from ..drive import Driver, describe, gs
from ..gen import gen_scenario, gen_cond, labeling
from ..model import CSE, ESEQ, ESU, LIFE, PASS, build, show

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('random trees of All / Any / Not / And / Or / WhileNot (depth up to 4, also empty and keyword components) over '
        'library conditions and custom functions returning values of any type, evaluated at every yield of random runs '
        'in two contexts; each node of the tree is compared with the logical combination of its components evaluated '
        'one by one, evaluation is repeated, NWhen is compared with a counter per context (also when its condition failed), and the owners of all '
        'components are compared with the owner the tree was added for, moved to, or removed from. Non-trivial: tree '
        'of at least 4 conditions that was both satisfied and not satisfied; distinct by tree and scenario')
MINIMA = {'tree_evaluations': 10000, 'tree_true': 2000, 'tree_false': 2000, 'nwhen_evaluations': 3000,
          'nwhen_exhausted': 200, 'owner_checks': 2200, 'sets_observed': 1000}

class Twin:
    def __repr__(self):
        return 'twin'

    def __hash__(self):
        return 7


TRUTHY = [True, 1, 'yes', [0], 2.5, (None,), {1}]
FALSY = [False, 0, '', [], 0.0, None, ()]


def gen_tree(rng, m, nodes, lab, depth, flags):
    """(real condition, description, leaves)"""
    if depth == 0 or rng.random() < .25:
        r = rng.random()
        if r < .35:
            i = len(flags)
            flags.append(rng.random() < .5)
            vals = (rng.choice(TRUTHY), rng.choice(FALSY))
            form = rng.choice(['cond', 'while', 'whilenot', 'noargs'])
            if form == 'noargs':
                return m.Condition(lambda: vals[not flags[i]]), ('leaf', f'flag{i}'), None
            if form == 'whilenot':
                return m.WhileNot(lambda scheduler, execution_id: vals[flags[i]]), ('leaf', f'notflag{i}'), None
            return (m.Condition if form == 'cond' else m.While)(
                lambda scheduler=None, execution_id=None, **kw: vals[not flags[i]]), ('leaf', f'flag{i}'), None
        c = gen_cond(rng, nodes, 0, False, ('time', 'call', 'every', 'just', 'static', 'start'), False)
        return build(c, m, lambda x: lab[x]), ('leaf', show(c)), None
    k = rng.choice(['All', 'Any', 'Not', 'And', 'Or', 'All', 'Any', 'WhileNot'])
    if k == 'Not':
        c, d, s = gen_tree(rng, m, nodes, lab, depth - 1, flags)
        return m.Not(c), ('Not', [d]), [(c, d, s)]
    if k == 'WhileNot':
        i = len(flags)
        flags.append(rng.random() < .5)
        return m.WhileNot(lambda scheduler: flags[i]), ('leaf', f'notflag{i}'), None
    n = rng.choice([0, 1, 2, 2, 2, 3, 4]) if rng.random() < .3 else rng.choice([1, 2, 2, 3])
    kids = [gen_tree(rng, m, nodes, lab, depth - 1, flags) for _ in range(n)]
    cls = getattr(m.condition, k)
    if rng.random() < .2 and n:
        # components may be given as keywords; they follow the positional ones
        j = rng.randint(0, n)
        real = cls(*[c for c, _, _ in kids[:j]], **{f'k{i}': c for i, (c, _, _) in enumerate(kids[j:])})
    else:
        real = cls(*[c for c, _, _ in kids])
    return real, (k, [d for _, d, _ in kids]), kids


def size(d):
    return 1 + (sum(size(x) for x in d[1]) if d[0] != 'leaf' else 0)


def every_cond(t):
    c, d, kids = t
    yield c
    for k in kids or ():
        yield from every_cond(k)


def evaluate(ctx, rng, t, kw):
    """value of t from those of its leaves; compares every node"""
    c, d, kids = t
    if kids is None:
        return bool(c.is_satisfied(**kw))
    vals = [evaluate(ctx, rng, k, kw) for k in kids]
    exp = all(vals) if d[0] in ('All', 'And') else any(vals) if d[0] in ('Any', 'Or') else not vals[0]
    for _ in range(rng.choice([1, 1, 2])):
        got = bool(c.is_satisfied(**kw))
        ctx.count('tree_evaluations')
        ctx.count('tree_true' if got else 'tree_false')
        ctx.check(got == exp, lambda: f'{d} is {got} although its components are {vals}')
    return exp


def case(ctx, rng):
    sc = gen_scenario(rng, nmin=2, nmax=5, runs=3, p=.6, depth=1)
    ctx.desc = desc = [describe(sc)]
    m = gs()
    lab = sc['lab']
    nodes = sorted(lab)
    drv = Driver(ctx, sc, rng)
    drv.acceptor(None)
    flags = []
    trees = []
    for _ in range(2):
        t = gen_tree(rng, m, nodes, lab, rng.randint(1, 4), flags)
        owner = rng.choice(nodes)
        desc.append((t[1], owner))
        cs = m.ConditionSet()
        how = rng.random()
        if how < .5:
            cs.add_condition(lab[owner], t[0])
        elif how < .7:
            cs[lab[owner]] = t[0]
        else:
            t[0].owner = lab[owner]
        hist = [owner]
        for _ in range(rng.choice([0, 0, 1, 2])):
            if how < .7 and rng.random() < .5:
                cs.remove_condition(t[0])
                ctx.check(all(c.owner is None for c in every_cond(t)),
                          lambda: f'owners {[c.owner for c in every_cond(t)]} after {t[1]} was removed')
            owner = rng.choice(nodes)
            hist.append(owner)
            if rng.random() < .5:
                m.ConditionSet().add_condition(lab[owner], t[0])
            else:
                t[0].owner = lab[owner]
            if how < .7:
                cs = m.ConditionSet({lab[owner]: t[0]})
        for c in every_cond(t):
            ctx.count('owner_checks')
            ctx.check(c.owner == lab[owner], lambda: f'owner of component {c} of {t[1]} is {c.owner}, the composite was '
                                                     f'given to {hist}')
        trees.append((t, set()))
    # NWhen counts evaluations, separately for each context
    i = len(flags)
    flags.append(True)
    nw_n = rng.choice([0, 1, 2, 3, 5])
    failing = []

    def flag():
        if failing:
            raise failing[0]
        return flags[i]
    nwhen = m.NWhen(m.Condition(flag), nw_n) if rng.random() < .9 else m.NWhen(m.Condition(flag))
    if nwhen.args[1] != nw_n:
        nw_n = 1
    used = {}
    # equal hashes, texts, truth values are still different contexts
    eids = [None, 'second', *rng.choice(([1, '1'], [None, 'None'], [-1, -2], [0, '', ()], [(1,), '(1,)'], ['other'],
                                         [Twin(), Twin()], ['a', b'a'], [frozenset([1]), (1,), 1]))]
    top_nw = nwhen
    wrap = rng.random()
    if wrap < .2:
        top_nw = m.All(nwhen)
    elif wrap < .3:
        top_nw = m.NWhen(nwhen, 100)

    def observe(d, run, obs):
        for j in range(len(flags)):
            if rng.random() < .5:
                flags[j] = not flags[j]
        kw = {'scheduler': drv.sched, 'execution_id': run.eid}
        for t, seen in trees:
            seen.add(evaluate(ctx, rng, t, kw))
        count_nwhen(rng.choice([1, 2]))

    def count_nwhen(times):
        for _ in range(times):
            e = rng.choice(eids)
            if rng.random() < .06:
                # an evaluation that fails is none at which it is satisfied
                failing.append(rng.choice([ZeroDivisionError('given'), KeyboardInterrupt('given')]))
                try:
                    got = top_nw.is_satisfied(scheduler=drv.sched, execution_id=e)
                    ctx.check(not got and used.get(e, 0) >= nw_n, lambda: f'NWhen is {got} although its condition fails')
                except (ZeroDivisionError, KeyboardInterrupt) as err:
                    ctx.check(err is failing[0], 'another error is raised')
                    ctx.count('nwhen_failing')
                failing.clear()
                continue
            exp = flags[i] and used.get(e, 0) < nw_n
            got = bool(top_nw.is_satisfied(scheduler=drv.sched, execution_id=e))
            ctx.count('nwhen_evaluations')
            if flags[i] and not exp:
                ctx.count('nwhen_exhausted')
            used[e] = used.get(e, 0) + exp
            ctx.check(got == exp, lambda: f'NWhen(flag, {nw_n}) is {got} with flag {flags[i]} after {used} satisfactions')
    if drv.sched.default_execution_id not in eids:
        eids.append(drv.sched.default_execution_id)
    # contexts need not have run for conditions to be evaluated in them
    count_nwhen(rng.choice([0, 2, 6]))
    drv.steps(observe)
    count_nwhen(rng.choice([0, 2]))
    drv.acceptor('second')
    drv.steps(observe, eid='second')
    for t, seen in trees:
        if len(seen) == 2 and size(t[1]) >= 4:
            ctx.distinct(ctx.desc)
            ctx.sample(ctx.desc)


def owners(ctx, rng):
    """composites of composites and NWhen, given to owners and taken from them"""
    m = gs()
    nodes = ['A', 'B', 'C', 'D']
    lab = labeling(rng, nodes)
    conds, parts, names = [], {}, {}

    def tree(depth):
        if depth == 0 or rng.random() < .2:
            c = rng.choice([lambda: m.EveryNCalls(lab[rng.choice(nodes)], 2), lambda: m.Condition(lambda: True), m.Always,
                            lambda: m.AtPass(1), lambda: m.TimeInterval(repeat=2), lambda: m.WhileNot(lambda: True)])()
            parts[id(c)] = []
        else:
            k = rng.choice(['NWhen', 'NWhen', 'All', 'Any', 'Not', 'And', 'Or'])
            kids = [tree(depth - 1) for _ in range(1 if k in ('NWhen', 'Not') else rng.randint(1, 3))]
            kw = {}
            if k in ('All', 'Any', 'And', 'Or') and rng.random() < .3:
                kw = {f'k{i}': kids[i] for i in range(1, len(kids))}
            c = getattr(m.condition, k)(*kids[:len(kids) - len(kw)], **kw)
            parts[id(c)] = kids
        names[id(c)] = type(c).__name__
        conds.append(c)
        return c

    def under(c):
        return [c] + [x for k in parts[id(c)] for x in under(k)]

    def text(c):
        return names[id(c)] + (f'({", ".join(text(k) for k in parts[id(c)])})' if parts[id(c)] else '')
    tops = [tree(rng.randint(1, 4)) for _ in range(rng.randint(1, 2))]
    exp = {id(c): None for c in conds}
    log = []
    ctx.desc = {'conditions': [text(t) for t in tops], 'log': log}
    cs = m.ConditionSet()
    held = {}    # owner in cs: condition
    for _ in range(rng.randint(1, 6)):
        t = rng.choice(tops)
        o = rng.choice(nodes)
        how = rng.choice(['set', 'set', 'assign', 'other', 'remove', 'constructor'])
        if how == 'remove':
            own = next((k for k, v in held.items() if v is t), None)
            if own is None or exp[id(t)] != own:
                continue
            cs.remove_condition(t if rng.random() < .5 else lab[own])
            del held[own]
            o = None
        elif how == 'set':
            if any(v is t for v in held.values()):
                continue
            cs.add_condition(lab[o], t)
            held[o] = t
        elif how == 'assign':
            t.owner = lab[o]
        elif how == 'other':
            m.ConditionSet().add_condition(lab[o], t)
        else:
            m.ConditionSet({lab[o]: t})
        log.append((how, text(t), o))
        for c in under(t):
            exp[id(c)] = o
        for c in conds:
            want = None if exp[id(c)] is None else lab[exp[id(c)]]
            ctx.count('owner_checks')
            ctx.check(c.owner == want and type(c.owner) is type(want), lambda: f'after {log} the owner of {text(c)} is {c.owner!r}, not {want!r}')
    if len(log) > 1:
        ctx.distinct(ctx.desc)


GROUPS = {'case': (case, 900, 18000), 'owners': (owners, 600, 8000)}
