"""Content of condition sets."""
from ..drive import gs
from ..gen import labeling

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = ('random sequences of up to 30 additions (one by one, dictionaries, lists, condition sets, at construction), item '
        'assignments and removals (by owner and by condition, ambiguous, absent, ownerless) on condition sets and '
        'schedulers, compared in all views with a dictionary model at random moments; sources of additions are compared '
        'too. Non-trivial: a node had a basic and a structure condition and something was removed; distinct by sequence')
MINIMA = {'rejected': 600, 'operations': 7900, 'views': 6200, 'removed': 800, 'ambiguous': 200, 'absent': 200, 'same_assigned': 100, 'ownerless': 50,
          'replaced': 400, 'sets_added': 500, 'sources_compared': 200, 'schedulers': 150}


class Model:
    def __init__(self):
        self.basic, self.struct, self.order = {}, {}, []

    def add(self, n, c, structural):
        if structural:
            self.struct.setdefault(n, []).append(c)
            self.order.append(c)
        else:
            self.basic[n] = c

    def drop_struct(self, n, c):
        self.struct[n] = [x for x in self.struct[n] if x is not c]
        if not self.struct[n]:
            del self.struct[n]
        self.order = [x for x in self.order if x is not c]

    def combined(self):
        res = {}
        for n in [*self.basic, *[x for x in self.struct if x not in self.basic]]:
            v = ([self.basic[n]] if n in self.basic else []) + self.struct.get(n, [])
            res[n] = v
        return res


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def views(ctx, cs, mod, what, probe):
    """all views of cs agree with mod"""
    ctx.count('views')
    comb = mod.combined()
    pre = f'{what}: '
    ctx.check(set(cs.conditions_basic) == set(mod.basic) and all(cs.conditions_basic[n] is c for n, c in mod.basic.items()),
              lambda: pre + f'conditions_basic is {cs.conditions_basic}, expected {mod.basic}')
    got = {n: v for n, v in cs.conditions_structural.items() if len(v)}
    ctx.check(set(got) == set(mod.struct) and all(same(got[n], v) for n, v in mod.struct.items()),
              lambda: pre + f'conditions_structural is {got}, expected {mod.struct}')
    ctx.check(same(cs.structural_condition_order, mod.order),
              lambda: pre + f'structural_condition_order is {cs.structural_condition_order}, expected {mod.order}')
    d = cs.conditions
    flat = {n: (v if isinstance(v, list) else [v]) for n, v in d.items()}
    ctx.check(set(flat) == set(comb) and all(same(flat[n], v) for n, v in comb.items()),
              lambda: pre + f'conditions is {d}, expected {comb}')
    ctx.check(sorted(map(repr, cs)) == sorted(map(repr, comb)), lambda: pre + f'iteration gives {list(cs)}')
    for n in probe:
        ctx.check((n in cs) == (n in comb), lambda: pre + f'membership of {n} is {n in cs}')
        if n in comb:
            v = cs[n]
            ctx.check(same(v if isinstance(v, list) else [v], comb[n]), lambda: pre + f'item {n} is {v}')
    ctx.check(all(c.owner == n for n, v in comb.items() for c in v),
              lambda: pre + f'owners {[(n, c.owner) for n, v in comb.items() for c in v]}')
    text = repr(cs)
    ctx.check(all(str(c) in text for v in comb.values() for c in v), lambda: pre + f'text is {text}')


def case(ctx, rng):
    m = gs()
    names = list('ABCDE')[:rng.randint(2, 5)]
    lab = labeling(rng, names)
    nodes = list(lab.values())
    on_sched = rng.random() < .35
    log = []
    ctx.desc = log
    log.append(('scheduler' if on_sched else 'set', {k: repr(v) for k, v in lab.items()}))

    def new(owner):
        if rng.random() < .45:
            others = [x for x in nodes if x != owner]
            kind = rng.choice(['AddEdgeTo', 'RemoveEdgeFrom', 'Custom'])
            if kind == 'Custom':
                return m.CustomGraphStructureCondition(lambda graph: graph), True
            return getattr(m, kind)(rng.choice(others)), True
        return rng.choice([
            m.Always, lambda: m.AtPass(rng.randint(0, 3)), lambda: m.All(m.Always(), m.AtPass(1)),
            lambda: m.Not(m.Never()), lambda: m.Condition(lambda: True), lambda: m.TimeInterval(repeat=1)])(), False

    mod = Model()
    old = []

    def addition(mod, size):
        """(argument of add_condition_set, [(owner, cond, structural)] in
        the order of addition)"""
        d, items = {}, []
        for n in rng.sample(nodes, min(size, len(nodes))):
            cs = [new(n) for _ in range(rng.choice([1, 1, 2, 3]))]
            d[n] = cs
            items += [(n, *c) for c in cs]
        if rng.random() < .4:
            cset = m.ConditionSet({n: [c for c, _ in v] for n, v in d.items()})
            src = Model()
            for it in items:
                src.add(*it)
            # basic conditions replaced there are not added
            items = []
            for n, v in src.combined().items():
                items += [(n, c, any(c is x for x in src.order)) for c in v]
            return cset, items, src
        arg = {}
        for n, v in d.items():
            v = [c for c, _ in v]
            arg[n] = v[0] if len(v) == 1 and rng.random() < .6 else rng.choice([list, tuple, iter, dict.fromkeys, lambda x: (y for y in x)])(v)
        return arg, items, None

    # construction
    args, srcs = [], []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        arg, items, src = addition(mod, rng.randint(1, 3))
        args.append(arg)
        srcs.append((arg, src))
        for it in items:
            mod.add(*it)
    if on_sched:
        ctx.count('schedulers')
        s = m.Scheduler({n: set() for n in nodes}, conditions=args[0] if args else None)
        for a in args[1:]:
            s.add_condition_set(a)
        cs = s.conditions
    elif args and rng.random() < .4:
        kw = args.pop() if rng.random() < .5 else None
        cs = m.ConditionSet(*args, conditions=kw)
    else:
        cs = m.ConditionSet(*args)
        s = None
    tgt = (lambda: rng.choice([s, cs])) if on_sched else (lambda: cs)
    seen_both = removed = False
    E = m.condition.ConditionError
    for _ in range(rng.randint(5, 30)):
        ctx.count('operations')
        op = rng.choice(['add', 'add', 'add', 'item', 'set', 'rm_owner', 'rm_owner', 'rm_cond', 'rm_cond', 'rm_old', 'ownerless',
                         'readd', 'rejected', 'again', 'same'])
        n = rng.choice(nodes)
        if op == 'add':
            c, st = new(n)
            log.append((op, n, str(c)))
            if not st and n in mod.basic:
                ctx.count('replaced')
                old.append((mod.basic[n], n))
            mod.add(n, c, st)
            tgt().add_condition(n, c)
        elif op == 'item':
            c, st = new(n)
            log.append((op, n, str(c)))
            if not st and n in mod.basic:
                ctx.count('replaced')
                old.append((mod.basic[n], n))
            for x in list(mod.struct.get(n, ())):
                mod.drop_struct(n, x)
            mod.add(n, c, st)
            cs[n] = c
        elif op == 'set':
            arg, items, src = addition(mod, rng.randint(1, 3))
            log.append((op, [(x, str(c)) for x, c, _ in items]))
            ctx.count('sets_added')
            for it in items:
                mod.add(*it)
            tgt().add_condition_set(arg)
            srcs.append((arg, src))
        elif op == 'rm_owner':
            have = mod.combined().get(n, [])
            log.append((op, n))
            if len(have) > 1:
                ctx.count('ambiguous')
                try:
                    r = tgt().remove_condition(n)
                except E:
                    pass
                else:
                    ctx.fail(f'removal of a condition of {n} gives {r} although there are {have}')
            else:
                r = tgt().remove_condition(n)
                exp = have[0] if have else None
                ctx.count('removed' if have else 'absent')
                ctx.check(r is exp, lambda: f'removal for owner {n} returns {r}, expected {exp}')
                if have:
                    removed = True
                    if n in mod.basic:
                        del mod.basic[n]
                    else:
                        mod.drop_struct(n, exp)
        elif op == 'rm_cond':
            all_ = [(n, c) for n, v in mod.combined().items() for c in v]
            if all_:
                n, c = rng.choice(all_)
                log.append((op, n, str(c)))
                r = tgt().remove_condition(c)
                ctx.count('removed')
                removed = True
                ctx.check(r is c, lambda: f'removal of {c} returns {r}')
                if mod.basic.get(n) is c:
                    del mod.basic[n]
                    ctx.check(c.owner is None, lambda: f'{c} still has owner {c.owner} after its removal')
                else:
                    mod.drop_struct(n, c)
        elif op == 'rm_old':
            # a condition with owner that is not in the set
            if old and rng.random() < .5:
                c, _ = rng.choice(old)
                if c.owner is None:
                    continue
            else:
                c, _ = new(n)
                c.owner = n
            log.append((op, str(c)))
            r = tgt().remove_condition(c)
            ctx.count('absent')
            ctx.check(r is None, lambda: f'removal of {c}, which is not in the set, returns {r}')
        elif op == 'rejected' and len(nodes) > 1:
            # a condition this node can't own is not added
            c = getattr(m, rng.choice(['BeforeNode', 'AfterNode', 'WithNode', 'AddEdgeTo', 'RemoveEdgeFrom']))(n)
            log.append((op, n, str(c)))
            ctx.count('rejected')
            try:
                rng.choice([lambda: tgt().add_condition(n, c), lambda: tgt().add_condition_set({n: c}),
                            lambda: cs.__setitem__(n, c)])()
            except E:
                pass
            else:
                ctx.fail(f'{c} is added to {n}')
        elif op == 'ownerless':
            c, _ = new(n)
            log.append((op, str(c)))
            ctx.count('ownerless')
            try:
                r = tgt().remove_condition(c)
            except E:
                pass
            else:
                ctx.fail(f'removal of a condition without owner gives {r}')
        elif op == 'again' and n in mod.basic:
            # a basic condition replaces itself
            log.append((op, n))
            rng.choice([tgt().add_condition, cs.__setitem__ if n not in mod.struct else tgt().add_condition])(n, mod.basic[n])
        elif op == 'same' and n in mod.struct:
            # assignment of a structure condition the node has already
            c = rng.choice(mod.struct[n])
            log.append((op, n, str(c)))
            ctx.count('same_assigned')
            for x in list(mod.struct[n]):
                mod.drop_struct(n, x)
            mod.add(n, c, True)
            cs[n] = c
        elif op == 'readd' and mod.order:
            # moves a structure condition to the end
            c = rng.choice(mod.order)
            n = c.owner
            log.append((op, n, str(c)))
            ctx.check(tgt().remove_condition(c) is c, 'a condition present is not removed')
            mod.drop_struct(n, c)
            if rng.random() < .5:
                views(ctx, cs, mod, 'after removal', rng.sample(nodes, 1))
            tgt().add_condition(n, c)
            mod.add(n, c, True)
        seen_both = seen_both or any(x in mod.basic for x in mod.struct)
        if rng.random() < .7:
            views(ctx, cs, mod, log[-1], rng.sample(nodes, 2))
    views(ctx, cs, mod, 'at the end', nodes)
    for arg, src in srcs:
        if src is not None:
            # the set added from is independent of this one
            ctx.count('sources_compared')
            ctx.check(same(arg.structural_condition_order, src.order) and set(arg.conditions_basic) == set(src.basic)
                      and all(arg.conditions_basic[x] is c for x, c in src.basic.items()),
                      'a condition set that was added is changed by changes of the set it was added to')
    if seen_both and removed:
        ctx.distinct(str(log))
        ctx.sample(str(log)[:800])


GROUPS = {'case': (case, 1800, 40000)}
