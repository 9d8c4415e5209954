"""Time scale aliases."""
import copy
import types

from ..drive import Driver, gs
from ..gen import gen_scenario
from ..model import TS_NAMES, build

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('sequences of up to 9 settings (one alias per time scale at a time, by member or name of it) and removals of aliases, '
        'with unknown and repeated names, invalid targets and all orders of removal; after each the exported names, members, '
        'documentation and times are compared with a snapshot, and random scenarios built under alias names are compared with '
        'the reference model and a scheduler built with the original names. Non-trivial: at least two aliases were removed; '
        'distinct by sequence')
MINIMA = {'sets': 1000, 'removals': 1000, 'restored': 370, 'alias_classes': 8000, 'sets_observed': 3000,
          'alias_built': 460, 'times': 1500, 'refused': 200, 'unknown_removed': 200, 'partial_states': 170}

NAMES = ['TRIAL', 'RUN', 'TIME_STEP', 'CYCLE', 'EPOCH', 'MY_ENVIRONMENT_STATE_UPDATE_ALIAS', 'X', 'BIG_PASS_ALIAS', 'Tick',
         'MY_PASS', 'ROUND_OF_ALL', 'LAMBDA', 'STAGE', 'a_b', 'TICK_TOCK', 'TRIAL_BLOCK', 'LIFETIME', 'MY_LIFE',
         'TRIAL2', 'PHASE_1A', '2ND_STEP', 'STEP__TWO', '_HIDDEN', 'LAST_', 'ÜBUNG']
SEG = {k: ''.join(x.capitalize() for x in n.split('_')) for k, n in enumerate(TS_NAMES)}


def seg(name):
    return ''.join(x[:1].upper() + x[1:].lower() for x in name.split('_'))


def modules():
    m = gs()
    return {'': m, 'condition': m.condition, 'time': m.time, 'scheduler': m.scheduler, 'utilities': m.utilities}


def snapshot():
    res = {}
    m = gs()
    for k, mod in modules().items():
        for n, v in vars(mod).items():
            if n[0] != '_':
                res['name', k, n] = id(v)
                if isinstance(v, (type, types.ModuleType)):
                    res['doc', k, n] = v.__doc__
        res['doc', k] = mod.__doc__
        for i, n in enumerate(getattr(mod, '__all__', ())):
            res['all', k, n] = True
    for c in (m.TimeScale, m.Time, m.SimpleTime):
        for n in vars(c):
            if n[0] != '_':
                res['attr', c.__name__, n] = True
    res['members'] = [t.name for t in m.TimeScale]
    res['doc', 'repr'] = repr(m.Time()), repr(m.SimpleTime(m.Time()))
    return res


def private():
    """everything aliases touch, to restore after a violation"""
    m = gs()
    owners = set(modules().values()) | {m.TimeScale, m.Time, m.SimpleTime}
    for mod in modules().values():
        owners |= {v for v in vars(mod).values() if isinstance(v, type) and v.__module__.startswith('graph_scheduler')}
    contents = {k: copy.copy(v) for k, v in vars(m.time).items() if isinstance(v, (dict, list, set)) and k != '__builtins__'}
    return {o: dict(vars(o)) for o in owners}, {k: list(mod.__all__) for k, mod in modules().items()}, contents


BASE = []


def restore():
    m = gs()
    # only has an effect after a violation
    attrs, alls, contents = BASE[1]
    for o, d in attrs.items():
        for n in list(vars(o)):
            if n not in d:
                delattr(o, n)
        for n, v in d.items():
            if vars(o).get(n) is not v and n not in ('__dict__', '__weakref__'):
                setattr(o, n, v)
    for k, mod in modules().items():
        mod.__all__[:] = alls[k]
    for k, v in contents.items():
        x = vars(m.time)[k]
        x.clear()
        x.extend(v) if isinstance(v, list) else x.update(v)


def differences(a, b):
    return [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b), key=repr) if a.get(k) != b.get(k)][:4]


class Proxy:
    """graph_scheduler seen through alias names"""

    def __init__(self, rng, aliases, ctx):
        self.rng, self.aliases, self.ctx = rng, aliases, ctx
        self.TimeScale = gs().TimeScale
        self.condition = gs().condition

    def __getattr__(self, k):
        for ts, name in self.aliases.items():
            if SEG[ts] in k and self.rng.random() < .8:
                self.ctx.count('alias_built')
                return getattr(gs() if self.rng.random() < .5 else gs().condition, k.replace(SEG[ts], seg(name)))
        return getattr(gs(), k)


def outcome(fn):
    try:
        return fn()
    except Exception as e:
        return type(e)


def attr_of(ts):
    return gs().TimeScale(ts).name.lower() + ('_' if gs().TimeScale(ts).name == 'PASS' else '')


def check_aliases(ctx, rng, aliases):
    m = gs()
    base = BASE[0]
    now = snapshot()
    lost = [(k, v, now.get(k)) for k, v in base.items() if k[0] != 'doc' and now.get(k) != v]
    ctx.check(not lost, lambda: f'existing names were changed: {lost[:4]}')
    for ts, name in aliases.items():
        t = m.TimeScale(ts)
        ctx.check(getattr(m.TimeScale, name, None) is t, f'TimeScale.{name} is {getattr(m.TimeScale, name, None)!r}, not {t}')
        for mod in ('', 'condition'):
            for k in base:
                if k[:2] == ('name', mod) and SEG[ts] in k[2] and ('name', 'condition', k[2]) in base:
                    new = k[2].replace(SEG[ts], seg(name))
                    ctx.count('alias_classes')
                    ctx.check(now.get(('name', mod, new)) == base[k],
                              f'{mod or "package"}.{new} is not {k[2]} while {name} is an alias of {t}')
                    ctx.check(('all', mod, k[2]) not in base or ('all', mod, new) in now, f'{new} is not in __all__ of {mod or "package"}')
    # times
    for ts, name in aliases.items():
        ctx.count('times')
        v, w, orig, alias = rng.randint(0, 5), rng.randint(6, 9), attr_of(ts), name.lower()
        for cls in ('Time', 'SimpleTime'):
            x, y = m.Time(**{alias: v}), m.Time(**{orig: v})
            ctx.check(x == y and getattr(x, orig) == v, f'Time({alias}={v}) is {x!r}, Time({orig}={v}) is {y!r}')
            rx, ry = x, y
            if cls == 'SimpleTime':
                rx, ry = m.SimpleTime(x), m.SimpleTime(y)
            a, b = outcome(lambda: getattr(rx, alias)), outcome(lambda: getattr(ry, orig))
            ctx.check(a == b, f'{alias} of {cls} is {a}, {orig} is {b}')
            a, b = outcome(lambda: setattr(rx, alias, w)), outcome(lambda: setattr(ry, orig, w))
            ctx.check((a is None) == (b is None) and (a is not None or x == y),
                      f'after setting {alias} of {cls} to {w}: {x!r}, after setting {orig}: {y!r} ({a}, {b})')
            p = m.Time(**{alias: v})
            p[getattr(m.TimeScale, name)] = w
            ctx.check(p[m.TimeScale(ts)] == w and getattr(p, alias) == w and getattr(p, orig) == w,
                      lambda: f'after setting item TimeScale.{name} to {w}: {p!r}')


def check_scheduler(ctx, rng, aliases):
    m = gs()
    sc = gen_scenario(rng, nmax=4, runs=2, p=.9, kinds=('time', 'time', 'start', 'every', 'call', 'comp'))
    lab = sc['lab']
    proxy = Proxy(rng, aliases, ctx)
    term = {}
    for ts, c in sc.get('term', {}).items():
        name = aliases.get(ts, TS_NAMES[ts])
        key = getattr(m.TimeScale, name)
        if name.isupper() and rng.random() < .6:
            key = rng.choice([str.lower, str.upper])(name)
        term[key] = build(c, proxy, lambda n: lab[n])
    kw = {'termination_conds': term} if term else {}
    graph = {lab[n]: {lab[x] for x in v} for n, v in sc['graph'].items()}
    conds = {lab[n]: build(c, proxy, lambda n: lab[n]) for n, c in sc['conds'].items()}
    s = m.Scheduler(graph, conditions=conds, mode=getattr(m.SchedulingMode, sc['mode']), **kw)
    ctx.desc['scenario'] = {'graph': sc['graph'], 'conds': sc['conds'], 'term': sc.get('term')}
    drv = Driver(ctx, sc, rng, sched=s)

    def on_yield(d, run, obs):
        t = s.get_clock(run.eid).time
        for ts, name in aliases.items():
            ctx.check(getattr(t, name.lower()) == getattr(t, attr_of(ts)), lambda: f'{name.lower()} and {attr_of(ts)} of {t!r} differ')
    drv.steps(on_yield)


def sequence(ctx, rng):
    m = gs()
    if not BASE:
        BASE.extend([snapshot(), private()])
    aliases, log = {}, []
    ctx.desc = {'log': log}
    names = rng.sample(NAMES, 6)
    removed = 0
    try:
        for _ in range(rng.randint(2, 9)):
            free = [t for t in range(5) if t not in aliases]
            r = rng.random()
            if r < .5 and free:
                ts = rng.choice(free)
                avail = [n for n in names if n not in aliases.values()]
                if not avail:
                    continue
                name = rng.choice(avail)
                target = m.TimeScale(ts) if rng.random() < .6 else TS_NAMES[ts]
                log.append(('set', name, str(target)))
                m.set_time_scale_alias(name, target)
                aliases[ts] = name
                ctx.count('sets')
            elif r < .75 and aliases:
                ts = rng.choice(sorted(aliases))
                log.append(('remove', aliases[ts]))
                m.remove_time_scale_alias(aliases.pop(ts))
                ctx.count('removals')
                removed += 1
            else:
                before = snapshot()
                kind = rng.choice(['unknown', 'again', 'invalid', 'member'])
                if kind == 'unknown':
                    pool = NAMES + ['UNKNOWN', 'PASS'] if rng.random() < .5 else [
                        x for n in aliases.values() for x in (
                            n.lower(), n.title(), n.swapcase(), n[:-1], n + 'S', n[1:], n.replace('_', ''), seg(n), f'_{n}', f' {n}', n.split('_')[0])]
                    name = rng.choice([n for n in pool if n not in aliases.values()] or ['UNKNOWN'])
                    log.append(('remove unknown', name))
                    m.remove_time_scale_alias(name)
                    ctx.count('unknown_removed')
                else:
                    if kind == 'member':
                        args = (rng.choice(TS_NAMES), m.TimeScale(rng.choice(range(5))))
                    elif kind == 'again':
                        if not aliases:
                            continue
                        args = (rng.choice(list(aliases.values())), m.TimeScale(rng.choice(range(5))))
                    else:
                        args = (rng.choice([n for n in names if n not in aliases.values()] or ['NEW']), rng.choice(['UNKNOWN', 'TRIALS']))
                    log.append((kind, args[0], str(args[1])))
                    ctx.count('refused')
                    err = outcome(lambda: m.set_time_scale_alias(*args))
                    ctx.check(err is ValueError or kind == 'member' and isinstance(err, type),
                              f'set_time_scale_alias{args} gives {err} instead of a ValueError')
                d = differences(before, snapshot())
                ctx.check(not d, lambda: f'{log[-1]} has effects: {d}')
            check_aliases(ctx, rng, aliases)
            if rng.random() < .5:
                check_scheduler(ctx, rng, aliases)
        # some states are compared with a fresh setting of the same aliases
        if aliases and rng.random() < .6:
            now = snapshot()
            order = list(aliases)
            for ts in rng.sample(order, len(order)):
                m.remove_time_scale_alias(aliases[ts])
            for ts in order:
                m.set_time_scale_alias(aliases[ts], m.TimeScale(ts))
            d = differences(now, snapshot())
            ctx.count('partial_states')
            ctx.check(not d, lambda: f'with {aliases} set, after {log}: (key, there, after setting only these) = {d}')
        rest = list(aliases)
        rng.shuffle(rest)
        for ts in rest:
            name = aliases.pop(ts)
            log.append(('remove', name))
            m.remove_time_scale_alias(name)
            ctx.count('removals')
            removed += 1
            check_aliases(ctx, rng, aliases)
        d = differences(BASE[0], snapshot())
        ctx.check(not d, lambda: f'not restored after {log}: (key, before, after) = {d}')
        ctx.check([list(x.__all__) for x in modules().values()] == list(BASE[1][1].values()), 'the order of __all__ changed')
        ctx.count('restored')
        check_scheduler(ctx, rng, {})
        if removed >= 2:
            ctx.distinct(tuple(log))
    finally:
        restore()


GROUPS = {'sequence': (sequence, 1500, 20000)}
