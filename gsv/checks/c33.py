"""Debug logging only adds messages."""
import importlib
import io
import logging
import logging.handlers
import random
import sys

from ..core import Ctx, Skip, Violation, error_message
from ..drive import Driver, describe, gs, state_of
from ..gen import gen_abs_scenario, gen_scenario
from ..gscgen import build_gsc, gen_gsc, show_graph
from ..gen import gen_graph, labeling, relabel_graph

PROPERTY = 'C33'
LEVEL = 'exploration'
RULE = ('(a) histories of enabling, disabling (with levels), handlers and levels set by the user, and messages logged under '
        'names of the package and others: every message that the level admits appears exactly once, others never, and the '
        'level of the root logger is the one asked for; (b) scenarios run once without and once with logging switched on '
        'and off between sets, both against the reference automaton and each other; (c) structure conditions applied with '
        'and without logging give equal graphs or errors; (d) cases of other checks must not fail only while logging is '
        'enabled. Non-trivial: messages were written while observed; distinct by '
        'history or scenario')
MINIMA = {'messages_to_own': 300, 'messages_shown': 1500, 'messages_hidden': 250, 'switches': 1500, 'twins': 150, 'sets_observed': 3000,
          'lines_during_runs': 3000, 'applications': 800, 'with_logging': 400,
          'lines_of_others': 3000}

ROOT = logging.getLogger()
PKG = logging.getLogger('graph_scheduler')
NAMES = ['graph_scheduler', 'graph_scheduler.condition', 'graph_scheduler.scheduler', 'graph_scheduler.utilities', 'graph_scheduler.other']


class Fresh:
    """logging as in a new process, standard error captured"""

    def __enter__(self):
        self.saved = (ROOT.level, ROOT.handlers[:], PKG.level, PKG.handlers[:], PKG.propagate, sys.stderr)
        ROOT.setLevel(logging.WARNING)
        ROOT.handlers[:] = []
        PKG.setLevel(logging.NOTSET)
        PKG.handlers[:] = []
        PKG.propagate = True
        sys.stderr = self.err = io.StringIO()
        return self

    def __exit__(self, *a):
        level, rh, plevel, ph, prop, sys.stderr = self.saved
        ROOT.setLevel(level)
        ROOT.handlers[:] = rh
        PKG.setLevel(plevel)
        PKG.handlers[:] = ph
        PKG.propagate = prop


class Plain(logging.Handler):
    def __init__(self, out):
        super().__init__()
        self.out = out

    def emit(self, record):
        self.out.write(self.format(record) + '\n')


class Sub(logging.StreamHandler):
    pass


def own_handler(rng, out):
    """of several kinds, all write to out at once"""
    k = rng.randrange(4)
    if k == 0:
        return logging.StreamHandler(out)
    if k == 1:
        return Plain(out)
    if k == 2:
        return Sub(out)
    return logging.handlers.MemoryHandler(1, target=logging.StreamHandler(out))


def histories(ctx, rng):
    m = gs()
    log = []
    ctx.desc = log
    with Fresh() as f:
        own = None
        root = io.StringIO()
        kept = []
        if rng.random() < .35:
            # the user has handlers of the root logger
            kept.append(own_handler(rng, root))
            ROOT.addHandler(kept[0])
            log.append(('root handler', type(kept[0]).__name__))
        if rng.random() < .4:
            # the user has a handler for the package
            own = io.StringIO()
            h = own_handler(rng, own)
            PKG.addHandler(h)
            log.append(('own handler', type(h).__name__))
        enabled_once = False
        level = logging.WARNING
        n = 0
        for _ in range(rng.randint(3, 14)):
            r = rng.random()
            if r < .3:
                m.enable_debug_logging()
                enabled_once = True
                level = logging.DEBUG
                log.append('enable')
                ctx.count('switches')
            elif r < .5 and enabled_once:
                level = rng.choice([logging.WARNING, logging.INFO, logging.ERROR, logging.CRITICAL, 15, 25, 0, logging.DEBUG])
                if level == logging.WARNING and rng.random() < .6:
                    m.disable_debug_logging()
                elif rng.random() < .5:
                    m.disable_debug_logging(level)
                else:
                    m.disable_debug_logging(level=level)
                log.append(('disable', level))
                ctx.count('switches')
            else:
                n += 1
                name = rng.choice(NAMES)
                lv = rng.choice([logging.DEBUG, logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, 17, 27])
                text = f'message no {n}.'
                log.append((name, lv))
                out = own if own is not None else f.err
                logging.getLogger(name).log(lv, text)
                if not enabled_once:
                    # only what the user configured
                    continue
                found = out.getvalue().count(text)
                exp = int(lv >= level)
                ctx.count('messages_shown' if exp else 'messages_hidden')
                ctx.check(found == exp, lambda: f'message of level {lv} at {name} appears {found} times, level is {level}')
                ctx.check(text not in root.getvalue(), 'message also at the handlers of the root logger')
                if own is not None:
                    ctx.count('messages_to_own')
                    ctx.check(text not in f.err.getvalue(), 'message on standard error in spite of a handler of the user')
            if enabled_once:
                ctx.check(ROOT.level == level, lambda: f'level of the root logger is {ROOT.level}, asked for {level}')
            ctx.check(ROOT.handlers == kept, 'the handlers of the root logger changed')
            if own is not None:
                ctx.check(PKG.handlers == [h], 'the handlers of the user for the package changed')
        if enabled_once:
            ctx.distinct(log)


def toggle(ctx, rng):
    m = gs()
    ctx.count('switches')
    if rng.random() < .7:
        m.enable_debug_logging()
    else:
        m.disable_debug_logging()


def runs(ctx, rng):
    sc = gen_abs_scenario(rng, rng.choice(['STANDARD', 'EXACT_TIME']), nmax=4) if rng.random() < .25 else gen_scenario(
        rng, nmax=5, runs=3, p=.8)
    ctx.desc = describe(sc)
    seed = rng.random()
    results = []
    with Fresh() as f:
        for logged in (False, True):
            hist = []
            if logged:
                m = gs()
                m.enable_debug_logging()
            drv = Driver(ctx, sc, random.Random(seed))

            def step(*a):
                if logged and rng.random() < .3:
                    toggle(ctx, rng)

            def on_yield(d, run, obs):
                hist.append(obs)
                step()
            drv.steps(on_yield, after_step=lambda d, s: (hist.append(s[0]), step()))
            st = state_of(drv.sched)
            results.append((hist, {k: v for k, v in st.items()}))
        lines = f.err.getvalue().count('\n')
    ctx.count('lines_during_runs', lines)
    ctx.count('twins')
    # which of several possible sequences is free
    if results[0][0] == results[1][0]:
        a, b = results[0][1], results[1][1]
        # only what does not depend on the order within a set
        a, b = ({k: v for k, v in x.items() if k[0] != 'useable'} for x in (a, b))
        ctx.check(a == b, lambda: f'counts, history or time without logging {a}, with logging {b}')
    elif all(acc.unique for acc in drv.acc.values()):
        ctx.fail(f'without logging {results[0][0]}, with logging {results[1][0]}')
    if not lines:
        raise Skip()
    ctx.distinct(ctx.desc)


def structure(ctx, rng):
    m = gs()
    g = gen_graph(rng, 2, rng.choice([6, 6, 12]))
    while len(g) > 6 and sum(map(len, g.values())) > 14:
        # the number of cycles to be pruned may grow exponentially
        g = gen_graph(rng, 7, 12)
    nodes = sorted(g)
    lab = labeling(rng, nodes)
    spec = gen_gsc(rng, nodes)
    ctx.desc = (g, spec, {k: repr(v) for k, v in lab.items()})
    real = relabel_graph(rng, g, lab)
    res = []
    with Fresh() as f:
        for logged in (False, True):
            if logged:
                m.enable_debug_logging()
            try:
                c = build_gsc(m, spec, lab)
                c.owner = lab[spec['owner']]
                r = c.modify_graph({k: set(v) for k, v in real.items()})
                res.append({k: set(v) for k, v in r.items()})
            except Exception as e:
                res.append(type(e))
        lines = f.err.getvalue().count('\n')
    ctx.count('applications')
    ctx.count('lines_of_structure', lines)
    ctx.check(res[0] == res[1], lambda: f'without logging {show_graph(res[0]) if isinstance(res[0], dict) else res[0]}, with {res[1]}')
    ctx.distinct(ctx.desc)


OTHERS = [('c31', 'construct'), ('c31', 'construct'), ('c31', 'running'), ('c17', 'case'), ('c17', 'reject'), ('c18', 'case'),
          ('c20', 'case'), ('c21', 'case'), ('c22', 'case'), ('c26', 'errors'), ('c26', 'runs'), ('c27', 'case'), ('c28', 'inputs'),
          ('c29', 'case'), ('c30', 'sequence'), ('c30', 'direct'), ('c04', 'case'), ('c04', 'events'), ('c16', 'schedule'),
          ('c25', 'sequence'), ('c09', 'run'), ('c08', 'owners'), ('c06', 'case'), ('c03', 'edited')]


def others(ctx, rng):
    """what other checks require, while debug logging is enabled"""
    name, group = rng.choice(OTHERS)
    fn = importlib.import_module(f'gsv.checks.{name}').GROUPS[group][0]
    seed = rng.random()

    def go(logged):
        sub = Ctx()
        with Fresh() as f:
            if logged:
                gs().enable_debug_logging()
            try:
                fn(sub, random.Random(seed))
            except Skip:
                return None
            except Violation as e:
                return e.msg
            except Exception as e:
                return error_message(e)
            finally:
                ctx.desc = (name, group, sub.desc)
                ctx.count('lines_of_others', f.err.getvalue().count('\n'))
        return None
    msg = go(True)
    ctx.count('with_logging')
    if msg is not None and all(go(False) is None for _ in range(4)):
        ctx.fail(f'only while debug logging is enabled: {msg}')
    ctx.distinct(str(ctx.desc))


GROUPS = {'histories': (histories, 500, 10000), 'runs': (runs, 150, 3000), 'structure': (structure, 500, 10000),
          'others': (others, 400, 12000)}
