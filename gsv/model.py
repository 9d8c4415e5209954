"""Reference model of the documented semantics of graph_scheduler.

Written from the documentation, not from the implementation; it imports
nothing from graph_scheduler except in `build`, which turns a condition
specification (nested tuples) into real condition objects.

The outcome of a run is not always unique: conditions may depend on
nodes of the same layer, and the order in which the members of a layer
are examined is unspecified. The model is therefore a nondeterministic
automaton: `Sim.outcomes` lists all (set yielded, next state) pairs that
some order allows, and an observed run is accepted if it is one of its
words.
"""
from fractions import Fraction
from math import gcd

CSE, PASS, ESU, ESEQ, LIFE = range(5)
TS_NAMES = ['CONSIDERATION_SET_EXECUTION', 'PASS', 'ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE', 'LIFE']
ATTR = ['consideration_set_execution', 'pass_', 'environment_state_update', 'environment_sequence', 'life']

TIME_CONDS = {
    # name: (unit counted, comparison, default scale)
    'BeforeConsiderationSetExecution': (CSE, 'lt', ESU),
    'AtConsiderationSetExecution': (CSE, 'eq', ESU),
    'AfterConsiderationSetExecution': (CSE, 'gt', ESU),
    'AfterNConsiderationSetExecutions': (CSE, 'ge', ESU),
    'BeforePass': (PASS, 'lt', ESU),
    'AtPass': (PASS, 'eq', ESU),
    'AfterPass': (PASS, 'gt', ESU),
    'AfterNPasses': (PASS, 'ge', ESU),
    'EveryNPasses': (PASS, 'mod', ESU),
    'BeforeEnvironmentStateUpdate': (ESU, 'lt', ESEQ),
    'AtEnvironmentStateUpdate': (ESU, 'eq', ESEQ),
    'AfterEnvironmentStateUpdate': (ESU, 'gt', ESEQ),
    'AfterNEnvironmentStateUpdates': (ESU, 'ge', ESEQ),
    'AtEnvironmentSequence': (ESEQ, 'eq', LIFE),
    'AfterEnvironmentSequence': (ESEQ, 'gt', LIFE),
    'AfterNEnvironmentSequences': (ESEQ, 'ge', LIFE),
}
NO_SCALE_ARG = {'AtEnvironmentSequence', 'AfterEnvironmentSequence', 'AfterNEnvironmentSequences'}
CALL_CONDS = {'BeforeNCalls': 'lt', 'AtNCalls': 'eq', 'AfterCall': 'gt', 'AfterNCalls': 'ge'}
START_CONDS = ('AtEnvironmentStateUpdateStart', 'AtEnvironmentSequenceStart',
               'AtEnvironmentStateUpdateNStart', 'AtEnvironmentSequenceNStart')
COMPOSITES = ('All', 'And', 'Any', 'Or')


def cmp(op, a, n):
    if op == 'lt':
        return a < n
    if op == 'eq':
        return a == n
    if op == 'gt':
        return a > n
    if op == 'ge':
        return a >= n
    if op == 'mod':
        return a % n == 0
    raise AssertionError(op)


# ----------------------------------------------------------------- graphs
def layers_of(graph):
    """{node: senders} -> list of frozensets; None if there is a cycle of
    two or more nodes (self-edges are disregarded)"""
    nodes = set(graph)
    for v in graph.values():
        nodes |= set(v)
    deps = {n: set(graph.get(n, ())) - {n} for n in nodes}
    res, done = [], set()
    while len(done) < len(nodes):
        layer = frozenset(n for n in nodes if n not in done and deps[n] <= done)
        if not layer:
            return None
        res.append(layer)
        done |= layer
    return res


# ------------------------------------------------------------- conditions
# time values in specifications: (Fraction magnitude, unit name)
UNIT_PS = {'ns': 1000, 'us': 10**6, 'ms': 10**9, 's': 10**12, 'minute': 60 * 10**12, 'ks': 10**15, 'ps': 1}


def to_ps(t):
    """a time spec (magnitude, unit) in picoseconds, exactly"""
    return Fraction(t[0]) * UNIT_PS[t[1]]


def children(c):
    if c[0] in COMPOSITES:
        return list(c[1])
    if c[0] in ('Not', 'NWhen'):
        return [c[1]]
    return []


def walk(c):
    yield c
    for k in children(c):
        yield from walk(k)


def is_abs(c):
    return any(x[0] in ('TimeInterval', 'TimeTermination') for x in walk(c))


def abs_start(c):
    """earliest time the condition may be satisfied, as far as declared"""
    k = c[0]
    if k == 'TimeInterval':
        return to_ps(c[1]['start']) if c[1].get('start') is not None else Fraction(0)
    if k in COMPOSITES:
        return min(abs_start(x) for x in c[1] if is_abs(x))
    if k == 'NWhen':
        return abs_start(c[1])
    return Fraction(0)


def deps_of(c):
    res = set()
    for x in walk(c):
        if x[0] in CALL_CONDS or x[0] in ('EveryNCalls', 'JustRan'):
            res.add(x[1])
        elif x[0] in ('AllHaveRun', 'AfterNCallsCombined'):
            res |= set(x[1])
            if not x[1]:
                res.add('*')
    return res


class State:
    __slots__ = ('total', 'cnt', 'use', 'last', 'nexec', 'nwhen', 'abs', 'pc', 'i', 'changed', 'prev', 'closed')

    def __init__(self, nodes):
        # total[(q, b)]: units q completed since the start of current unit b
        self.total = {(q, b): 0 for q in range(5) for b in range(5) if q < b}
        self.cnt = {ts: {n: 0 for n in nodes} for ts in range(5)}
        self.use = {}
        self.last = None
        self.nexec = 0
        self.nwhen = {}
        self.abs = Fraction(0)
        self.pc = 'idle'
        self.i = 0
        self.changed = False
        self.prev = None  # time before the last tick
        # state updates and sequences ended: (scale, passes, sets) of the state update
        self.closed = ()

    def copy(self):
        s = State.__new__(State)
        s.total = dict(self.total)
        s.cnt = {k: dict(v) for k, v in self.cnt.items()}
        s.use = dict(self.use)
        s.last, s.nexec = self.last, self.nexec
        s.nwhen = dict(self.nwhen)
        s.abs, s.pc, s.i, s.changed, s.prev = self.abs, self.pc, self.i, self.changed, self.prev
        s.closed = self.closed
        return s

    def key(self):
        return (
            tuple(self.total.values()),
            tuple([tuple(v.items()) for v in self.cnt.values()]), self.use_key(),
            self.last, self.nexec, frozenset(self.nwhen.items()),
            self.abs, self.pc, self.i, self.changed, self.closed,
        )

    def use_key(self):
        return frozenset([x for x in self.use.items() if x[1]])

    def tick(self, unit):
        self.prev = tuple(self.time())
        if unit >= ESU:
            self.closed += ((unit, self.total[PASS, ESU], self.total[CSE, ESU]),)
        for (q, b) in self.total:
            if b <= unit:
                self.total[q, b] = 0
            elif q == unit:
                self.total[q, b] += 1

    def time(self):
        """value of the clock per scale"""
        return [self.total[q, q + 1] for q in range(4)] + [0]

    def reset_counts(self, ts):
        for t in range(ts + 1):
            for n in self.cnt[t]:
                self.cnt[t][n] = 0

    def record(self, node, pairs):
        for ts in range(5):
            self.cnt[ts][node] += 1
        for p in pairs:
            if p[1] == node:
                self.use[p] = 0
        for p in pairs:
            if p[0] == node:
                self.use[p] = self.use.get(p, 0) + 1


class Overflow(Exception):
    """too many possible states: the case decides nothing"""


class Sim:
    """
    spec: dict with
        graph: {node: senders}, conds: {node: cond}, term: {'ESU': cond, 'ESEQ': cond},
        mode: 'STANDARD' | 'EXACT_TIME', default_unit: time spec
    """
    MAX_STATES = 300

    def __init__(self, graph, conds, mode='STANDARD', default_unit=(1, 'ms'), hooks=None, all_pairs=False):
        self.hooks = hooks or {}
        self.default_unit = default_unit
        self.mode = mode
        self.configure(graph, conds)

    def configure(self, graph, conds):
        self.graph = {n: set(v) for n, v in graph.items()}
        for v in list(self.graph.values()):
            for x in v:
                self.graph.setdefault(x, set())
        self.nodes = sorted(self.graph, key=str)
        self.base_layers = layers_of(self.graph)
        self.conds = {n: conds[n] if conds.get(n) is not None else self.default_cond(n) for n in self.nodes}
        pairs = set()
        for n, c in self.conds.items():
            for x in walk(c):
                if x[0] == 'EveryNCalls':
                    pairs.add((x[1], n))
        self.pairs = sorted(pairs, key=str)
        self._free = {}

    def default_cond(self, n):
        deps = sorted(self.graph[n], key=str)
        if not deps:
            return ('Always',)
        return ('All', [('EveryNCalls', d, 1) for d in deps])

    @property
    def layers(self):
        if self.mode == 'EXACT_TIME':
            return [frozenset(self.nodes)]
        return self.base_layers

    def new_state(self):
        return State(self.nodes)

    # -------------------------------------------------------- evaluation
    def ev(self, c, s, owner=None):
        """satisfaction of c in state s; NWhen is not counted here"""
        k = c[0]
        if k == 'Always':
            return True
        if k == 'Never':
            return False
        if k in ('All', 'And'):
            return all(self.ev(x, s, owner) for x in c[1])
        if k in ('Any', 'Or'):
            return any(self.ev(x, s, owner) for x in c[1])
        if k == 'Not':
            return not self.ev(c[1], s, owner)
        if k == 'NWhen':
            return s.nwhen.get(owner, 0) < c[2] and self.ev(c[1], s, owner)
        if k in TIME_CONDS:
            unit, op, default = TIME_CONDS[k]
            scale = c[2] if len(c) > 2 and c[2] is not None else default
            return cmp(op, s.total[unit, scale], c[1])
        if k == 'AtEnvironmentStateUpdateStart':
            return s.total[PASS, ESU] == 0
        if k == 'AtEnvironmentStateUpdateNStart':
            scale = c[2] if len(c) > 2 and c[2] is not None else ESEQ
            return s.total[PASS, ESU] == 0 and s.total[ESU, scale] == c[1]
        if k == 'AtEnvironmentSequenceStart':
            return s.total[ESU, ESEQ] == 0
        if k == 'AtEnvironmentSequenceNStart':
            return s.total[ESU, ESEQ] == 0 and s.total[ESEQ, LIFE] == c[1]
        if k in CALL_CONDS:
            scale = c[3] if len(c) > 3 and c[3] is not None else ESU
            return cmp(CALL_CONDS[k], s.cnt[scale][c[1]], c[2])
        if k == 'AfterNCallsCombined':
            scale = c[3] if len(c) > 3 and c[3] is not None else ESU
            return sum(s.cnt[scale][d] for d in c[1]) >= c[2]
        if k == 'AllHaveRun':
            scale = c[2] if len(c) > 2 and c[2] is not None else ESU
            return all(s.cnt[scale][d] >= 1 for d in (c[1] or self.nodes))
        if k == 'EveryNCalls':
            return s.use.get((c[1], owner), 0) >= c[2]
        if k == 'JustRan':
            return s.last is not None and c[1] in s.last
        if k == 'TimeInterval':
            return self.ev_interval(c[1], s, owner)
        if k == 'TimeTermination':
            t = to_ps(c[1])
            return s.abs >= t if c[2] else s.abs > t
        if k == 'CustomPass':
            return s.total[PASS, ESU] % c[1] == c[2]
        if k == 'WhileNotPass':
            return not (s.total[PASS, ESU] % c[1] == c[2])
        if k in self.hooks:
            return self.hooks[k](c, s, owner)
        raise AssertionError(k)

    def ev_interval(self, d, s, owner):
        start = to_ps(d['start']) if d.get('start') is not None else None
        end = to_ps(d['end']) if d.get('end') is not None else None
        repeat = to_ps(d['repeat']) if d.get('repeat') is not None else None
        t = s.abs
        if start is not None and (self.mode == 'EXACT_TIME' or len(self.layers) == 1):
            offset = start
        else:
            # conditions without position, e.g. for termination: from 0
            offset = next((i for i, x in enumerate(self.layers) if owner in x), 0) * self.interval
        if repeat is not None and (t - offset) % repeat != 0:
            return False
        if start is not None and not (t >= start if d.get('start_inclusive', True) else t > start):
            return False
        if end is not None and not (t <= end if d.get('end_inclusive', True) else t < end):
            return False
        return True

    # ------------------------------------------------------ absolute time
    def setup_absolute(self, s, term):
        conds = list(self.conds.values())
        allc = conds + list(term.values())
        self.absolute = any(is_abs(c) for c in allc)
        if not self.absolute:
            return
        vals = []
        for c in allc:
            for x in walk(c):
                if x[0] == 'TimeInterval':
                    d = x[1]
                    if d.get('repeat') is not None:
                        vals.append(to_ps(d['repeat']))
                    if self.mode == 'EXACT_TIME':
                        if d.get('start') is not None and (d.get('start_inclusive', True) or d.get('repeat') is not None):
                            vals.append(to_ps(d['start']))
                        if d.get('end') is not None and d.get('end_inclusive', True):
                            vals.append(to_ps(d['end']))
                elif x[0] == 'TimeTermination' and self.mode == 'EXACT_TIME' and x[2]:
                    vals.append(to_ps(x[1]))
        vals = [v for v in vals if v]
        if not vals:
            self.interval = to_ps(self.default_unit)
        else:
            g = Fraction(0)
            for v in vals:
                g = fgcd(g, v)
            n = len(self.base_layers) if self.mode == 'STANDARD' else 1
            self.interval = g / n
        starts = sorted(abs_start(c) for c in conds if is_abs(c))
        if starts:
            s.abs = max(s.abs, starts[0])
        if vals and (self.mode == 'EXACT_TIME' or len(self.base_layers) > 1):
            # passes start at multiples of their length
            length = self.interval * len(self.layers)
            s.abs = -(-s.abs // length) * length

    # --------------------------------------------------------------- runs
    def begin(self, s, term):
        """start of a run, for one state; term: {ESU: cond, ESEQ: cond}"""
        s = s.copy()
        self.term = term
        self.setup_absolute(s, term)
        s.use = {}
        s.reset_counts(ESU)
        s.pc = 'head'
        return s

    def terminated(self, s):
        return self.ev(self.term[ESU], s) or self.ev(self.term[ESEQ], s)

    def free(self, layer):
        """the nodes of layer whose conditions don't depend on the nodes of
        the layer, and on which none of their conditions depend: where they
        come among the others makes no difference"""
        if layer not in self._free:
            deps = {n: deps_of(self.conds[n]) for n in layer}
            used = set().union(*deps.values())
            res = []
            if '*' not in used and not any(x[0] in self.hooks for n in layer for x in walk(self.conds[n])):
                res = [n for n in sorted(layer, key=str) if n not in used and not deps[n] & layer]
            self._free[layer] = res
        return self._free[layer]

    def cascade(self, s, layer):
        """all possible results of considering a layer"""
        start = frozenset()
        free = [n for n in self.free(layer) if self.ev(self.conds[n], s, n)]
        if free:
            s = s.copy()
            for n in free:
                if self.conds[n][0] == 'NWhen':
                    s.nwhen[n] = s.nwhen.get(n, 0) + 1
                s.record(n, self.pairs)
            start = frozenset(free)
        seen = {}
        stack = [(start, s)]
        results = {}
        while stack:
            added, st = stack.pop()
            # the rest of the state follows from added
            k = (added, st.use_key())
            if k in seen:
                continue
            seen[k] = True
            if len(seen) > 4 * self.MAX_STATES:
                raise Overflow()
            sat = [n for n in layer if n not in added and self.ev(self.conds[n], st, n)]
            if not sat:
                results[k] = (added, st)
                continue
            for n in sat:
                s2 = st.copy()
                if self.conds[n][0] == 'NWhen':
                    s2.nwhen[n] = s2.nwhen.get(n, 0) + 1
                s2.record(n, self.pairs)
                stack.append((added | {n}, s2))
        return list(results.values())

    def outcomes(self, s, skip_esu=False, mid=None):
        """all (set yielded | None at the end, state) possible next; mid
        receives the states in which conditions are evaluated before that"""
        res = {}
        stack = [s.copy()]
        steps = 0
        while stack:
            steps += 1
            if steps > 20 * self.MAX_STATES:
                raise Overflow()
            s = stack.pop()
            if s.pc == 'tick':
                s.tick(CSE)
                if self.absolute:
                    s.abs += self.interval
                s.i += 1
                s.pc = 'layer'
            elif s.pc == 'tickpass':
                s.tick(CSE)
                s.pc = 'passdone'
            if s.pc == 'passdone':
                s.tick(PASS)
                s.pc = 'head'
            if mid is not None:
                mid.append(s.copy())
            if s.pc == 'head':
                if self.terminated(s):
                    if not skip_esu:
                        s.tick(ESU)
                    s.pc = 'idle'
                    if mid is not None:
                        mid.append(s.copy())
                    res[None, s.key()] = (None, s)
                    continue
                s.reset_counts(PASS)
                s.i, s.changed, s.pc = 0, False, 'layer'
            if s.pc == 'layer':
                if s.i >= len(self.layers) or self.terminated(s):
                    if not s.changed and not self.absolute:
                        s.last = frozenset()
                        s.nexec += 1
                        s.pc = 'tickpass'
                        res[frozenset(), s.key()] = (frozenset(), s)
                    else:
                        s.pc = 'passdone'
                        stack.append(s)
                    continue
                s.reset_counts(CSE)
                for added, s2 in self.cascade(s, self.layers[s.i]):
                    s2 = s2.copy()
                    if added or self.absolute:
                        s2.last = added
                        s2.nexec += 1
                        s2.changed = s2.changed or bool(added)
                        s2.pc = 'tick'
                        res[added, s2.key()] = (added, s2)
                    else:
                        s2.i += 1
                        stack.append(s2)
        if len(res) > self.MAX_STATES:
            raise Overflow()
        return list(res.values())


def fgcd(a, b):
    a, b = Fraction(a), Fraction(b)
    d = a.denominator * b.denominator // gcd(a.denominator, b.denominator)
    return Fraction(gcd(int(a * d), int(b * d)), d)


class Acceptor:
    """follows an observed execution context through the automaton"""

    def __init__(self, sim):
        self.sim = sim
        self.states = [sim.new_state()]
        # at each step only one observation was possible
        self.unique = True

    def begin(self, term):
        # the interval is the same for all states
        self.states = [self.sim.begin(s, term) for s in self.states]

    def _dedupe(self, states):
        d = {s.key(): s for s in states}
        if len(d) > self.sim.MAX_STATES:
            raise Overflow()
        return list(d.values())

    def expected(self, skip_esu=False):
        res = []
        for s in self.states:
            res.extend(self.sim.outcomes(s, skip_esu))
        return res

    def observe(self, obs, skip_esu=False):
        """obs: frozenset yielded, or None for the end of the run.
        Returns None if possible, otherwise the list of what was possible"""
        exp = self.expected(skip_esu)
        self.unique = self.unique and len({y for y, _ in exp}) == 1
        nxt = [s for y, s in exp if y == obs]
        if not nxt:
            return sorted({('END' if y is None else tuple(sorted(map(str, y)))) for y, _ in exp}, key=str)
        self.states = self._dedupe(nxt)
        return None

    def abandon(self):
        for s in self.states:
            s.pc = 'idle'

    def interrupted(self, matches, skip_esu=False):
        """an error ended the run before the next set; whether there is a
        state for which matches"""
        mid = []
        for s in self.states:
            self.sim.outcomes(s, skip_esu, mid)
        mid = [s for s in self._dedupe(mid) if matches(s)]
        if not mid:
            return False
        for s in mid:
            s.pc = 'idle'
        self.states = self._dedupe(mid)
        return True

    def end_sequence(self):
        for s in self.states:
            s.tick(ESEQ)
            s.reset_counts(ESEQ)


# ------------------------------------------------- building real conditions
def build(c, gs, node=lambda n: n, extra=None):
    """the graph_scheduler condition for specification c"""
    k = c[0]
    cls = getattr(gs, k, None)
    rec = lambda x: build(x, gs, node, extra)  # noqa: E731
    ts = list(gs.TimeScale)
    tsv = {t.value: t for t in ts}
    if extra and k in extra:
        return extra[k](c)
    if k in ('Always', 'Never'):
        return cls()
    if k in ('All', 'Any'):
        return cls(*[rec(x) for x in c[1]])
    if k in ('And', 'Or'):
        return getattr(gs.condition, k)(*[rec(x) for x in c[1]])
    if k == 'Not':
        return cls(rec(c[1]))
    if k == 'NWhen':
        return cls(rec(c[1]), c[2])
    if k in TIME_CONDS:
        if len(c) > 2 and c[2] is not None and k not in NO_SCALE_ARG:
            return cls(c[1], tsv[c[2]]) if c[1] % 2 else cls(c[1], time_scale=tsv[c[2]])
        return cls(c[1])
    if k in ('AtEnvironmentStateUpdateStart', 'AtEnvironmentSequenceStart'):
        return cls()
    if k == 'AtEnvironmentStateUpdateNStart':
        return cls(c[1], tsv[c[2]]) if len(c) > 2 and c[2] is not None else cls(c[1])
    if k == 'AtEnvironmentSequenceNStart':
        return cls(c[1])
    if k in CALL_CONDS:
        if len(c) > 3 and c[3] is not None:
            return cls(node(c[1]), c[2], time_scale=tsv[c[3]])
        return cls(node(c[1]), c[2])
    if k == 'AfterNCallsCombined':
        kw = {'time_scale': tsv[c[3]]} if len(c) > 3 and c[3] is not None else {}
        return cls(*[node(d) for d in c[1]], n=c[2], **kw)
    if k == 'AllHaveRun':
        kw = {'time_scale': tsv[c[2]]} if len(c) > 2 and c[2] is not None else {}
        return cls(*[node(d) for d in c[1]], **kw)
    if k == 'EveryNCalls':
        return cls(node(c[1]), c[2])
    if k == 'JustRan':
        return cls(node(c[1]))
    if k == 'TimeInterval':
        d = dict(c[1])
        kw = {}
        for key in ('repeat', 'start', 'end'):
            if d.get(key) is not None:
                kw[key] = quantity(d[key], gs)
        for key in ('start_inclusive', 'end_inclusive'):
            if key in d:
                kw[key] = d[key]
        return cls(**kw)
    if k == 'TimeTermination':
        return cls(quantity(c[1], gs), inclusive=c[2])
    if k == 'CustomPass':
        m, r = c[1], c[2]
        # with an optional argument that is never given in runs
        return gs.Condition(lambda scheduler, execution_id, other=None: (
            not other and scheduler.get_clock(execution_id).time.pass_ % m == r))
    if k == 'WhileNotPass':
        m, r = c[1], c[2]
        return gs.WhileNot(lambda scheduler, execution_id, other=None: (
            other or scheduler.get_clock(execution_id).time.pass_ % m == r))
    raise AssertionError(k)


def quantity(t, gs):
    u = getattr(gs._unit_registry, t[1])
    m = t[0]
    m = Fraction(m)
    m = m.numerator if m.denominator == 1 else float(m)
    return m * u


def show(c):
    """compact text of a specification"""
    k = c[0]
    if k in COMPOSITES:
        return f"{k}({', '.join(show(x) for x in c[1])})"
    if k in ('Not', 'NWhen'):
        return f"{k}({', '.join([show(c[1]), *map(str, c[2:])])})"
    if k == 'TimeInterval':
        return 'TimeInterval(' + ', '.join(
            f'{a}={v[0]}{v[1]}' if isinstance(v, tuple) else f'{a}={v}' for a, v in c[1].items()) + ')'
    return f"{k}({', '.join(str(x) for x in c[1:])})"
