"""Graph utilities."""
import collections
import contextlib
import io
import os
import shlex
import shutil
import tempfile

import networkx as nx

from ..drive import gs, nx_of
from ..gen import gen_digraph, gen_graph, labeling
from ..gscgen import edges, reach, receivers_of, show_graph

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('sequences of up to 14 calls of conversions, copies and graph functions on a pool of random graphs (cyclic or not, '
        'all kinds of nodes including ones with equal hashes, some senders not among the keys), with changes of the graphs '
        'and of returned results in between; each result is compared with an independent computation on the graph as it is '
        'at the time, arguments with snapshots. Non-trivial: a function was called again after a change; distinct by '
        'sequence')
MINIMA = {'calls': 4800, 'calls_after_change': 2500, 'changed_results': 600, 'conversions': 1300,
          'cycles_listed': 300, 'missing_keys': 400, 'same_hash': 150}


class Special(nx.DiGraph):
    pass


class Same:
    """all instances have the same hash"""

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return 7

    def __repr__(self):
        return f'~{self.name}~'


def simple_cycles(g):
    """set of cycles, each starting with its least node"""
    rec = receivers_of(g)
    res = set()

    def walk(path):
        for x in rec[path[-1]]:
            if x == path[0]:
                res.add(tuple(path))
            elif x > path[0] and x not in path:
                walk(path + [x])
    for n in g:
        walk([n])
    return res


class Bag:
    """iterable, not a container"""

    def __init__(self, v):
        self.v = list(v)

    def __iter__(self):
        return iter(self.v)


FORMS = {'dict': dict.fromkeys, 'keys': lambda v: dict.fromkeys(v).keys(), 'values': lambda v: dict(enumerate(v)).values(),
         'deque': collections.deque, 'iterator': iter, 'generator': lambda v: (x for x in list(v)), 'bag': Bag}


class Pool:
    """graph with its model"""

    def __init__(self, rng, same):
        if rng.random() < .5:
            self.g = gen_digraph(rng, 1, 5, selfp=.15)
        else:
            self.g = gen_graph(rng, 1, 7)
        names = sorted(self.g)
        if same:
            self.lab = {n: Same(n) for n in names} if rng.random() < .5 else dict(zip(names, [-1, -2, *range(14)]))
        else:
            self.lab = labeling(rng, names)
        self.inv = {v: k for k, v in self.lab.items()}
        self.missing = set()
        used = {x for v in self.g.values() for x in v}
        if rng.random() < .25:
            self.missing = {n for n in names if not self.g[n] and n in used and rng.random() < .7}
        self.real = {self.lab[n]: {self.lab[x] for x in v} for n, v in self.g.items() if n not in self.missing}

    def change(self, rng):
        names = sorted(self.g)
        a, b = rng.choice(names), rng.choice(names)
        if b in self.missing:
            return None
        r, x = self.real[self.lab[b]], self.lab[a]
        kind = rng.choice(['toggle', 'swap', 'swap', 'replace'])
        if kind == 'toggle' or not self.g[b]:
            if a in self.g[b]:
                self.g[b].remove(a)
                r.remove(x)
            else:
                self.g[b].add(a)
                r.add(x)
        elif kind == 'swap':
            # another sender in place of one; the number stays
            y = rng.choice(sorted(self.g[b]))
            self.g[b].remove(y)
            r.remove(self.lab[y])
            self.g[b].add(a)
            r.add(x)
        else:
            self.g[b] = {a}
            self.real[self.lab[b]] = {x}
        used = {x for v in self.g.values() for x in v}
        for n in list(self.missing):
            if n not in used:
                # not a node of the dictionary any more
                self.missing.discard(n)
                self.real[self.lab[n]] = set()
        return (b, a)

    def snap(self):
        return [(k, id(v), set(v)) for k, v in self.real.items()]


def case(ctx, rng):
    m = gs()
    same = rng.random() < .2
    ctx.count('same_hash', same)
    pools = [Pool(rng, same) for _ in range(rng.choice([1, 2, 2, 3]))]
    log = [[(show_graph(p.g), {k: repr(v) for k, v in p.lab.items()}) for p in pools]]
    ctx.desc = log
    changed = False
    fns = ['get_ancestors', 'get_descendants', 'get_receivers', 'get_simple_cycles', 'clone_graph', 'to_nx', 'from_nx']
    for _ in range(rng.randint(4, 14)):
        i = rng.randrange(len(pools))
        p = pools[i]
        g, lab = p.g, p.lab
        if rng.random() < .3:
            c = p.change(rng)
            log.append(('change', i, c))
            changed = True
            continue
        fn = rng.choice(fns)
        log.append((fn, i))
        ctx.count('calls')
        ctx.count('calls_after_change', changed)
        ctx.count('missing_keys', bool(p.missing))
        before = p.snap()
        keys = [n for n in g if n not in p.missing]
        if fn in ('get_ancestors', 'get_descendants', 'get_receivers'):
            res = getattr(m, fn)(p.real)
            got = {p.inv[k]: {p.inv[x] for x in v} for k, v in res.items()}
            if fn == 'get_ancestors':
                # a node in a cycle is no ancestor of itself
                exp = {n: {x for x in g if n in reach(g, x) and x != n} for n in keys}
            elif fn == 'get_descendants':
                exp = {n: reach(g, n) - {n} for n in keys}
            else:
                exp = receivers_of(g)
            ctx.check(got == exp, lambda: f'{fn} gives {got} for {show_graph(g)}, expected {exp}')
            if rng.random() < .4:
                ctx.count('changed_results')
                for v in res.values():
                    v.add('changed') if rng.random() < .5 else v.clear()
                res.pop(next(iter(res)))
        elif fn == 'get_simple_cycles':
            res = m.get_simple_cycles(p.real)
            got = []
            for c in res:
                c = [p.inv[x] for x in c]
                k = c.index(min(c))
                got.append(tuple(c[k:] + c[:k]))
            exp = simple_cycles(g)
            ctx.count('cycles_listed', len(exp))
            ctx.check(len(got) == len(set(got)) and set(got) == exp, lambda: f'{fn} gives {got} for {show_graph(g)}, expected {exp}')
            if rng.random() < .4:
                ctx.count('changed_results')
                for v in res:
                    v.append('changed')
                res.clear()
        elif fn == 'clone_graph':
            form = rng.choice(['set', 'set', 'list', 'frozenset', 'single', 'tuple', *FORMS])
            arg = p.real if form in ('set', 'single') else {
                k: {'list': list, 'frozenset': frozenset, 'tuple': tuple, **FORMS}[form](v) for k, v in p.real.items()}
            if form == 'single':
                # a value may be the only sender itself
                arg = {}
                for k, v in p.real.items():
                    x = next(iter(v)) if len(v) == 1 else None
                    arg[k] = x if isinstance(x, (str, int)) else v
            res = m.clone_graph(arg)
            ctx.check(res == p.real, lambda: f'copy is {res}, the graph {p.real}')
            ctx.check(res is not p.real and not {id(v) for v in res.values()} & {id(v) for v in p.real.values()},
                      'the copy shares sets with the graph')
            ctx.check(all(a is b for a, b in zip(res, p.real)), 'the copy has other node objects or another order')
            for v in res.values():
                v.clear()
        elif fn == 'to_nx':
            ctx.count('conversions')
            if rng.random() < .2:
                res = m.dependency_dict_to_networkx_digraph(p.real, nx_type=Special)
                ctx.check(isinstance(res, Special), lambda: f'the graph is a {type(res)}')
            else:
                res = m.dependency_dict_to_networkx_digraph(p.real)
            ctx.check({p.inv[n] for n in res.nodes} == set(g), lambda: f'nodes are {res.nodes}')
            got = {(p.inv[a], p.inv[b]) for a, b in res.edges}
            ctx.check(got == edges(g), lambda: f'edges are {got}, expected {edges(g)}')
            back = m.networkx_digraph_to_dependency_dict(res)
            full = {lab[n]: {lab[x] for x in v} for n, v in g.items()}
            ctx.check(back == full, lambda: f'round trip gives {back} for {full}')
            res.clear()
        else:
            ctx.count('conversions')
            d = nx_of(g, lab)
            es = set(d.edges)
            add = rng.random() < .6
            res = m.networkx_digraph_to_dependency_dict(d) if add and rng.random() < .5 else \
                m.networkx_digraph_to_dependency_dict(d, add_missing=add)
            exp = {lab[n]: {lab[x] for x in v} for n, v in g.items() if v or add}
            ctx.check(res == exp, lambda: f'dictionary is {res} (add_missing={add}), expected {exp}')
            ctx.check(len({id(v) for v in res.values()}) == len(res), 'nodes share sets')
            ctx.check(set(d.edges) == es and set(d.nodes) == set(lab.values()), 'the networkx graph is changed')
            if add:
                again = m.dependency_dict_to_networkx_digraph(res)
                ctx.check(set(again.edges) == es and set(again.nodes) == set(d.nodes),
                          lambda: f'round trip gives {again.edges} for {es}')
            for v in res.values():
                v.clear()
            ctx.check(set(d.edges) == es, 'the networkx graph shares sets with the dictionary')
        ctx.check(p.snap() == before, lambda: f'{fn} changes its argument')
    if changed:
        ctx.distinct(str(log))
        ctx.sample(str(log)[:700])


FORMATS = {'png': b'\x89PNG', 'gif': b'GIF8', 'svg': b'<?xml', 'pdf': b'%PDF', 'jpg': b'\xff\xd8'}


def image(ctx, rng):
    """files written by output_graph_image"""
    m = gs()
    if not shutil.which('dot'):
        return
    g = gen_digraph(rng, 0, 7) if rng.random() < .3 else gen_graph(rng, 1, 9)
    kind = rng.choice(['str', 'int', 'tuple', 'spaces'])
    lab = {n: {'str': n, 'int': i * 7, 'tuple': ('x', i), 'spaces': f'node {n} no. {i}'}[kind] for i, n in enumerate(sorted(g))}
    given = {lab[n]: {lab[x] for x in v} for n, v in g.items()}
    form = rng.choice(['dict', 'dict', 'nx', 'missing'])
    arg = dict(given)
    if form == 'missing':
        senders = {x for v in given.values() for x in v}
        arg = {k: v for k, v in given.items() if v or k not in senders}
    elif form == 'nx':
        arg = nx_of(g, lab)
    fmt = rng.choice(['plain', 'plain', 'plain', 'plain', *FORMATS, 'unknown'])
    ctx.desc = ('image', show_graph(g), kind, form, fmt)
    before = list(arg.edges) if form == 'nx' else {k: set(v) for k, v in arg.items()}
    d = tempfile.mkdtemp(prefix='gsv')
    out = io.StringIO()
    try:
        named = rng.random() < .8
        name = os.path.join(d, 'file')
        here = os.getcwd()
        try:
            os.chdir(d)
            with contextlib.redirect_stdout(out):
                if named:
                    m.output_graph_image(arg, name, fmt)
                else:
                    m.output_graph_image(arg, format=fmt)
        except AssertionError as e:
            ctx.check(fmt == 'unknown' and 'png' in str(e), lambda: f'format {fmt} gives {e!r}')
            ctx.check(not os.listdir(d), lambda: f'files {os.listdir(d)} after an error')
            ctx.count('rejected_formats')
        else:
            exp = ['file'] if named else [f'graph-scheduler-figure-{id(arg)}.{fmt}']
            ctx.check(fmt != 'unknown' and os.listdir(d) == exp, lambda: f'files written for {fmt}: {os.listdir(d)}, expected {exp}')
            with open(os.path.join(d, exp[0]), 'rb') as f:
                data = f.read()
            ctx.count('images')
            if fmt == 'plain':
                ns, es = [], []
                for line in data.decode().splitlines():
                    w = shlex.split(line)
                    if w[0] == 'node':
                        ns.append(w[1])
                    elif w[0] == 'edge':
                        es.append((w[1], w[2]))
                want = sorted((str(a), str(b)) for a, b in ((lab[x], lab[y]) for x, y in edges(g)))
                ctx.check(sorted(ns) == sorted(map(str, given)), lambda: f'nodes drawn {ns}, expected {list(given)}')
                ctx.check(sorted(es) == want, lambda: f'edges drawn {es}, expected {want}')
                ctx.distinct(ctx.desc)
            else:
                ctx.check(data.startswith(FORMATS[fmt]), lambda: f'format {fmt} starts with {data[:20]}')
        finally:
            os.chdir(here)
        after = list(arg.edges) if form == 'nx' else arg
        ctx.check(after == before, 'the graph drawn is changed')
    finally:
        shutil.rmtree(d, ignore_errors=True)


GROUPS = {'case': (case, 3000, 60000), 'image': (image, 60, 1500)}
