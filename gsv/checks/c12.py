"""Independence of hashing, insertion order, labels and representation."""
import hashlib
import json
import os
import random
import subprocess

from ..core import PY, Skip, VERIF, Violation, env_for, hashseed_for
from ..drive import DEFAULT_TERM, build_term, describe, gs, nx_of
from ..gen import (
    LABELINGS, gen_abs_scenario, gen_graph, gen_scenario, labeling, relabel_graph,
)
from ..gscgen import build_gsc, gen_gsc
from ..model import Acceptor, Overflow, Sim, build, quantity

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('random scenarios whose outcome the reference automaton finds unique, each run in 5 variants (key and element '
        'order, dict / networkx, relabeling with all kinds of hashables, omitted source keys, after other schedulers were '
        'used): identical sequences up to renaming; a fixed list of scenarios and of graph structure conditions run in '
        'several processes with different hash seeds: identical results; short scenarios with labels that are false or equal in text or hash; graph structure conditions with changed order and '
        'labels: equal graphs up to renaming unless a cycle was pruned. Non-trivial: at least 2 different sets; distinct '
        'by scenario')
MINIMA = {'variants': 1500, 'odd_variants': 3500, 'unique_scenarios': 310, 'processes': 4, 'process_cases': 98, 'gsc_variants': 1000,
          'relabeled': 400, 'equal_nodes': 97, 'networkx': 300}
ASSUMPTIONS = ['scenarios with several possible outcomes (order within a layer) are decided by C02, not here']


def unique_outcome(sc, limit=60):
    """[(set, ...)] per step if the automaton has one outcome, else None"""
    acc = Acceptor(Sim(sc['graph'], sc['conds'], sc.get('mode', 'STANDARD'), sc.get('default_unit', (1, 'ms'))))
    res = []
    for step in sc['steps']:
        if step[0] == 'seq':
            acc.end_sequence()
            continue
        acc.begin({**DEFAULT_TERM, **sc.get('term', {}), **(step[1] or {})})
        out = []
        while len(out) < step[2]:
            exp = acc.expected()
            if len(exp) != 1:
                return None
            obs = exp[0][0]
            acc.observe(obs)
            out.append(obs)
            if obs is None:
                break
        else:
            acc.abandon()
        res.append(out)
    return res


def play(sc, rng, lab, form, shuffle=True):
    """sequence of sets of a newly constructed scheduler, in model names"""
    m = gs()
    inv = {v: k for k, v in lab.items()}
    if form == 'nx':
        g = nx_of(relabel_graph(rng, sc['graph'], {n: n for n in lab}), lab) if shuffle else nx_of(sc['graph'], lab)
        g.add_nodes_from(lab.values())
    else:
        g = relabel_graph(rng, sc['graph'], lab, omit=form == 'omit')
    items = list(sc['conds'].items())
    if shuffle:
        rng.shuffle(items)
    conds = {lab[n]: build(c, m, lambda x: lab[x]) for n, c in items}
    kw = {}
    if 'default_unit' in sc:
        kw['default_absolute_time_unit'] = quantity(sc['default_unit'], m)
    if sc.get('term'):
        kw['termination_conds'] = build_term(sc['term'], lab)
    s = m.Scheduler(g, conditions=conds, mode=getattr(m.SchedulingMode, sc.get('mode', 'STANDARD')), **kw)
    res = []
    for step in sc['steps']:
        if step[0] == 'seq':
            s.end_environment_sequence()
            continue
        run = s.run(termination_conds=build_term(step[1], lab) if step[1] else None)
        out = []
        while len(out) < step[2]:
            try:
                sets = next(run)
                if any(lab[inv[x]] is not x for x in sets):
                    raise Violation(f'yielded {sets}, which are not the objects of the graph of this scheduler')
                out.append(frozenset(inv[x] for x in sets))
            except StopIteration:
                out.append(None)
                break
        run.close()
        res.append(out)
    return res


def scenario(rng):
    if rng.random() < .2:
        sc = gen_abs_scenario(rng, rng.choice(['STANDARD', 'EXACT_TIME']), nmax=5, runs=2)
    else:
        kinds = rng.choice([None, ('static', 'time', 'start', 'custom'), ('time', 'call', 'every'), ('every',)])
        sc = gen_scenario(rng, nmin=2, nmax=7, runs=3, p=rng.choice([.3, .6, .9]), depth=1, kinds=kinds)
    return sc


def short_scenario(rng):
    """few nodes, conditions and termination that refer to one or two nodes"""
    from ..gen import gen_call_cond
    g = gen_graph(rng, 2, 4)
    names = sorted(g)
    conds = {}

    def cond():
        if rng.random() < .25:
            return ('JustRan', rng.choice(names))
        c = gen_call_cond(rng, names)
        if c[0] == 'AllHaveRun' and len(c[1]) > 1 and rng.random() < .7:
            c = (c[0], c[1][:1], *c[2:])
        return c
    for n in names:
        r = rng.random()
        if r < .4:
            conds[n] = cond()
            if rng.random() < .3:
                conds[n] = ('Not', conds[n])
        elif r < .6:
            k = rng.randint(2, 3)
            conds[n] = ('CustomPass', k, rng.randrange(k))
    sc = {'graph': g, 'conds': conds, 'steps': [('run', None, 12) for _ in range(rng.randint(1, 2))]}
    sc['term'] = {}
    from ..model import ESU
    sc['term'][ESU] = rng.choice([cond(), ('AllHaveRun', (rng.choice(names),), None),
                                  ('AfterNCalls', rng.choice(names), rng.randint(1, 3), None)])
    return sc


def odd_labels(ctx, rng):
    """short scenarios with nodes that are false, equal in text or hash ..."""
    for _ in range(20):
        sc = short_scenario(rng)
        try:
            ref = unique_outcome(sc)
        except Overflow:
            ref = None
        if ref is not None:
            break
    else:
        raise Skip()
    names = sorted(sc['graph'])
    for kind in ('falsy', 'falsy', 'twin', rng.choice(LABELINGS)):
        lab = labeling(rng, names, kind)
        form = rng.choice(['dict', 'nx', 'omit'])
        ctx.desc = (describe(sc), 'labels', lab, form)
        got = play(sc, rng, lab, form)
        ctx.count('odd_variants')
        ctx.check(got == ref, lambda: f'sequence {show_seq(got)} with labels {lab} given as {form}, expected {show_seq(ref)}')
    if len({s for r in ref for s in r}) > 1:
        ctx.distinct(ctx.desc[0])


def show_seq(x):
    return [['END' if s is None else sorted(s) for s in r] for r in x]


def variants(ctx, rng):
    sc = scenario(rng)
    names = sorted(sc['graph'])
    try:
        ref = unique_outcome(sc)
    except Overflow:
        ref = None
    if ref is None:
        ctx.count('ambiguous')
        raise Skip()
    ctx.count('unique_scenarios')
    ident = {n: n for n in names}
    for k in range(5):
        kind = 'str' if k == 0 else rng.choice(LABELINGS)
        lab = ident if k == 0 else labeling(rng, names, kind)
        if k == 4:
            # reversed names: any order by name is reversed
            lab = dict(zip(names, reversed(names)))
        form = rng.choice(['dict', 'nx', 'omit'])
        if k == 3:
            # other schedulers with the same node names are used before
            other = scenario(rng)
            play(other, rng, {n: n for n in other['graph']}, 'dict')
        elif kind == 'eqobj':
            # another scheduler with nodes that are equal but not identical
            play(sc, rng, labeling(rng, names, kind), form)
            ctx.count('equal_nodes')
        ctx.desc = (describe(sc), 'labels', lab, form)
        got = play(sc, rng, lab, form)
        ctx.count('variants')
        ctx.count('relabeled', lab is not ident)
        ctx.count('networkx', form == 'nx')
        ctx.check(got == ref, lambda: f'sequence {show_seq(got)} with labels {lab} given as {form}, expected {show_seq(ref)}')
    if len({s for r in ref for s in r}) > 2:
        ctx.distinct(ctx.desc[0])
        ctx.sample({'case': ctx.desc[0], 'sets': show_seq(ref)[:2]})


def gsc_variants(ctx, rng):
    """a graph structure condition on renamed and reordered graphs"""
    m = gs()
    g = gen_graph(rng, 3, 7)
    names = sorted(g)
    spec = gen_gsc(rng, names)
    ctx.desc = ({k: sorted(v) for k, v in g.items()}, spec)

    def apply(lab, shuffle, **opts):
        inv = {v: k for k, v in lab.items()}
        gr = relabel_graph(rng, g, lab) if shuffle else {lab[k]: {lab[x] for x in v} for k, v in g.items()}
        c = build_gsc(m, {**spec, **opts}, lab)
        c.owner = lab[spec['owner']]
        try:
            r = c.modify_graph(gr)
        except m.condition.ConditionError:
            return 'ConditionError'
        return {inv[k]: {inv[x] for x in v} for k, v in r.items()}
    ident = {n: n for n in names}
    ref = apply(ident, False)
    noprune = apply(ident, False, prune_cycles=False)
    pruned = spec.get('prune_cycles', True) and ref != noprune
    for k in range(4):
        if pruned:
            # the edges removed may depend on the order of nodes
            break
        lab = labeling(rng, names) if k else ident
        got = apply(lab, True)
        ctx.count('gsc_variants')
        ctx.check(got == ref, lambda: f'result {got} with labels {lab} and another order, {ref} with the original')
    ctx.count('gsc_pruned', bool(pruned))
    if ref != 'ConditionError':
        ctx.distinct(ctx.desc)


# ------------------------------------------------------- several processes
def fixed_cases(seed, n):
    """the same list in every process"""
    for i in range(n):
        rng = random.Random(f'C12/proc/{seed}/{i}')
        yield i, rng


def child(seed, n, quick):
    """digest of the result of every case, computed in this process"""
    m = gs()
    out = []
    for i, rng in fixed_cases(seed, n):
        if i % 2:
            sc = scenario(rng)
            try:
                ref = unique_outcome(sc)
            except Overflow:
                ref = None
            if ref is None:
                out.append(None)
                continue
            names = sorted(sc['graph'])
            lab = labeling(rng, names, rng.choice(['str', 'str', 'tuple', 'long']))
            text = json.dumps(show_seq(play(sc, rng, lab, rng.choice(['dict', 'nx', 'omit']))))
        else:
            g = gen_graph(rng, 3, 8)
            if rng.random() < .3:
                from ..gen import gen_digraph
                g = gen_digraph(rng, 3, 6)
            names = sorted(g)
            specs = [gen_gsc(rng, names) for _ in range(rng.choice([1, 1, 2, 3]))]
            graph = {k: set(sorted(v)) for k, v in g.items()}
            res = []
            for spec in specs:
                c = build_gsc(m, spec, {n: n for n in names})
                c.owner = spec['owner']
                try:
                    graph = c.modify_graph(graph)
                except m.condition.ConditionError:
                    res.append('ConditionError')
                    continue
                res.append(sorted((k, sorted(v)) for k, v in graph.items()))
            text = json.dumps(res)
        out.append(hashlib.sha256(text.encode()).hexdigest()[:12] + ' ' + text[:200])
    return out


def global_check(extra, seed, quick, deadline):
    n = 400 if quick else 5000
    procs = []
    seeds = ['0', hashseed_for(seed, 101), hashseed_for(seed, 102), hashseed_for(seed, 103)]
    if not quick:
        seeds += [hashseed_for(seed, 104 + k) for k in range(4)]
    code = ('import sys, json\nfrom gsv import core\ncore.load_gs()\nimport warnings\nwarnings.simplefilter("ignore")\n'
            'from gsv.checks import c12\n'
            f'json.dump(c12.child({seed}, {n}, {quick}), sys.stdout)')
    for hs in seeds:
        procs.append(subprocess.Popen([PY, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                      env=env_for(hs), cwd=VERIF, text=True))
    results = []
    msgs = []
    for hs, p in zip(seeds, procs):
        o, e = p.communicate()
        try:
            results.append(json.loads(o[o.rindex('['):] if not o.startswith('[') else o))
        except ValueError:
            raise RuntimeError(f'child with hash seed {hs}: {e[-2000:]}')
    decided = 0
    for i in range(n):
        vals = [r[i] for r in results]
        if len(set(vals)) > 1:
            msgs.append(f'case {i} of seed {seed} differs between hash seeds: ' + ' | '.join(
                f'{hs}: {v}' for hs, v in zip(seeds, vals)))
        decided += vals[0] is not None
    extra['counters'] = {'processes': len(seeds), 'process_cases': decided}
    extra['evaluations'] = decided * len(seeds)
    extra['sigs'] = [f'proc{i}' for i in range(n) if results[0][i] is not None]
    return msgs[:3]


__all__ = ['os']
GROUPS = {'odd': (odd_labels, 1200, 20000), 'variants': (variants, 1300, 20000), 'gsc': (gsc_variants, 1500, 20000)}
