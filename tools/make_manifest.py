"""Writes /verif/MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRACE = 'runtime monitoring: online trace checking of yielded sets against an executable reference automaton'
MODEL = 'trusts the reference model in gsv/model.py, written from the documentation'
WL = 'held on the random workloads the evidence file counts, nothing beyond them; '

CHECKS = {
    'C01': ('runtime monitoring: online invariant monitor over the sets yielded by random runs, with an independent layering', WL + 'layers recomputed independently'),
    'C02': (TRACE, WL + MODEL + '; any order within a layer is accepted'),
    'C03': (TRACE + ' during edits between runs', WL + MODEL),
    'C04': (TRACE + ', deep comparison of termination dictionaries', WL + MODEL),
    'C05': ('runtime monitoring: condition probes evaluated at every yield, compared with time totals of a reference automaton', WL + MODEL),
    'C06': ('runtime monitoring: condition probes evaluated at every yield, compared with recounted executions', WL + 'counts recomputed from the yielded sets'),
    'C07': ('runtime monitoring: condition probes and ' + TRACE[20:], WL + MODEL),
    'C08': ('runtime monitoring: evaluation monitor on condition trees at every yield, logical combination as oracle', WL + 'trusts the evaluation of leaf conditions, which C05-C07 decide'),
    'C09': ('runtime monitoring: instrumented callables recording arguments, compared with an independent binding', WL + 'generated signatures up to about six parameters'),
    'C10': ('runtime monitoring: clock monitor against a reference tick counter, random tick and query histories', WL + 'reference counter recomputed from tick lists'),
    'C11': ('runtime monitoring: interleaved and threaded contexts, one reference automaton per context', WL + MODEL + '; thread interleavings are those the forced switching produced'),
    'C12': ('runtime monitoring: differential monitor over processes with different hash seeds and permuted inputs', WL + 'scenarios with several possible outcomes are left to C02'),
    'C13': ('runtime monitoring: invariant monitor recounting history and counts from yielded sets at every yield', WL + 'counts recomputed from the yielded sets'),
    'C14': (TRACE + ' in exact rational time', WL + MODEL + '; times with at most six significant digits'),
    'C15': (TRACE + ' in exact rational time', WL + MODEL + '; times with at most six significant digits'),
    'C16': ('runtime monitoring: differential monitor over notations of one time, exact fractions as oracle', WL + 'magnitudes up to eight significant digits'),
    'C17': ('runtime monitoring: snapshot and aliasing monitor around applied graph structure conditions', WL + 'random graphs up to about 10 nodes'),
    'C18': ('runtime monitoring: postcondition monitor on results of graph structure conditions', WL + 'random acyclic graphs'),
    'C19': ('runtime monitoring: result monitor against an independent computation of the set operations', WL + 'trusts the set computation in gsv/gscgen.py'),
    'C20': ('runtime monitoring: reachability monitor on results with and without reconnection', WL + 'random acyclic graphs'),
    'C21': ('runtime monitoring: state monitor over random edit histories with injected failures, fold over the base graph as oracle', WL + 'single conditions are trusted here, C17-C20 and C30 decide them'),
    'C22': ('runtime monitoring: view monitor over random operation histories against a dictionary model', WL + 'dictionary model in the check'),
    'C23': ('runtime monitoring: snapshots around rejected runs, ' + TRACE[20:] + ' after recovery', WL + MODEL),
    'C24': ('runtime monitoring: call history monitor with independent graph traversals and input snapshots', WL + 'independent traversals in the check'),
    'C25': ('runtime monitoring: module state snapshots over alias histories, ' + TRACE[20:], WL + MODEL),
    'C26': ('runtime monitoring: evaluation and trace monitor with instrumented nodes whose state changes between evaluations', WL + MODEL + '; values represented exactly'),
    'C27': ('runtime monitoring with fault injection at condition evaluations and yields; recounts and reference automaton as oracle', WL + MODEL),
    'C28': ('runtime monitoring: deep snapshots of inputs, paired runs with and without observation', WL + MODEL),
    'C29': ('runtime monitoring: differential trace checking of edited against new schedulers and the reference automaton', WL + MODEL),
    'C31': ('runtime monitoring: error monitor on generated specifications with an independent validity rule, snapshots around rejected requests, ' + TRACE[20:], WL + MODEL),
    'C32': ('runtime monitoring: ' + TRACE[20:] + ' for several schedulers at once, interleaved set by set and in threads with forced switches', WL + MODEL),
    'C33': ('runtime monitoring: message monitor over histories of logging settings, paired runs with and without logging, ' + TRACE[20:], WL + MODEL),
    'C30': ('runtime monitoring: graph state monitor over edit histories against sets of edges', WL + 'edge set model in the check'),
}

if __name__ == '__main__':
    m = {
        'version': 1,
        'setup_cmd': './run_check.py --setup',
        'hooks': {
            'guard': 'GSV_HOOKS',
            'enable': 'no hooks were needed in /repo: all monitors observe the public interface; the guard is unused',
            'source_commits': [],
        },
        'checks': [
            {
                'property': k,
                'quick_cmd': f'./run_check.py {k}',
                'thorough_cmd': f'VERIF_TIER=thorough ./run_check.py {k}',
                'technique': t,
                'level': 'exploration',
                'level_note': n,
            }
            for k, (t, n) in sorted(CHECKS.items())
        ],
        'not_applicable': [],
        'notes': 'Fixed defects are listed in known_findings.txt; there are no known unfixed findings.',
    }
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
