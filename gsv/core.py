"""Case runner shared by all checks.

A check is a module gsv.checks.cXX with
    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    GROUPS = {name: (function(ctx, rng), quick cases, thorough cases)}
    MINIMA = {counter: least number per quick run} (otherwise inconclusive)
Each case is determined by (group, index, VERIF_SEED, PYTHONHASHSEED) and
runs in one of several worker processes.
"""
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GSV_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PY = '/opt/venv/bin/python'
WORKERS = int(os.environ.get('GSV_WORKERS', '8'))
LINE_BUDGET = 15_000_000
CASE_ALARM = 40


class Violation(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Skip(Exception):
    """case decides nothing"""


class Slow(BaseException):
    pass


class Stuck(BaseException):
    pass


class Ctx:
    def __init__(self):
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.known = {}
        self.desc = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def distinct(self, *key):
        """a distinct non-trivial case was decided"""
        self.sigs.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def check(self, ok, msg):
        self.count('assertions')
        if not ok:
            raise Violation(msg() if callable(msg) else msg)

    def fail(self, msg):
        raise Violation(msg)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def known_finding(self, key, msg):
        self.known[key] = msg


def load_gs():
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    sys.dont_write_bytecode = True
    import graph_scheduler
    f = os.path.abspath(graph_scheduler.__file__)
    if not f.startswith(os.path.abspath(SRC)):
        raise RuntimeError(f'graph_scheduler imported from {f}')
    return graph_scheduler


def in_repo(tb):
    """whether the innermost frame is code of the repository or called by it"""
    files = [fr.filename for fr in traceback.extract_tb(tb)]
    src = os.path.abspath(SRC)
    return any(os.path.abspath(f).startswith(src) for f in files)


def _run_once(mod, group, idx, seed, ctx, budget=None):
    fn = mod.GROUPS[group][0]
    rng = random.Random(f'{mod.PROPERTY}/{group}/{idx}/{seed}')
    ctx.desc = None
    if budget is not None:
        src = os.path.abspath(SRC)
        left = [budget]

        def local(frame, event, arg):
            left[0] -= 1
            if left[0] < 0:
                raise Stuck()
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(src):
                return local(frame, event, arg)
            return None
        sys.settrace(tracer)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(ctx, rng)
    finally:
        sys.settrace(None)


# errors of the harness itself, not of what it got from the repository
HARNESS_ERRORS = (NameError, ImportError, MemoryError, OSError, SyntaxError)


def error_message(e):
    """message for an error raised by the repository, or because what it
    returned can't be used as it should; raises e if it is neither"""
    tb = traceback.extract_tb(e.__traceback__)
    where = f'{type(e).__name__}: {e} ({tb[-1].filename}:{tb[-1].lineno})'
    if in_repo(e.__traceback__):
        return f'unexpected error {where}'
    private = isinstance(e, AttributeError) and str(getattr(e, 'name', None) or '_').startswith('_')
    if isinstance(e, HARNESS_ERRORS) or private:
        raise e
    return f'results can not be used: {where}'


def run_case(mod, group, idx, seed, ctx):
    """None, or a violation message; may raise for harness errors"""
    def on_alarm(sig, frame):
        raise Slow()

    # of processor time, so that a busy machine doesn't count
    signal.signal(signal.SIGPROF, on_alarm)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_ALARM)
    signal.alarm(5 * CASE_ALARM)
    ctx.count('cases')
    try:
        try:
            _run_once(mod, group, idx, seed, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(0)
    except Slow:
        # decide on steps of the program, not on time
        try:
            _run_once(mod, group, idx, seed, ctx, LINE_BUDGET)
        except Stuck:
            return f'no result within {LINE_BUDGET} lines executed in graph_scheduler'
        except Violation as e:
            return e.msg
        except Skip:
            ctx.count('skipped')
        except Exception as e:
            return error_message(e)
        ctx.count('slow')
    except Violation as e:
        return e.msg
    except Skip:
        ctx.count('skipped')
    except Exception as e:
        return error_message(e)
    return None


def worker_main(argv):
    prop, seed, plan, deadline = argv[0], int(argv[1]), json.loads(argv[2]), float(argv[3])
    load_gs()
    mod = importlib.import_module(f'gsv.checks.{prop.lower()}')
    ctx = Ctx()
    violations = []
    done = 0
    planned = 0
    harness_errors = []
    if hasattr(mod, 'worker_init'):
        mod.worker_init()
    for group, start, stop, step in plan:
        for idx in range(start, stop, step):
            planned += 1
            if time.monotonic() > deadline or len(violations) >= 3:
                continue
            try:
                msg = run_case(mod, group, idx, seed, ctx)
            except Exception:
                harness_errors.append(f'{group} {idx}: {traceback.format_exc()[-2500:]}')
                msg = None
                if len(harness_errors) > 20:
                    break
            done += 1
            if msg is not None:
                violations.append({
                    'property': prop, 'group': group, 'index': idx, 'seed': seed,
                    'hashseed': os.environ.get('PYTHONHASHSEED'),
                    'message': str(msg)[:4000], 'case': str(ctx.desc)[:6000],
                })
    json.dump({
        'counters': ctx.counters, 'sigs': sorted(ctx.sigs), 'samples': [str(s)[:1500] for s in ctx.samples],
        'violations': violations, 'done': done, 'planned': planned, 'known': ctx.known,
        'harness_errors': harness_errors,
    }, sys.stdout)


def hashseed_for(seed, w):
    return str(int(hashlib.sha256(f'{seed}/{w}'.encode()).hexdigest(), 16) % 4294967295)


def known_entries(prop):
    res = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                fields = line.split(None, 3)
                if fields[1] == f'property={prop}':
                    res[fields[2].split('=', 1)[1]] = fields[3]
    return res


def env_for(hashseed):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=f'{SRC}:{VERIF}',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return env


def replay(path):
    r = json.load(open(path))
    if os.environ.get('PYTHONHASHSEED') != r['hashseed']:
        os.execve(PY, [PY, '-m', 'gsv.worker', 'replay', path], env_for(r['hashseed']))
    load_gs()
    mod = importlib.import_module(f"gsv.checks.{r['property'].lower()}")
    ctx = Ctx()
    if hasattr(mod, 'worker_init'):
        mod.worker_init()
    if r['group'] == '(global)':
        print('replay: see the message of the file', r['message'])
        return 1
    msg = run_case(mod, r['group'], r['index'], r['seed'], ctx)
    print('case:', ctx.desc)
    if msg is None:
        print('replay: no violation')
        return 0
    print('VIOLATION property={} replay={}'.format(r['property'], path))
    print(msg)
    return 1


def setup():
    """the checks need no build: show that everything they use is there"""
    sys.path.insert(0, SRC)
    gs = load_gs()
    ok = True
    for d in (VERIF, os.path.join(VERIF, 'gsv'), os.path.join(VERIF, 'gsv', 'checks')):
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                try:
                    with open(os.path.join(d, f)) as h:
                        compile(h.read(), f, 'exec')
                except SyntaxError as e:
                    ok = False
                    print(f, e)
    print('graph_scheduler', os.path.dirname(gs.__file__), 'python', sys.version.split()[0], 'ok' if ok else 'failed')
    return 0 if ok else 2


# a quick run has this many times the cases listed in GROUPS, so that the
# counts in MINIMA are reached by far
QUICK = 3


def main(prop):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    sys.path.insert(0, VERIF)
    sys.path.insert(0, SRC)
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    load_gs()
    mod = importlib.import_module(f'gsv.checks.{prop.lower()}')
    cap = 240 if tier == 'quick' else 700
    deadline = t0 + cap
    quick = tier == 'quick'
    groups = {g: (v[1] * QUICK if quick else v[2]) for g, v in mod.GROUPS.items()}
    workers = WORKERS
    procs = []
    import tempfile
    tmp = tempfile.mkdtemp(prefix='gsv')
    for w in range(workers):
        plan = [[g, w, n, workers] for g, n in groups.items()]
        out = open(os.path.join(tmp, f'o{w}'), 'w')
        err = open(os.path.join(tmp, f'e{w}'), 'w')
        p = subprocess.Popen(
            [PY, '-m', 'gsv.worker', 'worker', prop, str(seed), json.dumps(plan), str(deadline)],
            stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=env_for(hashseed_for(seed, w)), cwd=tmp)
        procs.append(p)
    extra = {}
    extra_violations = []
    if hasattr(mod, 'global_check'):
        # runs besides the workers, e.g. to compare several processes
        for msg in mod.global_check(extra, seed, quick, deadline):
            extra_violations.append({
                'property': prop, 'group': '(global)', 'index': 0, 'seed': seed, 'hashseed': '0',
                'message': msg, 'case': msg})
    results, errors = [], []
    for w, p in enumerate(procs):
        try:
            p.wait(timeout=max(1, deadline + 150 - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        text = open(os.path.join(tmp, f'o{w}')).read()
        try:
            results.append(json.loads(text[text.rindex('{"counters"'):]))
        except ValueError:
            errors.append(open(os.path.join(tmp, f'e{w}')).read()[-3000:] or f'worker {w} gave no result')
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)

    counters, sigs, samples, violations, known = dict(extra.get('counters', {})), set(), [], list(extra_violations), {}
    done = planned = 0
    for r in results:
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        sigs |= set(r['sigs'])
        samples.extend(r['samples'])
        violations.extend(r['violations'])
        known.update(r['known'])
        done += r['done']
        planned += r['planned']
        errors.extend(r['harness_errors'])
    sigs |= set(extra.get('sigs', ()))
    samples.extend(extra.get('samples', ()))
    entries = known_entries(prop)
    for key, msg in sorted(known.items()):
        if key in entries:
            print(f'KNOWN-FINDING: property={prop} {key}: {msg}')
        else:
            violations.append({
                'property': prop, 'group': '(global)', 'index': 0, 'seed': seed, 'hashseed': '0',
                'message': f'{key}: {msg}', 'case': msg})
    status = 0
    lines = []
    if violations:
        status = 1
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(violations[:5]):
            path = os.path.join(d, f'{prop}-{i}.json')
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            lines.append(f'VIOLATION property={prop} replay={path}')
            lines.append('  ' + v['message'].replace('\n', '\n  ')[:1500])
            lines.append('  case: ' + v['case'][:1500])
    problems = []
    if errors:
        problems.append(f'{len(errors)} errors of the harness, the first: {errors[0]}')
    if done < planned:
        counters['not_run_time_cap'] = planned - done
    for c, least in getattr(mod, 'MINIMA', {}).items():
        if counters.get(c, 0) < least:
            problems.append(f'observed too little: {c} = {counters.get(c, 0)} < {least}')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': {
            'evaluations': done + extra.get('evaluations', 0),
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples[:6] or ['(none)'],
            'monitor_counters': counters,
            'groups': groups,
            'hash_seeds': [hashseed_for(seed, w) for w in range(workers)],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {done} cases, {len(sigs)} distinct non-trivial, {ev['wall_s']} s, "
          f"{len(violations)} violations; " + ', '.join(f'{k}={v}' for k, v in sorted(counters.items())))
    for line in lines:
        print(line)
    if status == 0 and problems:
        print('INCONCLUSIVE: ' + '; '.join(problems))
        return 3
    return status

