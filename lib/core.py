"""Runner for the property checks: generation (Hypothesis), sharding, evidence, replay.

A property module defines PROPERTY (id), RULE (what counts as non-trivial) and
SUBTESTS: a list of Sub(name, strategy, fn, quick, thorough).  `strategy`
generates a JSON-serialisable case; `fn(case)` raises on a violation and
otherwise returns the labels of the case; a case is non-trivial when the label
'nontrivial' (or 'nt') is among them.
"""
import contextlib
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings
import shutil
from concurrent.futures import ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SUREAL_REPO', '/repo')
CASE_LIMIT_S = 120          # one case normally takes well under 5 s
# cheap checks explore more within the quick tier
BOOST = {p: 6 for p in 'C01 C02 C04 C05 C06 C07 C09 C17 C19 C20 C23 C24'.split()}
BOOST.update({p: 4 for p in 'C03 C08 C15 C16 C18 C26 C30'.split()})
BOOST.update({p: 2 for p in 'C10 C11 C13 C14 C21 C22 C25 C27 C28 C29 C32'.split()})
QUICK_LIMIT_S = 600         # a quick run on a very slow machine ends with what it explored by then
SHRINK_BUDGET = 250         # executions spent on minimising a failure
SHRINK_SECONDS = float(os.environ.get('VERIF_SHRINK_SECONDS', '90'))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Violation(Exception):
    pass


class CaseTimeout(Violation):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Sub(object):
    def __init__(self, name, strategy, fn, quick=200, thorough=None, shards=8, explicit=(), shrink=SHRINK_BUDGET):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 12
        self.shards, self.explicit, self.shrink = shards, list(explicit), shrink


def bootstrap():
    """Environment for importing the code under test from the working tree."""
    for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[k] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    if 'VERIF_SCRATCH' not in os.environ:
        os.environ['VERIF_SCRATCH'] = tempfile.mkdtemp(prefix='verif_sureal_')
    os.environ['MPLCONFIGDIR'] = os.path.join(os.environ['VERIF_SCRATCH'], 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(os.environ['VERIF_SCRATCH'], 'hyp')
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    # paired comparison models sleep between iterations to animate a progress line
    real_sleep = time.sleep
    if not getattr(time.sleep, '_verif', False):
        def short_sleep(sec):
            real_sleep(min(sec, 0.0005))
        short_sleep._verif = True
        time.sleep = short_sleep
    warnings.simplefilter('ignore')


def scratch():
    return os.environ['VERIF_SCRATCH']


@contextlib.contextmanager
def tmpdir():
    d = tempfile.mkdtemp(dir=scratch())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _alarm(signum, frame):
    raise CaseTimeout('no result within {} s'.format(CASE_LIMIT_S))


def run_case(sub, case):
    """Run one case; returns labels, raises Violation with a message."""
    import numpy as np
    import random
    random.seed(12345)
    np.random.seed(12345)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            labels = sub.fn(case)
    except Violation:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in tb][-4:]
        raise Violation('{}: {} at {}'.format(type(e).__name__, str(e)[:300], ' < '.join(reversed(where)))) from e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if labels is None:
        labels = []
    if isinstance(labels, str):
        labels = [labels]
    return ['nontrivial' if l == 'nt' else l for l in labels]


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def shard(prop, sub_name, n, seed, explicit):
    """Runs in a worker. Returns a summary dict."""
    try:
        return _shard(prop, sub_name, n, seed, explicit)
    except BaseException:
        return {'sub': sub_name, 'error': traceback.format_exc(), 'evals': 0, 'labels': {}, 'nt': [], 'samples': [],
                'failure': None}


def _shard(prop, sub_name, n, seed, explicit):
    bootstrap()
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    mod = importlib.import_module('checks.' + prop.lower())
    sub = [s for s in mod.SUBTESTS if s.name == sub_name][0]
    stop_flag = os.path.join(scratch(), 'stop_' + sub_name)
    deadline = float(os.environ.get('VERIF_DEADLINE', 'inf'))
    st = {'evals': 0, 'labels': {}, 'nt': set(), 'samples': [], 'failure': None, 'after': 0, 'skip': not explicit}

    def one(case):
        if st['skip']:
            st['skip'] = False      # every shard starts with the same simplest example; the first shard runs it
            return
        # a canonical JSON copy: what is replayed is exactly what was run
        case = json.loads(json.dumps(case))
        if st['failure'] is None and (os.path.exists(stop_flag) or time.time() > deadline):
            return      # another shard has found a violation, or time is up
        if st['failure'] is not None:
            st['after'] += 1
            if st['after'] > sub.shrink or time.time() > st['until']:
                return
        else:
            st['evals'] += 1
        try:
            labels = run_case(sub, case)
        except Violation as e:
            size = len(json.dumps(case))
            if st['failure'] is None:
                open(stop_flag, 'w').close()
                st['until'] = time.time() + (0 if isinstance(e, CaseTimeout) else SHRINK_SECONDS)
            if st['failure'] is None or size <= st['failure']['size']:
                st['failure'] = {'case': case, 'message': str(e), 'size': size}
            raise
        if st['failure'] is None:
            for l in set(labels):
                st['labels'][l] = st['labels'].get(l, 0) + 1
            if 'nontrivial' in labels:
                k = case_key(case)
                if k not in st['nt']:
                    st['nt'].add(k)
                    if len(st['samples']) < 2:
                        st['samples'].append(case)

    if explicit:
        for case in sub.explicit:
            try:
                one(case)
            except Violation:
                break
    if st['failure'] is None and n > 0:
        test = hypothesis.given(sub.strategy)(one)
        test = settings(max_examples=n + (not explicit), database=None, deadline=None, derandomize=False,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.shrink), print_blob=False)(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except BaseException:
            if st['failure'] is None:
                raise
    return {'sub': sub_name, 'evals': st['evals'], 'labels': st['labels'], 'nt': sorted(st['nt']),
            'samples': st['samples'], 'failure': st['failure']}


def derive(seed, *parts):
    h = hashlib.sha256(('/'.join([str(seed)] + [str(p) for p in parts])).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def trim(x, limit=1500):
    s = json.dumps(x)
    return x if len(s) <= limit else s[:limit] + '...'


def run_property(prop, tier, seed):
    t0 = time.time()
    bootstrap()
    mod = importlib.import_module('checks.' + prop.lower())
    # imported once here, inherited by the forked workers (matplotlib locks its font cache while building it)
    saved = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        importlib.import_module('sureal.routine')
        importlib.import_module('sureal.experimental')
        importlib.import_module('sureal.pc_subjective_model')
    except Exception:
        pass
    finally:
        sys.stdout = saved
    only = os.environ.get('VERIF_ONLY')
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    if tier == 'quick':
        os.environ['VERIF_DEADLINE'] = repr(t0 + QUICK_LIMIT_S)
    jobs = []
    for s in mod.SUBTESTS:
        if only and s.name != only:
            continue
        n = int(math.ceil((s.quick * BOOST.get(prop, 1) if tier == 'quick' else s.thorough) * scale))
        k = max(1, min(s.shards, n))
        for i in range(k):
            m = n // k + (1 if i < n % k else 0)
            jobs.append((prop, s.name, m, derive(seed, prop, s.name, i), i == 0))
    # known findings: the listed failing inputs are probed first and reported, never searched for
    for finding in known_findings(prop):
        probe = getattr(mod, 'KNOWN', {}).get(finding['probe'])
        if probe is None:
            continue
        saved = sys.stdout
        sys.stdout = open(os.devnull, 'w')
        try:
            still = probe()
        finally:
            sys.stdout = saved
        if still:
            print('KNOWN-FINDING: property={} {}'.format(prop, finding['what']), flush=True)
    results = []
    ctx = multiprocessing.get_context('fork')
    # interleave subtests so that early shards of all of them run first
    order = sorted(range(len(jobs)), key=lambda i: (not jobs[i][4], i))
    with ProcessPoolExecutor(max_workers=WORKERS, mp_context=ctx) as ex:
        futs = [ex.submit(shard, *jobs[i]) for i in order]
        results = [f.result() for f in futs]
    errors = [r for r in results if r.get('error')]
    failures = {}
    per_sub, nt, samples = {}, set(), []
    for r in results:
        d = per_sub.setdefault(r['sub'], {'evaluations': 0, 'labels': {}, 'nontrivial': 0})
        d['evaluations'] += r['evals']
        for l, c in r['labels'].items():
            d['labels'][l] = d['labels'].get(l, 0) + c
        new = set(r['sub'] + ':' + k for k in r['nt']) - nt
        d['nontrivial'] += len(new)
        nt |= new
        if r['failure'] is not None:
            cur = failures.get(r['sub'])
            if cur is None or r['failure']['size'] < cur['size']:
                failures[r['sub']] = r['failure']
    seen = {}
    for r in results:
        for c in r['samples']:
            if seen.get(r['sub'], 0) < 1:
                seen[r['sub']] = seen.get(r['sub'], 0) + 1
                samples.append({'subtest': r['sub'], 'case': trim(c)})
    violations = []
    rdir = os.path.join(VERIF, 'replays')
    for name, f in sorted(failures.items()):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '{}_{}_{}.json'.format(prop, name, case_key(f['case'])[:10]))
        with open(path, 'w') as fp:
            json.dump({'property': prop, 'subtest': name, 'case': f['case'], 'message': f['message']}, fp, indent=1)
        violations.append({'subtest': name, 'message': f['message'], 'replay': path})
    ev = {
        'property': prop, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
        'coverage': {
            'evaluations': sum(d['evaluations'] for d in per_sub.values()),
            'distinct_nontrivial': len(nt),
            'rule': mod.RULE,
            'samples': samples[:12],
            'per_subtest': per_sub,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    for v in violations:
        print('VIOLATION property={} replay={}'.format(prop, v['replay']))
        print('  subtest {}: {}'.format(v['subtest'], v['message'][:600]))
    if violations:
        return 1
    if errors:
        for r in errors[:1]:
            print('ERROR in subtest {}:\n{}'.format(r['sub'], r['error']), file=sys.stderr)
        return 2
    print('OK property={} tier={} seed={} cases={} nontrivial={} wall={}s'.format(
        prop, tier, seed, ev['coverage']['evaluations'], len(nt), ev['wall_s']))
    if os.environ.get('VERIF_VERBOSE'):
        for k, d in per_sub.items():
            print('   {:28s} {:6d} nt={:6d} {}'.format(k, d['evaluations'], d['nontrivial'],
                                                      dict(sorted(d['labels'].items()))))
    return 0


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return [f for f in json.load(fp)['known'] if f['property'] == prop]


def replay(path):
    bootstrap()
    with open(path) as fp:
        d = json.load(fp)
    mod = importlib.import_module('checks.' + d['property'].lower())
    sub = [s for s in mod.SUBTESTS if s.name == d['subtest']][0]
    saved = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        run_case(sub, d['case'])
    except Violation as e:
        sys.stdout = saved
        print('VIOLATION property={} replay={}'.format(d['property'], path))
        print('  subtest {}: {}'.format(d['subtest'], e))
        return 1
    finally:
        sys.stdout = saved
    print('replay holds: ' + path)
    return 0
