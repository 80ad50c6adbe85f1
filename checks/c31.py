"""C31: caches and parallel maps return what direct calls return."""
import gc
import json
import os
import shutil
import subprocess
import sys
import time
import warnings

from hypothesis import strategies as st

from lib import core
from lib.core import Sub, require

RULE = ('caches: a history in which some arguments are asked for again (after a restart for the file and directory caches); parallel '
        'map: more tasks than workers and at least two workers; options: an option that occurs in the list')
ASSUMPTIONS = ['file and directory caches: arguments are told apart by their printed form (numbers, strings, None, lists, tuples, '
               'dictionaries of these) and results are JSON values; a file cache holds one function when counting computations',
               'in-memory cache: arguments that are equal share a result']

# distinct in value or in type only
ARGS = [1, 1.0, True, '1', 11, '11', 'a', 'a,b', 'b', 'a, b', "a', 'b", '', None, 'None', 0, -1, 0.1, 0.30000000000000004, 0.3,
        1e300, 2 ** 70, [1], [1, 2], (1, 2), [[1], 2], {'k': 1}, 'boom', '(1,)', "('a',)", 'é', 'a\nb', 'l' * 300 + 'x', 'l' * 300 + 'y', 'l' * 300, list(range(200)), list(range(199)) + [7], 'A', 'a ', ' a', '1.0', -0.0, 1j]
NAMES = ['f', 'ff', 'f1', 'g']


def answer(name, args):
    """A pure function of its name and arguments; JSON values of every kind, among them the empty and false ones."""
    if args and args[0] == 'boom':
        raise ValueError('boom {} {!r}'.format(name, args))
    key = '{}{!r}'.format(name, args)
    k = sum(map(ord, key)) % 8
    return [None, 0, False, '', [], {'key': key}, key, [key, 1.5, None]][k] if len(args) == 1 else {'key': key}


def make(name, calls):
    def fn(*args):
        calls.append((name, repr(args)))
        return answer(name, args)
    fn.__name__ = name
    return fn


def outcome(fn, args):
    try:
        return ('value', fn(*args))
    except ValueError as e:
        return ('error', str(e))


def expected(name, args):
    try:
        return ('value', answer(name, args))
    except ValueError as e:
        return ('error', str(e))


def same(a, b):
    return a == b and type(a[1]) is type(b[1])


args_strategy = st.lists(st.integers(0, len(ARGS) - 1), min_size=0, max_size=3)


@st.composite
def history(draw):
    pool = draw(st.lists(args_strategy, min_size=1, max_size=5))
    if draw(st.booleans()):
        pool += [[i] for i in draw(st.lists(st.integers(0, len(ARGS) - 1), min_size=1, max_size=6))]
    ops = []
    for _ in range(draw(st.integers(2, 24))):
        k = draw(st.integers(0, 9))
        if k < 8:
            ops.append(['call', draw(st.integers(0, 2)), draw(st.sampled_from(pool))])
        elif k < 9:
            ops.append(['restart'])
        else:
            ops.append(['erase'] if draw(st.integers(0, 3)) == 0 else ['restart'])
    return {'kind': draw(st.sampled_from(['file', 'dir', 'shared_file', 'shared_dir'])), 'ops': ops,
            'names': draw(st.lists(st.sampled_from(NAMES), min_size=3, max_size=3, unique=True)),
            'deep': draw(st.booleans())}


def check_persist(c):
    from sureal.tools.decorator import persist_to_dir, persist_to_file
    calls = []
    with core.tmpdir() as d:
        def where(i):
            if c['kind'] == 'file':
                return os.path.join(d, 'cache{}.json'.format(i))
            if c['kind'] == 'shared_file':
                return os.path.join(d, 'cache.json')
            sub = os.path.join(d, 'deep', 'er') if c['deep'] else d
            return os.path.join(sub, 'cache' if c['kind'] == 'shared_dir' else 'cache{}'.format(i))

        def session():
            deco = persist_to_dir if 'dir' in c['kind'] else persist_to_file
            return [deco(where(i))(make(n, calls)) for i, n in enumerate(c['names'])]
        fns = session()
        seen, lab, restarted, fresh = {}, set(), False, {}
        for op in c['ops']:
            if op[0] == 'restart':
                fns = session()
                restarted = True
                fresh = dict(seen)
                continue
            if op[0] == 'erase':
                for i in range(3):
                    w = where(i)
                    if os.path.isdir(w):
                        shutil.rmtree(w)
                    elif os.path.exists(w):
                        os.unlink(w)
                fns = session()
                seen, fresh = {}, {}
                continue
            i, args = op[1], tuple(ARGS[k] for k in op[2])
            name = c['names'][i]
            n0 = len(calls)
            got, want = outcome(fns[i], args), expected(name, args)
            require(same(got, want), '{}: {}{} gives {} instead of {}', c['kind'], name, repr(args), repr(got), repr(want))
            new = calls[n0:]
            require(all(x == (name, repr(args)) for x in new), 'calling {}{} computed {}', name, repr(args), str(new))
            k = (name, repr(args))
            if want[0] == 'value':
                if k in seen:
                    lab.add('hit_after_restart' if k in fresh else 'hit')
                    if c['kind'] != 'shared_file':
                        require(not new, '{}: {}{} computed again although its result is cached{}', c['kind'], name, repr(args),
                                ' (restarted)' if restarted else '')
                require(len(new) <= 1, '{}{} computed {} times in one call', name, repr(args), len(new))
                seen[k] = True
            else:
                lab.add('raises')
    return sorted(lab) + [c['kind']] + (['nt'] if 'hit_after_restart' in lab else [])


SCRIPT = r'''
import json, sys
sys.path[:0] = [{repo!r}, {verif!r}]
sys.dont_write_bytecode = True
from checks.c31 import ARGS, make, outcome
from sureal.tools.decorator import persist_to_dir, persist_to_file
calls, out = [], []
deco = persist_to_dir if {kind!r} == 'dir' else persist_to_file
f = deco({where!r})(make({name!r}, calls))
for a in {args!r}:
    n = len(calls)
    r = outcome(f, tuple(ARGS[k] for k in a))
    out.append([list(r), len(calls) - n])
print(json.dumps(out))
'''


def check_processes(c):
    """True restarts: every session is a process of its own, with its own hash seed."""
    with core.tmpdir() as d:
        seen, hit = set(), False
        for n, sess in enumerate(c['sessions']):
            src = SCRIPT.format(repo=core.REPO, verif=core.VERIF, kind=c['kind'], where=os.path.join(d, 'cache'), name=c['name'],
                                args=sess)
            r = subprocess.run([sys.executable, '-c', src], capture_output=True, text=True, timeout=120,
                               env=dict(os.environ, PYTHONHASHSEED=str(n + 1)))
            require(r.returncode == 0, 'session {} failed: {}', n, r.stderr[-500:])
            for a, (res, cnt) in zip(sess, json.loads(r.stdout.strip().splitlines()[-1])):
                args = tuple(ARGS[k] for k in a)
                want = expected(c['name'], args)
                require(same(tuple(res), want), 'session {}: {}{} gives {} instead of {}', n, c['name'], repr(args), repr(res),
                        repr(want))
                if want[0] == 'value':
                    k = repr(args)
                    if k in seen:
                        hit = True
                        require(cnt == 0, 'session {}: {}{} computed again', n, c['name'], repr(args))
                    seen.add(k)
    return ['nt', 'hit'] if hit else []


HASHABLE = [2, 3, 'a', 'b', '2', 'a,b', None, (2, 3), (2, (3,)), 0.5, '', frozenset([2, 3]), -1, -2, 2 ** 61 - 1 + 5, 5, 'boom']
OTHER = [[2, 3], {'k': 2}, [[2], 'a'], [], {'k': [1]}]


@st.composite
def memo_history(draw):
    pool = draw(st.lists(st.lists(st.integers(0, len(HASHABLE) + len(OTHER) - 1), max_size=3), min_size=1, max_size=5))
    if draw(st.booleans()):
        pool += [[i] for i in draw(st.lists(st.integers(0, len(HASHABLE) - 1), min_size=1, max_size=6))]
    ops = []
    for _ in range(draw(st.integers(2, 24))):
        k = draw(st.integers(0, 9))
        if k < 5:
            ops.append(['func', draw(st.integers(0, 1)), draw(st.sampled_from(pool))])
        elif k < 9:
            ops.append(['method', draw(st.integers(0, 2)), draw(st.integers(0, 1)), draw(st.sampled_from(pool))])
        else:
            ops.append(['replace', draw(st.integers(0, 2))])
    return {'ops': ops}


def check_memo(c):
    from sureal.tools.decorator import memoized
    calls = []
    vals = HASHABLE + OTHER

    def func(name):
        return memoized(make(name, calls))
    fs = [func('f'), func('f')]      # two functions of one name: caches of their own

    class Thing(object):
        def __init__(self, tag):
            self.tag = tag

        @memoized
        def one(self, *args):
            calls.append(('one', self.tag, repr(args)))
            return answer('one' + str(self.tag), args)

        @memoized
        def two(self, *args):
            calls.append(('two', self.tag, repr(args)))
            return answer('two' + str(self.tag), args)
    tag = 3
    things = [Thing(i) for i in range(3)]
    seen, lab = set(), set()
    for op in c['ops']:
        if op[0] == 'replace':
            things[op[1]] = None
            gc.collect()
            things[op[1]] = Thing(tag)
            tag += 1
            continue
        idx = op[-1]
        args = tuple(vals[k] for k in idx)
        cacheable = all(k < len(HASHABLE) for k in idx)
        n0 = len(calls)
        if op[0] == 'func':
            got, want = outcome(fs[op[1]], args), expected('f', args)
            key = ('f', op[1], repr(args))
        else:
            t, m = things[op[1]], ('one', 'two')[op[2]]
            got, want = outcome(getattr(t, m), args), expected(m + str(t.tag), args)
            key = (m, t.tag, repr(args))
        require(same(got, want), '{}{} gives {} instead of {}', str(key[:2]), repr(args), repr(got), repr(want))
        new = len(calls) - n0
        if want[0] == 'error':
            lab.add('raises')
            continue
        if not cacheable:
            lab.add('unhashable')
            require(new == 1, 'a call with unhashable arguments was computed {} times', new)
            continue
        require(new == (0 if key in seen else 1), '{}{} computed {} times{}', str(key[:2]), repr(args), new,
                ' although cached' if key in seen else '')
        if key in seen:
            lab.add('hit')
            if op[0] == 'method':
                lab.add('method_hit')
        seen.add(key)
    return sorted(lab) + (['nt'] if 'hit' in lab else [])


@st.composite
def tasks(draw):
    n = draw(st.sampled_from([5, 0, 1, 2, 3, 8, 9, 12, 20]))
    return {'values': draw(st.lists(st.integers(-5, 50), min_size=n, max_size=n)),
            'ms': draw(st.lists(st.sampled_from([0, 0, 1, 5, 20]), min_size=n, max_size=n)),
            'processes': draw(st.sampled_from([2, 3, 4, 1, None, 8, 30])), 'pause': draw(st.sampled_from(['default', None, 0.0001])),
            'arg': draw(st.sampled_from(['value', 'closure', 'tuple'])), 'container': draw(st.sampled_from(['list', 'iter', 'tuple', 'map'])),
            'result': draw(st.sampled_from(['value', 'none', 'list']))}


def check_map(c):
    from sureal.tools.misc import parallel_map
    with core.tmpdir() as d:
        def work(v):
            if c['arg'] == 'closure':
                v = v()
            i, x = v
            t0 = time.monotonic()
            while time.monotonic() - t0 < c['ms'][i] / 1000.0:
                pass
            with open(os.path.join(d, 'ran'), 'a') as f:
                f.write('{} {!r} {!r}\n'.format(i, t0, time.monotonic()))
            return {'value': x * 2, 'none': None if x % 2 else x, 'list': [x, {'k': i}]}[c['result']]

        def arg(i, x):
            return (lambda: (i, x)) if c['arg'] == 'closure' else (i, x)
        items = [arg(i, x) for i, x in enumerate(c['values'])]
        box = {'list': lambda: items, 'tuple': lambda: tuple(items), 'iter': lambda: iter(items),
               'map': lambda: map(lambda t: t, items)}[c['container']]()
        kw = {} if c['pause'] == 'default' else {'pause_sec': c['pause']}
        if c['processes'] is not None:
            kw['processes'] = c['processes']
        got = parallel_map(work, box, **kw)
        want = [{'value': x * 2, 'none': None if x % 2 else x, 'list': [x, {'k': i}]}[c['result']] for i, x in enumerate(c['values'])]
        require(list(got) == want, 'the map of {} tasks on {} workers gives {} instead of {}', len(want), str(c['processes']),
                str(got), str(want))
        ran = []
        if os.path.exists(os.path.join(d, 'ran')):
            with open(os.path.join(d, 'ran')) as f:
                ran = [l.split() for l in f]
    require(sorted(int(r[0]) for r in ran) == list(range(len(want))), 'tasks run: {}', str(sorted(r[0] for r in ran)))
    if c['processes'] is not None:
        ev = sorted([(float(r[1]), 1) for r in ran] + [(float(r[2]), -1) for r in ran])
        level = top = 0
        for _, k in ev:
            level += k
            top = max(top, level)
        require(top <= c['processes'], '{} tasks at once on {} workers', top, c['processes'])
    return ['nt'] if c['processes'] and 2 <= c['processes'] < len(want) else []


WORDS = ['--a', '--b', '-c', 'x', 'y', '1', '--a=1', '']


@st.composite
def options(draw):
    argv = draw(st.lists(st.sampled_from(WORDS), min_size=draw(st.sampled_from([0, 3, 6])), max_size=9))
    n = len(argv)
    b = draw(st.sampled_from([0, 0, 1, 2, n, n + 1]))
    e = draw(st.sampled_from([n, n, max(0, n - 1), n // 2, 0]))
    return {'argv': argv, 'begin': min(b, n + 1), 'end': e, 'option': draw(st.sampled_from(argv or WORDS) | st.sampled_from(WORDS))}


def check_options(c):
    from sureal.tools.misc import cmd_option_exists, get_cmd_option
    argv, b, e, o = c['argv'], c['begin'], c['end'], c['option']
    keep = list(argv)
    pos = [i for i in range(b, e) if argv[i] == o]
    want = argv[pos[0] + 1] if pos and pos[0] + 1 < e else None
    require(get_cmd_option(argv, b, e, o) == want, 'value of {} in {}[{}:{}] is {} instead of {}', o, str(argv), b, e,
            repr(get_cmd_option(argv, b, e, o)), repr(want))
    require(cmd_option_exists(argv, b, e, o) is bool(pos), 'existence of {} in {}[{}:{}]', o, str(argv), b, e)
    require(argv == keep, 'the argument list was modified')
    return ['nt'] if pos else []


def check_deprecated(c):
    from sureal.tools.decorator import deprecated
    calls = []

    @deprecated
    def old(*args, **kwargs):
        """doc of old"""
        calls.append((args, kwargs))
        return [args, kwargs]
    args = tuple(ARGS[k] for k in c['args'])
    kwargs = {'k{}'.format(i): ARGS[k] for i, k in enumerate(c['kwargs'])}
    with warnings.catch_warnings(record=True) as w:
        got = old(*args, **kwargs)
    require(got == [args, kwargs] and len(calls) == 1, 'deprecated call gives {}', repr(got))
    require(any(issubclass(x.category, DeprecationWarning) and 'old' in str(x.message) for x in w), 'no deprecation warning')
    require(old.__name__ == 'old' and old.__doc__ == 'doc of old', 'name and documentation {} {}', old.__name__, str(old.__doc__))
    return ['nt']


sessions = st.fixed_dictionaries({'kind': st.sampled_from(['file', 'dir']), 'name': st.sampled_from(NAMES),
                                  'sessions': st.lists(st.lists(st.sampled_from([[6], [7], [0], [3], [2, 6], [19], [26], [24], []]),
                                                                min_size=1, max_size=5), min_size=2, max_size=3)})

many = st.fixed_dictionaries({'kind': st.sampled_from(['memo', 'file', 'dir']), 'n': st.integers(2, 1500), 'start': st.integers(0, 50),
                              'again': st.lists(st.integers(0, 1499), min_size=3, max_size=20), 'method': st.booleans()})


def check_many(c):
    """Caches with many entries keep them all."""
    from sureal.tools.decorator import memoized, persist_to_dir, persist_to_file
    calls = []
    n = c['n'] if c['kind'] == 'memo' else max(2, c['n'] // (8 if c['kind'] == 'file' else 4))
    with core.tmpdir() as d:
        fn = make('f', calls)
        if c['kind'] == 'memo':
            f = memoized(fn)
        else:
            f = (persist_to_dir if c['kind'] == 'dir' else persist_to_file)(os.path.join(d, 'cache'))(fn)
        for rnd in range(2):
            for i in (range(n) if rnd == 0 else [k % n for k in c['again']] + [0, n - 1]):
                args = (c['start'] + i, 'x')
                got, want = outcome(f, args), expected('f', args)
                require(same(got, want), '{}: f{} gives {} instead of {}', c['kind'], repr(args), repr(got), repr(want))
            require(len(calls) == n, '{}: {} computations for {} different arguments', c['kind'], len(calls), n)
    return [c['kind'], 'nt' if n > 100 else 'few']


SUBTESTS = [Sub('persist', history(), check_persist, quick=2400, thorough=30000),
            Sub('processes', sessions, check_processes, quick=48, thorough=240),
            Sub('memoized', memo_history(), check_memo, quick=2400, thorough=30000),
            Sub('map', tasks(), check_map, quick=160, thorough=1200),
            Sub('options', options(), check_options, quick=2000, thorough=20000),
            Sub('deprecated', st.fixed_dictionaries({'args': st.lists(st.integers(0, 29), max_size=3),
                                                     'kwargs': st.lists(st.integers(0, 29), max_size=3)}), check_deprecated,
                quick=200, thorough=1000),
            Sub('many', many, check_many, quick=160, thorough=1600)]
