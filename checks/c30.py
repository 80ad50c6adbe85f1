"""C30: score tables are converted without loss."""
import contextlib
import io
import json
import os
import random
import subprocess
import sys
import types

from hypothesis import strategies as st

from lib import core, ref, sut
from lib.core import Sub, require

RULE = 'at least two rows and two subjects'
ASSUMPTIONS = ['scores are whole numbers and complete (a fractional score is truncated, as the FIXME in the code says, and a missing '
               'one is refused)']
_mod = []


def converter():
    if not _mod:
        p = os.path.join(core.REPO, 'resource', 'util', 'mos_to_sureal.py')
        m = types.ModuleType('mos_to_sureal')
        m.__file__ = p
        with open(p) as f:
            exec(compile(f.read(), p, 'exec'), m.__dict__)
        _mod.append(m)
    return _mod[0]


@st.composite
def table(draw):
    numbers = draw(st.lists(st.integers(0, 30) | st.integers(31, 10 ** 7), min_size=1, max_size=4, unique=True))
    srcs = []
    for n in numbers:
        srcs.append(draw(st.sampled_from(['SRC', 'src', 'S', '', 'v'])) + str(n).zfill(draw(st.integers(1, 3))) +
                    draw(st.sampled_from(['', '', 'x', 'x7', '.2'])))
    hrcs = []
    for n in draw(st.lists(st.integers(0, 20) | st.integers(21, 10 ** 7), min_size=1, max_size=4, unique=True)):
        hrcs.append(draw(st.sampled_from(['HRC', 'h', '', 'HRC-'])) + str(n).zfill(draw(st.integers(1, 3))) +
                    draw(st.sampled_from(['', '', 'b', 'k9'])))
    dbs = draw(st.lists(st.sampled_from(['DB01', 'db', 'X', '', '7']), min_size=1, max_size=2, unique=True))
    big = draw(st.sampled_from([0] * 20 + [1]))
    if big:     # a long and wide table
        hrcs += ['HRC{}'.format(100 + i) for i in range(40)]
    combos = [(d, s, h) for d in dbs for s in srcs for h in hrcs]
    rows = draw(st.lists(st.sampled_from(combos), min_size=1, max_size=10, unique=True)) if not big else list(draw(st.permutations(combos)))
    nS = draw(st.integers(1, 6)) if not big else draw(st.integers(10, 40))
    prefix = draw(st.sampled_from(['S', 's', 'User', 'user', 'Subject', 'subject_', 'USER']))
    subjects = [prefix + str(i) for i in draw(st.lists(st.integers(0, 99), min_size=nS, max_size=nS, unique=True))]
    if draw(st.booleans()):
        extra = draw(st.lists(st.sampled_from(['Subject A', 'Sam', 'sue', 'USER_x']), unique=True, max_size=2))
        subjects += extra
    rng = random.Random(draw(st.integers(0, 10 ** 6))) if big else None
    scores = [[rng.randint(0, 10) for _ in subjects] for _ in rows] if big else [[draw(st.integers(0, 5)) if draw(st.booleans()) else draw(st.integers(-3, 100)) for _ in subjects] for _ in rows]
    stats = draw(st.lists(st.sampled_from(['MOS', 'CI', 'N', 'mos', 'ci', 'Comment', 'duration']), unique=True, max_size=3))
    cols = draw(st.permutations(['PVS_ID'] + subjects + stats))
    if draw(st.booleans()):
        cols = ['PVS_ID'] + [c for c in cols if c != 'PVS_ID']
    opts = {}
    if draw(st.booleans()):
        opts = draw(st.fixed_dictionaries({}, optional={
            'yuv_fmt': st.sampled_from(['yuv422p', 'yuv420p10le', 'notyuv']), 'width': st.integers(0, 4000),
            'height': st.integers(0, 3000), 'ref_score': st.sampled_from([5.0, 100.0, 4.5, 0.0, 1]),
            'ref_dir': st.sampled_from(['', 'r', '/data/ref', 'a/b/']), 'dis_dir': st.sampled_from(['', 'd', '/data/dis', 'c/']),
            'def_ext': st.sampled_from(['.yuv', '.mp4', '', '.a.b'])}))
    return {'rows': rows, 'subjects': subjects, 'scores': scores, 'stats': stats, 'cols': list(cols), 'opts': opts,
            'name': draw(st.sampled_from(['table', 'my.scores', 'a b'])), 'pad': draw(st.booleans())}


def pvs(row):
    return '_'.join(row)


def write(c, d):
    p = os.path.join(d, c['name'] + '.csv')
    with open(p, 'w') as f:
        f.write(','.join(c['cols']) + '\n')
        for k, (row, sc) in enumerate(zip(c['rows'], c['scores'])):
            val = dict(zip(c['subjects'], map(str, sc)))
            val['PVS_ID'] = pvs(row) + (' ' if c['pad'] and k % 2 == 0 else '')
            for s in c['stats']:
                val[s] = 'text {}'.format(k) if s in ('Comment', 'duration') else str(0.37 + k)
            f.write(','.join(val[x] for x in c['cols']) + '\n')
    return p


def first_number(s):
    digits = ''
    for ch in s:
        if ch in '0123456789':
            digits += ch
        elif digits:
            break
    return int(digits)


def verify(c, out):
    try:
        d = json.loads(out)
    except ValueError as e:
        core.require(False, 'the output is not JSON: {}', str(e))
    o = dict({'yuv_fmt': 'yuv420p', 'width': 0, 'height': 0, 'ref_score': 5.0, 'ref_dir': '', 'dis_dir': '', 'def_ext': '.yuv'},
             **c['opts'])
    require(d['dataset_name'] == c['name'], 'dataset name {}', str(d['dataset_name']))
    for k in ('yuv_fmt', 'width', 'height', 'ref_score'):
        require(d[k] == o[k], '{} is {} instead of {}', k, str(d[k]), str(o[k]))

    def full(sub, dname):
        # where the dataset says the file is
        return os.path.join(d.get(dname, ''), sub)
    want = {}
    for row, sc in zip(c['rows'], c['scores']):
        path = os.path.join(o['dis_dir'], pvs(row) + o['def_ext'])
        want[path] = {'content_id': first_number(row[1]), 'asset_id': first_number(row[2]), 'os': dict(zip(c['subjects'], sc))}
    got = [full(v['path'], 'dis_dir') for v in d['dis_videos']]
    require(sorted(got) == sorted(want), 'videos {} instead of {}', str(sorted(got)), str(sorted(want)))
    for v in d['dis_videos']:
        w = want[full(v['path'], 'dis_dir')]
        for k in w:
            require(v[k] == w[k], 'video {}: {} is {} instead of {}', v['path'], k, str(v[k]), str(w[k]))
        require(all(type(x) in (int, float) for x in v['os'].values()), 'video {}: scores {}', v['path'], str(v['os']))
    refs = sorted((full(r['path'], 'ref_dir'), r['content_id'], r['content_name']) for r in d['ref_videos'])
    wref = sorted((os.path.join(o['ref_dir'], s + o['def_ext']), first_number(s), s) for s in {row[1] for row in c['rows']})
    require(refs == wref, 'references {} instead of {}', str(refs), str(wref))
    return d, {p: ref.mean([float(x) for x in w['os'].values()]) for p, w in want.items()}


def read_back(c, d, out):
    from sureal.dataset_reader import RawDatasetReader
    from sureal.subjective_model import MosModel
    from sureal.tools.misc import import_json_file
    with core.tmpdir() as t:
        p = os.path.join(t, 'converted.json')
        with open(p, 'w') as f:
            f.write(out)
        reader = RawDatasetReader(import_json_file(p))
        res = MosModel(reader).run_modeling()
    want = {v['path']: ref.mean([float(x) for x in v['os'].values()]) for v in d['dis_videos']}
    for v, s in zip(reader.dis_videos, res['quality_scores']):
        ref.close(float(s), want[v['path']], 1e-9, 1e-9, 'score of ' + v['path'])


def labels(c):
    return ((['nt'] if len(c['rows']) > 1 and len(c['subjects']) > 1 else []) + (['options'] if c['opts'] else []) +
            (['stats'] if c['stats'] else []))


def check_convert(c):
    with core.tmpdir() as d:
        p = write(c, d)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            converter().convert_file(p, **c['opts'])
        out = buf.getvalue()
    d, _ = verify(c, out)
    read_back(c, d, out)
    return labels(c)


FLAGS = {'yuv_fmt': ('-y', '--yuv-fmt'), 'width': ('-rw', '--width'), 'height': ('-rh', '--height'),
         'ref_score': ('-s', '--ref-score'), 'ref_dir': ('-r', '--ref-dir'), 'dis_dir': ('-d', '--dis-dir'),
         'def_ext': ('-e', '--def-ext')}


def check_command(c):
    with core.tmpdir() as d:
        p = write(c, d)
        args = []
        for i, (k, v) in enumerate(sorted(c['opts'].items())):
            args += [FLAGS[k][i % 2] + '=' + str(v)] if i % 2 else [FLAGS[k][0], str(v)]
        r = subprocess.run([sys.executable, os.path.join(core.REPO, 'resource', 'util', 'mos_to_sureal.py'), p] + args, cwd=d,
                           capture_output=True, text=True, timeout=120, env=dict(os.environ, PYTHONHASHSEED='random'))
    require(r.returncode == 0, 'the command exited with {}: {}', r.returncode, r.stderr[-500:])
    verify(c, r.stdout)
    return labels(c)


def check_refused(c):
    """A table without identifiers of the documented form is refused, nothing is converted."""
    t, how = c['t'], c['how']
    rows = [list(r) for r in t['rows']]
    if how == 'parts':
        k = c['which'] % len(rows)
        rows[k] = rows[k][1:] if c['which'] % 2 else rows[k] + ['extra']
    elif how == 'digits':
        k = c['which'] % len(rows)
        rows[k][1 + c['which'] % 2] = 'none'
    t2 = dict(t, rows=rows)
    if how == 'scores':
        t2['cols'] = [x for x in t['cols'] if x not in t['subjects']]
    with core.tmpdir() as d:
        p = write(t2, d)
        if how == 'column':
            s = open(p).read()
            head, rest = s.split('\n', 1)
            with open(p, 'w') as f:
                f.write(head.replace('PVS_ID', 'clip') + '\n' + rest)
        out, err = io.StringIO(), io.StringIO()
        code = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                converter().convert_file(p)
            except SystemExit as e:
                code = e.code
            except Exception:
                if how != 'digits':
                    raise
                code = 1
        require(code not in (None, 0), 'a table {} was converted', {'column': 'without PVS_ID column', 'scores': 'without scores'}.get(
            how, 'with a malformed identifier'))
        require('dis_videos' not in out.getvalue(), 'a refused table was printed nevertheless')
    return ['nt', how]


SUBTESTS = [Sub('convert', table(), check_convert, quick=1200, thorough=12000),
            Sub('command', table(), check_command, quick=40, thorough=240),
            Sub('refused', st.fixed_dictionaries({'t': table(), 'how': st.sampled_from(['parts', 'column', 'digits', 'scores']),
                                                  'which': st.integers(0, 9)}), check_refused, quick=240, thorough=1600)]
