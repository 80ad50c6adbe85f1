"""C29: the standalone ITU demo programs agree with the library."""
import contextlib
import io
import os
import re
import subprocess
import sys
import types

import numpy as np
from hypothesis import strategies as st

from checks.c08 import panel
from lib import core, gen, models, ref, sut
from lib.core import Sub, require

RULE = ('programs: a converged, non-degenerate solution for at least three subjects and videos; '
        'files: a table with a missing vote or several repetitions; command line: every run')
ASSUMPTIONS = ['degenerate solutions (an inconsistency below 2% of the vote range) are compared at a tolerance of 1e-3 and only '
               'where perturbing the votes by 1e-8 leaves the solution alone; otherwise their shape alone is checked']
PROGRAMS = {'bt500': ('itur_bt500_demo', 'demo_bt500.py', 3), 'p910': ('itut_p910_demo', 'demo_p910.py', 2),
            'p913': ('itut_p913_demo', 'demo.py', 2)}
FIELDS = {'mos_j': 'quality_scores', 'sos_j': 'quality_scores_std', 'bias_i': 'observer_bias',
          'inconsistency_i': 'observer_inconsistency'}
_loaded = {}


def program(name):
    if name not in _loaded:
        d, f, _ = PROGRAMS[name]
        p = os.path.join(core.REPO, d, f)
        m = types.ModuleType('demo_' + name)
        m.__file__ = p
        with open(p) as fh:
            exec(compile(fh.read(), p, 'exec'), m.__dict__)
        _loaded[name] = m
    return _loaded[name]


def read(name, path):
    m = program(name)
    return (m.read_csv_into_3darray if PROGRAMS[name][2] == 3 else m.read_csv_into_2darray)(path)


def text(a3, style, decimals, eol):
    """The table in the documented file format."""
    def cell(v):
        if np.isnan(v):
            return style
        if decimals == 'int' and v == int(v) and abs(v) < 1e15:
            return str(int(v))
        return repr(float(v))
    blocks = [[','.join(cell(v) for v in row) for row in a3[:, :, r]] for r in range(a3.shape[2])]
    rows = blocks[0]
    for b in blocks[1:]:
        rows = rows + [','] + b
    return eol.join(rows) + eol


def write(d, body):
    p = os.path.join(d, 'table.csv')
    with open(p, 'w', newline='') as f:
        f.write(body)
    return p


def solve(name, a):
    with contextlib.redirect_stdout(io.StringIO()):
        return program(name).run_alternating_projection(a)


def shape(name, a3):
    return a3 if PROGRAMS[name][2] == 3 else a3[:, :, 0]


@st.composite
def tables(draw):
    k = draw(st.integers(0, 5))
    R = (1, 3) if draw(st.booleans()) else (1, 1)
    if k < 3:
        ds = draw(gen.well_posed(E=(3, 18), S=(3, 12), R=R, C=(1, 3), styles=('list', 'dict', 'tuple')))
    elif k < 4:
        ds = draw(panel(S=(4, 14), E=(4, 16), R=(1, R[1])))
    else:
        ds = draw(gen.raw(E=(1, 8), S=(1, 7), R=R, kinds=('int5', 'cont', 'seeded', 'wide')))
    return ds


def programs_for(ds):
    return list(PROGRAMS) if gen.dims(ds)[2] == 1 else ['bt500']


def robust(res, ds):
    """Does the solution survive perturbations far above rounding error?"""
    sc = max([1.0] + [abs(x) for row in gen.votes3d(ds) for c in row for x in c])
    for seed in range(3):
        rng = np.random.RandomState(seed)
        d2 = dict(ds, cells=[[[v + 1e-8 * sc * rng.uniform(-1, 1) for v in c] for c in row] for row in ds['cells']])
        r2 = sut.run('P910', d2)
        for k in FIELDS.values():
            x, y = np.asarray(res[k], float), np.asarray(r2[k], float)
            if not np.isfinite(x).all() or not np.isfinite(y).all() or np.abs(x - y).max() > 1e-5 * sc:
                return False
    return True


def verdict(ret, res, ds, what):
    E, S, _ = gen.dims(ds)
    require(set(ret) == set(FIELDS), '{}: returns {}', what, str(sorted(ret)))
    for f in FIELDS:
        require(len(ret[f]) == (E if f.endswith('_j') else S), '{}: {} values in {} for {} videos, {} subjects', what,
                len(ret[f]), f, E, S)
    if not models.settled('P910', res, ds):
        if res['num_iter'] >= 1000 or not robust(res, ds):
            return ['degenerate']
        sc = max([1.0] + [abs(x) for row in gen.votes3d(ds) for c in row for x in c])
        for f, k in FIELDS.items():
            ref.close(ret[f], res[k], 1e-3, 1e-3 * sc, '{} {}'.format(what, f))
        return ['robust'] + (['nt'] if E >= 3 and S >= 3 else [])
    sc = max([1.0] + [abs(x) for row in gen.votes3d(ds) for c in row for x in c])
    for f, k in FIELDS.items():
        ref.close(ret[f], res[k], 1e-5, 1e-5 * sc if f == 'sos_j' else 1e-6 * sc, '{} {}'.format(what, f))
    ref.close(ref.mean([float(x) for x in ret['bias_i']]), 0.0, 0, 1e-9 * sc, what + ' mean bias')
    # the defining equations
    V = gen.votes3d(ds)
    s, b, v = (list(map(float, ret[k])) for k in ('mos_j', 'bias_i', 'inconsistency_i'))
    for i in range(S):
        own = [(j, x) for j in range(E) for x in V[j][i]]
        ref.close(b[i], ref.mean([x - s[j] for j, x in own]), 2e-5, 2e-5 * sc, what + ' bias equation')
        ref.close(v[i], ref.std([x - s[j] - b[i] for j, x in own]), 2e-5, 2e-5 * sc, what + ' inconsistency equation')
    lab = ['settled']
    if E >= 3 and S >= 3:
        lab.append('nt')
    return lab


def check_programs(c):
    ds = c['ds']
    a3 = gen.array3d(ds)
    res = sut.run('P910', ds)
    lab = []
    for name in programs_for(ds):
        if name == 'p913' and c['via'] == 'order':
            perm = np.random.RandomState(c['seed']).permutation(a3.shape[0])
            ret = solve(name, shape(name, a3[perm]))
            back = np.argsort(perm)
            for f in ('mos_j', 'sos_j'):
                ret[f] = [ret[f][i] for i in back]
            lab.append('order')
        elif c['via'] == 'file':
            with core.tmpdir() as d:
                arr = read(name, write(d, text(a3, 'nan', 'float', '\n')))
            ret = solve(name, arr)
        else:
            arr = shape(name, a3)
            keep = arr.copy()
            ret = solve(name, arr)
            require(np.array_equal(arr, keep, equal_nan=True), '{}: the votes were modified', name)
        lab += verdict(ret, res, ds, name) + [name]
    return sorted(set(lab)) + gen.labels(ds)


def check_file(c):
    ds = c['ds']
    a3 = gen.array3d(ds)
    with core.tmpdir() as d:
        for name in programs_for(ds):
            p = write(d, text(a3, c['nan'], c['decimals'], c['eol']))
            got = read(name, p)
            want = shape(name, a3)
            require(got.shape == want.shape, '{}: read a table of shape {} instead of {}', name, str(got.shape), str(want.shape))
            require(np.array_equal(got, want, equal_nan=True), '{}: votes read differ from the file: {} instead of {}', name,
                    str(got.tolist()), str(want.tolist()))
    return (['nt'] if a3.shape[2] > 1 or np.isnan(a3).any() else []) + ['repetitions' if a3.shape[2] > 1 else 'single']


def check_cli(c):
    ds = c['ds']
    a3 = gen.array3d(ds)
    name = programs_for(ds)[c['which'] % len(programs_for(ds))]
    with core.tmpdir() as d:
        p = write(d, text(a3, 'nan', 'float', '\n'))
        r = subprocess.run([sys.executable, os.path.join(core.REPO, *PROGRAMS[name][:2]), '--input-csv', p], cwd=d,
                           capture_output=True, text=True, timeout=120)
    require(r.returncode == 0, '{} exited with {}: {}', name, r.returncode, r.stderr[-500:])
    m = re.search(r"\{[^{}]*\}\s*\Z", r.stdout, re.S)
    require(m, '{} printed no result: {}', name, r.stdout[-500:])
    ret = eval(m.group(0), {'__builtins__': {}, 'nan': float('nan'), 'inf': float('inf')})
    return [x for x in verdict(ret, sut.run('P910', ds), ds, name + ' command') if x != 'nt'] + ['nt', name]


def programs_strategy():
    return st.fixed_dictionaries({'ds': tables(), 'via': st.sampled_from(['array', 'array', 'file', 'order']),
                                  'seed': st.integers(0, 10 ** 6)})


def files_strategy():
    return st.fixed_dictionaries({
        'ds': gen.raw(E=(1, 8), S=(1, 6), R=(1, 4), kinds=('int5', 'cont', 'seeded', 'wide')),
        'nan': st.sampled_from(['nan', 'NaN', 'nan']), 'decimals': st.sampled_from(['int', 'float']),
        'eol': st.sampled_from(['\n', '\r\n'])})


def cli_strategy():
    return st.fixed_dictionaries({'ds': gen.well_posed(E=(4, 10), S=(3, 8), R=(1, 2)), 'which': st.integers(0, 5)})


SUBTESTS = [Sub('programs', programs_strategy(), check_programs, quick=900, thorough=12000),
            Sub('file', files_strategy(), check_file, quick=800, thorough=8000),
            Sub('command', cli_strategy(), check_cli, quick=32, thorough=200)]
