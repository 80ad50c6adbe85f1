"""C26: validation against synthetic truth and subsampling of subjects are faithful."""
import copy
import math
import os

import numpy as np
from hypothesis import strategies as st

from lib import core, gen, models, ref, sut
from lib.core import Sub, require, Violation
from checks.c20 import synth
from checks.c22 import write

RULE = ('coverage: true values both inside and outside; validation: at least three videos and subjects with noise; sampling: a proper '
        'subset of at least two subjects')
ASSUMPTIONS = ['synthetic votes are drawn with a given seed (without one the readers redraw the noise at every read)',
               'sampled subjects are recognised by their vote columns, so only panels with distinct columns are judged']


# ---- coverage -----------------------------------------------------------------------------------

@st.composite
def coverage(draw):
    n = draw(st.integers(1, 12))
    e = lambda a, b: st.integers(a * 8, b * 8).map(lambda v: v / 8)
    rows = []
    for _ in range(n):
        y, l, u = draw(e(-5, 5)), draw(e(0, 2)), draw(e(0, 2))
        k = draw(st.sampled_from(['low', 'high', 'below', 'above', 'mid', 'free']))
        x = {'low': y - l, 'high': y + u, 'below': y - l - 0.125, 'above': y + u + 0.125, 'mid': y, 'free': draw(e(-6, 6))}[k]
        rows.append([x, y, l, u])
    return {'rows': rows, 'key': draw(st.sampled_from(['quality_scores', 'observer_bias', 'observer_inconsistency'])),
            'type': draw(st.sampled_from(['list', 'array'])), 'bad': draw(st.sampled_from([None, None, None, 'short', 'one']))}


def check_coverage(c):
    from sureal.routine import get_ci_percentage
    x, y, l, u = (list(v) for v in zip(*c['rows']))
    t = np.array if c['type'] == 'array' else list
    key, err = c['key'], c['key'] + '_ci95'
    s, r = {key: t(x)}, {key: t(y), err: [t(l), t(u)]}
    if c['bad'] == 'short':
        sut.refused(lambda: get_ci_percentage({key: t(x + [1.0])}, r, key, err), 'coverage of lists of different length')
    if c['bad'] == 'one':
        sut.refused(lambda: get_ci_percentage(s, {key: t(y), err: [t(l)]}, key, err), 'coverage with one-sided intervals')
    inside = sum(1 for a, b, lo, up in c['rows'] if b - lo <= a <= b + up)
    got = get_ci_percentage(s, r, key, err)
    require(abs(got - 100.0 * inside / len(x)) < 1e-9, 'coverage {} %, but {} of {} values lie within their intervals', got, inside, len(x))
    return ['nt'] if 0 < inside < len(x) else []


# ---- validation ---------------------------------------------------------------------------------

MODELS = ['MOS', 'SR_MOS', 'BR_SR_MOS', 'P910', 'P913', 'Subject_MLE_Projection', 'MLE_CO_AP2', 'MLE_CO', 'BT500', 'LS']


@st.composite
def validation(draw):
    ds = draw(gen.raw(E=(4, 8), S=(2, 4), R=(1, 1), styles=('list', 'dict'), missing=False, sparse=False))
    E, C, S = len(ds['cells']), len(ds['ref_order']), draw(st.integers(4, 9) if draw(st.integers(0, 3)) else st.integers(10, 24))
    num = lambda lo, hi: st.integers(lo * 100, hi * 100).map(lambda v: v / 100)
    vec = lambda n, lo, hi: draw(st.lists(num(lo, hi), min_size=n, max_size=n))
    return {'ds': ds, 'logistic': draw(st.booleans()), 'q': vec(E, 1, 5), 'b': vec(S, -1, 1), 'mu': [0.0] * C,
            'sigma': [0.3 + v for v in vec(S, 0, 1)], 'delta': [0.0] * C, 'seed': draw(st.integers(0, 2 ** 31 - 1)),
            'missing': draw(st.sampled_from([None, None, 0.0, 0.1, 0.3, 0.05, 0.5, 0.65])), 'models': draw(st.lists(st.sampled_from(MODELS), min_size=1, max_size=3, unique=True)),
            'runtime': draw(st.sampled_from([None, True, False])), 'output': draw(st.sampled_from([True, True, False])),
            'plot': draw(st.sampled_from([False, False, False, True])), 'errorbar': draw(st.booleans()),
            'truth': draw(st.lists(st.sampled_from(['quality_scores', 'observer_bias', 'observer_inconsistency']), min_size=1, max_size=3, unique=True))}


def describe(array, ds):
    """A list-style dataset description holding the given vote table."""
    E, S = array.shape[:2]
    cells = [[[float(v) for v in array[e, s] if not math.isnan(v)] for s in range(S)] for e in range(E)]
    d = copy.deepcopy(ds)
    d.update(style='list', cells=cells, wrap=[[False] * S for _ in range(E)], subjects=gen.NAMES[:S])
    return d


def table(path):
    """The votes in a dataset file, read without the library."""
    ns = {'np': np, 'nan': float('nan')}
    with open(path) as fp:
        exec(fp.read(), ns)
    rows = []
    for v in ns['dis_videos']:
        os_ = v['os']
        os_ = [os_[k] for k in sorted(os_)] if isinstance(os_, dict) else os_
        rows.append([list(x) if isinstance(x, (list, tuple)) else [x] for x in os_])
    R = max(len(x) for r in rows for x in r)
    return np.array([[[float(v) for v in x] + [float('nan')] * (R - len(x)) for x in r] for r in rows]), ns


def check_validation(c):
    from sureal.routine import validate_with_synthetic_dataset
    ds = c['ds']
    o, reader = synth(dict(c), seed=c['seed'])
    votes = np.array(reader.opinion_score_3darray, float)
    E, S = votes.shape[:2]
    truth = dict(reader.input_dict)
    for k in ('quality_scores', 'observer_bias', 'observer_inconsistency'):
        require(k in truth, 'harness')
    names = [m for m in c['models'] if not (m == 'LS' and c['missing'])]
    if not names:
        return ['no_model']
    kw = {}
    if c['missing'] is not None:
        kw['missing_probability'] = c['missing']
    if c['runtime'] is not None:
        kw['measure_runtime'] = c['runtime']
    with core.tmpdir() as d:
        f = write(ds, 'py', d)
        out = os.path.join(d, 'synthetic_out.py')
        if c['output'] or c['missing']:
            kw['output_synthetic_dataset_filepath'] = out
        axes = {}
        if c['plot']:
            import matplotlib.pyplot as plt
            fig, ax = plt.subplots(1, 3)
            axes = dict(zip(('quality_scores', 'observer_bias', 'observer_inconsistency'), ax))
            kw['do_errorbar'] = c['errorbar']
        try:
            ret = validate_with_synthetic_dataset(type(reader), [sut.model_class(m) for m in names], f, truth,
                                                  axes or None, **kw)
        except Violation:
            raise
        except Exception:
            # judged only where the models themselves succeed on the votes
            if c['missing']:
                return ['undefined']
            for m in names:
                try:
                    sut.run(m, describe(votes, ds))
                except Exception:
                    return ['undefined']
            raise
        finally:
            if c['plot']:
                drawn = {k: [t.get_text() for t in a.get_legend().get_texts()] if a.get_legend() else [] for k, a in axes.items()}
                plt.close(fig)
        used = votes
        if os.path.exists(out):
            used, ns = table(out)
            require(used.shape == votes.shape, 'the dataset written out has votes of shape {} instead of {}', used.shape, votes.shape)
            kept = ~np.isnan(used)
            require(bool((used[kept] == votes[kept]).all()), 'the dataset written out holds votes that were not synthesised')
            if not c['missing']:
                require(bool(kept.all()), 'votes missing from the dataset written out although none were to be removed')
            if c['missing'] is not None:
                from sureal.dataset_reader import MissingDataRawDatasetReader
                m = MissingDataRawDatasetReader(gen.build(describe(votes, ds)), input_dict={'seed': c['seed'], 'missing_probability': c['missing']})
                require(np.array_equal(used, np.array(m.opinion_score_3darray, float), equal_nan=True),
                        'the votes removed are not those of the missing-data reader with the same seed and probability')
            require([v['path'] for v in ns['dis_videos']] == gen.paths(ds) and [v['content_id'] for v in ns['dis_videos']] == ds['content'],
                    'the dataset written out has other videos')
            require(ret.get('output_synthetic_dataset_filepath') == out, 'path of the dataset written out is reported as {}',
                    ret.get('output_synthetic_dataset_filepath'))
    if any((~np.isnan(used[e])).sum() < 2 for e in range(E)) or any((~np.isnan(used[:, s])).sum() < 2 for s in range(S)):
        return ['undefined']
    require(set(ret['results']) == set(sut.model_class(m).TYPE for m in names), 'results for {} instead of {}', str(sorted(ret['results'])), str(names))
    dd = describe(used, ds)
    for m in names:
        t = sut.model_class(m).TYPE
        got, want = ret['results'][t], sut.run(m, dd)
        for k in want:
            if k in ('observers', 'num_iter') or want[k] is None:
                continue
            ref.close(np.asarray(got[k], float), np.asarray(want[k], float), 1e-7, 1e-8, 'validation of {}: {}'.format(m, k))
        if c['runtime']:
            require(got['runtime'] >= 0, 'runtime {}', got['runtime'])
        else:
            require('runtime' not in got, 'runtime reported although not requested')
        for k in ('quality_scores', 'observer_bias', 'observer_inconsistency'):
            ci = k + '_ci95'
            pk = k + '_ci_perc'
            if want.get(k) is None or want.get(ci) is None:
                require(pk not in got, '{}: {} without an interval', m, pk)
                continue
            lo, hi = np.array(want[k]) - np.array(want[ci])[0], np.array(want[k]) + np.array(want[ci])[1]
            x = np.array(truth[k], float)
            inside = (lo <= x) & (x <= hi)
            if (np.minimum(abs(x - lo), abs(x - hi)) < 1e-6).any() or not np.isfinite(lo + hi).all():
                continue
            require(abs(got[pk] - 100.0 * inside.mean()) < 1e-9, '{}: {} is {}, but {} of {} true values lie within', m, pk, got[pk],
                    int(inside.sum()), len(x))
            if c['plot']:
                rmse = math.sqrt(ref.mean([(a - b) ** 2 for a, b in zip(x, np.array(want[k], float))]))
                texts = ['{} (RMSE {:.4f}, CI% {:.1f})'.format(t, rmse, 100.0 * inside.mean()), '{} (RMSE {:.4f})'.format(t, rmse)]
                near = [x for x in drawn[k] if x.startswith(t + ' (RMSE ')]
                require(len(near) == 1, '{} appears {} times in the legend of {}', t, len(near), k)
                v = float(near[0].split('RMSE ')[1].split(',')[0].rstrip(')'))
                require(abs(v - rmse) <= 1.01e-4, 'legend of {}: {} instead of {}', k, near[0], texts[0])
                if 'CI%' in near[0]:
                    v = float(near[0].split('CI% ')[1].rstrip(')'))
                    require(abs(v - 100.0 * inside.mean()) <= 0.051, 'legend of {}: {} instead of {}', k, near[0], texts[0])
                    require(c['errorbar'], 'intervals drawn although switched off')
    return ['nt', 'logistic' if c['logistic'] else 'gaussian', 'missing={}'.format(c['missing'])] + names + (['plot'] if c['plot'] else [])


# ---- sampling of subjects -----------------------------------------------------------------------

SAMPLE = ['MOS', 'BT500', 'P910', 'BR_MOS', 'P913', 'Subject_MLE_Projection']


@st.composite
def sampling(draw):
    ds = draw(gen.raw(E=(3, 8), S=(2, 12), R=(1, 2), styles=('list', 'dict'), kinds=('seeded', 'cont'), min_subject=2))
    return {'ds': ds, 'ext': draw(st.sampled_from(['py', 'json'])), 'models': draw(st.lists(st.sampled_from(SAMPLE), min_size=1, max_size=2, unique=True)),
            'f': draw(st.sampled_from([None, 1.0, 0.5, 0.75, 0.3, 0.9, 0.34, 0.61])), 'seed': draw(st.integers(0, 2 ** 31 - 1)),
            'noise': draw(st.integers(0, 99)), 'twice': draw(st.booleans())}


def restricted(ds, sel):
    """The dataset of the subjects in the given columns, in that order, in list style."""
    V = gen.votes3d(ds)
    d = copy.deepcopy(ds)
    d.update(style='list', cells=[[list(row[s]) for s in sel] for row in V], wrap=[[False] * len(sel) for _ in V], subjects=gen.NAMES[:len(sel)])
    return d


def columns(raw, full, what):
    """Which subjects of the panel the columns of raw are."""
    sel = []
    for s in range(raw.shape[1]):
        m = [t for t in range(full.shape[1]) if np.array_equal(np.sort(raw[:, s], axis=-1)[:, :full.shape[2]],
                                                              np.sort(full[:, t], axis=-1)[:, :raw.shape[2]], equal_nan=True)]
        require(len(m) == 1, '{}: column {} is not one of the subjects of the dataset', what, s)
        sel.append(m[0])
    return sel


def check_sampling(c):
    from sureal.routine import get_sample_stats
    ds = c['ds']
    full = gen.array3d(ds)
    S = full.shape[1]
    for a in range(S):
        for b in range(a):
            if np.array_equal(np.sort(full[:, a], axis=-1), np.sort(full[:, b], axis=-1), equal_nan=True):
                return ['ambiguous']
    kw = {} if c['f'] is None else {'subj_fraction': c['f'], 'random_seed': c['seed']}
    want = [S] if c['f'] is None else sorted(set(int(S * c['f'] + e) for e in (-1e-9, 0, 1e-9)))
    if min(want) < 1:
        return ['empty']
    classes = [sut.model_class(m) for m in c['models']]
    with core.tmpdir() as d:
        f = write(ds, c['ext'], d)
        paths = [{'path': f}] * (2 if c['twice'] else 1)
        np.random.seed(c['noise'])
        run = lambda: get_sample_stats(paths, classes, **kw)
        # identify the selection with the mean opinion score model
        try:
            mos = get_sample_stats([{'path': f}], [sut.model_class('MOS')], **kw)[0][0]
            raw = np.array(mos['raw_scores'], float)
            sel = columns(raw, full, 'MOS')
        except Violation:
            raise
        except Exception as e:
            raise Violation('sampling fails: {}: {}'.format(type(e).__name__, e))
        require(len(sel) in want, '{} of {} subjects modelled for a fraction of {}', len(sel), S, c['f'])
        require(len(set(sel)) == len(sel), 'subjects sampled repeatedly: {}', str(sel))
        dd = restricted(ds, sel)
        V = gen.votes3d(dd)
        if any(sum(len(x) for x in row) < 2 for row in V) or any(sum(len(row[s]) for row in V) < 1 for s in range(len(sel))):
            return ['sparse']
        ref.close(mos['quality_scores'], ref.mos(V), 1e-9, 1e-9, 'MOS of the sampled subjects')
        try:
            exp = [sut.run(m, dd) for m in c['models']]
        except Exception:
            return ['undefined']
        resultss = run()
    require(len(resultss) == len(paths) and all(len(r) == len(classes) for r in resultss), 'results of shape {} for {} datasets and {} models',
            str([len(r) for r in resultss]), len(paths), len(classes))
    for results in resultss:
        for m, r, e in zip(c['models'], results, exp):
            if m == 'BT500' and not models.stable('BT500', dd):
                continue
            for k in ('quality_scores', 'quality_scores_std', 'observer_bias', 'observer_inconsistency', 'observer_rejected'):
                if e.get(k) is None:
                    continue
                ref.close(np.asarray(r[k], float), np.asarray(e[k], float), 1e-7, 1e-8, '{} on {} of {} subjects: {}'.format(m, len(sel), S, k))
    return ['f={}'.format(c['f'])] + c['models'] + (['nt'] if 2 <= len(sel) < S else []) + gen.labels(ds)


SUBTESTS = [Sub('coverage', coverage(), check_coverage, quick=600), Sub('validation', validation(), check_validation, quick=160, thorough=2400),
            Sub('sampling', sampling(), check_sampling, quick=240, thorough=3600)]
