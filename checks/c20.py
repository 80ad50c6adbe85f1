"""C20: simulated datasets change exactly what they claim to change."""
import copy
import math
import random

import numpy as np
from hypothesis import strategies as st

from lib import gen, ref, sut
from lib.core import Sub, require

RULE = 'at least two videos and two subjects, and a simulation that concerns at least one vote'


def same(got, want, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, '{}: shape {} instead of {}', what, got.shape, want.shape)
    bad = np.argwhere(~((got == want) | (np.isnan(got) & np.isnan(want))))
    require(len(bad) == 0, '{}: at {} {} instead of {}', what, [tuple(map(int, b)) for b in bad[:4]],
            [float(got[tuple(b)]) for b in bad[:4]], [float(want[tuple(b)]) for b in bad[:4]])


def trim(x):
    """Without trailing repetitions nobody used."""
    x = np.asarray(x, float)
    while x.shape[2] > 1 and np.isnan(x[:, :, -1]).all():
        x = x[:, :, :-1]
    return x


def unchanged(o, before):
    require(gen.snapshot(o) == before, 'the source dataset was modified')


def roundtrip(r, want, what):
    """The dataset handed out by the reader holds the same votes."""
    from sureal.dataset_reader import RawDatasetReader
    same(trim(RawDatasetReader(r.to_dataset()).opinion_score_3darray), trim(want), what + ' after to_dataset')


# --- selections ---

@st.composite
def select_subjects(draw):
    ds = draw(gen.raw(E=(1, 6), S=(1, 6), R=(1, 3)))
    n = len(gen.subject_order(ds))
    return {'ds': ds, 'sel': draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n + 2))}


def check_subjects(c):
    from sureal.dataset_reader import SelectSubjectRawDatasetReader
    ds, sel = c['ds'], c['sel']
    full = gen.array3d(ds)
    o = gen.build(ds)
    before = gen.snapshot(o)
    r = SelectSubjectRawDatasetReader(o, input_dict={'selected_subjects': list(sel)})
    want = full[:, sel, :]
    same(trim(r.opinion_score_3darray), trim(want), 'selected subjects {}'.format(sel))
    require(r.num_observers == len(sel), 'num_observers {} instead of {}', r.num_observers, len(sel))
    require(r.num_dis_videos == full.shape[0], 'number of videos changed')
    roundtrip(r, want, 'selection')
    if all(not np.isnan(full[e][sel]).all() for e in range(full.shape[0])):
        res = sut.model_class('MOS')(r).run_modeling()
        ref.close(res['quality_scores'], [np.nanmean(want[e]) for e in range(full.shape[0])], 1e-9, 1e-9, 'MOS of the selection')
    sut.refused(lambda: SelectSubjectRawDatasetReader(gen.build(ds), input_dict={'selected_subjects': [full.shape[1]]}),
                'selecting a subject that does not exist')
    unchanged(o, before)
    return gen.labels(ds) + (['nt'] if full.shape[0] > 1 and full.shape[1] > 1 else [])


@st.composite
def select_videos(draw):
    ds = draw(gen.raw(E=(1, 7), S=(1, 6), R=(1, 3)))
    n = len(ds['cells'])
    return {'ds': ds, 'sel': draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n + 2))}


def check_videos(c):
    from sureal.dataset_reader import SelectDisVideoRawDatasetReader
    ds, sel = c['ds'], c['sel']
    o = gen.build(ds)
    before = gen.snapshot(o)
    r = SelectDisVideoRawDatasetReader(o, input_dict={'selected_dis_videos': list(sel)})
    full = gen.array3d(ds)[sel]
    if ds['style'] == 'dict':
        # columns are those of the subjects who are mentioned
        who = gen.subject_order(ds)
        full = full[:, [i for i, s in enumerate(who) if any(gen.written(ds, e, s) for e in sel)]]
    same(trim(r.opinion_score_3darray), trim(full), 'selected videos {}'.format(sel))
    require(r.num_dis_videos == len(sel), 'num_dis_videos {}', r.num_dis_videos)
    pth = gen.paths(ds)
    require([v['path'] for v in r.dis_videos] == [pth[e] for e in sel], 'videos {}', str([v['path'] for v in r.dis_videos]))
    require(list(r.content_id_of_dis_videos) == [ds['content'][e] for e in sel], 'contents {}', str(r.content_id_of_dis_videos))
    hid = set(ds['hidden'].values())
    require(list(r.disvideo_is_refvideo) == [e in hid for e in sel], 'hidden references {}', str(r.disvideo_is_refvideo))
    sut.refused(lambda: SelectDisVideoRawDatasetReader(gen.build(ds), input_dict={'selected_dis_videos': [len(pth)]}),
                'selecting a video that does not exist')
    unchanged(o, before)
    return gen.labels(ds) + (['nt'] if len(pth) > 1 and sel != list(range(len(pth))) else [])


# --- corrupted subjects ---

@st.composite
def corrupt(draw):
    ds = draw(gen.raw(E=(1, 8), S=(1, 6), R=(1, 3)))
    n = len(gen.subject_order(ds))
    c = {'ds': ds, 'sel': draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True)),
         'how': draw(st.sampled_from([None, 'shuffle', 'flip', 'min', 'mid', 'max', 'constant'])),
         'seed': draw(st.integers(0, 2 ** 31 - 1))}
    p = draw(st.sampled_from([None, None, 0.0, 0.5, 1.0]))
    if p is not None:
        c['p'] = p
    return c


def rows(x):
    return sorted([tuple(-1e9 if math.isnan(v) else v for v in r) for r in x])


def check_corrupt(c):
    from sureal.dataset_reader import CorruptSubjectRawDatasetReader
    ds, sel, how = c['ds'], c['sel'], c['how'] or 'shuffle'
    full = gen.array3d(ds)
    lo, hi = float(np.nanmin(full)), float(np.nanmax(full))
    o = gen.build(ds)
    before = gen.snapshot(o)
    d = {'selected_subjects': list(sel)}
    if c['how']:
        d['corrupt_behavior'] = c['how']
    if 'p' in c:
        d['corrupt_probability'] = c['p']
    r = CorruptSubjectRawDatasetReader(o, input_dict=d)
    np.random.seed(c['seed'])
    got = np.asarray(r.opinion_score_3darray, float)
    require(got.shape == full.shape, 'shape {} instead of {}', got.shape, full.shape)
    require(r.num_observers == full.shape[1], 'num_observers {}', r.num_observers)
    others = [s for s in range(full.shape[1]) if s not in sel]
    same(got[:, others], full[:, others], 'subjects that were not selected')
    p = c.get('p')
    for s in sel:
        x, y = got[:, s, :], full[:, s, :]
        if p == 0.0:
            same(got[:, [s]], full[:, [s]], 'probability 0')
            continue
        if how == 'shuffle':
            require(rows(x) == rows(y), 'subject {}: {} is no permutation of {}', s, str(x.tolist()), str(y.tolist()))
            continue
        const = None
        for e in range(full.shape[0]):
            have = ~np.isnan(y[e])
            if not have.any():
                continue   # nothing to corrupt; may be filled or left
            kept = np.array_equal(x[e], y[e], equal_nan=True)
            v = x[e][have]
            if p == 0.5 and kept:
                continue
            if how == 'flip':
                ref.close(v, lo + hi - y[e][have], 1e-12, 1e-12, 'flipped votes of subject {} video {}'.format(s, e))
            elif how == 'constant':
                require(len(set(v)) == 1 and lo - 1e-12 <= v[0] <= hi + 1e-12, 'subject {}: constant {} outside [{}, {}]', s,
                        str(v), lo, hi)
                require(const is None or const == v[0], 'subject {}: constants {} and {}', s, const, v[0])
                const = v[0]
            else:
                w = {'min': lo, 'mid': (lo + hi) / 2, 'max': hi}[how]
                ref.close(v, [w] * len(v), 1e-12, 1e-12, '{} votes of subject {} video {}'.format(how, s, e))
    unchanged(o, before)
    sut.refused(lambda: CorruptSubjectRawDatasetReader(gen.build(ds), input_dict={'selected_subjects': [full.shape[1]]}),
                'corrupting a subject that does not exist')
    sut.refused(lambda: CorruptSubjectRawDatasetReader(gen.build(ds), input_dict={'selected_subjects': [0, 0]}),
                'a subject listed twice')
    np.random.seed(c['seed'])
    roundtrip(r, got, how)
    return [how, 'p={}'.format(p)] + (['nt'] if sel and p != 0.0 and full.shape[0] > 1 and full.shape[1] > 1 else [])


# --- missing and corrupted votes ---

@st.composite
def votes(draw):
    ds = draw(gen.raw(E=(1, 8), S=(1, 6), R=(1, 3)))
    ds['ref_score'] = draw(st.sampled_from([5.0, 100.0, 4]))
    return {'ds': ds, 'kind': draw(st.sampled_from(['missing', 'corrupt'])), 'p': draw(st.sampled_from([0.0, 0.2, 0.6, 1.0])),
            'seed': draw(st.integers(0, 2 ** 31 - 1))}


def check_votes(c):
    from sureal.dataset_reader import CorruptDataRawDatasetReader, MissingDataRawDatasetReader
    ds, p = c['ds'], c['p']
    full = gen.array3d(ds)
    o = gen.build(ds)
    before = gen.snapshot(o)
    if c['kind'] == 'missing':
        r = MissingDataRawDatasetReader(o, input_dict={'missing_probability': p, 'seed': c['seed']})
        got = np.asarray(r.opinion_score_3darray, float)
        np.random.seed(1)
        same(r.opinion_score_3darray, got, 'second read with the same seed')
        require(got.shape == full.shape, 'shape {} instead of {}', got.shape, full.shape)
        bad = ~((got == full) | np.isnan(got))
        require(not bad.any(), 'votes changed instead of removed at {}', str(np.argwhere(bad)[:3].tolist()))
        if p == 0.0:
            same(got, full, 'probability 0')
        if p == 1.0:
            require(np.isnan(got).all(), 'probability 1 left votes')
        if not np.isnan(got).all():
            roundtrip(r, got, 'missing votes')
    else:
        r = CorruptDataRawDatasetReader(o, input_dict={'corrupt_probability': p})
        np.random.seed(c['seed'])
        got = np.asarray(r.opinion_score_3darray, float)
        require(got.shape == full.shape, 'shape {} instead of {}', got.shape, full.shape)
        keep = (got == full) | (np.isnan(got) & np.isnan(full))
        scale = (got >= 1) & (got <= ds['ref_score'])
        require((keep | scale).all(), 'votes outside the scale: {}', str(got[~(keep | scale)][:4].tolist()))
        if p == 0.0:
            same(got, full, 'probability 0')
        if p == 1.0:
            require((scale | np.isnan(full)).all(), 'probability 1 left votes')
    unchanged(o, before)
    return [c['kind'], 'p={}'.format(p)] + (['nt'] if p > 0 and full.size > 3 else [])


# --- synthetic votes ---

@st.composite
def synthetic(draw):
    ds = draw(gen.raw(E=(1, 8), S=(1, 4), R=(1, 1), sparse=False))
    E, C, S = len(ds['cells']), len(ds['ref_order']), draw(st.integers(1, 6))
    num = lambda lo, hi: st.integers(lo * 100, hi * 100).map(lambda v: v / 100)
    vec = lambda n, lo, hi: draw(st.lists(num(lo, hi), min_size=n, max_size=n))
    c = {'ds': ds, 'logistic': draw(st.booleans()), 'q': vec(E, 1, 5), 'b': vec(S, -2, 2), 'mu': vec(C, -1, 1),
         'sigma': vec(S, 0, 2), 'delta': vec(C, 0, 2), 'seed': draw(st.integers(0, 2 ** 31 - 1)), 'noise': draw(st.booleans())}
    if not c['logistic'] and draw(st.booleans()):
        c['phi'] = vec(E, 0, 2)
    return c


def synth(c, noise=True, seed=None):
    from sureal.dataset_reader import SyntheticLogisticRawDatasetReader, SyntheticRawDatasetReader
    z = (lambda x: np.array(x, float)) if noise else (lambda x: np.zeros(len(x)))
    d = {'quality_scores': np.array(c['q'], float), 'observer_bias': np.array(c['b'], float), 'observer_inconsistency':
         z(c['sigma']), 'content_bias': np.array(c['mu'], float), 'content_ambiguity': z(c['delta'])}
    if 'phi' in c:
        d['quality_ambiguity'] = z(c['phi'])
    if seed is not None or c['seed'] % 3 == 0:
        d['seed'] = seed
    cls = SyntheticLogisticRawDatasetReader if c['logistic'] else SyntheticRawDatasetReader
    o = gen.build(c['ds'])
    return o, cls(o, input_dict=d)


def check_synthetic(c):
    ds = c['ds']
    E, S = len(ds['cells']), len(c['b'])
    mean = np.array([[[c['q'][e] + c['b'][s] + c['mu'][ds['content'][e]]] for s in range(S)] for e in range(E)])
    o, r = synth(c, noise=False)
    before = gen.snapshot(o)
    ref.close(r.opinion_score_3darray, mean, 1e-12, 1e-12, 'noiseless votes')
    require(r.num_observers == S, 'num_observers {}', r.num_observers)
    roundtrip(r, np.asarray(r.opinion_score_3darray, float), 'noiseless votes')
    unchanged(o, before)
    o, r = synth(c, seed=c['seed'])
    x = np.asarray(r.opinion_score_3darray, float)
    require(x.shape == (E, S, 1), 'shape {}', x.shape)
    np.random.seed(3)
    same(r.opinion_score_3darray, x, 'second read with the same seed')
    same(synth(c, seed=c['seed'])[1].opinion_score_3darray, x, 'second reader with the same seed')
    # an entry without any noise is exact also among noisy ones
    for e in range(E):
        for s in range(S):
            if c['sigma'][s] == 0 and c['delta'][ds['content'][e]] == 0 and c.get('phi', [0] * E)[e] == 0:
                ref.close(x[e, s, 0], mean[e, s, 0], 1e-12, 1e-12, 'vote without noise')
    noisy = any(c['sigma']) or any(c['delta'])
    if noisy:
        y = np.asarray(synth(c, seed=c['seed'] // 2 + 7)[1].opinion_score_3darray, float)
        if c['seed'] != c['seed'] // 2 + 7 and np.abs(x - mean).max() > 0:
            require(not np.array_equal(x, y), 'different seeds give the same votes')
    return ['logistic' if c['logistic'] else 'gaussian'] + (['nt'] if E > 1 and S > 1 and noisy else [])


# --- sizes of the random effects ---

@st.composite
def frequency(draw):
    return {'kind': draw(st.sampled_from(['gaussian', 'logistic', 'missing', 'corrupt', 'subject'])),
            'seed': draw(st.integers(0, 2 ** 31 - 1)), 'p': draw(st.sampled_from([0.1, 0.5, 0.8]))}


def check_frequency(c):
    """Spread of the noise per subject, content and video, and frequencies, within about 7 standard errors."""
    from sureal.dataset_reader import (CorruptDataRawDatasetReader, CorruptSubjectRawDatasetReader,
                                       MissingDataRawDatasetReader)
    rng = random.Random(c['seed'])
    E, S, C = (60, 50, 3) if c['kind'] in ('gaussian', 'logistic') else (200, 150, 3)
    content = [e % C for e in range(E)]
    ds = {'style': 'list', 'cells': [[[rng.choice([1, 2, 3, 4, 5])] for _ in range(S)] for _ in range(E)],
          'wrap': [[False] * S for _ in range(E)], 'content': content, 'ref_order': list(range(C)), 'asset': list(range(E)),
          'hidden': {}, 'subjects': ['s{}'.format(i) for i in range(S)], 'ref_score': 5.0, 'name': 'big'}
    if c['kind'] in ('gaussian', 'logistic'):
        k = {'ds': ds, 'logistic': c['kind'] == 'logistic', 'q': [rng.uniform(1, 5) for _ in range(E)],
             'b': [rng.gauss(0, 1) for _ in range(S)], 'mu': [rng.gauss(0, 1) for _ in range(C)]}
        phi = [rng.choice([0.0, 2.0]) for _ in range(E)]
        for which in ('sigma', 'delta', 'phi', 'all'):
            k['sigma'], k['delta'] = [0.0] * S, [0.0] * C
            k.pop('phi', None)
            if which == 'sigma':
                k['sigma'] = [rng.choice([0.5, 1.0, 3.0]) for _ in range(S)]
            elif which == 'delta':
                k['delta'] = [rng.choice([0.5, 1.0, 3.0]) for _ in range(C)]
            elif which == 'all':
                # independent of each other
                k['sigma'], k['delta'] = [1.0] * S, [1.0] * C
                if c['kind'] == 'gaussian':
                    k['phi'] = [1.0] * E
            elif c['kind'] == 'gaussian':
                k['phi'] = phi
            else:
                continue
            x = np.asarray(synth(k, seed=c['seed'])[1].opinion_score_3darray, float)[:, :, 0]
            n = x - np.array([[k['q'][e] + k['b'][s] + k['mu'][content[e]] for s in range(S)] for e in range(E)])
            groups = []
            if which == 'sigma':
                groups = [(n[:, [s for s in range(S) if k['sigma'][s] == v]], v) for v in (0.5, 1.0, 3.0)]
            elif which == 'delta':
                groups = [(n[[e for e in range(E) if content[e] == ct]], k['delta'][ct]) for ct in range(C)]
            elif which == 'all':
                groups = [(n, math.sqrt(3.0 if c['kind'] == 'gaussian' else 2.0))]
            else:
                groups = [(n[[e for e in range(E) if phi[e] == v]], v) for v in (0.0, 2.0)]
            for g, v in groups:
                if g.size < 200:
                    continue
                if v == 0:
                    require(np.abs(g).max() < 1e-9, '{}: noise where there should be none', which)
                    continue
                se = v * 1.2 / math.sqrt(g.size)      # logistic: kurtosis 4.2, standard error of the std 0.89 sigma
                require(abs(g.std() - v) < 7 * se, '{} {}: spread {} instead of {}', c['kind'], which, g.std(), v)
                require(abs(g.mean()) < 7 * v / math.sqrt(g.size), '{} {}: mean {}', c['kind'], which, g.mean())
                # independent votes: averages over subjects and over videos are small
                for ax in (0, 1):
                    m = np.abs(g.mean(axis=ax)).max()
                    require(m < 8 * v / math.sqrt(g.shape[ax]), '{} {}: noise common to {}: {}', c['kind'], which,
                            ('the videos of a subject', 'the subjects of a video')[ax], m)
        return [c['kind'], 'nt']
    full = gen.array3d(ds)
    np.random.seed(c['seed'])
    p = c['p']
    if c['kind'] == 'missing':
        d = {'missing_probability': p}
        if c['seed'] % 2:
            d['seed'] = c['seed']
        got = MissingDataRawDatasetReader(gen.build(ds), input_dict=d).opinion_score_3darray
        hit = np.isnan(got).ravel()
    elif c['kind'] == 'corrupt':
        got = CorruptDataRawDatasetReader(gen.build(ds), input_dict={'corrupt_probability': p}).opinion_score_3darray
        hit = (got != full).ravel()
        v = got[got != full]
        require(abs(v.mean() - 3) < 7 * 1.16 / math.sqrt(len(v)), 'replaced by votes of mean {} instead of 3', v.mean())
    else:
        sel = [s for s in range(S) if s % 2]
        got = CorruptSubjectRawDatasetReader(gen.build(ds), input_dict={
            'selected_subjects': sel, 'corrupt_behavior': 'flip', 'corrupt_probability': p}).opinion_score_3darray
        mask = full[:, sel, 0] != 3        # flipping 3 changes nothing
        hit = (got[:, sel, 0] != full[:, sel, 0])[mask].ravel()
    if c['kind'] in ('missing', 'corrupt'):
        # votes are concerned independently of each other
        h = hit.reshape(E, S)
        for ax in (0, 1):
            m = np.abs(h.mean(axis=ax) - p).max()
            require(m < 8 * math.sqrt(p * (1 - p) / h.shape[ax]), '{}: {} of a {} instead of {}', c['kind'], m, ('subject', 'video')[ax], p)
    se = math.sqrt(p * (1 - p) / len(hit))
    require(abs(hit.mean() - p) < 7 * se, '{}: {} of the votes concerned instead of {}', c['kind'], hit.mean(), p)
    return [c['kind'], 'nt']


SUBTESTS = [Sub('select_subjects', select_subjects(), check_subjects, quick=1200, thorough=16000),
            Sub('select_videos', select_videos(), check_videos, quick=1200, thorough=16000),
            Sub('corrupt_subjects', corrupt(), check_corrupt, quick=1600, thorough=24000),
            Sub('missing_and_corrupt_votes', votes(), check_votes, quick=1200, thorough=16000),
            Sub('synthetic', synthetic(), check_synthetic, quick=1200, thorough=16000),
            Sub('frequencies', frequency(), check_frequency, quick=120, thorough=1500)]
