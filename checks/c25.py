"""C25: bootstrapped intervals come from resampling subjects and videos."""
import copy

import numpy as np
from hypothesis import strategies as st

from lib import gen, ref, sut
from lib.core import Sub, require

RULE = 'at least two refits per interval, every refit determined (each resampled table keeps two votes per video and subject)'
ASSUMPTIONS = ['refit i resamples with numpy.random.seed(i) followed by numpy.random.choice, as the recorded results of the '
               'existing tests require',
               'cases where some refit is undetermined (a resampled panel leaves a video or subject with too few votes) are not judged',
               'in "resampling" the iterative fit is replaced by sample moments with an arbitrary common offset']
PLAIN = {'MLE_BSTP': 'MLE', 'MLE_CO_BSTP': 'MLE_CO'}
POINT = ('quality_scores', 'observer_bias', 'observer_inconsistency', 'content_ambiguity')


@st.composite
def case(draw, E=(6, 12), S=(6, 10), R=(1, 1), kw=True):
    ds = draw(gen.well_posed(E=E, S=S, R=R, C=(1, 2), styles=('list', 'dict', 'tuple')))
    k = draw(st.sampled_from([None, None, None, None, 'bias_offset', 'zscore_mode', 'dscore_mode'])) if kw else None
    kw = {}
    if k:
        kw[k] = True
    return {'ds': ds, 'model': draw(st.sampled_from(['MLE_CO_BSTP', 'MLE_CO_BSTP', 'MLE_BSTP'])), 'n': draw(st.sampled_from([1, 2, 3, 5, 8])),
            'zeromean': draw(st.sampled_from([None, True, False])),
            'subjects': draw(st.sampled_from([None, True, True, False])), 'videos': draw(st.sampled_from([None, True, True, False])), 'kw': kw}


def listed(ds, subjects=None, videos=None, eps=0.0):
    """The dataset with columns in reading order as a list-style dataset, resampled, votes scaled by (1 + eps)."""
    V = gen.votes3d(ds)
    E, S = len(V), len(V[0])
    subjects = list(range(S)) if subjects is None else subjects
    videos = list(range(E)) if videos is None else videos
    out = {'style': 'list', 'cells': [[[x * (1 + eps) for x in V[e][s]] for s in subjects] for e in videos],
           'wrap': [[False] * len(subjects) for _ in videos], 'content': [ds['content'][e] for e in videos],
           'ref_order': ds['ref_order'], 'asset': list(range(len(videos))), 'hidden': {},
           'subjects': gen.NAMES[:len(subjects)], 'ref_score': ds['ref_score'], 'name': 'r'}
    inv = {e: c for c, e in ds['hidden'].items()}
    return out, [inv.get(e) for e in videos]


def run_plain(model, out, inv, kw):
    d = gen.build(out)
    for v, c in zip(d.dis_videos, inv):
        if c is not None:
            v['path'] = 'ref/{}.yuv'.format(c)
    from sureal.dataset_reader import RawDatasetReader
    return sut.model_class(model)(RawDatasetReader(d)).run_modeling(**kw)


def oracle(c, eps):
    ds, model = c['ds'], PLAIN[c['model']]
    V = gen.votes3d(ds)
    E, S = len(V), len(V[0])
    kw = dict(c['kw'], force_subjbias_zeromean=False)
    A = lambda x: np.array(x, dtype=float)
    point = run_plain(model, *listed(ds, eps=eps), kw)
    q, b, v = A(point['quality_scores']), A(point['observer_bias']), A(point['observer_inconsistency'])
    out = {'point': point, 'raw': []}
    if c['subjects'] is not False:
        Q = []
        for i in range(c['n']):
            np.random.seed(i)
            sel = [int(x) for x in np.random.choice(range(S), size=S, replace=True)]
            r = run_plain(model, *listed(ds, subjects=sel, eps=eps), kw)
            off = np.mean(A(r['observer_bias']) - b[sel])
            Q.append(A(r['quality_scores']) + off)
            out['raw'] += [A(r['observer_inconsistency'])]
        out['quality_scores_ci95'] = [q - np.percentile(Q, 2.5, axis=0), np.percentile(Q, 97.5, axis=0) - q]
    if c['videos'] is not False:
        B, I = [], []
        for i in range(c['n']):
            np.random.seed(i)
            sel = [int(x) for x in np.random.choice(range(E), size=E, replace=True)]
            r = run_plain(model, *listed(ds, videos=sel, eps=eps), kw)
            off = np.mean(A(r['quality_scores']) - q[sel])
            B.append(A(r['observer_bias']) + off)
            I.append(A(r['observer_inconsistency']))
        out['raw'] += I
        out['observer_bias_ci95'] = [b - np.percentile(B, 2.5, axis=0), np.percentile(B, 97.5, axis=0) - b]
        out['observer_inconsistency_ci95'] = [v - np.percentile(I, 2.5, axis=0), np.percentile(I, 97.5, axis=0) - v]
    return out


def attempt(c):
    try:
        return oracle(c, 0.0)
    except Exception:   # the plain model itself fails on a resampled table: variances vanish
        return None


CIS = ('quality_scores_ci95', 'observer_bias_ci95', 'observer_inconsistency_ci95')


def determined(c, need=2):
    """Every resampled table leaves each video and each subject at least two votes (of different videos / subjects)."""
    V = gen.votes3d(c['ds'])
    E, S = len(V), len(V[0])
    tables = [(range(E), range(S))]
    for i in range(c['n']):
        if c['subjects'] is not False:
            np.random.seed(i)
            tables.append((range(E), np.random.choice(range(S), size=S, replace=True)))
        if c['videos'] is not False:
            np.random.seed(i)
            tables.append((np.random.choice(range(E), size=E, replace=True), range(S)))
    for ve, su in tables:
        if any(len(set(s for s in su if V[e][s])) < need for e in ve) or any(len(set(e for e in ve if V[e][s])) < need for s in su):
            return False
    return True


def compare(c, o, res, scale):
    ds = c['ds']
    for k in CIS:
        want = k in o
        require((k in res) == want, '{} {} although its bootstrap is switched {}', k, 'reported' if k in res else 'missing', 'on' if want else 'off')
        if want:
            require(np.array(res[k]).shape == (2, len(ds['cells']) if k.startswith('q') else len(gen.votes3d(ds)[0])), '{} has shape {}', k,
                    np.array(res[k]).shape)
            ref.close(np.array(res[k], float), np.array(o[k]), 0, 1e-6 * scale, '{} {}'.format(c['model'], k))


def options(c):
    kw = dict(c['kw'], n_bootstrap=c['n'])
    for key, name in (('zeromean', 'force_subjbias_zeromean'), ('subjects', 'bootstrap_subjects'), ('videos', 'boostrap_dis_videos')):
        if c[key] is not None:
            kw[name] = c[key]
    return kw


def against_plain(c, res, scale, o):
    """Point estimates and everything but the intervals are those of the plain model."""
    plain = dict(sut.run(PLAIN[c['model']], c['ds'], **dict(c['kw'], force_subjbias_zeromean=False)))
    if c['zeromean'] is not False:
        # the common offset is chosen at the end (the plain model chooses it in every iteration: same optimum)
        m = float(np.mean(plain['observer_bias']))
        plain['quality_scores'] = np.array(plain['quality_scores'], float) + m
        plain['observer_bias'] = np.array(plain['observer_bias'], float) - m
    missing = set(plain) - set(res) - (set(CIS) - set(o))
    require(not missing, 'results {} of the plain model are missing', sorted(missing))
    for k in plain:
        if k in CIS or k in ('observers', 'num_iter') or plain[k] is None:
            continue
        x = np.array(plain[k], float)
        ref.close(np.array(res[k], float), x, 1e-6, 1e-6 * scale, '{} {} against the plain model'.format(c['model'], k))
    if 'observers' in plain:
        require(list(res['observers']) == list(plain['observers']), 'observers {} instead of {}', res['observers'], plain['observers'])


def describe(c, o):
    return [c['model'], 'subjects' if 'quality_scores_ci95' in o else 'no_subjects',
            'videos' if 'observer_bias_ci95' in o else 'no_videos'] + sorted(c['kw']) + gen.labels(c['ds'])


def check(c):
    ds = c['ds']
    if c['kw'].get('dscore_mode') and c['videos'] is not False:
        return ['undetermined']     # resampled videos need not contain the references
    if not determined(c):
        return ['undetermined']
    o = attempt(c)
    if o is None:
        return ['collapsed']
    a = gen.array3d(ds)
    scale = 1.0 if c['kw'].get('zscore_mode') else float(np.nanmax(a) - np.nanmin(a))
    # without repetitions both sides compute the same numbers from the same table
    res = sut.run(c['model'], ds, **options(c))
    compare(c, o, res, scale)
    against_plain(c, res, scale, o)
    return ['nt' if c['n'] > 1 else 'single'] + describe(c, o)


# ---- the same with a cheap stand-in for the fit, so that many more resamplings are reached --------

@st.composite
def quick_case(draw):
    size = draw(st.sampled_from([0] * 12 + [1, 2]))       # now and then many subjects or many videos
    c = draw(case(E=(40, 60) if size == 2 else (2, 9), S=(36, 42) if size == 1 else (2, 8), R=(1, 1 if size else 3), kw=False))
    c['n'] = draw(st.sampled_from([1, 2, 3, 5, 17, 40, 1, 2, 3, 5, 17, 40, 64, 101]))
    c['gauge'] = draw(st.integers(-3, 3))
    return c


def stand_in(gauge):
    """Replaces the iterative fit by sample moments, with a data-dependent common offset between quality and bias."""
    def fit(cls, dataset_reader, **kwargs):
        fit.calls += 1
        X = np.array(dataset_reader.opinion_score_3darray, dtype=float)
        E, S = X.shape[:2]
        q = np.nanmean(X.reshape(E, -1), axis=1)
        r = X - q[:, None, None]
        b = np.nanmean(np.transpose(r, (1, 0, 2)).reshape(S, -1), axis=1)
        v = np.nanstd(np.transpose(r - b[None, :, None], (1, 0, 2)).reshape(S, -1), axis=1) + 0.1
        off = gauge * (0.5 + np.nanmean(X ** 2) % 1.0)
        q, b = q + off, b - off
        if kwargs.get('force_subjbias_zeromean', True) is not False:
            q, b = q + b.mean(), b - b.mean()
        z = lambda x: [x * 0.1, x * 0.2]
        return {'quality_scores': list(q), 'quality_scores_std': list(q * 0), 'quality_scores_ci95': z(q),
                'observer_bias': list(b), 'observer_bias_std': list(b * 0), 'observer_bias_ci95': z(b),
                'observer_inconsistency': list(v), 'observer_inconsistency_std': list(v * 0), 'observer_inconsistency_ci95': z(v),
                'aic': 1.5, 'bic': 2.5, 'dof': E + 2 * S, 'loglikelihood': -3.25, 'num_iter': 4}
    fit.calls = 0
    return fit


def check_standin(c):
    from sureal.subjective_model import MaximumLikelihoodEstimationModel as M
    if not determined(c, 1):
        return ['undetermined']
    fit = stand_in(c['gauge'])
    had = M.__dict__['_run_modeling']
    M._run_modeling = classmethod(fit)
    try:
        res = sut.run(c['model'], c['ds'], **options(c))
        if not fit.calls:
            return ['stand_in_unused']      # the fit is reached on another way
        o = oracle(c, 0.0)
        scale = float(np.nanmax(gen.array3d(c['ds'])) - np.nanmin(gen.array3d(c['ds']))) + 1
        compare(c, o, res, scale)
        against_plain(c, res, scale, o)
    finally:
        M._run_modeling = had
    return ['nt' if c['n'] > 1 else 'single'] + describe(c, o)


@st.composite
def small(draw):
    return {'ds': draw(gen.well_posed(E=(8, 12), S=(8, 11), R=(1, 1), C=(1, 2))), 'model': draw(st.sampled_from(['MLE_CO_BSTP', 'MLE_BSTP'])),
            'n': draw(st.integers(2, 3)), 'assets': draw(st.integers(0, 10 ** 6)), 'noise': draw(st.integers(0, 1000))}


def check_repro(c):
    """Same result on every run, whatever random numbers were drawn before and whatever the videos are numbered."""
    import random
    ds = copy.deepcopy(c['ds'])
    kw = {'n_bootstrap': c['n']}
    if not determined(dict(c, subjects=None, videos=None)):
        return ['undetermined']
    if attempt(dict(c, subjects=None, videos=None, kw={})) is None:
        return ['collapsed']
    np.random.seed(c['noise'] + 1)
    a = sut.run(c['model'], ds, **kw)
    np.random.seed(c['noise'])
    np.random.rand(c['noise'] % 7)
    ds['asset'] = random.Random(c['assets']).sample(range(0, 3 * len(ds['cells'])), len(ds['cells']))
    b = sut.run(c['model'], ds, **kw)
    for k in a:
        if k in ('observers', 'num_iter') or a[k] is None:
            continue
        x, y = np.array(a[k], float), np.array(b[k], float)
        require(np.array_equal(x, y, equal_nan=True), '{} {}: {} at first, {} when repeated with other asset numbers', c['model'], k, x, y)
    return ['nt', c['model']]


def check_default(c):
    """Thirty resamplings of each kind unless told otherwise (stand-in for the fit)."""
    from sureal.subjective_model import MaximumLikelihoodEstimationModel as M
    c = dict(c, n=30, subjects=None, videos=None, zeromean=None, kw={}, gauge=1)
    if not determined(c, 1):
        return ['undetermined']
    had = M.__dict__['_run_modeling']
    M._run_modeling = classmethod(stand_in(1))
    try:
        a = sut.run(c['model'], c['ds'])
        b = sut.run(c['model'], c['ds'], n_bootstrap=30)
    finally:
        M._run_modeling = had
    for k in CIS:
        require(np.array_equal(np.array(a[k], float), np.array(b[k], float), equal_nan=True), '{}: default is not 30 resamplings', k)
    return ['nt']


SUBTESTS = [Sub('resampling', quick_case(), check_standin, quick=400, thorough=8000),
            Sub('intervals', case(), check, quick=32, thorough=800), Sub('reproducible', small(), check_repro, quick=16, thorough=300),
            Sub('default', small(), check_default, quick=16, thorough=200)]
