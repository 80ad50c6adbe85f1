"""C14: scores follow a change of the rating scale."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, models, ref, sut
from lib.core import Sub, require

RULE = 'at least two videos and two subjects with votes that are not all equal, and a change of scale that is not the identity'
ASSUMPTIONS = ['cases in which a rejection decision lies within rounding error of its threshold before or after the change are '
               'not judged; iterative models are judged where they converge to a non-degenerate solution']
SCALED = ('quality_scores_std', 'quality_ambiguity', 'quality_scores_ci95', 'observer_bias', 'observer_bias_std',
          'observer_bias_ci95', 'observer_inconsistency', 'observer_inconsistency_std', 'observer_inconsistency_ci95',
          'observer_scores_std', 'content_ambiguity', 'content_ambiguity_std', 'content_ambiguity_ci95')
MOVED = ('quality_scores', 'observer_scores_mean', 'raw_scores', 'reconstructions')


def rescale(ds, f, k):
    d = copy.deepcopy(ds)
    d['cells'] = [[[v * f + k for v in c] for c in row] for row in ds['cells']]
    if ds.get('ref_score') is not None:
        d['ref_score'] = ds['ref_score'] * f + k
    return d


change = st.tuples(st.sampled_from([1.0, 1.0, 2.0, 0.5, 10.0, 20.0, 0.3, 7.7]),
                   st.sampled_from([0.0, 0.0, 1.0, -3.0, 0.125, 17.3, -100.0, 250.0]))


def judge(c):
    ds, model, (f, k) = c['ds'], c['model'], c['change']
    if not models.fit(model, ds):
        return ['unfit']
    other = rescale(ds, f, k)
    if not models.fit(model, other):
        return ['unfit']
    if not (models.stable(model, ds) and models.stable(model, other)):
        return ['ambiguous']
    a, b = sut.run(model, ds), sut.run(model, other)
    if not (models.settled(model, a, ds) and models.settled(model, b, other)):
        return ['unsettled']
    z = 'z' in models.STEPS[model]
    fs = {}
    if not z:
        for key in SCALED:
            fs[key] = lambda u: u * f
        for key in MOVED:
            fs[key] = lambda u: u * f + k
        fs['loglikelihood'] = lambda u: u - math.log(f)
        fs['aic'] = fs['bic'] = lambda u: u + 2 * math.log(f)
    skip = []
    tol = max(models.tolerance(model), 1e-8)
    if model in models.MLE:
        skip = ['observer_inconsistency_std', 'content_ambiguity_std', 'content_ambiguity_ci95']
        tol = 1e-4
    elif model in models.PROJECTION:
        tol = 1e-4
    else:
        tol = 1e-7
        # the likelihood is undefined for a video with less than two different votes
        for row in np.asarray(a.get('raw_scores', []), float):
            v = row[~np.isnan(row)]
            if v.size < 2 or v.max() - v.min() < 1e-6 * max(1.0, np.abs(v).max()):
                skip = ['loglikelihood', 'aic', 'bic']
    models.compare(a, b, tol, '{} with votes * {} + {}'.format(model, f, k), f=fs, skip=skip)
    E, S, R = gen.dims(ds)
    vs = set(v for row in ds['cells'] for cc in row for v in cc)
    return [model, 'shift' if f == 1 else 'scale'] + (['nt'] if (f, k) != (1, 0) and E > 1 and S > 1 and len(vs) > 1 else [])


@st.composite
def direct(draw):
    model = draw(st.sampled_from(models.DIRECT))
    single = model in models.SINGLE
    ds = draw(gen.raw(E=(1, 8), S=(1, 7), R=(1, 1 if single else 3), missing=not single, hidden_ref=True))
    return {'ds': ds, 'model': model, 'change': draw(change)}


@st.composite
def panels(draw):
    from checks.c08 import panel
    return {'ds': draw(panel(S=(6, 16), E=(4, 14))), 'change': draw(change),
            'model': draw(st.sampled_from([m for m in models.DIRECT if set(models.STEPS[m]) & set('rps')]))}


@st.composite
def projection(draw):
    return {'ds': draw(gen.well_posed(E=(10, 18), S=(9, 15), R=(1, 2))), 'change': draw(change),
            'model': draw(st.sampled_from(models.PROJECTION))}


@st.composite
def mle(draw):
    model = draw(st.sampled_from(models.MLE))
    single = model in models.SINGLE
    return {'ds': draw(gen.well_posed(E=(12, 20), S=(12, 17), R=(1, 1 if single else 2), missing=not single)),
            'change': draw(change), 'model': model}


SUBTESTS = [Sub('direct_models', direct(), judge, quick=3000, thorough=30000),
            Sub('rejection_models', panels(), judge, quick=1000, thorough=10000),
            Sub('projection', projection(), judge, quick=320, thorough=4000),
            Sub('maximum_likelihood', mle(), judge, quick=96, thorough=1000, shrink=40)]
