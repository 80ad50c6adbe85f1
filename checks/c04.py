"""C04: mean opinion scores and their statistics are exact."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, ref, sut
from lib.core import Sub, require

RULE = 'at least two videos with at least two different votes each, or missing votes or repetitions'


def compare(res, V, V0, dof, what, R=None, skip=()):
    """All outputs of a member of the MOS family against their definitions."""
    s = ref.mos_stats(V, V0, dof)
    sc = max([1.0] + [abs(v) for row in V for c in row for v in c])
    t = dict(rtol=1e-9, atol=1e-10 * sc)
    ref.close(res['quality_scores'], s['mos'], what=what + ' quality_scores', **t)
    ref.close(res['quality_ambiguity'], s['sd'], what=what + ' quality_ambiguity', **t)
    ref.close(res['quality_scores_std'], s['se'], what=what + ' quality_scores_std', **t)
    half = [ref.Z95 * x for x in s['se']]
    ref.close(res['quality_scores_ci95'], [half, half], what=what + ' quality_scores_ci95', **t)
    R = R or ref.maxrep(V0)
    ref.close(ref.compact(res['raw_scores']), ref.to_array(V, R), what=what + ' raw_scores', **t)
    ref.close(res['reconstructions'], np.tile(np.array(s['mos'])[:, None, None], (1, len(V[0]), R)),
              what=what + ' reconstructions', **t)
    ref.close(res['dof'], s['dof'], what=what + ' dof')
    # the likelihood is undefined for videos whose votes are all equal
    if s['ll'] is not None and all(not (x < 1e-9 * sc) for x in s['sd']):
        ref.close(res['loglikelihood'], s['ll'], 1e-8, 1e-8, what + ' loglikelihood')
        ref.close(res['aic'], s['aic'], 1e-8, 1e-8, what + ' aic')
        ref.close(res['bic'], s['bic'], 1e-8, 1e-8, what + ' bic')
        return ['likelihood']
    return []


def nontrivial(ds):
    V = gen.votes3d(ds)
    lab = gen.labels(ds)
    many = sum(len(set(v)) > 1 for v in ref.flat_video(V)) >= 2
    return ['nt'] if many and (len(V) > 1) else []


def check(ds):
    V = gen.votes3d(ds)
    res = sut.run('MOS', ds)
    lab = compare(res, V, V, 2 * len(V), 'MOS')
    order = gen.subject_order(ds)
    if ds['style'] == 'dict':
        require(list(res['observers']) == [ds['subjects'][s] for s in order], 'observers {}', str(res.get('observers')))
    return lab + gen.labels(ds) + nontrivial(ds)


@st.composite
def pair(draw):
    """A dataset, and the same with additional missing slots (list style)."""
    ds = draw(gen.raw(styles=('list', 'tuple'), min_video=1))
    return {'ds': ds, 'extra': draw(st.integers(1, 3)), 'where': draw(st.integers(0, 5))}


def check_missing(c):
    """Subjects who never voted have no influence at all."""
    ds = c['ds']
    a = sut.run('MOS', ds)
    d2 = dict(ds)
    k = c['where'] % (len(ds['cells'][0]) + 1)
    d2['cells'] = [row[:k] + [[]] * c['extra'] + row[k:] for row in ds['cells']]
    d2['wrap'] = [row[:k] + [False] * c['extra'] + row[k:] for row in ds['wrap']]
    d2['subjects'] = ds['subjects'] + ['n{}'.format(i) for i in range(c['extra'])]
    b = sut.run('MOS', d2)
    for key in ('quality_scores', 'quality_scores_std', 'quality_ambiguity', 'quality_scores_ci95', 'dof', 'aic', 'bic',
                'loglikelihood'):
        ref.close(b[key], a[key], 1e-9, 1e-9, key + ' with subjects who did not vote')
    return nontrivial(ds)


@st.composite
def after(draw):
    from checks.c08 import panel
    return {'ds': draw(panel()), 'step': draw(st.sampled_from(['subject_rejection', 'subject_rejection', 'bias_offset',
                                                              'dscore_mode', 'zscore_mode']))}


def check_after(c):
    """The statistics describe the votes used; degrees of freedom and BIC count the votes of the dataset."""
    from checks.c05 import flags
    ds, step = c['ds'], c['step']
    V = gen.votes3d(ds)
    E, S, R = len(V), len(V[0]), ref.maxrep(V)
    lab = [step]
    if step == 'subject_rejection':
        try:
            rej = ref.bt500(V, E * R)[0]
        except ref.Ambiguous:
            return ['ambiguous']
        W = ref.drop_subjects(V, rej)
        if not all(ref.flat_video(W)):
            return ['skip']
        if any(rej):
            lab.append('nt')
    else:
        if step == 'dscore_mode':
            W = ref.dscore(V, ds['content'], flags(ds), ds['ref_score'])
        elif step == 'zscore_mode':
            if not all(ref.std(x, 1) > 1e-3 for x in ref.flat_subject(V)):
                return ['skip']
            W = ref.zscore(V)
        else:
            W = ref.unbias(V)[0]
        lab.append('nt')
    res = sut.run('MOS', ds, **{step: True})
    return lab + compare(res, W, V, 2 * E, 'MOS after ' + step, R=R)


SUBTESTS = [Sub('definitions', gen.raw(E=(1, 9), S=(1, 7)), check, quick=2000, thorough=30000),
            Sub('missing_votes', pair(), check_missing, quick=600, thorough=8000),
            Sub('preprocessed', after(), check_after, quick=700, thorough=8000)]
