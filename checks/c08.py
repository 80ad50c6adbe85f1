"""C08: subject rejection follows ITU-R BT.500."""
import random

import numpy as np
from hypothesis import strategies as st

from checks.c04 import compare
from checks.c05 import flags
from lib import gen, ref, sut
from lib.core import Sub, require

RULE = 'a decision of the rule in which at least one vote is an outlier of a subject (its counts are not both zero)'
ASSUMPTIONS = ['cases in which a vote or the kurtosis lies within rounding error of its threshold and the arithmetic is not '
               'exact are not judged (label ambiguous)']


@st.composite
def panel(draw, S=(6, 26), E=(4, 24), R=(1, 3), kinds=('spread', 'narrow', 'mixed', 'unanimous', 'gauss')):
    """Panels with erratic subjects who vote far above and below the others."""
    nE, nS = draw(st.integers(*E)), draw(st.integers(*S))
    if draw(st.integers(0, 3)) == 0:
        nE = draw(st.sampled_from([10, 20, 20, 20]))
    nR = draw(st.sampled_from(list(range(R[0], R[1] + 1)) + [1]))
    kind = draw(st.sampled_from(list(kinds)))
    rng = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
    pm = draw(st.sampled_from([0, 0, 0.1, 0.3]))
    n_err = draw(st.integers(0, 3))
    err = rng.sample(range(nS), min(n_err, nS))
    p_out = draw(st.sampled_from([0.06, 0.1, 0.3, 0.6]))
    p_high = draw(st.sampled_from([0.5, 0.5, 0.35, 0.65, 0.0, 1.0]))
    cells, wrap = [], []
    for e in range(nE):
        k = kind if kind != 'mixed' else rng.choice(['spread', 'narrow', 'gauss'])
        base = rng.choice([3, 3, 4, 2, 5])
        row = []
        for s in range(nS):
            c = []
            for _ in range(rng.randint(1, nR)):
                if s in err and rng.random() < p_out:
                    d = rng.choice([2, 3, 4, 6])
                    v = base + d if rng.random() < p_high else base - d
                elif k == 'spread':
                    v = base + rng.choice([-1, 0, 0, 1])
                elif k == 'narrow':
                    v = base + (rng.choice([-1, 1]) if rng.random() < 0.1 else 0)
                elif k == 'gauss':
                    v = base + round(rng.gauss(0, 0.7), 3)
                else:
                    v = base
                c.append(v)
            row.append([] if rng.random() < pm else c)
        if not any(row):
            row[0] = [base]
        cells.append(row)
        wrap.append([rng.random() < 0.2 for _ in range(nS)])
    for s in range(nS):
        if not any(cells[e][s] for e in range(nE)):
            cells[s % nE][s] = [3]
    nC = rng.randint(1, min(3, nE))
    content = list(range(nC)) + [rng.randrange(nC) for _ in range(nE - nC)]
    rng.shuffle(content)
    names = list(gen.NAMES)
    rng.shuffle(names)
    hidden = {str(c): rng.choice([e for e in range(nE) if content[e] == c]) for c in range(nC)}
    return {'style': draw(st.sampled_from(['list', 'dict'])), 'cells': cells, 'wrap': wrap, 'content': content,
            'ref_order': list(range(nC)), 'asset': list(range(nE)), 'hidden': hidden, 'subjects': names[:nS],
            'ref_score': 5.0, 'name': 'ds'}


def decide(res, V, what):
    """V: the votes on which the rule is applied."""
    R = ref.maxrep(V)
    rej, s1, s2 = ref.bt500(V, len(V) * R)
    got = [bool(x) for x in res['observer_rejected']]
    require(got == rej, '{}: rejected {} instead of {}', what, str([i for i, x in enumerate(got) if x]),
            str([i for i, x in enumerate(rej) if x]))
    ref.close(res['observer_rejected_1st_stats'], s1, 1e-12, 1e-12, what + ' first statistic')
    ref.close(res['observer_rejected_2nd_stats'], s2, 1e-12, 1e-12, what + ' second statistic')
    lab = []
    if any(x > 0 for x in s1):
        lab.append('nt')
    if any(rej):
        lab.append('rejected')
    if any(abs(x - 0.05) < 1e-12 for x in s1):
        lab.append('at_5_percent')
    if any(a > 0.05 and b >= 0.3 for a, b in zip(s1, s2)):
        lab.append('one_sided')
    return rej, lab


def check(ds):
    V = gen.votes3d(ds)
    try:
        ref.bt500(V, len(V) * ref.maxrep(V))
    except ref.Ambiguous:
        return ['ambiguous']
    res = sut.run('SR_MOS', ds)
    rej, lab = decide(res, V, 'SR_MOS')
    compare(res, ref.drop_subjects(V, rej), V, 2 * len(V), 'SR_MOS')
    require(len(res['raw_scores'][0]) == len(rej) - sum(rej), 'raw_scores hold rejected subjects')
    alt = sut.run('MOS', ds, subject_rejection=True)
    for k in ('quality_scores', 'quality_scores_std', 'observer_rejected_1st_stats'):
        ref.close(alt[k], res[k], 1e-12, 1e-12, 'MOS with subject_rejection: ' + k)
    return lab + gen.labels(ds)


def check_after(c):
    """The rule is applied to the votes left by the preceding step."""
    ds, step = c['ds'], c['step']
    V = gen.votes3d(ds)
    E, S, R = len(V), len(V[0]), ref.maxrep(V)
    if step == 'ZS_SR_MOS' or step == 'ZS_SR_DMOS':
        if not all(ref.std(v, 1) > 1e-3 for v in ref.flat_subject(V)):
            return ['skip']
    D = ref.dscore(V, ds['content'], flags(ds), ds['ref_score']) if 'DMOS' in step else V
    if step in ('ZS_SR_MOS', 'ZS_SR_DMOS'):
        if not all(ref.std(v, 1) > 1e-3 for v in ref.flat_subject(D)):
            return ['skip']
        W, dof = ref.zscore(D), 2 * E
    elif step == 'BR_SR_MOS':
        W, dof = ref.unbias(D)[0], 2 * E + S * R
    else:
        W, dof = D, 2 * E
    if W is not V:
        # computed votes: whether equal ones deviate from their mean is a matter of rounding unless they are exact
        for v in ref.flat_video(W):
            if max(v) - min(v) < 1e-6 and not ref.exact(v):
                return ['ambiguous']
    try:
        ref.bt500(W, E * R)
    except ref.Ambiguous:
        return ['ambiguous']
    res = sut.run(step, ds)
    rej, lab = decide(res, W, step)
    compare(res, ref.drop_subjects(W, rej), V, dof, step, R=R)
    if step == 'BR_SR_MOS':
        ref.close(res['observer_bias'], ref.bias(V), 1e-9, 1e-8, 'observer_bias with rejection')
    return lab + [step]


@st.composite
def after(draw):
    return {'ds': draw(panel()), 'step': draw(st.sampled_from(['BR_SR_MOS', 'BR_SR_MOS', 'ZS_SR_MOS', 'SR_DMOS',
                                                              'ZS_SR_DMOS']))}


@st.composite
def twin(draw):
    """A panel of two subjects with mirrored votes: everybody or nobody is an outlier."""
    nE = draw(st.integers(1, 8))
    nS = draw(st.integers(2, 6))
    rng = random.Random(draw(st.integers(0, 2 ** 31)))
    ds = draw(panel(S=(2, 2), E=(2, 2), R=(1, 1), kinds=('unanimous',)))
    ds['cells'] = []
    for e in range(nE):
        if rng.random() < 0.4:
            b = rng.randint(1, 5)
            ds['cells'].append([[b]] * nS)
        else:
            ds['cells'].append([[rng.choice([1, 5, 3])] for _ in range(nS)])
    ds['wrap'] = [[False] * nS for _ in range(nE)]
    ds['content'] = [0] * nE
    ds['ref_order'] = [0]
    ds['asset'] = list(range(nE))
    ds['hidden'] = {'0': 0}
    ds['subjects'] = gen.NAMES[:nS]
    return ds


SUBTESTS = [Sub('rule', panel(), check, quick=2400, thorough=40000),
            Sub('after_preprocessing', after(), check_after, quick=800, thorough=12000),
            Sub('all_or_none', twin(), check, quick=500, thorough=4000)]
