"""C10: the P.910 solution is a fixed point of its defining equations."""
import math
import random

import numpy as np
from hypothesis import strategies as st
from scipy.stats import chi2

from checks.c05 import flags
from checks.c08 import panel
from lib import gen, ref, sut
from lib.core import Sub, require

RULE = ('the iteration converged (fewer than 1000 iterations) to positive inconsistencies, with at least three subjects whose '
        'inconsistencies differ')
ASSUMPTIONS = ['non-converged or degenerate solutions (an inconsistency below 1e-3 of the vote range) are checked only for '
               'their definitions, not for stationarity']
V1 = ('Subject_MLE_Projection', 'MLE_CO_AP')
V2 = ('Subject_MLE_Projection2', 'MLE_CO_AP2', 'P910')


def reference(W, limit=1000, thr=1e-8):
    """The alternating projection of the standard on a flat list of votes, started at the mean opinion scores."""
    J, I = len(W), len(W[0])
    j, i, y = (np.array(u) for u in zip(*[(a, b, float(x)) for a, row in enumerate(W) for b, c in enumerate(row) for x in c]))
    nj, ni = np.bincount(j, minlength=J), np.bincount(i, minlength=I)
    if (nj == 0).any() or (ni == 0).any():
        return None
    s = np.bincount(j, y, J) / nj
    b = np.bincount(i, y - s[j], I) / ni
    for it in range(1, limit + 1):
        r = y - s[j] - b[i]
        m = np.bincount(i, r, I) / ni
        v = np.sqrt(np.bincount(i, (r - m[i]) ** 2, I) / ni)
        w = 1 / (v[i] ** 2 + 1e-8)
        new = np.bincount(j, (y - b[i]) * w, J) / np.bincount(j, w, J)
        b = np.bincount(i, y - new[j], I) / ni
        d = np.linalg.norm(new - s)
        s = new
        if d < thr:
            return s + b.mean(), b - b.mean(), v, it
    return None


def solution_checks(res, W, V0, variant, what, zeromean=True):
    """All relations between the outputs, for processed votes W and original votes V0."""
    J, I = len(W), len(W[0])
    R = ref.maxrep(V0)
    s, b, v = (list(map(float, res[k])) for k in ('quality_scores', 'observer_bias', 'observer_inconsistency'))
    require(len(s) == J and len(b) == I and len(v) == I, '{}: {} scores, {} biases, {} inconsistencies for {} x {}', what,
            len(s), len(b), len(v), J, I)
    allv = [x for row in W for c in row for x in c]
    rng = max(allv) - min(allv)
    sc = max(1.0, max(abs(x) for x in allv))
    lab = []
    if zeromean:
        ref.close(ref.mean(b), 0.0, 0, 1e-9 * sc, what + ' mean bias')
    fs = [[(j, x) for j, row in enumerate(W) for x in row[i]] for i in range(I)]
    n_i = [len(f) for f in fs]
    n_j = [len(f) for f in ref.flat_video(W)]
    conv = res['num_iter'] < 1000
    good = conv and min(v) > 1e-3 * max(rng, 1e-300) and rng > 0
    want = reference(W) if rng > 0 else None
    if want is not None and want[2].min() > 1e-2 * rng and want[3] < 700:
        # a regular solution: it has to be found
        lab.append('regular')
        require(conv, '{} did not converge, the alternating projection does after {} iterations', what, want[3])
        shift = ref.mean(b)
        for k, g, w in (('quality', [x + shift for x in s], want[0]), ('bias', [x - shift for x in b], want[1]),
                        ('inconsistency', v, want[2])):
            ref.close(g, w, what='{} {} versus the alternating projection'.format(what, k), rtol=1e-5, atol=1e-5 * rng)
    if good:
        lab.append('converged')
        tol = dict(rtol=2e-5, atol=2e-5 * rng)
        for i in range(I):
            ref.close(b[i], ref.mean([x - s[j] for j, x in fs[i]]), what=what + ' bias equation', **tol)
            ref.close(v[i], ref.std([x - s[j] - b[i] for j, x in fs[i]]), what=what + ' inconsistency equation', **tol)
        for j in range(J):
            num = den = 0.0
            for i in range(I):
                for x in W[j][i]:
                    num += (x - b[i]) / (v[i] ** 2 + 1e-8)
                    den += 1 / (v[i] ** 2 + 1e-8)
            ref.close(s[j], num / den, what=what + ' quality equation', **tol)
        if I >= 3 and max(v) - min(v) > 1e-3 * rng:
            lab.append('nt')
    # definitions
    ref.close(ref.compact(res['raw_scores']), ref.to_array(W, R), 1e-9, 1e-9 * sc, what + ' raw_scores')
    rec = np.array([[[s[j] + b[i]] * R for i in range(I)] for j in range(J)])
    ref.close(res['reconstructions'], rec, 1e-9, 1e-9 * sc, what + ' reconstructions')
    ref.close(res['observer_scores_mean'], [ref.mean([x for _, x in f]) for f in fs], 1e-9, 1e-9 * sc, 'observer_scores_mean')
    ref.close(res['observer_scores_std'], [ref.std([x for _, x in f]) for f in fs], 1e-8, 1e-8 * sc, 'observer_scores_std')
    n0, n = ref.count(V0), ref.count(W)
    I0 = len(V0[0])
    dof = (J + 2 * I0 * R) / float(n0)
    ref.close(res['dof'], dof, what=what + ' dof')
    if min(v) > 1e-3 * rng and rng > 0:
        d = dict(rtol=1e-6, atol=1e-9)
        ref.close(res['observer_bias_std'], [v[i] / math.sqrt(n_i[i]) for i in range(I)], what=what + ' bias std', **d)
        ref.close(res['observer_inconsistency_ci95'],
                  [[(1 - math.sqrt(n_i[i] / chi2.ppf(0.975, n_i[i]))) * v[i] for i in range(I)],
                   [(math.sqrt(n_i[i] / chi2.ppf(0.025, n_i[i])) - 1) * v[i] for i in range(I)]],
                  what=what + ' inconsistency ci95', **d)
        ll = [ref.log_gauss(x, s[j] + b[i], v[i]) for j in range(J) for i in range(I) for x in W[j][i]]
        if min(ll) > -700:   # the code evaluates the density itself, which underflows beyond this
            ll = math.fsum(ll) / n
            ref.close(res['loglikelihood'], ll, 1e-6, 1e-6, what + ' loglikelihood')
            ref.close(res['aic'], 2 * dof - 2 * ll, 1e-6, 1e-6, what + ' aic')
            ref.close(res['bic'], math.log(n0) * dof - 2 * ll, 1e-6, 1e-6, what + ' bic')
        for k in ('quality_scores', 'observer_bias'):
            half = [ref.Z95 * x for x in res[k + '_std']]
            ref.close(res[k + '_ci95'], [half, half], 1e-9, 1e-12, what + ' ' + k + ' ci95')
    if good:
        lt = dict(rtol=1e-4, atol=1e-6)
        # v_std: the inverse root of the observed information of the inconsistency
        info = [-sum(1 / v[i] ** 2 - 3 * (x - s[j] - b[i]) ** 2 / v[i] ** 4 for j, x in fs[i]) for i in range(I)]
        ref.close(res['observer_inconsistency_std'], [1 / math.sqrt(max(1e-300, q)) for q in info],
                  what=what + ' inconsistency std', **lt)
        if variant == 1:
            sd = [1 / math.sqrt(sum(len(W[j][i]) / v[i] ** 2 for i in range(I))) for j in range(J)]
        else:
            vj = [ref.std([x - s[j] - b[i] for i in range(I) for x in W[j][i]]) for j in range(J)]
            sd = [vj[j] / math.sqrt(n_j[j]) for j in range(J)]
        ref.close(res['quality_scores_std'], sd, what=what + ' quality std', rtol=1e-4, atol=1e-5 * rng)
    return lab


def subset(a, b, keys, what, tol=1e-9):
    for k in keys:
        ref.close(a[k], b[k], tol, tol, what + ' ' + k)


@st.composite
def case(draw):
    if draw(st.integers(0, 2)):
        ds = draw(gen.well_posed(E=(5, 16), S=(3, 10), R=(1, 3), styles=('list', 'dict', 'tuple')))
    else:
        ds = draw(gen.raw(E=(2, 8), S=(2, 7), R=(1, 3), kinds=('int5', 'cont', 'seeded', 'wide'), distinct_subject=True))
    return {'ds': ds, 'model': draw(st.sampled_from(V1 + V2)), 'none': draw(st.booleans())}


def check(c):
    ds = c['ds']
    V = gen.votes3d(ds)
    variant = 1 if c['model'] in V1 else 2
    kw = {'force_subjbias_zeromean': None} if c['none'] else {}
    res = sut.run(c['model'], ds, **kw)
    lab = solution_checks(res, V, V, variant, c['model']) + [c['model']] + gen.labels(ds)
    # the other variant: same solution
    oth = sut.run(V2[2] if variant == 1 else V1[0], ds, force_subjbias_zeromean=True)
    subset(oth, res, ['quality_scores', 'observer_bias', 'observer_inconsistency', 'observer_bias_std',
                      'observer_inconsistency_std', 'loglikelihood', 'aic', 'bic', 'dof', 'reconstructions', 'num_iter'],
           'other variant')
    # the other bias convention
    free = sut.run(c['model'], ds, force_subjbias_zeromean=False)
    sc = max([1.0] + [abs(x) for row in V for cc in row for x in cc])
    off = ref.mean([float(x) for x in free['observer_bias']])
    ref.close(free['observer_bias'], [x + off for x in res['observer_bias']], 1e-9, 1e-9 * sc, 'bias without zero mean')
    ref.close(free['quality_scores'], [x - off for x in res['quality_scores']], 1e-9, 1e-9 * sc, 'quality without zero mean')
    subset(free, res, ['quality_scores_std', 'quality_scores_ci95', 'observer_bias_std', 'observer_bias_ci95',
                       'observer_inconsistency', 'observer_inconsistency_std', 'observer_inconsistency_ci95', 'dof',
                       'observer_scores_mean', 'observer_scores_std'], 'without zero mean')
    ref.close(free['reconstructions'], res['reconstructions'], 1e-9, 1e-9 * sc, 'reconstructions without zero mean')
    if abs(off) > 1e-6 * sc:
        lab.append('offset')
    if variant == 2:
        lab.append('variant2')
    return lab


@st.composite
def prep(draw):
    step = draw(st.sampled_from(['dscore_mode', 'zscore_mode', 'bias_offset', 'subject_rejection']))
    if step == 'subject_rejection':
        ds = draw(panel(S=(8, 20), E=(8, 16)))
    else:
        ds = draw(gen.well_posed(E=(6, 14), S=(4, 9), R=(1, 2)))
    return {'ds': ds, 'step': step, 'model': draw(st.sampled_from(V1 + V2))}


def check_prep(c):
    """The estimator applied to preprocessed votes."""
    ds, step = c['ds'], c['step']
    V = gen.votes3d(ds)
    if step == 'dscore_mode':
        W = ref.dscore(V, ds['content'], flags(ds), ds['ref_score'])
    elif step == 'zscore_mode':
        if not all(ref.std(x, 1) > 1e-3 for x in ref.flat_subject(V)):
            return ['skip']
        W = ref.zscore(V)
    elif step == 'bias_offset':
        W = ref.unbias(V)[0]
    else:
        try:
            rej = ref.bt500(V, len(V) * ref.maxrep(V))[0]
        except ref.Ambiguous:
            return ['ambiguous']
        W = ref.drop_subjects(V, rej)
        if not all(ref.flat_video(W)) or not all(ref.flat_subject(W)):
            return ['skip']
    res = sut.run(c['model'], ds, **{step: True})
    lab = solution_checks(res, W, V, 1 if c['model'] in V1 else 2, c['model'] + ' ' + step)
    if step == 'subject_rejection':
        if ds['style'] == 'dict':
            want = [ds['subjects'][s] for s, r in zip(gen.subject_order(ds), rej) if not r]
            require(list(res['observers']) == want, '{} {}: results of {} named {}', c['model'], step, str(want), str(res['observers']))
        lab = [l for l in lab if l != 'nt'] + (['nt'] if any(rej) else [])
    return lab + [step]


SUBTESTS = [Sub('solution', case(), check, quick=2000, thorough=24000),
            Sub('preprocessed', prep(), check_prep, quick=900, thorough=9000)]
