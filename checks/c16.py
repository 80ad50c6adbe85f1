"""C16: paired-comparison models return the maximum-likelihood scores."""
import copy

import random

import numpy as np
from hypothesis import strategies as st

from lib import gen, ref, sut
from lib.core import Sub, require

RULE = 'at least three videos whose maximum-likelihood scores differ'
ASSUMPTIONS = ['comparison graphs are strongly connected (otherwise no maximum exists) and the maximum-likelihood scores span '
               'at most 4 on the logistic scale; the iterations are undamped and have no safeguard beyond that']


def bt_fit(alpha):
    """Maximum-likelihood log-strengths with zero sum, by damped Newton."""
    a = np.asarray(alpha, float)
    M = len(a)
    n = a + a.T
    v = np.zeros(M)

    def nll(v):
        d = v[:, None] - v[None, :]
        return float(np.sum(a * np.logaddexp(0, -d)))

    def derivatives(v):
        d = v[:, None] - v[None, :]
        s = 1 / (1 + np.exp(-d))
        w = n * s * (1 - s)
        np.fill_diagonal(w, 0)
        return np.sum(a, axis=1) - np.sum(n * s, axis=1) + np.diag(n) * 0.5 - np.diag(a), np.diag(w.sum(axis=1)) - w
    for _ in range(200):
        g, H = derivatives(v)
        if np.abs(g).max() < 1e-12 * (1 + n.max()):
            break
        step = np.linalg.solve(H + np.ones((M, M)), g)
        t = 1.0
        f = nll(v)
        while nll(v + t * step) > f + 1e-14 * abs(f) and t > 1e-8:
            t /= 2
        v = v + t * step
        v = v - v.mean()
    return v, derivatives(v)[1]


def mild(alpha):
    """Strongly connected and without extreme preferences or bottlenecks."""
    if not gen.strongly_connected(alpha):
        return False
    v, H = bt_fit(alpha)
    ev = np.linalg.eigvalsh(H)
    return v.max() - v.min() <= 4 and ev[1] >= 2e-2 * ev[-1]


def mm_tolerance(alpha):
    """How far from the maximum the fixed-point iteration of BT_MLE may stop (in log strength): it
    stops at steps of 1e-8 in the probabilities and contracts by 1 - smallest relative curvature."""
    if not gen.strongly_connected(alpha):
        return None
    v, H = bt_fit(alpha)
    w = np.sum(alpha, axis=1)
    gap = np.linalg.eigvalsh(H / np.sqrt(np.outer(w, w)))[1]
    p = np.exp(v) / np.exp(v).sum()
    tol = max(1e-6, 20e-8 / gap / p.min()) if gap > 1e-6 else 1.
    return tol if tol <= 1e-2 else None


def cdf(x):
    from scipy.special import ndtr
    return ndtr(x)


def th_nll(v, a):
    from scipy.special import log_ndtr
    d = np.asarray(v, float)[:, None] - np.asarray(v, float)[None, :]
    return -float(np.sum(a * log_ndtr(d)))


def th_fit(alpha):
    """Thurstone case V maximum by Newton on the (concave) likelihood, derivatives in closed form."""
    from scipy.special import log_ndtr
    a = np.asarray(alpha, float)
    M = len(a)
    v = np.zeros(M)
    for _ in range(300):
        d = v[:, None] - v[None, :]
        h = np.exp(-0.5 * d * d - 0.5 * np.log(2 * np.pi) - log_ndtr(d))     # pdf / cdf
        g = (a * h).sum(axis=1) - (a * h).sum(axis=0)
        w = a * h * (h + d)
        w = w + w.T
        np.fill_diagonal(w, 0)
        H = np.diag(w.sum(axis=1)) - w
        if np.abs(g).max() < 1e-11 * (1 + a.max()):
            break
        step = np.linalg.solve(H + np.ones((M, M)), g)
        t, f = 1.0, th_nll(v, a)
        while th_nll(v + t * step, a) > f + 1e-14 * abs(f) and t > 1e-8:
            t /= 2
        v = v + t * step
        v = v - v.mean()
    return v


def bordered(lbda):
    M = len(lbda)
    B = np.zeros((M + 1, M + 1))
    B[:M, :M] = -lbda
    B[:M, M] = B[M, :M] = 1
    return np.linalg.pinv(B)[:M, :M]


def bt_cov(alpha, p, documented=True):
    a = np.asarray(alpha, float)
    n = a + a.T
    M = len(a)
    L = np.zeros((M, M))
    for i in range(M):
        for j in range(M):
            pp = p[i] + p[j]
            L[i, i] += -a[i, j] / p[i] ** 2 + n[i, j] / pp ** 2
            if i != j:
                L[i, j] += n[i, j] / pp ** 2 if documented else n[i, j] / pp * 2
    return bordered(L)


def close_enough(got, want, rtol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    ok = np.isfinite(want)
    return bool(np.all(np.isnan(got) == np.isnan(want))) and np.allclose(got[ok], want[ok], rtol=rtol, atol=1e-8)


@st.composite
def chain(draw):
    """Videos compared with their neighbours (and a few others) only: the iteration needs long."""
    m = draw(st.integers(5, 12))
    rng = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
    order = list(range(m))
    rng.shuffle(order)
    S = draw(st.integers(3, 8))
    votes = []
    pairs = [(order[k], order[k + 1]) for k in range(m - 1)]
    for _ in range(draw(st.integers(0, 2))):
        i, j = rng.sample(range(m), 2)
        if (i, j) not in pairs and (j, i) not in pairs:
            pairs.append((i, j))
    for i, j in pairs:
        vals = [rng.choice([0, 0.5, 1, 1]) for _ in range(S)]
        if sum(vals) in (0, S):
            vals[0] = 1 - vals[0]
        for a, v in enumerate(vals):
            if rng.random() < 0.5:
                votes.append([a, i, j, v])
            else:
                votes.append([a, j, i, 1 - v])
    return {'m': m, 'subjects': gen.NAMES[:S], 'votes': votes, 'asset': list(range(m)),
            'content': [rng.randint(0, 1) for _ in range(m)]}


@st.composite
def case(draw):
    if draw(st.integers(0, 3)) == 0:
        p = draw(chain())
    else:
        p = draw(gen.pc(M=(2, 7), S=(1, 6), max_pairs=60, strong=True))
    return {'p': p, 'k': draw(st.integers(2, 4))}


def wins(p):
    a = gen.pc_alpha(p)
    v = a + a.T
    d = len(np.unique(np.round(bt_fit(a)[0], 6)))
    return a, (['nt'] if p['m'] >= 3 and d >= 2 else []) + (['ties'] if any(x[3] == 0.5 for x in p['votes']) else []) + \
        (['sparse'] if (v + np.eye(len(v)) == 0).any() else ['complete'])


def check_bt_mle(c):
    p = c['p']
    a, lab = wins(p)
    tol = mm_tolerance(a)
    if tol is None:
        return ['extreme']
    r = sut.run_pc('BT_MLE', p, display=False)
    P = np.array(r['quality_scores_p'], float)
    require(abs(P.sum() - 1) < 1e-9 and (P > 0).all(), 'probabilities {} do not form a distribution', str(P))
    q = np.array(r['quality_scores'], float)
    ref.close(q, np.log(P), 1e-9, 1e-9, 'scores vs log probabilities')
    v, H = bt_fit(a)
    ref.close(q - q.mean(), v, tol, tol, 'BT_MLE scores vs maximum likelihood')
    sd = np.array(r['quality_scores_std'], float)
    ci = np.array(r['quality_scores_ci95'], float)
    require(ci.shape == (2, p['m']), 'ci95 shape {}', ci.shape)
    ref.close(ci, np.array([1.95996 * sd, 1.95996 * sd]), 1e-9, 1e-12, 'ci95')
    ref.close(np.array(r['quality_scores_p_std'], float), sd * P, 1e-8, 1e-12, 'std of probability vs of score')
    for doc in (False, True):
        cov = bt_cov(a, P, doc)
        if close_enough(r['quality_scores_p_cov'], cov, 1e-5):
            break
    else:
        require(False, 'covariance of p {} instead of {}', str(np.asarray(r['quality_scores_p_cov'])), str(cov))
    ref.close(np.asarray(r['quality_scores_v_cov'], float), cov / np.outer(P, P), 1e-4, 1e-8, 'covariance of the scores')
    dg = np.diagonal(cov)
    ok = dg > 0
    ref.close(sd[ok], np.sqrt(dg[ok]) / P[ok], 1e-4, 1e-8, 'std vs covariance')
    return ['BT_MLE'] + lab + (['slow'] if tol > 3e-5 else [])


def check_bt_nr(c):
    p = c['p']
    a, lab = wins(p)
    if not mild(a):
        return ['extreme']
    r = sut.run_pc('BT_NR', p)
    q = np.array(r['quality_scores'], float)
    require(q[-1] == 0, 'last score {} instead of 0', q[-1])
    v, H = bt_fit(a)
    ref.close(q, v - v[-1], 1e-6, 1e-6, 'BT_NR scores vs maximum likelihood')
    z = np.array(sut.run_pc('BT_NR', p, zscore_output=True)['quality_scores'], float)
    zscored(q, z)
    return ['BT_NR'] + lab


def zscored(q, z, what='z-scored output'):
    if q.std() < 1e-6:
        return 1.0
    require(abs(z.mean()) < 1e-8 and abs(z.std() - 1) < 1e-8, '{}: mean {} spread {}', what, z.mean(), z.std())
    ref.close(z, (q - q.mean()) / q.std(), 1e-6, 1e-6, what)
    return q.std()


def check_thurstone(c):
    p = c['p']
    a, lab = wins(p)
    if not mild(a):
        return ['extreme']
    r = sut.run_pc('THURSTONE_MLE', p)
    q = np.array(r['quality_scores'], float)
    v = th_fit(a)
    loss = th_nll(q, a) - th_nll(v, a)
    require(loss <= 2e-6 * (1 + th_nll(v, a)), 'log-likelihood {} below its maximum {}', loss, -th_nll(v, a))
    sd = np.array(r['quality_scores_std'], float)
    ref.close(np.array(r['quality_scores_ci95'], float), np.array([1.95996 * sd, 1.95996 * sd]), 1e-9, 1e-12, 'ci95')
    # the reported spread: bordered inverse of the information at the returned scores
    from scipy.stats import norm
    d = q[:, None] - q[None, :]
    F, f = cdf(d), norm.pdf(d)
    w = (a + a.T) * (d * F * f + f ** 2) / F ** 2
    np.fill_diagonal(w, 0)
    dg = np.diagonal(bordered(w - np.diag(w.sum(axis=1))))
    ok = dg > 1e-6
    ref.close(sd[ok], np.sqrt(dg[ok]), 1e-3, 1e-8, 'THURSTONE_MLE std')
    rz = sut.run_pc('THURSTONE_MLE', p, zscore_output=True)
    k = zscored(q, np.array(rz['quality_scores'], float))
    if q.std() >= 1e-6:
        ref.close(np.array(rz['quality_scores_std'], float), sd / k, 1e-6, 1e-9, 'std of z-scored output')
        ref.close(np.array(rz['quality_scores_ci95'], float), 1.95996 * np.array([sd, sd]) / k, 1e-6, 1e-9,
                  'ci95 of z-scored output')
    return ['THURSTONE_MLE'] + lab


def replicate(p, k):
    q = copy.deepcopy(p)
    n = len(p['subjects'])
    q['subjects'] = [s + ' copy' * i for i in range(k) for s in p['subjects']]
    q['votes'] = [[a + n * i, x, y, v] for i in range(k) for a, x, y, v in p['votes']]
    return q


def check_replication(c):
    p, k = c['p'], c['k']
    a, lab = wins(p)
    if not mild(a):
        return ['extreme']
    for model in ('BT_MLE', 'THURSTONE_MLE'):
        x = sut.run_pc(model, p)
        y = sut.run_pc(model, replicate(p, k))
        qx, qy = np.array(x['quality_scores'], float), np.array(y['quality_scores'], float)
        tol = 1e-5 if model == 'BT_MLE' else 2e-2
        ref.close(qy - qy.mean(), qx - qx.mean(), tol, tol, '{} scores of {} identical panels'.format(model, k))
        sx, sy = np.array(x['quality_scores_std'], float), np.array(y['quality_scores_std'], float)
        require(bool((np.isnan(sx) == np.isnan(sy)).all()), '{}: std {} and {}', model, str(sx), str(sy))
        ok = np.isfinite(sx) & (sx > 1e-3)
        ref.close(sy[ok], sx[ok] / np.sqrt(k), 1e-4 if model == 'BT_MLE' else 5e-2, 1e-8,
                  '{} std of {} identical panels'.format(model, k))
    x = np.array(sut.run_pc('BT_NR', p)['quality_scores'], float)
    y = np.array(sut.run_pc('BT_NR', replicate(p, k))['quality_scores'], float)
    ref.close(y, x, 1e-6, 1e-6, 'BT_NR scores of identical panels')
    return ['replicated'] + lab


def probe():
    """Known finding: the spread does not follow the documented information matrix."""
    p = {'m': 3, 'subjects': ['a', 'b', 'c'], 'asset': [0, 1, 2], 'content': [0, 0, 0],
         'votes': [[0, 0, 1, 1], [0, 1, 2, 1], [1, 2, 0, 1], [1, 0, 1, 1], [2, 1, 0, 1], [2, 2, 1, 0.5]]}
    r = sut.run_pc('BT_MLE', p, display=False)
    return not close_enough(r['quality_scores_p_cov'], bt_cov(gen.pc_alpha(p), np.array(r['quality_scores_p'], float), True), 1e-5)


KNOWN = {'bt_mle_information': probe}

SUBTESTS = [Sub('bt_mle', case(), check_bt_mle, quick=800, thorough=12000),
            Sub('bt_nr', case(), check_bt_nr, quick=600, thorough=8000),
            Sub('thurstone', case(), check_thurstone, quick=400, thorough=5000),
            Sub('replication', case(), check_replication, quick=240, thorough=3000)]
