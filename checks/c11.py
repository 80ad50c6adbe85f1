"""C11: maximum-likelihood estimates are stationary points of the likelihood."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.stats import chi2

from checks.c05 import flags
from lib import gen, ref, sut
from lib.core import Sub, require

RULE = ('the iteration converged to an interior solution (every vote has positive spread, finite standard deviations of all '
        'parameters that are not clamped at zero)')
ASSUMPTIONS = ['stationarity is judged only for interior solutions reached within the iteration limit; an inconsistency or '
               'ambiguity within 5% of the vote range from zero (where the estimator clamps it) is held fixed']
MODELS = ['MLE', 'MLE', 'MLE_CO', 'MLE_CO', 'MLE_SO', 'DMOS_MLE', 'DMOS_MLE_CO']


def ll_terms(X, content, x, b, v, a):
    """Log-likelihood of every vote present (NaN elsewhere)."""
    var = (v[None, :] ** 2 + a[content][:, None] ** 2)[:, :, None]
    mu = (x[:, None] + b[None, :])[:, :, None]
    return -0.5 * np.log(2 * np.pi) - 0.5 * np.log(var) - (X - mu) ** 2 / (2 * var)


def sums(T, which, content, C):
    if which == 'x':
        return np.nansum(T, axis=(1, 2))
    if which in ('b', 'v'):
        return np.nansum(T, axis=(0, 2))
    per = np.nansum(T, axis=(1, 2))
    return np.array([per[content == c].sum() for c in range(C)])


def curvature(X, content, P, which, h):
    """Per parameter: displacement to the stationary point and information, from the likelihood itself."""
    C = len(P['a'])

    def at(d):
        Q = {k: u.copy() for k, u in P.items()}
        Q[which] = Q[which] + d
        return sums(ll_terms(X, content, Q['x'], Q['b'], Q['v'], Q['a']), which, content, C)
    l0, lp, lm = at(0.0), at(h), at(-h)
    info = (2 * l0 - lp - lm) / h ** 2
    grad = (lp - lm) / (2 * h)
    with np.errstate(all='ignore'):
        return grad / info, info, l0, at


def params(res, E, S, C, content):
    x = np.array(res['quality_scores'], dtype=float)
    b = np.array(res.get('observer_bias', np.zeros(S)), dtype=float)
    v = np.array(res.get('observer_inconsistency', np.zeros(S)), dtype=float)
    a = np.array(res.get('content_ambiguity', np.zeros(C)), dtype=float)
    return {'x': x, 'b': b, 'v': v, 'a': a}


def definitions(res, W, V0, content, C, model, zeromean=True):
    """Everything that follows from the solution whether or not it is optimal."""
    E, S, R = len(W), len(W[0]), ref.maxrep(V0)
    P = params(res, E, S, C, content)
    require(len(P['x']) == E and len(P['b']) == S and len(P['v']) == S and len(P['a']) == C,
            '{}: wrong number of parameters', model)
    so, co = model == 'MLE_SO', model.endswith('_CO')
    require(('observer_bias' in res) == (not so), '{}: observer_bias present: {}', model, 'observer_bias' in res)
    require(('observer_inconsistency' in res) == (not so), '{}: observer_inconsistency', model)
    require(('content_ambiguity' in res) == (not co), '{}: content_ambiguity present: {}', model, 'content_ambiguity' in res)
    sc = max(1.0, max(abs(x) for row in W for c in row for x in c))
    if zeromean:
        ref.close(float(np.mean(P['b'])), 0.0, 0, 1e-9 * sc, model + ' mean bias')
    X = ref.to_array(W, R)
    ref.close(ref.compact(res['raw_scores']), X, 1e-9, 1e-9 * sc, model + ' raw_scores')
    rec = np.tile((P['x'][:, None] + P['b'][None, :])[:, :, None], (1, 1, R))
    ref.close(res['reconstructions'], rec, 1e-9, 1e-9 * sc, model + ' reconstructions')
    dof = (E + (0 if so else 2 * S * R) + (0 if co else C)) / float(ref.count(V0))
    ref.close(res['dof'], dof, what=model + ' dof')
    n = ref.count(W)
    T = ll_terms(X, content, P['x'], P['b'], P['v'], P['a'])
    span = float(np.nanmax(X) - np.nanmin(X))
    if spread(P) > 1e-3 * span and np.isfinite(T[~np.isnan(X)]).all() and T[~np.isnan(X)].min() > -700:
        ll = math.fsum(T[~np.isnan(X)]) / n
        ref.close(res['loglikelihood'], ll, 1e-8, 1e-8, model + ' loglikelihood')
        ref.close(res['aic'], 2 * dof - 2 * ll, 1e-8, 1e-8, model + ' aic')
        ref.close(res['bic'], math.log(ref.count(V0)) * dof - 2 * ll, 1e-8, 1e-8, model + ' bic')
    for k in ('quality_scores', 'observer_bias', 'content_ambiguity'):
        if k in res:
            require(not (np.asarray(res[k + '_std'], float) < 0).any(), '{}: {}_std {} is negative', model, k, str(res[k + '_std']))
            half = [ref.Z95 * u for u in res[k + '_std']]
            ref.close(res[k + '_ci95'], [half, half], 1e-9, 1e-12, '{} {} ci95'.format(model, k))
    if not so:
        n_s = [len(f) for f in ref.flat_subject(W)]
        v = P['v']
        ref.close(res['observer_inconsistency_ci95'],
                  [[(1 - math.sqrt(m / chi2.ppf(0.975, m))) * u for m, u in zip(n_s, v)],
                   [(math.sqrt(m / chi2.ppf(0.025, m)) - 1) * u for m, u in zip(n_s, v)]], 1e-9, 1e-12,
                  model + ' inconsistency ci95')
    return P, X


def interior(res, P, model, scale):
    if not np.isfinite(res['num_iter']) or res['num_iter'] >= 10000:
        return False
    if not all(np.isfinite(P[k]).all() for k in P):
        return False
    if spread(P) < 0.02 * scale:
        return False
    for k in ('quality_scores_std', 'observer_bias_std'):
        if k in res and not (np.isfinite(res[k]).all()):
            return False
    for k, u in (('observer_inconsistency_std', P['v']), ('content_ambiguity_std', P['a'])):
        if k in res and not np.isfinite(np.array(res[k])[u > 0.05 * scale]).all():
            return False
    return True


def spread(P):
    """The smallest standard deviation any vote has."""
    return math.sqrt(P['v'].min() ** 2 + P['a'].min() ** 2)


def stationary(res, P, X, content, model, tol, stdtol):
    so, co = model == 'MLE_SO', model.endswith('_CO')
    scale = float(np.nanmax(X) - np.nanmin(X))
    names = {'x': 'quality_scores', 'b': 'observer_bias', 'v': 'observer_inconsistency', 'a': 'content_ambiguity'}
    for k in ('x', 'b', 'v', 'a'):
        if (k in 'bv' and so) or (k == 'a' and co):
            continue
        free = np.ones(len(P[k]), dtype=bool)
        if k == 'a':
            free = P['a'] > 0.05 * scale
        if k == 'v':
            free = P['v'] > 0.05 * scale
        h = 2e-4 * scale
        disp, info, l0, at = curvature(X, content, P, k, h)
        for i in np.where(free)[0]:
            require(info[i] > 0, '{}: {} {} is not at a maximum of the likelihood (curvature {})', model, names[k], int(i),
                    float(-info[i]))
            require(abs(disp[i]) <= tol * scale, '{}: likelihood of {} {} is maximal {} away from the estimate {}', model,
                    names[k], int(i), float(disp[i]), float(P[k][i]))
        for d in (0.004 * scale, -0.004 * scale):
            gain = at(d) - l0
            bad = [int(i) for i in np.where(free & (gain > 1e-9))[0]]
            require(not bad, '{}: moving {} {} by {} increases the likelihood', model, names[k], str(bad), d)
        want = 1 / np.sqrt(np.maximum(info, 1e-300))
        got = np.array(res[names[k] + '_std'], dtype=float)
        ref.close(got[free], want[free], stdtol, 0, '{} {} std'.format(model, names[k]))


@st.composite
def case(draw):
    ds = draw(gen.well_posed(E=(12, 22), S=(11, 17), R=(1, 2), styles=('list', 'dict', 'tuple'), units=(1, 1, 1, 100, 0.05)))
    return {'ds': ds, 'model': draw(st.sampled_from(MODELS)), 'none': draw(st.booleans()),
            'method': draw(st.sampled_from([None, 'simplified', 'original', 'original']))}


def reference(X, content, C, x0, model, thr, limit=2500):
    """The damped Newton iteration on a flat list of votes; tells whether it reaches an interior solution."""
    so, co = model == 'MLE_SO', model.endswith('_CO')
    e, s, r = np.where(~np.isnan(X))
    y = X[e, s, r]
    c = content[e]
    E, S = X.shape[:2]
    x, b = np.array(x0, dtype=float), np.zeros(S)
    res = y - x[e]
    v = np.zeros(S) if so else np.array([np.std(res[s == i]) for i in range(S)])
    a = np.zeros(C) if co else np.array([np.std(res[c == i]) if (c == i).any() else np.nan for i in range(C)])
    scale = float(y.max() - y.min())
    smooth = True
    for it in range(limit):
        px, pv, pa = x, v, a
        w = 1 / (v[s] ** 2 + a[c] ** 2)
        if not so:
            b = 0.9 * b + 0.1 * np.bincount(s, (y - x[e]) * w, S) / np.bincount(s, w, S)
            q = (y - x[e] - b[s]) ** 2
            g = np.bincount(s, v[s] * (q * w ** 2 - w), S)
            h = np.bincount(s, (v[s] ** 2 - a[c] ** 2) * w ** 2 + q * (a[c] ** 4 - 3 * v[s] ** 4 - 2 * v[s] ** 2 * a[c] ** 2)
                            * w ** 4, S)
            v = np.maximum(0.0, v - 0.1 * g / h)
        if not co:
            w = 1 / (v[s] ** 2 + a[c] ** 2)
            q = (y - x[e] - b[s]) ** 2
            g = np.bincount(c, a[c] * (q * w ** 2 - w), C)
            h = np.bincount(c, (a[c] ** 2 - v[s] ** 2) * w ** 2 + q * (v[s] ** 4 - 3 * a[c] ** 4 - 2 * v[s] ** 2 * a[c] ** 2)
                            * w ** 4, C)
            a = np.maximum(0.0, a - 0.1 * g / h)
        w = 1 / (v[s] ** 2 + a[c] ** 2)
        x = 0.9 * x + 0.1 * np.bincount(e, (y - b[s]) * w, E) / np.bincount(e, w, E)
        if not (np.isfinite(x).all() and np.isfinite(v).all() and np.isfinite(a).all()):
            return None, False
        # a trajectory with leaps or vanishing variances is sensitive to rounding
        smooth = smooth and max(np.abs(v - pv).max(), np.abs(a - pa).max(), np.abs(x - px).max()) < 0.3 * scale \
            and math.sqrt(v.min() ** 2 + a.min() ** 2) > 0.01 * scale
        if np.linalg.norm(px - x) < thr:
            return {'x': x, 'b': b, 'v': v, 'a': a}, smooth
    return None, False


def modelled(c, thr, **kw):
    """Runs the model; data on which the iteration diverges or collapses are told apart by the reference iteration."""
    ds, model, V, W, content, C = setup(c)
    X = ref.to_array(W, ref.maxrep(V))
    P, smooth = reference(X, content, C, ref.mos(V), model, thr)
    scale = float(np.nanmax(X) - np.nanmin(X))
    tame = P is not None and smooth and spread(P) > 0.03 * scale
    if tame:
        res = sut.run(model, ds, **kw)
        require(res['num_iter'] < 10000, '{} did not converge', model)
        got = params(res, X.shape[0], X.shape[1], C, content)
        off = P['b'].mean()
        for k, d in (('x', off), ('b', -off), ('v', 0.0), ('a', 0.0)):
            if len(got[k]) == len(P[k]):
                ref.close(got[k], P[k] + d, 0, 1e-5 * scale, '{} {} versus the reference iteration'.format(model, k))
        return res
    if P is None:
        return None
    try:
        res = sut.run(model, ds, **kw)
        fine = all(np.isfinite(res[k]).all() for k in ('quality_scores', 'observer_bias', 'observer_inconsistency',
                                                       'content_ambiguity') if k in res)
        return res if fine else None
    except (ValueError, FloatingPointError, ZeroDivisionError):
        return None


def setup(c):
    ds, model = c['ds'], c['model']
    V = gen.votes3d(ds)
    W = ref.dscore(V, ds['content'], flags(ds), ds['ref_score']) if model.startswith('DMOS') else V
    content = np.array(ds['content'])
    return ds, model, V, W, content, max(ds['ref_order']) + 1


def check(c):
    ds, model, V, W, content, C = setup(c)
    kw = {'force_subjbias_zeromean': None} if c['none'] else {}
    if c.get('method'):
        kw['gradient_method'] = c['method']
    res = modelled(c, 1e-11, delta_thr=1e-11, **kw)
    if res is None:
        return ['diverged']
    P, X = definitions(res, W, V, content, C, model)
    scale = float(np.nanmax(X) - np.nanmin(X))
    lab = gen.labels(ds) + [model]
    if not interior(res, P, model, scale):
        return lab + ['not_interior']
    # the iteration is damped (0.9 per step) and monitors the quality scores: the other parameters follow
    stationary(res, P, X, content, model, 2e-5, 2e-3)
    if model == 'MLE_SO':
        ref.close(P['x'], ref.mos(W), 1e-9, 1e-9, 'MLE_SO quality')
    if (P['a'] > 0.05 * scale).any():
        lab.append('ambiguity')
    return lab + ['nt']


def check_default(c):
    """Default settings, and the other bias convention."""
    ds, model, V, W, content, C = setup(c)
    res = modelled(c, 1e-8)
    if res is None:
        return ['diverged']
    P, X = definitions(res, W, V, content, C, model)
    scale = float(np.nanmax(X) - np.nanmin(X))
    lab = gen.labels(ds) + [model]
    if interior(res, P, model, scale):
        stationary(res, P, X, content, model, 2e-3, 2e-2)
        lab.append('nt')
    free = sut.run(model, ds, force_subjbias_zeromean=False)
    Q, _ = definitions(free, W, V, content, C, model, zeromean=False)
    off = float(np.mean(Q['b']))
    sc = max(1.0, float(np.nanmax(np.abs(X))))
    ref.close(Q['b'], P['b'] + off, 1e-9, 1e-9 * sc, model + ' bias without zero mean')
    ref.close(Q['x'], P['x'] - off, 1e-9, 1e-9 * sc, model + ' quality without zero mean')
    for k in ('quality_scores_std', 'quality_scores_ci95', 'observer_bias_std', 'observer_inconsistency',
              'observer_inconsistency_std', 'content_ambiguity', 'content_ambiguity_std', 'dof', 'num_iter'):
        if k in res:
            ref.close(free[k], res[k], 1e-9, 1e-9, model + ' without zero mean: ' + k)
    if abs(off) > 1e-6:
        lab.append('offset')
    return lab


# --- the likelihood itself, for each of the supported densities ---

@st.composite
def likelihood(draw):
    pdf = draw(st.sampled_from(['gaussian', 'gaussian', 'uniform', 'uniform', 'logistic']))
    top = 4 if pdf == 'logistic' else 7
    E, S, R, C = draw(st.integers(1, top)), draw(st.integers(1, top)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    num = lambda lo, hi: st.integers(int(lo * 20), int(hi * 20)).map(lambda i: i / 20)
    arr = lambda n, e: draw(st.lists(e, min_size=n, max_size=n))
    c = {'pdf': pdf, 'shape': [E, S, R], 'x': arr(E, num(-3, 8)), 'b': arr(S, num(-2, 2)), 'v': arr(S, num(0.2, 2)),
         'a': arr(C, num(0.2, 2)), 'content': arr(E, st.integers(0, C - 1)),
         'z': arr(E * S * R, st.one_of(num(-1.75, 1.75), num(-1.75, 1.75), num(-1.75, 1.75), st.none()))}
    if pdf != 'logistic' and draw(st.booleans()):
        c['a'] = [0.0] * C          # content-oblivious
    return c


def trapezoid(z, s1, s2):
    """Density at z of the sum of two centred uniform variables of widths s1 and s2."""
    lo, hi = min(s1, s2), max(s1, s2)
    overlap = min(z + lo / 2, hi / 2) - max(z - lo / 2, -hi / 2)
    return 1 / hi if lo == 0 else max(0.0, overlap) / (lo * hi)


def check_likelihood(c):
    from sureal.subjective_model import MaximumLikelihoodEstimationModel as M
    E, S, R = c['shape']
    pdf = c['pdf']
    a, content = np.array(c['a']), np.array(c['content'])
    x, b, v = np.array(c['x']), np.array(c['b']), np.array(c['v'])
    X = np.full((E, S, R), np.nan)
    T = np.full((E, S, R), np.nan)
    tol = np.zeros((E, S, R))
    for e in range(E):
        for s in range(S):
            for r in range(R):
                z = c['z'][(e * S + s) * R + r]
                if z is None:
                    continue
                s1, s2 = v[s], a[content[e]]
                if pdf == 'gaussian':
                    d = z * math.hypot(s1, s2)
                    T[e, s, r] = ll_terms(np.array([[[d]]]), np.array([0]), np.zeros(1), np.zeros(1), v[s:s + 1],
                                          a[content[e]:content[e] + 1])[0, 0, 0]
                    tol[e, s, r] = 1e-9 * (1 + abs(T[e, s, r]))
                elif pdf == 'uniform':
                    w1, w2 = s1 * math.sqrt(12), s2 * math.sqrt(12)
                    d = z / 2 * (w1 + w2) / 2 if abs(z) < 1.7 else z * (w1 + w2)      # the outermost ones are impossible votes
                    p = trapezoid(d, w1, w2) if abs(z) < 1.7 else 0.0
                    T[e, s, r] = math.log(p) if p > 0 else -math.inf
                    tol[e, s, r] = 1e-7
                else:
                    from checks.c24 import quad
                    k = (s1 * math.sqrt(3) / math.pi, s2 * math.sqrt(3) / math.pi)
                    d = z * math.hypot(s1, s2)
                    f = lambda t, s: np.exp(-np.abs(t) / s) / (s * (1 + np.exp(-np.abs(t) / s)) ** 2)
                    g = [lambda t, s=s: f(t, s) for s in k]
                    p, peak = quad(g[0], g[1], d, k), quad(g[0], g[1], 0.0, k)
                    T[e, s, r] = math.log(p)
                    tol[e, s, r] = peak / p * (2 * 3e-3 / math.hypot(*k) + 3e-3)
                X[e, s, r] = x[e] + b[s] + d
    keep = X.copy()
    for axis, other in ((0, (0, 2)), (1, (1, 2))):
        got = np.asarray(M.loglikelihood_fcn(X, x, b, v, a, list(c['content']), axis, pdf), float)
        want, room = np.nansum(T, axis=other), np.nansum(tol, axis=other) + 1e-9
        require(got.shape == want.shape, '{} likelihood along axis {} has shape {}', pdf, axis, got.shape)
        for i in range(len(want)):
            require(got[i] == want[i] or abs(got[i] - want[i]) <= room[i],
                    '{} likelihood of {} {} is {}, the votes present give {}', pdf, ['subject', 'video'][axis], i, got[i], want[i])
    require(np.array_equal(X, keep, equal_nan=True), 'computing the likelihood changed the votes')
    lab = [pdf] + (['missing'] if np.isnan(X).any() else []) + (['repeated'] if R > 1 else [])
    return lab + (['nt'] if E * S > 1 and not np.isnan(X).all() else [])


SUBTESTS = [Sub('likelihood', likelihood(), check_likelihood, quick=240, thorough=4000),
            Sub('stationarity', case(), check, quick=320, thorough=5000, shrink=60),
            Sub('default_settings', case(), check_default, quick=160, thorough=2400, shrink=60)]
