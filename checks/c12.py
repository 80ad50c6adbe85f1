"""C12: alternative solvers of the same model agree."""
import numpy as np
from hypothesis import strategies as st

from checks.c11 import reference, spread, setup, params
from lib import gen, ref, sut
from lib.core import Sub, require

RULE = 'at least three videos and subjects, and (for iterative solvers) an iteration that converges smoothly to an interior point'
ASSUMPTIONS = ['iterative solvers are compared where a reference iteration converges without leaps or vanishing variances; '
               'elsewhere their results depend on rounding']
KEYS = ('quality_scores', 'observer_bias', 'observer_inconsistency', 'content_ambiguity')


def tame(c, thr=1e-8):
    ds, model, V, W, content, C = setup(c)
    X = ref.to_array(W, ref.maxrep(V))
    P, smooth = reference(X, content, C, ref.mos(V), model, thr)
    scale = float(np.nanmax(X) - np.nanmin(X))
    return P is not None and smooth and spread(P) > 0.04 * scale, scale, P


@st.composite
def grad(draw):
    other = draw(st.sampled_from(['original', 'original', 'numerical', 'numerical']))
    model = draw(st.sampled_from(['MLE', 'MLE', 'MLE', 'MLE_CO', 'MLE_CO', 'MLE_SO']))
    clear = other == 'numerical' and model != 'MLE_CO'
    return {'ds': draw(gen.well_posed(E=(12, 22), S=(11, 17), R=(1, 2), units=(1,) if other == 'numerical' else (1, 1, 1, 100, 0.05),
                                      ambiguity=(0.3, 0.8, 1.5, 2.0) if clear else (0.0, 0.3, 0.8))),
            'model': model, 'other': other, 'explicit': draw(st.booleans())}


def check_grad(c):
    ok, scale, P = tame(c)
    if not ok:
        return ['untamed']
    ds, model, other = c['ds'], c['model'], c['other']
    a = sut.run(model, ds, **({'gradient_method': 'simplified'} if c['explicit'] else {}))
    b = sut.run(model, ds, gradient_method=other)
    # same iteration up to rounding, or up to the finite difference step of 1e-3
    tol = 1e-6 if other == 'original' else 2e-3
    for k in KEYS:
        require((k in a) == (k in b), '{} only with one gradient method', k)
        if k in a:
            x, y = np.array(a[k], float), np.array(b[k], float)
            m = np.ones(len(x), bool)
            if other == 'numerical' and k in ('observer_inconsistency', 'content_ambiguity'):
                m = (x > 0.1 * scale)   # finite differences are inaccurate for parameters near the clamp at zero
            ref.close(y[m], x[m], 0, tol * scale, '{} {} {}'.format(model, other, k))
    ref.close(b['loglikelihood'], a['loglikelihood'], 0, 1e-6 if other == 'original' else 1e-3, 'loglikelihood')
    for k in ('quality_scores_std', 'observer_bias_std'):
        if k in a:
            ref.close(b[k], a[k], 1e-5 if other == 'original' else 0.05, 0, '{} {} {}'.format(model, other, k))
    if other == 'original':
        for k in ('observer_inconsistency_std', 'content_ambiguity_std'):
            if k in a:
                x, y = np.array(a[k], float), np.array(b[k], float)
                m = np.isfinite(x) & (np.array(a[k[:-4]], float) > 0.05 * scale)
                ref.close(y[m], x[m], 1e-5, 0, '{} {} {}'.format(model, other, k))
    lab = ['clear_ambiguity'] if 'content_ambiguity' in a and (np.array(a['content_ambiguity'], float) > 0.1 * scale).any() else []
    return ['nt', model, other] + lab + gen.labels(ds)


@st.composite
def legacy(draw):
    return {'ds': draw(gen.well_posed(E=(12, 24), S=(12, 18), R=(1, 1), units=(1, 1, 100))), 'model': 'MLE_CO',
            'use_log': draw(st.booleans()), 'zeromean': draw(st.sampled_from([None, True, False]))}


def log_iteration(V, thr=1e-8, limit=3000):
    """Damped Newton iteration on the logarithms of the inconsistencies, on a flat list of votes."""
    E, S = len(V), len(V[0])
    e, s, y = (np.array(u) for u in zip(*[(i, j, c[0]) for i, row in enumerate(V) for j, c in enumerate(row) if c]))
    y = y.astype(float)
    n = np.bincount(s, minlength=S)
    x, b = np.bincount(e, y, E) / np.bincount(e, minlength=E), np.zeros(S)
    u = np.log(np.array([np.std((y - x[e])[s == j]) for j in range(S)]))
    scale = y.max() - y.min()
    low = np.exp(u).min()
    for _ in range(limit):
        b = 0.9 * b + 0.1 * np.bincount(s, y - x[e], S) / n
        q = np.bincount(s, (y - x[e] - b[s]) ** 2, S) / np.exp(2 * u)
        u = u + 0.1 * (q - n) / (2 * q)
        if not np.isfinite(u).all():
            return None
        w = np.exp(-2 * u)[s]
        new = 0.9 * x + 0.1 * np.bincount(e, (y - b[s]) * w, E) / np.bincount(e, w, E)
        d = np.linalg.norm(new - x)
        x = new
        low = min(low, np.exp(u).min())
        if low < 0.02 * scale:
            return None
        if d < thr:
            return x, b, np.exp(u)
    return None


def check_legacy(c):
    ds = c['ds']
    if c['use_log']:
        V = gen.votes3d(ds)
        want = log_iteration(V)
        if want is None:
            return ['untamed']
        ok, scale = True, max(x for row in V for cc in row for x in cc) - min(x for row in V for cc in row for x in cc)
    else:
        ok, scale, P = tame(c)
    if not ok:
        return ['untamed']
    kw = {} if c['zeromean'] is None else {'force_subjbias_zeromean': c['zeromean']}
    b = sut.run('MLE_legacy', ds, use_log=c['use_log'], **kw)
    V = gen.votes3d(ds)
    x, bs, v = (np.array(b[k], float) for k in KEYS[:3])
    if c['use_log']:
        off = want[1].mean() if c['zeromean'] is not False else 0.0
        for k, g, w in (('quality', x, want[0] + off), ('bias', bs, want[1] - off), ('inconsistency', v, want[2])):
            ref.close(g, w, 0, 1e-5 * scale, 'legacy with use_log: ' + k)
        # and by the equations of the model
        for s in range(len(bs)):
            r = [V[e][s][0] - x[e] for e in range(len(x)) if V[e][s]]
            ref.close(bs[s], ref.mean(r), 0, 1e-3 * scale, 'bias equation')
            ref.close(v[s], ref.std(r), 0, 1e-3 * scale, 'inconsistency equation')
        return ['nt', 'use_log']
    a = sut.run('MLE_CO', ds, **kw)
    for k in KEYS[:3]:
        ref.close(b[k], a[k], 0, 1e-5 * scale, 'legacy ' + k)
    return ['nt', str(c['zeromean'])] + gen.labels(ds)


def check_ls(ds):
    V = gen.votes3d(ds)
    res = sut.run('LS', ds)
    sc = max(1.0, max(abs(x) for row in V for c in row for x in c))
    ref.close(res['quality_scores'], ref.mos(V), 1e-7, 1e-8 * sc, 'LS quality')
    ref.close(res['observer_bias'], ref.bias(V), 1e-7, 1e-8 * sc, 'LS bias')
    return gen.labels(ds) + (['nt'] if len(V) >= 3 and len(V[0]) >= 3 else [])


@st.composite
def complete(draw):
    return draw(gen.raw(E=(1, 10), S=(1, 8), R=(1, 1), missing=False))


@st.composite
def repeated(draw):
    ds = draw(gen.raw(E=(1, 6), S=(1, 5), R=(2, 3), kinds=('int5', 'seeded')))
    E, S, R = gen.dims(ds)
    if R < 2:
        e, s = draw(st.integers(0, E - 1)), draw(st.integers(0, S - 1))
        ds['cells'][e][s] = [1, 2]
    return {'ds': ds, 'model': draw(st.sampled_from(['LS', 'MLE_legacy']))}


def check_repeated(c):
    sut.refused(lambda: sut.run(c['model'], c['ds']), 'repeated votes by ' + c['model'])
    return ['nt', c['model']]


SUBTESTS = [Sub('gradient_methods', grad(), check_grad, quick=160, thorough=2400, shrink=40),
            Sub('legacy', legacy(), check_legacy, quick=80, thorough=800, shrink=40),
            Sub('least_squares', complete(), check_ls, quick=1000, thorough=12000),
            Sub('repeated_votes', repeated(), check_repeated, quick=400, thorough=4000)]
