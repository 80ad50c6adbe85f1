"""C23: performance metrics match their definitions."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import ref, sut
from lib.core import Sub, require

RULE = 'at least three pairs, both lists with at least two different values'


def metric(name):
    import sureal.perf_metric as pm
    return {'RMSE': pm.RmsePerfMetric, 'PCC': pm.PccPerfMetric, 'SRCC': pm.SrccPerfMetric, 'KENDALL': pm.KendallPerfMetric}[name]


NAMES = ['RMSE', 'PCC', 'SRCC', 'KENDALL']
AGGR = {'mean': (np.mean, ref.mean), 'median': (np.median, lambda v: float(np.median(sorted(v)))), 'max': (np.max, max),
        'len': (lambda v: float(len(v)), lambda v: float(len(v)))}


def number(draw, kind, n):
    if kind == 'ties':
        e = st.integers(1, 5)
    elif kind == 'cont':
        e = st.integers(-10000, 10000).map(lambda v: v / 64)
    elif kind == 'wide':
        e = st.floats(-1e6, 1e6, allow_nan=False).map(lambda v: round(v, 4))
    else:
        e = st.integers(0, 40).map(lambda v: v / 8)
    return draw(st.lists(e, min_size=n, max_size=n))


@st.composite
def case(draw):
    n = draw(st.integers(2, 14))
    g = number(draw, draw(st.sampled_from(['ties', 'cont', 'wide', 'eighth'])), n)
    p = number(draw, draw(st.sampled_from(['ties', 'cont', 'wide', 'eighth'])), n)
    aggr = draw(st.sampled_from([None, None, 'mean', 'median', 'max', 'len']))
    nested = draw(st.sampled_from([False, True]))
    if nested:
        # raw scores per item; some items stay plain numbers
        g = [[x] + draw(st.lists(st.integers(1, 5), max_size=4)) if draw(st.booleans()) else x for x in g]
    return {'g': g, 'p': p, 'metric': draw(st.sampled_from(NAMES)), 'aggr': aggr, 'type': draw(st.sampled_from(['list', 'tuple', 'array'])),
            'mapping': draw(st.sampled_from([None, False]))}


def reference(name, g, p):
    if name == 'RMSE':
        return math.sqrt(ref.mean([(a - b) ** 2 for a, b in zip(g, p)]))
    return {'PCC': ref.pearson, 'SRCC': ref.spearman, 'KENDALL': ref.kendall_b}[name](g, p)


def shape(x, kind):
    if kind == 'tuple':
        return tuple(tuple(v) if isinstance(v, list) else v for v in x)
    if kind == 'array' and not any(isinstance(v, list) for v in x):
        return np.array(x, dtype=float)
    return [np.array(v, float) if kind == 'array' and isinstance(v, list) else v for v in x]


def rankable(x):
    u = sorted(set(x))
    return len(u) > 1 and min(b - a for a, b in zip(u, u[1:])) > 1e-9 * max(1.0, abs(u[0]), abs(u[-1]))


def defined(name, g, p):
    if name == 'RMSE':
        return True
    if name == 'PCC':
        s = lambda x: ref.std(x) > 1e-7 * max(1.0, max(abs(v) for v in x))
        return s(g) and s(p)
    return rankable(g) and rankable(p)


def check(c):
    kw = {}
    if c['aggr'] is not None:
        kw['aggr_method'] = AGGR[c['aggr']][0]
    if c['mapping'] is not None:
        kw['enable_mapping'] = c['mapping']
    f = AGGR[c['aggr'] or 'mean'][1]
    g = [float(f(x)) if isinstance(x, list) else float(x) for x in c['g']]
    p = [float(x) for x in c['p']]
    if not defined(c['metric'], g, p):
        return ['undefined']
    G, P = shape(c['g'], c['type']), shape(c['p'], c['type'])
    m = metric(c['metric'])(G, P)
    got = m.evaluate(**kw)['score']
    want = reference(c['metric'], g, p)
    ref.close(got, want, 1e-7, 1e-9, c['metric'])
    ref.close(m.evaluate(**kw)['score'], got, 0, 0, 'second evaluation')
    # symmetry, and order of the pairs is irrelevant
    if not any(isinstance(x, list) for x in c['g']):
        ref.close(metric(c['metric'])(P, G).evaluate(**kw)['score'], want, 1e-7, 1e-9, 'exchanged lists')
        ref.close(metric(c['metric'])(list(G)[::-1], list(P)[::-1]).evaluate(**kw)['score'], want, 1e-7, 1e-9, 'reversed lists')
    return [c['metric'], 'nested' if any(isinstance(x, list) for x in c['g']) else 'flat'] + \
        (['ties'] if len(set(p)) < len(p) or len(set(g)) < len(g) else []) + \
        (['nt'] if len(g) >= 3 and len(set(g)) > 1 and len(set(p)) > 1 else [])


@st.composite
def unequal(draw):
    n = draw(st.integers(0, 6))
    return {'n': n, 'k': draw(st.integers(1, 4)), 'metric': draw(st.sampled_from(NAMES)), 'swap': draw(st.booleans())}


def check_unequal(c):
    a, b = [float(i) for i in range(c['n'])], [float(i) for i in range(c['n'] + c['k'])]
    if c['swap']:
        a, b = b, a
    sut.refused(lambda: metric(c['metric'])(a, b), 'lists of lengths {} and {}'.format(len(a), len(b)))
    return ['unequal', 'nt']


@st.composite
def mapping(draw):
    n = draw(st.integers(3, 15))
    kind = draw(st.sampled_from(['eighth', 'ties', 'cont']))
    g = number(draw, kind, n)
    rel = draw(st.sampled_from(['free', 'noisy', 'decreasing']))
    if rel == 'free':
        p = number(draw, draw(st.sampled_from(['eighth', 'ties'])), n)
    else:
        sg = 1 if rel == 'noisy' else -1
        p = [sg * 10 * x + e for x, e in zip(g, number(draw, 'eighth', n))]
    return {'g': g, 'p': p, 'metric': draw(st.sampled_from(['SRCC', 'KENDALL', 'RMSE', 'PCC'])), 'rel': rel}


def check_mapping(c):
    g, p = [float(x) for x in c['g']], [float(x) for x in c['p']]
    if not rankable(g) or not rankable(p):
        return ['undefined']
    cls = metric(c['metric'])
    x = np.asarray(cls.sigmoid_adjust(p, g), float)
    if not np.isfinite(x).all():
        return ['flat']
    lo, hi = min(g) - 0.1, max(g) + 0.1
    require(len(x) == len(p), '{} mapped predictions', len(x))
    eps = 1e-9 * max(1.0, hi - lo)
    require(lo - eps <= x.min() and x.max() <= hi + eps, 'mapped to [{}, {}] outside [{}, {}]', x.min(), x.max(), lo, hi)
    order = np.argsort(p, kind='stable')
    d = np.diff(x[order])
    require((d >= -eps).all() or (d <= eps).all(), 'mapping is not monotone: {} -> {}', str(np.array(p)[order]), str(x[order]))
    for i in range(len(p)):
        for j in range(i):
            if p[i] == p[j]:
                require(abs(x[i] - x[j]) <= eps, 'equal predictions mapped to {} and {}', x[i], x[j])
    # logistic: the logit of the position within the range is affine in the prediction
    t = (x - lo) / (hi - lo)
    mid = (t > 1e-6) & (t < 1 - 1e-6)
    if mid.sum() >= 3 and np.ptp(np.array(p)[mid]) > 1e-6:
        z = np.log(t[mid] / (1 - t[mid]))
        q = np.array(p)[mid]
        A = np.vstack([q, np.ones(len(q))]).T
        fit = A @ np.linalg.lstsq(A, z, rcond=None)[0]
        ref.close(fit, z, 1e-4, 1e-4, 'logit of the mapped predictions')
    score = cls(g, p).evaluate(enable_mapping=True)['score']
    distinct = len(set(np.round(x, 9))) == len(set(p)) and rankable(list(x))
    lab = [c['metric'], c['rel']]
    if c['metric'] in ('SRCC', 'KENDALL'):
        if distinct:
            ref.close(abs(score), abs(reference(c['metric'], g, p)), 1e-7, 1e-9, c['metric'] + ' with mapping')
            lab.append('nt')
    elif defined(c['metric'], g, list(x)):
        ref.close(score, reference(c['metric'], g, list(x)), 1e-7, 1e-9, c['metric'] + ' of the mapped predictions')
        lab.append('nt')
    return lab


SUBTESTS = [Sub('definitions', case(), check, quick=4000, thorough=60000),
            Sub('unequal_lengths', unequal(), check_unequal, quick=120, thorough=400),
            Sub('mapping', mapping(), check_mapping, quick=1600, thorough=24000)]
