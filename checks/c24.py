"""C24: probability densities, weighted means, histograms and numerical inverses match their definitions."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import sut
from lib.core import Sub, require, Violation

RULE = ('densities: scales differ and at least one point within the bulk; weighted mean: at least one missing and two '
        'present values in a row/column; inverse: point strictly inside the image; histogram: at least two filled bins')

fl = lambda a, b, k=1024: st.integers(int(a * k), int(b * k)).map(lambda v: v / k)


def close(a, b, rel=1e-9, ab=1e-13):
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


# ---- closed forms -------------------------------------------------------------------------------

@st.composite
def density(draw):
    rows, cols = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    kind = draw(st.sampled_from(['gaussian', 'logistic', 'uniforms']))
    shape = draw(st.sampled_from(['scalar', 'grid', 'grid', 'row', 'column']))
    n = {'scalar': 1, 'grid': rows * cols, 'row': cols, 'column': rows}[shape]
    arr = lambda e, m: draw(st.lists(e, min_size=m, max_size=m))
    m = rows * cols
    # distance from the location in units of the scale, so that the bulk and the tails are both hit
    return {'kind': kind, 'shape': shape, 'rows': rows, 'cols': cols, 'z': arr(fl(-6, 6), m),
            'loc': arr(fl(-20, 20), n), 'scale': arr(st.sampled_from([1e-3, 0.02, 0.1, 0.5, 1.0, 1.7, 3.0, 25.0]), n),
            'loc2': arr(fl(-20, 20), n), 'scale2': arr(st.sampled_from([0.02, 0.1, 0.5, 1.0, 1.0, 2.5, 9.0]), n),
            'corner': arr(st.sampled_from([0, 0, 1, -1, 2, -2]), m),
            'far': draw(st.sampled_from([1, 1, 1, 4, 40]))}


def gauss(x, m, s):
    return math.exp(-0.5 * ((x - m) / s) ** 2) / (s * math.sqrt(2 * math.pi))


def logis(x, m, s):
    z = abs(x - m) / s
    e = math.exp(-z)
    return e / (s * (1 + e) ** 2)


def trapezoid(x, m1, w1, m2, w2):
    """(U(m1, width w1) * U(m2, width w2))(x): overlap of two intervals over the product of the widths."""
    c = x - m1 - m2
    lo, hi = max(-w1 / 2, c - w2 / 2), min(w1 / 2, c + w2 / 2)
    return max(0.0, hi - lo) / (w1 * w2)


def check_density(c):
    from sureal.tools import stats
    R, C, shape = c['rows'], c['cols'], c['shape']
    pick = {'scalar': lambda i, j: 0, 'grid': lambda i, j: i * C + j, 'row': lambda i, j: j, 'column': lambda i, j: i}[shape]

    def param(v):
        if shape == 'scalar':
            return v[0]
        return np.array(v).reshape({'grid': (R, C), 'row': (1, C), 'column': (R, 1)}[shape])
    far = {'gaussian': min(4, c.get('far', 1)), 'logistic': c.get('far', 1), 'uniforms': 1}[c['kind']]
    spread = lambda k: c['scale'][k] + (c['scale2'][k] / 4 if c['kind'] == 'uniforms' else 0)
    xs = np.array([[c['loc'][pick(i, j)] + (c['loc2'][pick(i, j)] if c['kind'] == 'uniforms' else 0)
                    + c['z'][i * C + j] * far * spread(pick(i, j)) / (4 if c['kind'] == 'uniforms' else 1) for j in range(C)] for i in range(R)])
    if c['kind'] == 'uniforms':
        # around the corners of the density
        for i in range(R):
            for j in range(C):
                k, side = pick(i, j), c.get('corner', [0] * (R * C))[i * C + j]
                if side:
                    w1, w2 = c['scale'][k], c['scale2'][k]
                    half = abs(w1 - w2) / 2 if abs(side) == 1 else (w1 + w2) / 2
                    xs[i, j] = c['loc'][k] + c['loc2'][k] + math.copysign(half, side) * (1 + c['z'][i * C + j] / 100)
    if c['kind'] == 'gaussian':
        got = stats.vectorized_gaussian(xs, param(c['loc']), param(c['scale']))
        f = lambda x, k: gauss(x, c['loc'][k], c['scale'][k])
    elif c['kind'] == 'logistic':
        got = stats.vectorized_logistic(xs, param(c['loc']), param(c['scale']))
        f = lambda x, k: logis(x, c['loc'][k], c['scale'][k])
    else:
        got = stats.vectorized_convolution_of_two_uniforms(xs, param(c['loc']), param(c['scale']), param(c['loc2']), param(c['scale2']))
        f = lambda x, k: trapezoid(x, c['loc'][k], c['scale'][k], c['loc2'][k], c['scale2'][k])
    got = np.asarray(got)
    require(got.shape == (R, C), '{}: result has shape {}, points have {}', c['kind'], got.shape, (R, C))
    for i in range(R):
        for j in range(C):
            k = pick(i, j)
            e = f(xs[i, j], k)
            top = f(c['loc'][k] + (c['loc2'][k] if c['kind'] == 'uniforms' else 0), k)
            # rounding of x - loc is amplified by 1/scale
            tol = 1e-10 * abs(e) * 40 + 1e-12 * top * (1 + 100 / c['scale'][k] if c['kind'] == 'uniforms' else 1)
            require(abs(got[i, j] - e) <= tol, '{} density at x={} (loc {}, scale {}{}) is {}, exact {}', c['kind'], xs[i, j],
                    c['loc'][k], c['scale'][k], ', loc2 {}, scale2 {}'.format(c['loc2'][k], c['scale2'][k]) if c['kind'] == 'uniforms' else '',
                    got[i, j], e)
            if c['kind'] != 'uniforms':
                # tails as well: the likelihood takes logarithms
                require(abs(got[i, j] - e) <= 1e-6 * e, '{} density at x={} (loc {}, scale {}) is {}, exact {}', c['kind'], xs[i, j], c['loc'][k],
                        c['scale'][k], got[i, j], e)
            if c['kind'] == 'uniforms':
                s = stats.convolution_of_two_uniforms(xs[i, j], c['loc'][k], c['scale'][k], c['loc2'][k], c['scale2'][k])
                require(abs(s - e) <= tol, 'convolution_of_two_uniforms({}, ...) = {}, exact {}', xs[i, j], s, e)
    return [c['kind'], shape] + (['nt'] if any(abs(z) < 3 for z in c['z']) else [])


# ---- numerical convolution ----------------------------------------------------------------------

@st.composite
def conv(draw):
    kind = draw(st.sampled_from(['gaussian', 'logistic', 'mixed']))
    return {'kind': kind, 's': [draw(st.sampled_from([0.15, 0.3, 0.5, 1.0, 1.6, 2.5])) for _ in range(2)],
            'delta': draw(st.sampled_from([None, 5e-3, 2e-2])), 'z': draw(st.lists(fl(-4, 4), min_size=1, max_size=6)),
            'trunc': draw(st.sampled_from([None, 1e-5, 1e-7]))}


def quad(f, g, x, s):
    """int f(t) g(x - t) dt by the trapezoidal rule, spectrally accurate for these analytic densities."""
    h = min(s) / 12
    t = np.arange(-70 * max(s) - abs(x), 70 * max(s) + abs(x), h)
    return float(np.sum(f(t) * g(x - t)) * h)


def check_conv(c):
    from sureal.tools.stats import ConvolveTwoPdf
    s1, s2 = c['s']
    gf = lambda s: (lambda t: np.exp(-0.5 * (np.asarray(t) / s) ** 2) / (s * math.sqrt(2 * math.pi)))
    lf = lambda s: (lambda t: np.exp(-np.abs(t) / s) / (s * (1 + np.exp(-np.abs(t) / s)) ** 2))
    f = {'gaussian': gf, 'logistic': lf, 'mixed': gf}[c['kind']](s1)
    g = {'gaussian': gf, 'logistic': lf, 'mixed': lf}[c['kind']](s2)
    kw = {}
    if c['delta'] is not None:
        kw['delta'] = c['delta']
    if c['trunc'] is not None:
        kw.update(f_truncation=c['trunc'], g_truncation=c['trunc'])
    delta = c['delta'] or 1e-2
    p = ConvolveTwoPdf(f, g, **kw)
    total = math.hypot(s1, s2)
    xs = [z * total for z in c['z']]
    top = quad(f, g, 0.0, c['s'])
    exact = (lambda x: gauss(x, 0, total)) if c['kind'] == 'gaussian' else (lambda x: quad(f, g, x, c['s']))
    vec = p.pdf(np.array(xs))
    far = np.arange(0, 60 * max(s1, s2), 0.01)
    reach = max(far[np.nonzero(f(far) >= (c['trunc'] or 1e-5))[0][-1]], far[np.nonzero(g(far) >= (c['trunc'] or 1e-5))[0][-1]])
    for k, x in enumerate(xs):
        got = float(p.pdf(x))
        require(got == vec[k], 'pdf({}) = {} but {} when evaluated in an array', x, got, vec[k])
        e = exact(x)
        tol = top * (2 * delta / total + 3e-3)
        if abs(x) > 0.9 * reach:
            tol += e        # beyond the truncation point the density is cut to (almost) zero
        require(abs(got - e) <= tol, 'convolution of {} densities with scales {} at {} is {}, exact {} (resolution {})', c['kind'],
                c['s'], x, got, e, delta)
    # total mass and centre of the convolved density
    grid = np.linspace(-12 * total, 12 * total, 6001)
    v = p.pdf(grid)
    h = grid[1] - grid[0]
    require(abs(v.sum() * h - 1) <= 0.01 + 2 * delta / total, 'convolved density integrates to {}', v.sum() * h)
    mean = float((v * grid).sum() * h)
    require(abs(mean) <= 2 * delta + 0.005 * total, 'convolved density of two centred densities has mean {}', mean)
    if c['kind'] == 'gaussian':
        var = float((v * grid ** 2).sum() * h)
        require(abs(var - total ** 2) <= (0.05 + 3 * delta / total) * total ** 2, 'variance of the convolution is {}, not {}', var, total ** 2)
    return [c['kind']] + (['nt'] if s1 != s2 and any(abs(z) < 2 for z in c['z']) else [])


@st.composite
def conv2(draw):
    rows, cols = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    n = rows * cols
    arr = lambda e: draw(st.lists(e, min_size=n, max_size=n))
    return {'rows': rows, 'cols': cols, 'flat': False, 'z': arr(fl(-4, 4)), 'l1': arr(fl(-3, 3)), 'l2': arr(fl(-3, 3)),
            's1': arr(st.sampled_from([0.1, 0.3, 0.7, 1.5])), 's2': arr(st.sampled_from([0.1, 0.3, 0.7, 1.5]))}


def check_conv2(c):
    from sureal.tools.stats import vectorized_convolution_of_two_logistics
    R, C = c['rows'], c['cols']
    x = [c['l1'][k] + c['l2'][k] + c['z'][k] * (c['s1'][k] + c['s2'][k]) for k in range(R * C)]
    a = lambda v: np.array(v, float).reshape(R, C)
    got = vectorized_convolution_of_two_logistics(a(x), a(c['l1']), a(c['s1']), a(c['l2']), a(c['s2']))
    require(got.shape == (R, C), 'result shape {} for points of shape {}', got.shape, (R, C))
    for k in range(R * C):
        s = (c['s1'][k], c['s2'][k])
        f = lambda t, s=s: np.exp(-np.abs(t) / s[0]) / (s[0] * (1 + np.exp(-np.abs(t) / s[0])) ** 2)
        g = lambda t, s=s: np.exp(-np.abs(t) / s[1]) / (s[1] * (1 + np.exp(-np.abs(t) / s[1])) ** 2)
        e, top = quad(f, g, x[k] - c['l1'][k] - c['l2'][k], s), quad(f, g, 0.0, s)
        v = got[k // C, k % C]
        require(abs(v - e) <= top * (2 * 3e-3 / math.hypot(*s) + 3e-3), 'convolution of logistics ({}, {}) and ({}, {}) at {} is {}, exact {}',
                c['l1'][k], s[0], c['l2'][k], s[1], x[k], v, e)
    return ['nt'] if any(c['s1'][k] != c['s2'][k] for k in range(R * C)) and any(abs(z) < 2 for z in c['z']) else []


# ---- weighted mean ------------------------------------------------------------------------------

@st.composite
def wmean(draw):
    r, k = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    axis = draw(st.sampled_from([0, 1]))
    cell = st.one_of(fl(-50, 50, 64), fl(1, 5, 1).map(float), st.none(), st.none())
    n = r if axis == 0 else k
    return {'a': [[draw(cell) for _ in range(k)] for _ in range(r)], 'axis': axis,
            'w': draw(st.lists(st.sampled_from([0.0, 0.25, 1.0, 1.0, 2.0, 7.5, 1e-3]), min_size=n, max_size=n)),
            'unit': draw(st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e-12, 1e6])),
            'list': draw(st.booleans())}


def check_wmean(c):
    from sureal.tools.misc import weighed_nanmean_2d
    a = np.array([[np.nan if v is None else float(v) for v in row] for row in c['a']])
    before = a.copy()
    c = dict(c, w=[x * c.get('unit', 1.0) for x in c['w']])
    w = list(c['w']) if c['list'] else np.array(c['w'])
    got = weighed_nanmean_2d(a, w, axis=c['axis'])
    require(np.array_equal(a, before, equal_nan=True), 'weighed_nanmean_2d changed its input')
    rows = c['a'] if c['axis'] == 1 else [list(x) for x in zip(*c['a'])]
    require(np.asarray(got).shape == (len(rows),), 'result has shape {}, expected {}', np.asarray(got).shape, (len(rows),))
    nt = False
    for i, row in enumerate(rows):
        num = math.fsum(w * v for v, w in zip(row, c['w']) if v is not None)
        den = math.fsum(w for v, w in zip(row, c['w']) if v is not None)
        if den == 0:
            require(not math.isfinite(got[i]) or got[i] == 0, 'weight 0 present in line {} but mean is {}', i, got[i])
            continue
        e = num / den
        big = max(abs(v) for v in row if v is not None)
        require(abs(got[i] - e) <= 1e-11 * (1 + big), 'weighted mean of {} with weights {} is {}, exact {}', row, c['w'], got[i], e)
        if None in row and sum(v is not None for v in row) >= 2:
            nt = True
    return ['axis{}'.format(c['axis'])] + (['nt'] if nt else [])


# ---- histograms ---------------------------------------------------------------------------------

@st.composite
def hist(draw):
    # values are multiples of 1/97 offset by an irrational amount: never on an interior edge of the generated bins
    vals = draw(st.lists(st.integers(-200, 200).map(lambda v: v / 8), min_size=2, max_size=40))
    return {'x': vals, 'bins': draw(st.integers(1, 12)), 'density': draw(st.sampled_from([None, True, False])), 'default': draw(st.booleans()),
            'nan': draw(st.lists(st.integers(0, 10), max_size=3)), 'type': draw(st.sampled_from(['list', 'array']))}


def check_hist(c):
    from sureal.tools import stats
    x = [float(v) for v in c['x']]
    data = np.array(x) if c['type'] == 'array' else list(x)
    # histc
    withnan = list(x)
    for p in c['nan']:
        withnan.insert(min(p, len(withnan)), float('nan'))
    h = stats.histc(withnan)
    exp = {}
    for v in x:
        exp[v] = exp.get(v, 0) + 1
    require(dict(h) == exp, 'histc({}) = {}, expected {}', withnan, h, exp)
    lo, hi = min(x), max(x)
    labels = []
    if hi > lo:
        for fn, bins in [('cdf', 100 if c['default'] else c['bins']), ('pdf', 20 if c['default'] else c['bins'])]:
            width = (hi - lo) / bins
            on_edge = [v for v in x if v not in (lo, hi) and abs((v - lo) / width - round((v - lo) / width)) < 1e-9]
            if on_edge:
                continue
            kw = {} if c['default'] else {'bins': bins}
            counts = [sum(1 for v in x if min(int((v - lo) / width), bins - 1) == b) for b in range(bins)]
            if fn == 'cdf':
                cdf, edges = stats.get_cdf(data, **kw)
                require(len(cdf) == bins == len(edges), 'get_cdf gives {} values and {} edges for {} bins', len(cdf), len(edges), bins)
                for b in range(bins):
                    e = sum(counts[:b + 1]) / len(x)
                    require(close(cdf[b], e), 'cdf[{}] = {}, but {} of the values lie up to that edge', b, cdf[b], e)
                    require(abs(edges[b] - (lo + (b + 1) * width)) <= 1e-9 * (1 + abs(lo) + abs(hi)), 'cdf edge {} is {}, expected {}', b, edges[b],
                            lo + (b + 1) * width)
            else:
                if c['density'] is not None:
                    kw['density'] = c['density']
                pdf, centres = stats.get_pdf(data, **kw)
                require(len(pdf) == bins == len(centres), 'get_pdf gives {} values and {} centres for {} bins', len(pdf), len(centres), bins)
                for b in range(bins):
                    e = counts[b] if c['density'] is False else counts[b] / (len(x) * width)
                    require(close(pdf[b], e), 'pdf[{}] = {}, expected {} (counts {}, width {})', b, pdf[b], e, counts, width)
                    require(abs(centres[b] - (lo + (b + 0.5) * width)) <= 1e-9 * (1 + abs(lo) + abs(hi)), 'bin centre {} is {}', b, centres[b])
            labels.append(fn)
            if sum(1 for k in counts if k) > 1:
                labels.append('nt')
    return labels


# ---- numerical inverse --------------------------------------------------------------------------

FUNCS = {
    # name: (f, inverse is checked through f alone; (lo, hi) of x used for generating y, domain kwargs)
    'linear': (lambda x, a, b: a * x + b, (-50, 50), {}),
    'cubic': (lambda x, a, b: a * (x ** 3 + x) + b, (-8, 8), {}),
    'exp': (lambda x, a, b: a * np.exp(x / (1 + abs(b))), (-3, 6), {}),
    'square': (lambda x, a, b: a * x ** 2 + b, (0, 30), {'domain': 0}),
    'square_left': (lambda x, a, b: a * x ** 2 + b, (-30, 0), {'domain': [None, 0]}),
    'log': (lambda x, a, b: a * np.log10(x) + b, (0.01, 500), {'domain': 0, 'open_domain': True}),
    'cos': (lambda x, a, b: a * np.cos(x) + b, (0, math.pi), {'domain': [0, math.pi]}),
    'tan': (lambda x, a, b: a * np.tan(x) + b, (-1.4, 1.4), {'domain': [-math.pi / 2, math.pi / 2], 'open_domain': True}),
    'sinh': (lambda x, a, b: a * np.sinh(x) + b, (-4, 4), {}),
    'box': (lambda x, a, b: a * x + b + a * np.sin(x) / 2, (-5, 7), {'domain': [-5, 7]}),
}


@st.composite
def inverse(draw):
    name = draw(st.sampled_from(sorted(FUNCS)))
    n = draw(st.integers(1, 5))
    return {'f': name, 'a': draw(st.sampled_from([1.0, 2.5, 0.3, -1.0, -0.7, -4.0])), 'b': draw(fl(-3, 3, 8)),
            't': draw(st.lists(fl(0, 1), min_size=n, max_size=n)), 'form': draw(st.sampled_from(['values', 'callable'])),
            'shape': draw(st.sampled_from(['array', 'list', 'scalar', 'column'])),
            'end': draw(st.sampled_from([None, 0, 1])), 'outside': draw(st.sampled_from([None, 'low', 'high'])),
            'badtype': draw(st.booleans())}


def check_inverse(c):
    from sureal.tools.inverse import inversefunc
    f, (lo, hi), kw = FUNCS[c['f']]
    a, b = c['a'], c['b']
    calls = lambda y: inversefunc(f, y, args=(a, b), **kw) if c['form'] == 'values' else inversefunc(f, args=(a, b), **kw)(y)
    xs = [lo + t * (hi - lo) for t in c['t']]
    dom = kw.get('domain')
    ends = [None, None] if dom is None else [dom, None] if not isinstance(dom, list) else dom
    closed = not kw.get('open_domain')
    with np.errstate(all='ignore'):
        ys = [float(f(x, a, b)) for x in xs]
        if c['end'] is not None and ends[c['end']] is not None and closed:
            ys[0] = float(f(float(ends[c['end']]), a, b))
            xs[0] = ends[c['end']]
        arg = {'array': lambda: np.array(ys), 'list': lambda: list(ys), 'scalar': lambda: ys[0], 'column': lambda: np.array(ys).reshape(-1, 1)}[c['shape']]()
        if c['shape'] == 'scalar':
            xs, ys = xs[:1], ys[:1]
        got = np.asarray(calls(arg))
    require(got.shape == np.shape(arg), 'inverse has shape {}, the values have {}', got.shape, np.shape(arg))
    span = abs(float(f(hi, a, b)) - float(f(lo, a, b)))
    for x, y, g in zip(xs, ys, got.ravel()):
        with np.errstate(all='ignore'):
            back = float(f(g, a, b))
        require(abs(back - y) <= 2e-4 * (abs(y) + 1) + 1e-6 * span, '{}({}): inverse of {} is {} where the function is {} (expected x={})',
                c['f'], (a, b), y, g, back, x)
        for k in (0, 1):
            if ends[k] is not None:
                require(g >= ends[k] if k == 0 else g <= ends[k], 'inverse {} lies outside the domain {}', g, dom)
    labels = [c['f'], 'decreasing' if (a < 0) != (c['f'] in ('cos', 'square_left')) else 'increasing']
    if c['outside'] and dom is not None and closed:
        # values beyond the image of a closed bounded domain end are refused
        limits = [float(f(float(e), a, b)) for e in ends if e is not None]
        interior = float(f((ends[0] if ends[0] is not None else ends[1] - 2) + 1.0, a, b))
        for lim in limits:
            low = lim < interior
            if (c['outside'] == 'low') == low:
                y = lim - (0.5 if low else -0.5)
                sut.refused(lambda: calls(y), 'inverse of {} beyond the limit {} of the image'.format(y, lim))
                labels.append('refused')
    if c['badtype'] and dom is None and len(ys) > 1 and max(ys) > min(ys):
        # an image given explicitly bounds what may be asked for, on both sides and in whole arrays
        lo_y, hi_y = min(ys), max(ys)
        inv = inversefunc(f, args=(a, b), image=[lo_y, hi_y], **kw)
        require(np.array_equal(np.asarray(inv(arg)), got), 'a given image changes the inverse')
        for y in (lo_y - 0.25, hi_y + 0.25):
            sut.refused(lambda: inv(y), 'inverse of {} outside the given image [{}, {}]'.format(y, lo_y, hi_y))
            sut.refused(lambda: inv([ys[0], y]), 'inverse of an array with {} outside the given image'.format(y))
        sut.refused(lambda: inversefunc(f, args=(a, b), image=[hi_y, lo_y], **kw), 'image with its limits exchanged')
        labels.append('image')
    return labels + ['nt']


def probe():
    """Brent's search stalls where the slope of the function vanishes: x**3 at 0."""
    from sureal.tools.inverse import inversefunc
    return abs(float(inversefunc(lambda x: x ** 3, -0.052734375)) + 0.375) > 0.1


KNOWN = {'inverse_of_cubic': probe}

SUBTESTS = [
    Sub('density', density(), check_density, quick=1200),
    Sub('convolution', conv(), check_conv, quick=240),
    Sub('convolution_grid', conv2(), check_conv2, quick=40, thorough=300),
    Sub('weighted_mean', wmean(), check_wmean, quick=1200),
    Sub('histogram', hist(), check_hist, quick=1000),
    Sub('inverse', inverse(), check_inverse, quick=800),
]
