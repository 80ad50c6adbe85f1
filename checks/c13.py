"""C13: results do not depend on order, labels or voting style."""
import copy
import random

import numpy as np
from hypothesis import strategies as st

from lib import gen, models, ref, sut
from lib.core import Sub, require

RULE = 'at least two videos and two subjects with votes that are not all equal, and a transformation that is not the identity'
ASSUMPTIONS = ['cases in which a rejection decision lies within rounding error of its threshold are not judged; iterative '
               'models are judged where they converge to a non-degenerate solution']


@st.composite
def transform(draw, ds):
    """Another description of the same votes; video/subject maps from new positions to old ones."""
    E, S, R = gen.dims(ds)
    rng = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
    kinds = draw(st.lists(st.sampled_from(['videos', 'subjects', 'names', 'contents', 'assets', 'style', 'wrap', 'refs',
                                           'title']), min_size=1, max_size=4, unique=True))
    d = copy.deepcopy(ds)
    vid, sub = list(range(E)), list(range(S))
    ids = sorted(ds['ref_order'])
    cmap = list(range(ids[-1] + 1))
    if 'videos' in kinds:
        rng.shuffle(vid)
        for k in ('cells', 'wrap', 'content', 'asset'):
            d[k] = [ds[k][e] for e in vid]
        d['hidden'] = {c: vid.index(e) for c, e in ds['hidden'].items()}
    if 'subjects' in kinds:
        rng.shuffle(sub)
        d['cells'] = [[row[s] for s in sub] for row in d['cells']]
        d['wrap'] = [[row[s] for s in sub] for row in d['wrap']]
        d['subjects'] = [ds['subjects'][s] for s in sub]
    if 'names' in kinds:
        names = list(gen.NAMES)
        rng.shuffle(names)
        d['subjects'] = names[:S]
    if 'contents' in kinds:
        new = dict(zip(ids, rng.sample(ids, len(ids))))          # old id c becomes new[c]
        d['content'] = [new[c] for c in d['content']]
        d['ref_order'] = [new[c] for c in d['ref_order']]
        d['hidden'] = {str(new[int(c)]): e for c, e in d['hidden'].items()}
        for c in ids:
            cmap[new[c]] = c
    if 'assets' in kinds:
        d['asset'] = rng.sample(range(0, 4 * E + 3), E)
    if 'style' in kinds:
        d['style'] = rng.choice([x for x in ('list', 'tuple', 'dict') if x != ds['style']])
    if 'wrap' in kinds:
        d['wrap'] = [[rng.random() < 0.5 for _ in range(S)] for _ in range(E)]
    if 'refs' in kinds:
        rng.shuffle(d['ref_order'])
    if 'title' in kinds:
        d['name'] = 'another'
    return {'a': ds, 'b': d, 'video': vid, 'subject': sub, 'content': cmap, 'kinds': sorted(kinds)}


def judge(c):
    a, b, model = c['a'], c['b'], c['model']
    if not models.fit(model, a):
        return ['unfit']
    if not models.stable(model, a):
        return ['ambiguous']
    ra, rb = sut.run(model, a), sut.run(model, b)
    if not models.settled(model, ra, a):
        return ['unsettled']
    oa, ob = gen.subject_order(a), gen.subject_order(b)
    # column i of b is subject ob[i] of b, which is subject c['subject'][ob[i]] of a, in column oa.index(...) of a
    subject = [oa.index(c['subject'][s]) for s in ob]
    skip = [] if model in models.MLE + models.PROJECTION or models.ll_defined(a, models.processed(model, a)) else \
        ['loglikelihood', 'aic', 'bic']
    if model in models.MLE:
        # curvature of parameters clamped at zero depends on the last step
        skip += ['observer_inconsistency_std', 'content_ambiguity_std', 'content_ambiguity_ci95']
    models.compare(ra, rb, models.tolerance(model), '{} after {}'.format(model, '+'.join(c['kinds'])), video=c['video'],
                   subject=subject, content=c['content'], skip=skip)
    for r, d, o in ((ra, a, oa), (rb, b, ob)):
        if d['style'] == 'dict':
            require(list(r['observers']) == [d['subjects'][s] for s in o], '{}: observers {}', model, str(r['observers']))
    E, S, R = gen.dims(a)
    vs = set(v for row in a['cells'] for cc in row for v in cc)
    moved = a != b
    return [model] + c['kinds'] + (['nt'] if moved and E > 1 and S > 1 and len(vs) > 1 else [])


@st.composite
def direct(draw):
    c = draw(transform(draw(gen.raw(E=(1, 8), S=(1, 7), R=(1, 3), hidden_ref=True))))
    c['model'] = draw(st.sampled_from(models.DIRECT))
    if c['model'] in models.SINGLE:
        c = draw(transform(draw(gen.raw(E=(1, 8), S=(1, 7), R=(1, 1), missing=False))))
        c['model'] = 'LS'
    return c


@st.composite
def panel_case(draw):
    from checks.c08 import panel
    c = draw(transform(draw(panel(S=(6, 16), E=(4, 14)))))
    c['model'] = draw(st.sampled_from([m for m in models.DIRECT if set(models.STEPS[m]) & set('rps')]))
    return c


@st.composite
def projection(draw):
    c = draw(transform(draw(gen.well_posed(E=(10, 18), S=(9, 15), R=(1, 2), styles=('list', 'dict', 'tuple')))))
    c['model'] = draw(st.sampled_from(models.PROJECTION))
    return c


@st.composite
def mle(draw):
    model = draw(st.sampled_from(models.MLE))
    single = model in models.SINGLE
    c = draw(transform(draw(gen.well_posed(E=(12, 20), S=(12, 17), R=(1, 1 if single else 2), missing=not single,
                                           styles=('list', 'dict', 'tuple')))))
    c['model'] = model
    return c


# ---- paired comparisons ----

PC = ['BT_MLE', 'BT_NR', 'THURSTONE_MLE']


@st.composite
def pc_case(draw):
    p = draw(gen.pc(M=(2, 6), S=(1, 6), max_pairs=40, strong=True))
    rng = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
    order = list(range(p['m']))
    rng.shuffle(order)                     # new position i holds old video order[i]
    inv = [order.index(i) for i in range(p['m'])]
    names = list(gen.NAMES) + ['n{}'.format(i) for i in range(40)]
    rng.shuffle(names)
    assets = list(range(p['m']))
    rng.shuffle(assets)
    q = {'m': p['m'], 'subjects': names[:len(p['subjects'])], 'asset': assets, 'content': [p['content'][i] for i in order],
         'votes': []}
    for a, i, j, v in p['votes']:
        # the same comparison may be recorded at either video
        if rng.random() < 0.5:
            q['votes'].append([a, inv[i], inv[j], v])
        else:
            q['votes'].append([a, inv[j], inv[i], 1 - v])
    rng.shuffle(q['votes'])
    return {'p': p, 'q': q, 'order': order, 'model': draw(st.sampled_from(PC))}


def check_pc(c):
    from checks.c16 import mild
    if not mild(gen.pc_alpha(c['p'])):
        return ['extreme']
    a = sut.run_pc(c['model'], c['p'], zscore_output=False)
    b = sut.run_pc(c['model'], c['q'], zscore_output=False)
    x = np.array(a['quality_scores'], float)[c['order']]
    y = np.array(b['quality_scores'], float)
    # only differences are determined by the Newton-Raphson and Thurstone models
    tol = 1e-5 if c['model'] != 'THURSTONE_MLE' else 2e-2
    ref.close(y - y.mean(), x - x.mean(), tol, tol, c['model'] + ' scores after relabelling')
    if a['quality_scores_std'] is not None:
        s, t = np.array(a['quality_scores_std'], float)[c['order']], np.array(b['quality_scores_std'], float)
        ref.close(t, s, 1e-4 if c['model'] == 'BT_MLE' else 5e-2, 1e-6, c['model'] + ' std after relabelling')
    return [c['model'], 'nt']


SUBTESTS = [Sub('direct_models', direct(), judge, quick=3200, thorough=32000),
            Sub('rejection_models', panel_case(), judge, quick=1000, thorough=10000),
            Sub('projection', projection(), judge, quick=320, thorough=4000),
            Sub('maximum_likelihood', mle(), judge, quick=96, thorough=1000, shrink=40),
            Sub('paired_comparison', pc_case(), check_pc, quick=240, thorough=2400)]
