"""C27: final normalisation and transformation act on the quality scores only."""
import numpy as np
from hypothesis import strategies as st

from lib import core, gen, models, ref, sut
from lib.core import Sub, require
from checks.c21 import alike as _alike, enc
from checks.c22 import write

RULE = 'at least two videos with different scores and normalisation or transformation requested'
RAW = [m for m in models.STEPS if m not in ('PERSUBJECT', 'MLE', 'MLE_SO', 'MLE_legacy', 'DMOS_MLE')]
PC = ['BT_MLE', 'BT_NR', 'THURSTONE_MLE']
coef = st.one_of(st.integers(-300, 300).map(lambda v: v / 32), st.sampled_from([0, 1, -1, 2, 0.0, -4.5, 1e-3, 250]))


def alike(a, b):
    return _alike(enc(a), enc(b))


@st.composite
def options(draw):
    kw = {}
    n = draw(st.sampled_from([None, False, True, True]))
    if n is not None:
        kw['normalize_final'] = n
    t = draw(st.sampled_from(['absent', 'none', 'dict', 'dict', 'dict']))
    if t == 'none':
        kw['transform_final'] = None
    elif t == 'dict':
        ks = draw(st.lists(st.sampled_from(['p2', 'p1', 'p0']), unique=True, max_size=3))
        kw['transform_final'] = {k: draw(coef) for k in ks}
    return kw


def expected(q, kw):
    q = [float(x) for x in q]
    if kw.get('normalize_final', False):
        m, s = ref.mean(q), ref.std(q)
        q = [(x - m) / s for x in q]
    t = kw.get('transform_final')
    if t is not None:
        q = [t.get('p2', 0) * x * x + t.get('p1', 0) * x + t.get('p0', 0) for x in q]
    return q


def judge(base, got, kw, what):
    q = np.array(base['quality_scores'], float)
    if q.size == 0 or not np.isfinite(q).all():
        return ['undefined']
    if kw.get('normalize_final') and (len(q) < 2 or np.std(q) < 1e-6 * max(1.0, np.abs(q).max())):
        return ['constant']
    e = expected(q, kw)
    t = kw.get('transform_final') or {}
    size = max([1.0] + [abs(x) for x in e]) + sum(abs(float(v)) for v in t.values()) * max(1.0, max(abs(x) for x in expected(q, dict(kw, transform_final=None)))) ** 2
    require(len(got['quality_scores']) == len(q), '{}: {} scores for {} videos', what, len(got['quality_scores']), len(q))
    ref.close(got['quality_scores'], e, 1e-9, 1e-9 * size, '{} with {}'.format(what, kw))
    if kw.get('normalize_final') and kw.get('transform_final') is None:
        z = np.array(got['quality_scores'], float)
        require(abs(z.mean()) < 1e-8 and abs(z.std() - 1) < 1e-8, '{}: normalised scores have mean {} and standard deviation {}', what, z.mean(), z.std())
    require(set(got) == set(base), '{}: results {} instead of {}', what, str(sorted(got)), str(sorted(base)))
    for k in base:
        if k == 'quality_scores':
            continue
        require(alike(got[k], base[k]), '{} with {}: {} changed from {} to {}', what, str(kw), k, str(base[k])[:200], str(got[k])[:200])
    return ['nt'] if len(q) > 1 and (kw.get('normalize_final') or kw.get('transform_final') is not None) else ['plain']


def tags(kw):
    return ['norm' if kw.get('normalize_final') else 'raw', '+'.join(sorted(kw['transform_final'])) or 'empty'
            if kw.get('transform_final') is not None else 'untransformed']


@st.composite
def raw_case(draw):
    return {'ds': draw(gen.raw(E=(1, 8), S=(2, 6), R=(1, 2), hidden_ref=True)), 'model': draw(st.sampled_from(RAW)), 'kw': draw(options())}


def attempt(fn):
    try:
        return fn()
    except Exception:
        return None


def check_raw(c):
    ds, m = c['ds'], c['model']
    if not models.fit(m, ds):
        return ['outside']
    base = attempt(lambda: sut.run(m, ds))
    if base is None:
        return ['undefined']
    a = sut.model_class(m)(sut.reader(ds))
    got = a.run_modeling(**c['kw'])
    out = judge(base, got, c['kw'], m)
    if 'nt' in out:
        agg = a.to_aggregated_dataset()
        ref.close([v['groundtruth'] for v in agg.dis_videos], got['quality_scores'], 1e-12, 1e-12, 'aggregated scores of ' + m)
        require([v['path'] for v in agg.dis_videos] == gen.paths(ds), 'aggregated videos are in another order')
        # a second run without the options is not affected
        require(alike(dict(a.run_modeling(), observers=0), dict(base, observers=0)), '{}: a run without options after one with them differs', m)
    return out + tags(c['kw']) + [m]


@st.composite
def mle_case(draw):
    return {'ds': draw(gen.well_posed(E=(8, 12), S=(8, 10))), 'model': draw(st.sampled_from(['MLE', 'MLE_SO', 'DMOS_MLE', 'MLE_CO', 'MLE_legacy'])), 'kw': draw(options())}


@st.composite
def pc_case(draw):
    return {'p': draw(gen.pc(M=(2, 6), S=(1, 5), strong=True)), 'model': draw(st.sampled_from(PC)), 'kw': draw(options()),
            'zscore_output': draw(st.sampled_from([None, False, True]))}


def check_pc(c):
    kw0 = {} if c['zscore_output'] is None else {'zscore_output': c['zscore_output']}
    base = attempt(lambda: sut.run_pc(c['model'], c['p'], **kw0))
    if base is None:
        return ['undefined']
    got = sut.run_pc(c['model'], c['p'], **dict(c['kw'], **kw0))
    return judge(base, got, c['kw'], c['model']) + tags(c['kw']) + [c['model']]


@st.composite
def file_case(draw):
    return {'ds': draw(gen.raw(E=(2, 6), S=(3, 6), R=(1, 1), hidden_ref=True, styles=('list', 'dict'))),
            'models': draw(st.lists(st.sampled_from(['MOS', 'P910', 'BT500', 'BR_MOS', 'DMOS', 'P913']), min_size=1, max_size=3, unique=True)),
            'kw': draw(options())}


def check_file(c):
    from sureal.routine import run_subjective_models
    ds = c['ds']
    base = attempt(lambda: [sut.run(m, ds) for m in c['models']])
    if base is None:
        return ['undefined']
    with core.tmpdir() as d:
        f = write(ds, 'py', d)
        cl = [sut.model_class(m) for m in c['models']]
        plain = attempt(lambda: run_subjective_models(f, cl)[2])
        if plain is None:
            return ['undefined']
        _, _, results = run_subjective_models(f, cl, **c['kw'])
    out = []
    for m, b, p, r in zip(c['models'], base, plain, results):
        ref.close(p['quality_scores'], b['quality_scores'], 1e-12, 1e-12, m)
        p.pop('observers', None), r.pop('observers', None)
        out += judge(p, r, c['kw'], m + ' on a file')
    return sorted(set(out)) + tags(c['kw'])


SUBTESTS = [Sub('raw', raw_case(), check_raw, quick=600), Sub('pc', pc_case(), check_pc, quick=160),
            Sub('mle', mle_case(), check_raw, quick=32, thorough=400), Sub('file', file_case(), check_file, quick=100)]
