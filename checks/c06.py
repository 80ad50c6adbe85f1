"""C06: z-scoring standardises every subject separately."""
import numpy as np
from hypothesis import strategies as st

from checks.c04 import compare
from checks.c05 import flags
from lib import gen, ref, sut
from lib.core import Sub, require

RULE = 'at least two subjects with at least two different votes each, and at least two videos'


def votes(**kw):
    return gen.raw(E=(2, 9), S=(1, 6), distinct_subject=True, **kw).filter(ok)


def ok(ds):
    # every subject has a well-defined spread, also after differential scoring
    V = gen.votes3d(ds)
    sd = [ref.std(v, 1) for v in ref.flat_subject(V)]
    return all(s == s and s > 1e-3 for s in sd)


def nt(ds):
    return ['nt'] if len(ds['subjects']) > 1 and len(ds['cells']) > 1 else []


def check(ds):
    V = gen.votes3d(ds)
    want = ref.zscore(V)
    res = sut.run('ZS_MOS', ds)
    lab = compare(res, want, V, 2 * len(V), 'ZS_MOS')
    z = np.asarray(res['raw_scores'], dtype=float)
    x = gen.array3d(ds)
    require(bool((np.isnan(z) == np.isnan(x)).all()), 'missing votes changed by z-scoring')
    for s in range(z.shape[1]):
        v = z[:, s, :].ravel()
        v = v[~np.isnan(v)]
        ref.close(ref.mean(v), 0.0, 0, 1e-8, 'mean of a z-scored subject')
        ref.close(ref.std(v, 1), 1.0, 0, 1e-8, 'standard deviation of a z-scored subject')
        o = x[:, s, :].ravel()
        o = o[~np.isnan(o)]
        d = np.subtract.outer(o, o)
        dz = np.subtract.outer(v, v)
        require(bool((dz[d > 0] > 0).all()), 'order of the votes changed by z-scoring')
    return lab + gen.labels(ds) + nt(ds)


@st.composite
def affine(draw):
    ds = draw(votes())
    S = len(ds['subjects'])
    return {'ds': ds, 'a': [draw(st.integers(1, 40)) / 8.0 for _ in range(S)],
            'b': [draw(st.integers(-80, 80)) / 8.0 for _ in range(S)]}


def check_affine(c):
    ds = c['ds']
    d2 = dict(ds)
    d2['cells'] = [[[c['a'][s] * v + c['b'][s] for v in cell] for s, cell in enumerate(row)] for row in ds['cells']]
    for name in ('ZS_MOS',):
        a, b = sut.run(name, ds), sut.run(name, d2)
        for k in ('quality_scores', 'quality_scores_std', 'quality_ambiguity', 'quality_scores_ci95', 'dof'):
            ref.close(b[k], a[k], 1e-6, 1e-6, k + ' after affine changes of the subjects\' votes')
    return nt(ds) if any(x != 1 for x in c['a']) else []


def ok_d(ds):
    D = ref.dscore(gen.votes3d(ds), ds['content'], flags(ds), ds['ref_score'])
    return all(ref.std(v, 1) > 1e-3 for v in ref.flat_subject(D))


def check_live(ds):
    V = gen.votes3d(ds)
    D = ref.dscore(V, ds['content'], flags(ds), ds['ref_score'])
    Z = ref.zscore(D)
    want = [ref.mean([(z + 3) * 100.0 / 6.0 for z in v]) for v in ref.flat_video(Z)]
    ref.close(sut.run('LIVE_DMOS', ds)['quality_scores'], want, 1e-8, 1e-6, 'LIVE_DMOS quality_scores')
    res = sut.run('DMOS', ds, zscore_mode=True)
    compare(res, Z, V, 2 * len(V), 'DMOS with zscore_mode')
    return gen.labels(ds) + nt(ds)


SUBTESTS = [Sub('definition', votes(), check, quick=1200, thorough=16000),
            Sub('affine', affine(), check_affine, quick=600, thorough=8000),
            Sub('live', votes(hidden_ref=True).filter(ok_d), check_live, quick=800, thorough=10000)]
