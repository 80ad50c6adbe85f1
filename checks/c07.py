"""C07: subject bias removal follows ITU-T P.913."""
import numpy as np
from hypothesis import strategies as st

from checks.c04 import compare, nontrivial
from lib import gen, ref, sut
from lib.core import Sub, require

RULE = 'at least two videos with different votes and at least two subjects of different bias'


def nt(ds, b):
    return ['nt'] if nontrivial(ds) and max(b) - min(b) > 1e-6 else []


def check(ds):
    V = gen.votes3d(ds)
    W, b = ref.unbias(V)
    res = sut.run('BR_MOS', ds)
    E, S, R = len(V), len(V[0]), ref.maxrep(V)
    lab = compare(res, W, V, 2 * E + S * R, 'BR_MOS')
    ref.close(res['observer_bias'], b, 1e-9, 1e-8, 'observer_bias')
    if ds['style'] == 'dict':
        require(list(res['observers']) == [ds['subjects'][s] for s in gen.subject_order(ds)], 'observers {}',
                str(res.get('observers')))
    # the same preprocessing requested from the plain model
    alt = sut.run('MOS', ds, bias_offset=True)
    for k in ('quality_scores', 'quality_scores_std', 'quality_ambiguity', 'raw_scores'):
        ref.close(alt[k], res[k], 1e-12, 1e-12, 'MOS with bias_offset: ' + k)
    return lab + gen.labels(ds) + nt(ds, b)


@st.composite
def offset(draw):
    ds = draw(gen.raw(E=(2, 8), S=(2, 6), R=(1, 1), missing=False))
    return {'ds': ds, 's': draw(st.integers(0, len(ds['subjects']) - 1)), 'c': draw(st.integers(-80, 80)) / 8.0}


def check_offset(c):
    ds, s = c['ds'], c['s']
    d2 = dict(ds)
    d2['cells'] = [[[v + c['c'] if i == s else v for v in cell] for i, cell in enumerate(row)] for row in ds['cells']]
    a, b = sut.run('BR_MOS', ds), sut.run('BR_MOS', d2)
    for k in ('quality_scores_std', 'quality_ambiguity', 'quality_scores_ci95', 'dof'):
        ref.close(b[k], a[k], 1e-7, 1e-7, k + ' after adding a constant to one subject')
    da = np.array(a['quality_scores']) - a['quality_scores'][0]
    db = np.array(b['quality_scores']) - b['quality_scores'][0]
    ref.close(db, da, 1e-8, 1e-7, 'score differences after adding a constant to one subject')
    order = gen.subject_order(ds)
    i = order.index(s)
    want = np.zeros(len(order))
    want[i] = c['c']
    diff = np.array(b['observer_bias']) - np.array(a['observer_bias'])
    j = 0 if i != 0 else 1
    ref.close(diff - diff[j], want, 1e-8, 1e-7, 'change of the biases relative to another subject')
    return nt(ds, a['observer_bias']) if c['c'] else []


SUBTESTS = [Sub('definition', gen.raw(E=(1, 9), S=(1, 7)), check, quick=1600, thorough=20000),
            Sub('offset', offset(), check_offset, quick=600, thorough=8000)]
