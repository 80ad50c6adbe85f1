"""C05: differential scores are relative to the hidden reference."""
import random

from hypothesis import strategies as st

from checks.c04 import compare, nontrivial
from lib import gen, ref, sut
from lib.core import Sub, require

RULE = 'at least two videos with at least two different votes each, of which one is a hidden reference'


def flags(ds):
    return [ds['hidden'].get(str(c)) == e for e, c in enumerate(ds['content'])]


def foreign(base):
    """Some videos that are not hidden references carry the path of another content's reference."""
    @st.composite
    def f(draw):
        ds = draw(base)
        ids = sorted(set(ds['content']))
        if len(ids) > 1 and draw(st.booleans()):
            rng = random.Random(draw(st.integers(0, 2 ** 30)))
            fl = flags(ds)
            ds['foreign_path'] = {str(e): rng.choice([x for x in ids if x != ds['content'][e]]) for e in range(len(fl))
                                  if not fl[e] and rng.random() < 0.6}
        return ds
    return f()


def check(ds):
    V = gen.votes3d(ds)
    want = ref.dscore(V, ds['content'], flags(ds), ds['ref_score'])
    res = sut.run('DMOS', ds)
    lab = compare(res, want, V, 2 * len(V), 'DMOS')
    ref.close([res['quality_scores'][e] for e in ds['hidden'].values()], [ds['ref_score']] * len(ds['hidden']), 1e-9, 1e-8,
              'score of the hidden references')
    mos = sut.run('MOS', ds)
    for k in ('quality_scores_std', 'quality_ambiguity', 'quality_scores_ci95'):
        ref.close(res[k], mos[k], 1e-8, 1e-8, k + ' versus MOS')
    for c in set(ds['content']):
        idx = [e for e in range(len(V)) if ds['content'][e] == c]
        for e in idx[1:]:
            ref.close(res['quality_scores'][e] - res['quality_scores'][idx[0]],
                      mos['quality_scores'][e] - mos['quality_scores'][idx[0]], 1e-8, 1e-8, 'difference within a content')
    # the same on any model taking the option
    alt = sut.run('MOS', ds, dscore_mode=True)
    ref.close(alt['quality_scores'], res['quality_scores'], 1e-12, 1e-12, 'MOS with dscore_mode')
    if ds.get('foreign_path'):
        lab = lab + ['foreign_path']
    return lab + gen.labels(ds) + (nontrivial(ds) if len(ds['cells']) > len(ds['hidden']) else [])


@st.composite
def bad(draw):
    ds = draw(gen.raw(E=(2, 7), S=(1, 5), hidden_ref=True))
    kind = draw(st.sampled_from(['no_score', 'none_score', 'missing', 'double']))
    return {'ds': ds, 'kind': kind, 'pos': draw(st.integers(0, 20))}


def check_bad(c):
    from sureal.dataset_reader import RawDatasetReader
    ds = c['ds']
    d = gen.build(ds)
    cs = sorted(ds['hidden'])
    k = c['kind']
    content = int(cs[c['pos'] % len(cs)])
    lab = [k]
    if k == 'no_score':
        del d.ref_score
    elif k == 'none_score':
        d.ref_score = None
    elif k == 'missing':
        d.dis_videos[ds['hidden'][str(content)]]['path'] = 'dis/not_the_reference'
    else:
        others = [e for e in range(len(ds['content'])) if ds['content'][e] == content and e != ds['hidden'][str(content)]]
        if not others:
            return ['skip']
        d.dis_videos[others[c['pos'] % len(others)]]['path'] = 'ref/{}.yuv'.format(content)
    for name in ('DMOS', 'SR_DMOS', 'LIVE_DMOS', 'DMOS_MLE_CO'):
        m = sut.model_class(name)(RawDatasetReader(d))
        sut.refused(lambda: m.run_modeling(), '{} with defect {}'.format(name, k))
    sut.model_class('MOS')(RawDatasetReader(d)).run_modeling()
    return lab + ['nt']


@st.composite
def shifted(draw):
    ds = draw(foreign(gen.raw(E=(2, 8), S=(2, 6), hidden_ref=True, min_video=2)))
    n = max(ds['content']) + 1
    return {'ds': ds, 'shift': [draw(st.integers(-40, 40)) / 8.0 for _ in range(n)]}


def check_shift(c):
    """Adding a constant to all votes of a content changes no differential score."""
    ds = c['ds']
    d2 = dict(ds)
    d2['cells'] = [[[v + c['shift'][ds['content'][e]] for v in cell] for cell in row] for e, row in enumerate(ds['cells'])]
    a, b = sut.run('DMOS', ds), sut.run('DMOS', d2)
    for k in ('quality_scores', 'quality_scores_std', 'quality_ambiguity'):
        ref.close(b[k], a[k], 1e-8, 1e-7, k + ' after shifting whole contents')
    return nontrivial(ds) if any(c['shift']) else []


SUBTESTS = [Sub('definition', foreign(gen.raw(E=(1, 9), S=(1, 6), hidden_ref=True)), check, quick=1400, thorough=20000),
            Sub('refused', bad(), check_bad, quick=400, thorough=4000),
            Sub('content_shift', shifted(), check_shift, quick=500, thorough=6000)]
