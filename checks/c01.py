"""C01: reading a dataset preserves every vote."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from lib import gen, ref, sut
from lib.core import Sub, require

RULE = ('a dataset with at least two videos and two subjects whose votes are not all equal, and with missing votes, '
        'repetitions, dictionary votes or several contents')
NAN = float('nan')


def holes(ds, rng, p):
    """Replace some of the votes inside repetition lists by explicit missing values."""
    for row in ds['cells']:
        for c in row:
            if len(c) > 1:
                for i in range(len(c)):
                    if rng.random() < p:
                        c[i] = NAN
    return ds


@st.composite
def case(draw):
    ds = draw(gen.raw(ref_gap=True))
    rng = random.Random(draw(st.integers(0, 2 ** 30)))
    if draw(st.booleans()):
        ds = holes(ds, rng, 0.25)
    # a video that carries the path of another content's reference is not a hidden reference
    ds['foreign'] = draw(st.booleans())
    # dataset attributes are optional
    if draw(st.integers(0, 3)) == 0:
        ds['ref_score'] = None
    return ds


def expected(ds):
    order = gen.subject_order(ds)
    R = gen.dims(ds)[2]
    want = [[gen.written(ds, e, s) for s in order] for e in range(len(ds['cells']))]
    return order, [[c + [NAN] * (R - len(c)) for c in row] for row in want], R


def check(ds):
    from sureal.dataset_reader import RawDatasetReader
    data = gen.build(ds)
    content = ds['content']
    flags = [ds['hidden'].get(str(content[e])) == e for e in range(len(content))]
    nC = len(ds['ref_order'])
    if ds.get('foreign') and nC > 1:
        for e in range(len(content)):
            if not flags[e]:
                data.dis_videos[e]['path'] = 'ref/{}.yuv'.format([x for x in ds['ref_order'] if x != content[e]][0])
                break
    before = gen.snapshot(data)
    r = RawDatasetReader(data)
    order, want, R = expected(ds)
    E, S = len(want), len(order)
    got = r.opinion_score_3darray
    require(isinstance(got, np.ndarray) and got.shape == (E, S, R), 'array of shape {} instead of {}',
            getattr(got, 'shape', None), (E, S, R))
    w = np.array(want, dtype=float).reshape(E, S, R)
    same = (got == w) | (np.isnan(got) & np.isnan(w))
    require(bool(same.all()), 'vote differs at {}: got {}, recorded {}', str(np.argwhere(~same)[:1].tolist()),
            str(got[~same][:1]), str(w[~same][:1]))
    require(r.num_dis_videos == E, 'num_dis_videos {} != {}', r.num_dis_videos, E)
    require(r.num_ref_videos == nC, 'num_ref_videos {} != {}', r.num_ref_videos, nC)
    require(r.num_observers == S, 'num_observers {} != {}', r.num_observers, S)
    require(r.max_repetitions == R, 'max_repetitions {} != {}', r.max_repetitions, R)
    require(sorted(r.content_ids) == sorted(set(ds['ref_order'])), 'content_ids {}', str(r.content_ids))
    require(r.max_content_id_of_ref_videos == max(ds['ref_order']), 'max content id {}',
            r.max_content_id_of_ref_videos)
    require(sorted(r.asset_ids) == sorted(set(ds['asset'])), 'asset_ids {}', str(r.asset_ids))
    require(list(r.content_id_of_dis_videos) == content, 'content_id_of_dis_videos {}',
            str(r.content_id_of_dis_videos))
    require([bool(x) for x in r.disvideo_is_refvideo] == flags, 'disvideo_is_refvideo {} != {}',
            str(r.disvideo_is_refvideo), str(flags))
    require(r.ref_score == ds['ref_score'], 'ref_score {}', r.ref_score)
    require([v['path'] for v in r.dis_videos] == [v['path'] for v in data.dis_videos], 'dis_videos differ')
    # reading again gives the same, and reading changes nothing; the caller may modify what it got
    got[:] = -1
    again = r.opinion_score_3darray
    require(bool(((again == w) | (np.isnan(again) & np.isnan(w))).all()), 'second read differs')
    require(gen.snapshot(data) == before, 'reading modified the dataset')
    lab = gen.labels(ds)
    vals = set(v for row in want for c in row for v in c if not math.isnan(v))
    if E > 1 and S > 1 and len(vals) > 1 and set(lab) & {'missing', 'repetitions', 'dict', 'multi_content'}:
        lab.append('nt')
    return lab


SUBTESTS = [Sub('read', case(), check, quick=2400, thorough=40000)]
