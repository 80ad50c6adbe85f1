"""C02: ill-formed datasets are refused, well-formed ones are accepted."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, sut
from lib.core import Sub, require

RULE = ('an ill-formed dataset whose only defect sits in one video, reference or vote of an otherwise valid dataset of at '
        'least two videos, or a valid dataset with at least two videos and two subjects')

DEFECTS = ['no_os', 'os_none', 'os_number', 'os_string', 'os_set', 'short', 'long', 'no_ref', 'neg_ref', 'neg_ref_used']


@st.composite
def bad_raw(draw):
    defect = draw(st.sampled_from(DEFECTS))
    ds = draw(gen.raw(E=(1, 7), S=(1, 5), styles=('list', 'tuple', 'dict') if defect not in ('short', 'long') else
                      ('list', 'tuple')))
    E = len(ds['cells'])
    pos = draw(st.integers(0, E - 1))
    if defect in ('short', 'long') and E == 1:
        defect = 'os_none'
    return {'ds': ds, 'defect': defect, 'pos': pos, 'k': draw(st.integers(1, 3))}


def spoil(c):
    d = gen.build(c['ds'])
    v = d.dis_videos[c['pos']]
    k = c['defect']
    if k == 'no_os':
        del v['os']
    elif k == 'os_none':
        v['os'] = None
    elif k == 'os_number':
        v['os'] = 3.5
    elif k == 'os_string':
        v['os'] = '1234'[:max(1, len(c['ds']['subjects']))]
    elif k == 'os_set':
        v['os'] = set(range(len(c['ds']['subjects'])))
    elif k == 'short':
        v['os'] = v['os'][:-1]
    elif k == 'long':
        v['os'] = v['os'] + type(v['os'])([3] * c['k'])
    elif k == 'no_ref':
        # content id not among the references: beyond, in a gap, or negative
        if c['k'] == 1:
            v['content_id'] = max(c['ds']['ref_order']) + 1
        elif c['k'] == 2:
            v['content_id'] = -1
        else:
            d.ref_videos = [r for r in d.ref_videos if r['content_id'] != v['content_id']]
            if not d.ref_videos:
                d.ref_videos = [{'content_id': v['content_id'] + 1, 'content_name': 'x', 'path': 'ref/x'}]
                for w in d.dis_videos:
                    if w is not v:
                        w['content_id'] = d.ref_videos[0]['content_id']
    elif k == 'neg_ref':
        d.ref_videos.insert(c['k'] % (len(d.ref_videos) + 1),
                            {'content_id': -c['k'], 'content_name': 'n', 'path': 'ref/n'})
    elif k == 'neg_ref_used':
        d.ref_videos.append({'content_id': -c['k'], 'content_name': 'n', 'path': 'ref/n'})
        v['content_id'] = -c['k']
    return d


def check_bad_raw(c):
    from sureal.dataset_reader import RawDatasetReader
    d = spoil(c)
    sut.refused(lambda: RawDatasetReader(d), '{} at video {}'.format(c['defect'], c['pos']))
    return [c['defect']] + (['nt'] if len(c['ds']['cells']) > 1 else [])


@st.composite
def good_raw(draw):
    return draw(gen.raw(ref_gap=True, E=(1, 9), S=(1, 7)))


def check_good_raw(ds):
    from sureal.dataset_reader import RawDatasetReader
    d = gen.build(ds)
    RawDatasetReader(d).opinion_score_3darray
    # gaps in the content ids are no defect
    g = gen.build(ds)
    for v in g.ref_videos + g.dis_videos:
        v['content_id'] = 2 * v['content_id'] + 1
    RawDatasetReader(g).opinion_score_3darray
    return gen.labels(ds) + (['nt'] if len(ds['cells']) > 1 and len(ds['subjects']) > 1 else [])


PC_DEFECTS = ['key_subject', 'key_asset_str', 'key_asset_float', 'asset_big', 'asset_neg', 'os_list', 'value', 'value_nan',
              'no_os']


@st.composite
def bad_pc(draw):
    p = draw(gen.pc())
    return {'pc': p, 'defect': draw(st.sampled_from(PC_DEFECTS)), 'pos': draw(st.integers(0, p['m'] - 1)),
            'vote': draw(st.integers(0, len(p['votes']) - 1)), 'val': draw(st.sampled_from([2, -1, 0.25, 0.75, 1.5, 0.49, 0.51, 1e-4, 1e-9, -1e-4, 0.9999, 1.0001, 1 - 1e-9, 0.5001,
                                                                                  0.1, 0.9, 3, 5, 100, -0.5, '1', '0.5', None]))}


def check_bad_pc(c):
    from sureal.dataset_reader import PairedCompDatasetReader
    p = c['pc']
    d = gen.pc_build(p)
    k = c['defect']
    a, i, j, v = p['votes'][c['vote']]
    os_ = d.dis_videos[i]['os']
    key = (p['subjects'][a], p['asset'][j])
    if k == 'key_subject':
        os_[(7, p['asset'][j])] = 1
    elif k == 'key_asset_str':
        os_[(p['subjects'][a], str(p['asset'][j]))] = 1
    elif k == 'key_asset_float':
        os_[(p['subjects'][a], p['asset'][j] + 0.5)] = 1
    elif k == 'asset_big':
        d.dis_videos[c['pos']]['asset_id'] = p['m']
    elif k == 'asset_neg':
        d.dis_videos[c['pos']]['asset_id'] = -1
    elif k == 'os_list':
        d.dis_videos[c['pos']]['os'] = [1, 0]
    elif k == 'no_os':
        del d.dis_videos[c['pos']]['os']
    elif k == 'value':
        os_[key] = c['val']
    elif k == 'value_nan':
        os_[key] = float('nan')
    if k.startswith('value'):
        r = PairedCompDatasetReader(d)
        sut.refused(lambda: r.opinion_score_3darray, 'comparison outcome {}'.format(os_[key]))
    else:
        sut.refused(lambda: PairedCompDatasetReader(d), k)
    return [k, 'nt']


def check_good_pc(p):
    from sureal.dataset_reader import PairedCompDatasetReader
    PairedCompDatasetReader(gen.pc_build(p)).opinion_score_3darray
    return ['nt'] if p['m'] > 2 else []


SUBTESTS = [Sub('ill_formed', bad_raw(), check_bad_raw, quick=1600),
            Sub('well_formed', good_raw(), check_good_raw, quick=1200),
            Sub('ill_formed_pc', bad_pc(), check_bad_pc, quick=1200),
            Sub('well_formed_pc', gen.pc(), check_good_pc, quick=600)]
