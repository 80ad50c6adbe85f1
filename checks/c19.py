"""C19: combining overlapping datasets merges all votes of common videos."""
import copy
import os
import random

from hypothesis import strategies as st

from lib import core, gen, sut
from lib.core import Sub, require
from checks.c18 import equal

RULE = 'at least one common video and one vote on either side'


@st.composite
def case(draw):
    a = draw(gen.raw(E=(1, 6), S=(1, 5), R=(1, 3), C=(1, 4)))
    b = draw(gen.raw(E=(1, 6), S=(1, 5), R=(1, 3), C=(1, 4)))
    many = draw(st.integers(0, 7)) == 0
    if many:
        # many contents, interleaved
        a, b = [draw(gen.raw(E=(16, 28), S=(1, 3), R=(1, 2), C=(6, 12))) for _ in range(2)]
    rng = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
    a['name'] = 'first'
    b['name'] = draw(st.sampled_from(['second', 'first']))
    a['hidden'], b['hidden'] = {}, {}
    ea, eb = len(a['cells']), len(b['cells'])
    k = draw(st.integers(min(ea, eb) // 2 if many else 0, min(ea, eb)))
    pa, pb = rng.sample(range(ea), k), rng.sample(range(eb), k)
    a['path'] = ['dis/a{}.yuv'.format(e) for e in range(ea)]
    b['path'] = ['dis/b{}.yuv'.format(e) for e in range(eb)]
    for i, (x, y) in enumerate(zip(pa, pb)):
        a['path'][x] = b['path'][y] = 'dis/common{}.yuv'.format(i)
    # paths that resemble a path of the other dataset
    p = a['path'][0]
    like = [p.upper(), p + ' ', './' + p, p[4:], 'other/' + p, p.replace('/', '//'), p[:-4], p.replace('yuv', 'y4m')]
    for e in range(eb):
        if e not in pb and like and rng.random() < 0.4:
            b['path'][e] = like.pop(rng.randrange(len(like)))
    for d in (a, b):
        d['extra'] = {'width': rng.choice([640, 1280])}
    return {'a': a, 'b': b, 'file': draw(st.sampled_from([False, False, True]))}


def build(ds, tag):
    o = gen.build(ds)
    for v, p in zip(o.dis_videos, ds['path']):
        v['path'] = p
        v['tag'] = tag
    for r in o.ref_videos:
        r['path'] = 'ref/{}/{}.yuv'.format(tag, r['content_id'])
        r['content_name'] = '{} content {}'.format(tag, r['content_id'])
    return o


def as_list(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def named(ds, e):
    """{subject name: votes} of a video; absent votes of list-style datasets are written as nan."""
    out = {}
    for s, votes in enumerate([gen.written(ds, e, i) for i in range(len(ds['cells'][e]))]):
        if ds['style'] == 'dict':
            if votes:
                out[ds['subjects'][s]] = list(votes)
        else:
            out['{}_subject{}'.format(ds['name'], s)] = list(votes) if votes else [float('nan')]
    return out


def check(c):
    from sureal.dataset_reader import RawDatasetReader
    a, b = c['a'], c['b']
    oa, ob = build(a, 'A'), build(b, 'B')
    sa, sb = gen.snapshot(oa), gen.snapshot(ob)
    ra, rb = RawDatasetReader(oa), RawDatasetReader(ob)
    if c['file']:
        with core.tmpdir() as d:
            f = os.path.join(d, 'combined.py')
            ra.to_combined_overlap_dataset_file(f, rb)
            from sureal.tools.misc import import_python_file
            new = import_python_file(f)
    else:
        new = ra.to_combined_overlap_dataset(rb)
    require(gen.snapshot(oa) == sa, 'the first dataset was modified')
    require(gen.snapshot(ob) == sb, 'the second dataset was modified')
    common = [e for e in range(len(a['path'])) if a['path'][e] in b['path']]
    require([v['path'] for v in new.dis_videos] == [a['path'][e] for e in common], 'videos {} instead of {}',
            str([v['path'] for v in new.dis_videos]), str([a['path'][e] for e in common]))
    ids = [r['content_id'] for r in new.ref_videos]
    require(ids == list(range(len(ids))), 'content ids {}', str(ids))
    require(len(ids) == len(set(a['content'][e] for e in common)), '{} references for the contents of {}', len(ids), str(common))
    refs = {r['content_id']: r for r in new.ref_videos}
    pristine = build(a, 'A')
    own = {r['content_id']: r for r in pristine.ref_videos}
    both = 0
    for v, e in zip(new.dis_videos, common):
        want = {k: x for k, x in pristine.dis_videos[e].items() if k not in ('os', 'content_id')}
        require({k: x for k, x in v.items() if k not in ('os', 'content_id')} == want, 'fields of video {}: {}', e, str(v))
        r = refs.get(v['content_id'])
        require(r is not None, 'video {}: content id {} has no reference', e, v['content_id'])
        o = own[a['content'][e]]
        require({k: x for k, x in r.items() if k != 'content_id'} == {k: x for k, x in o.items() if k != 'content_id'},
                'video {} now refers to {} instead of {}', e, str(r), str(o))
        x, y = named(a, e), named(b, b['path'].index(a['path'][e]))
        merged = {}
        for n in list(x) + [n for n in y if n not in x]:
            merged[n] = x.get(n, []) + y.get(n, [])
            if n in x and n in y:
                both += 1
        require(set(v['os']) == set(merged), 'video {}: subjects {} instead of {}', e, str(sorted(v['os'])), str(sorted(merged)))
        for n in merged:
            require(equal(as_list(v['os'][n]), merged[n]), 'video {} subject {}: votes {} instead of {}', e, n, str(v['os'][n]),
                    str(merged[n]))
    for k, x in vars(pristine).items():
        if k not in ('dis_videos', 'ref_videos'):
            require(getattr(new, k, None) == x, 'attribute {} is {}', k, str(getattr(new, k, None)))
    if common:
        RawDatasetReader(new).opinion_score_3darray   # readable
    # a change of the combination does not reach the sources
    for v in new.dis_videos:
        for n in v['os']:
            if isinstance(v['os'][n], list):
                v['os'][n].append(1)
        v['os']['intruder'] = 3
    for r in new.ref_videos:
        r['path'] = 'changed'
    require(gen.snapshot(oa) == sa and gen.snapshot(ob) == sb, 'the combination shares votes with its sources')
    return [a['style'] + '+' + b['style']] + (['shared subject'] if both else []) + (['nt'] if common else [])


@st.composite
def style_case(draw):
    ds = draw(gen.raw(E=(1, 6), S=(1, 6), R=(1, 3)))
    ds['extra'] = {'width': 640}
    return {'ds': ds, 'file': draw(st.sampled_from([False, False, True]))}


def check_style(c):
    from sureal.dataset_reader import RawDatasetReader
    ds = c['ds']
    o = gen.build(ds)
    s = gen.snapshot(o)
    r = RawDatasetReader(o)
    if c['file']:
        with core.tmpdir() as d:
            f = os.path.join(d, 'dict_style.py')
            r.to_dictionary_style_dataset_file(f)
            from sureal.tools.misc import import_python_file
            new = import_python_file(f)
    else:
        new = r.to_dictionary_style_dataset()
    require(gen.snapshot(o) == s, 'the dataset was modified')
    pristine = gen.build(ds)
    require(len(new.dis_videos) == len(pristine.dis_videos), '{} videos', len(new.dis_videos))
    for e, (v, p) in enumerate(zip(new.dis_videos, pristine.dis_videos)):
        require({k: x for k, x in v.items() if k != 'os'} == {k: x for k, x in p.items() if k != 'os'}, 'fields of {}', str(v))
        want = named(ds, e)
        require(isinstance(v['os'], dict) and set(v['os']) == set(want), 'video {}: subjects {} instead of {}', e,
                str(sorted(v['os'])), str(sorted(want)))
        for n in want:
            require(equal(as_list(v['os'][n]), want[n]), 'video {} subject {}: {} instead of {}', e, n, str(v['os'][n]), str(want[n]))
    require(new.ref_videos == pristine.ref_videos, 'references changed')
    for k, x in vars(pristine).items():
        if k not in ('dis_videos', 'ref_videos'):
            require(getattr(new, k, None) == x, 'attribute {} is {}', k, str(getattr(new, k, None)))
    return gen.labels(ds) + (['nt'] if ds['style'] != 'dict' else [])


SUBTESTS = [Sub('combine', case(), check, quick=2400, thorough=40000),
            Sub('dictionary_style', style_case(), check_style, quick=1000, thorough=16000)]
