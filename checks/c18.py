"""C18: aggregated and per-subject datasets carry the model's scores."""
import copy
import math
import os

import numpy as np
from hypothesis import strategies as st

from lib import core, gen, models, ref, sut
from lib.core import Sub, require

RULE = 'at least two videos with different scores'

CHEAP = ['MOS', 'BR_MOS', 'SR_MOS', 'BT500', 'P913', 'ZS_MOS', 'DMOS', 'LIVE_DMOS', 'LS', 'P910', 'Subject_MLE_Projection']


def equal(a, b):
    """Exactly the same number(s)."""
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        a, b = list(a), list(b)
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    a, b = float(a), float(b)
    return a == b or (math.isnan(a) and math.isnan(b))


def decorate(o, extra):
    """Additional attributes of the dataset and of its videos."""
    for k, v in extra.items():
        setattr(o, k, copy.deepcopy(v))
    for e, v in enumerate(o.dis_videos):
        if e % 2 == 0:
            v['fps'] = 24 + e
    return o


def attributes(new, old, over, what):
    for k, v in vars(old).items():
        if k in ('dis_videos',):
            continue
        if k in over:
            continue
        require(hasattr(new, k), '{}: attribute {} lost', what, k)
        require(getattr(new, k) == v, '{}: attribute {} is {} instead of {}', what, k, str(getattr(new, k))[:100], str(v)[:100])
    for k, v in over.items():
        require(getattr(new, k, None) == v, '{}: {} is {} instead of {}', what, k, str(getattr(new, k, None)), str(v))


def filters(draw, ds):
    kw = {}
    if draw(st.booleans()):
        ids = sorted(set(ds['content']))
        kw['aggregate_content_ids'] = draw(st.lists(st.sampled_from(ids + [99]), max_size=len(ids) + 1, unique=True))
    if draw(st.booleans()):
        kw['aggregate_asset_ids'] = draw(st.lists(st.sampled_from(sorted(set(ds['asset'])) + [999]), max_size=len(ds['asset']), unique=True))
    return kw


def share_assets(draw, ds):
    """Some datasets number their videos per content, so that videos of different contents share asset ids."""
    if draw(st.sampled_from([False, False, False, True])):
        ds['asset'] = [a // 2 for a in ds['asset']]
    return ds


def options(draw):
    kw, extra = {}, {}
    for k, vals in (('quality_width', [1920, 640]), ('quality_height', [1080, 360]), ('resampling_type', ['bicubic', 'lanczos'])):
        if draw(st.sampled_from([False, False, True])):
            extra[k] = vals[0]
        if draw(st.sampled_from([False, False, True])):
            kw[k] = vals[1]
        elif draw(st.sampled_from([False, False, True])):
            kw[k] = None
    if draw(st.booleans()):
        extra['yuv_fmt'] = 'yuv420p'
        extra['anything'] = {'a': [1, 2]}
    return kw, extra


@st.composite
def aggregated(draw):
    model = draw(st.sampled_from(CHEAP))
    single = model in models.SINGLE
    ds = draw(gen.raw(E=(1, 8), S=(2, 6), R=(1, 1 if single else 3), hidden_ref=True, missing=not single))
    ds = share_assets(draw, ds)
    kw, extra = options(draw)
    kw.update(filters(draw, ds))
    run = {}
    if draw(st.sampled_from([False, False, True])):
        run['transform_final'] = {'p1': 2.0, 'p0': -1.0}
    return {'ds': ds, 'model': model, 'kw': kw, 'extra': extra, 'run': run, 'file': draw(st.sampled_from([False, False, True]))}


def check_aggregated(c):
    ds, model = c['ds'], c['model']
    if not models.fit(model, ds):
        return ['unfit']
    from sureal.dataset_reader import RawDatasetReader
    o = decorate(gen.build(ds), c['extra'])
    pristine = decorate(gen.build(ds), c['extra'])
    before = gen.snapshot(o)
    m = sut.model_class(model)(RawDatasetReader(o))
    sut.refused(lambda: m.to_aggregated_dataset(), 'exporting before modelling')
    res = m.run_modeling(**c['run'])
    q = [float(x) for x in res['quality_scores']]
    sd = res.get('quality_scores_std')
    sd = None if sd is None else [float(x) for x in sd]
    if c['file']:
        with core.tmpdir() as d:
            f = os.path.join(d, 'aggregated.py')
            m.to_aggregated_dataset_file(f, **copy.deepcopy(c['kw']))
            from sureal.tools.misc import import_python_file
            new = import_python_file(f)
    else:
        new = m.to_aggregated_dataset(**copy.deepcopy(c['kw']))
    require(gen.snapshot(o) == before, 'exporting modified the source dataset')
    E = len(ds['cells'])
    keep = list(range(E))
    for key, of in (('aggregate_content_ids', ds['content']), ('aggregate_asset_ids', ds['asset'])):
        if c['kw'].get(key) is not None:
            keep = [e for e in keep if of[e] in c['kw'][key]]
    require(len(new.dis_videos) == len(keep), '{} videos instead of {}', len(new.dis_videos), len(keep))
    for v, e in zip(new.dis_videos, keep):
        want = {k: x for k, x in pristine.dis_videos[e].items() if k != 'os'}
        got = {k: x for k, x in v.items() if k not in ('groundtruth', 'groundtruth_std')}
        require(got == want, 'video {}: {} instead of {}', e, str(got), str(want))
        require(equal(v['groundtruth'], q[e]), 'video {}: score {} instead of {}', e, v['groundtruth'], q[e])
        if sd is None:
            require('groundtruth_std' not in v, 'video {}: unexpected std', e)
        else:
            require('groundtruth_std' in v, 'video {}: std missing', e)
            require(equal(v['groundtruth_std'], sd[e]), 'video {}: std {} instead of {}', e, v['groundtruth_std'], sd[e])
    over = {k: v for k, v in c['kw'].items() if not k.startswith('aggregate') and v is not None}
    attributes(new, pristine, over, 'aggregated dataset')
    lab = [model] + sorted(c['kw']) + (['file'] if c['file'] else [])
    return lab + (['nt'] if len(set(q)) > 1 else [])


@st.composite
def persubject(draw):
    pre = draw(st.sampled_from(['', '', 'd', 'z', 'b', 'dz', 'db']))
    ds = draw(gen.raw(E=(1, 7), S=(1, 5), R=(1, draw(st.sampled_from([1, 1, 3]))), hidden_ref=True, distinct_subject='z' in pre))
    kw, extra = options(draw)
    return {'ds': ds, 'pre': pre, 'kw': kw, 'extra': extra, 'file': draw(st.sampled_from([False, False, True]))}


def check_persubject(c):
    from sureal.dataset_reader import RawDatasetReader
    ds, pre = c['ds'], c['pre']
    V = gen.votes3d(ds)
    if 'd' in pre:
        flag = [e in ds['hidden'].values() for e in range(len(V))]
        V = ref.dscore(V, ds['content'], flag, ds['ref_score'])
    if 'z' in pre:
        if not all(ref.std(x, 1) > 1e-3 for x in ref.flat_subject(V)):
            return ['unfit']
        V = ref.zscore(V)
    if 'b' in pre:
        V = ref.unbias(V)[0]
    o = decorate(gen.build(ds), c['extra'])
    pristine = decorate(gen.build(ds), c['extra'])
    before = gen.snapshot(o)
    m = sut.model_class('PERSUBJECT')(RawDatasetReader(o))
    m.run_modeling(**{{'d': 'dscore_mode', 'z': 'zscore_mode', 'b': 'bias_offset'}[k]: True for k in pre})
    if c['file']:
        with core.tmpdir() as d:
            f = os.path.join(d, 'persubject.py')
            m.to_aggregated_dataset_file(f, **copy.deepcopy(c['kw']))
            from sureal.tools.misc import import_python_file
            new = import_python_file(f)
    else:
        new = m.to_aggregated_dataset(**copy.deepcopy(c['kw']))
    require(gen.snapshot(o) == before, 'exporting modified the source dataset')
    want = []
    for e, row in enumerate(V):
        for votes in row:
            if votes:
                want.append((e, votes))
    got = []
    for v in new.dis_videos:
        g = v['groundtruth']
        g = [float(x) for x in (g if isinstance(g, (list, tuple, np.ndarray)) else [g])]
        g = [x for x in g if not math.isnan(x)]
        if g:
            got.append((v, g))
    require(len(got) == len(want), '{} entries with a score instead of {}', len(got), len(want))
    for (v, g), (e, votes) in zip(got, want):
        fields = {k: x for k, x in pristine.dis_videos[e].items() if k != 'os'}
        require({k: x for k, x in v.items() if k != 'groundtruth'} == fields, 'entry {} instead of {}', str(v), str(fields))
        ref.close(g, votes, 0 if not pre else 1e-9, 0 if not pre else 1e-9, 'scores of video {}'.format(e))
    over = {k: v for k, v in c['kw'].items() if v is not None}
    attributes(new, pristine, over, 'per-subject dataset')
    return ['pre:' + pre] + gen.labels(ds) + (['nt'] if len(set(x for e, v in want for x in v)) > 1 and len(V) > 1 else [])


@st.composite
def restricted(draw):
    model = draw(st.sampled_from(['MOS', 'SR_MOS', 'BR_MOS', 'ZS_MOS', 'DMOS', 'P910', 'BT500', 'SR_MOS_PCC', 'MLE_CO_AP']))
    ds = share_assets(draw, draw(gen.raw(E=(3, 9), S=(2, 6), R=(1, 2), hidden_ref=True)))
    ids = sorted(set(ds['content']))
    c = {'ds': ds, 'model': model, 'content_ids': None, 'asset_ids': None}
    if draw(st.booleans()):
        c['content_ids'] = draw(st.lists(st.sampled_from(ids), min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=len(ids), unique=True))
    pick = draw(st.sampled_from(['none', 'list', 'drop', 'drop', 'drop']))
    if pick == 'drop':
        assets = sorted(set(ds['asset']))
        gone = draw(st.lists(st.sampled_from(assets), min_size=1, max_size=max(1, len(assets) // 2), unique=True))
        c['asset_ids'] = [a for a in draw(st.permutations(assets)) if a not in gone] or None
    elif pick == 'list':
        c['asset_ids'] = draw(st.lists(st.sampled_from(sorted(set(ds['asset']))), min_size=1, max_size=len(ds['asset']), unique=True))
    return c


def restrict(ds, keep):
    d = copy.deepcopy(ds)
    for k in ('cells', 'wrap', 'content', 'asset'):
        d[k] = [ds[k][e] for e in keep]
    d['hidden'] = {}
    return d


def outcome(f):
    try:
        return 'ok', f()
    except (KeyboardInterrupt, SystemExit, MemoryError, core.Violation):
        raise
    except Exception as e:
        return 'error', type(e).__name__


def check_restricted(c):
    from sureal.dataset_reader import RawDatasetReader
    ds, model = c['ds'], c['model']
    E = len(ds['cells'])
    keep = [e for e in range(E) if (c['content_ids'] is None or ds['content'][e] in c['content_ids']) and
            (c['asset_ids'] is None or ds['asset'][e] in c['asset_ids'])]
    cls = sut.model_class(model)
    if not keep:
        # nothing is left: no model of anything else
        with core.tmpdir() as d:
            f = os.path.join(d, 'restricted_ds.py')
            RawDatasetReader.write_out_dataset(gen.build(ds), f)
            k, got = outcome(lambda: len(cls.from_dataset_file(f, content_ids=c['content_ids'], asset_ids=c['asset_ids']).dataset_reader.dis_videos))
        require(k == 'error' or got == 0, '{} videos left of none', got)
        return ['empty']
    small = gen.build(ds)
    small.dis_videos = [small.dis_videos[e] for e in keep]
    k1, want = outcome(lambda: cls(RawDatasetReader(small)).run_modeling())
    with core.tmpdir() as d:
        f = os.path.join(d, 'restricted_ds.py')
        RawDatasetReader.write_out_dataset(gen.build(ds), f)
        text = open(f).read()
        kw = {k: c[k] for k in ('content_ids', 'asset_ids') if c[k] is not None}
        m = cls.from_dataset_file(f, **kw)
        paths = [v['path'] for v in m.dataset_reader.dis_videos]
        require(paths == [v['path'] for v in small.dis_videos], 'restricted to {}', str(paths))
        k2, got = outcome(lambda: m.run_modeling())
        require(open(f).read() == text, 'the dataset file was rewritten')
        full = cls.from_dataset_file(f)
        require([v['path'] for v in full.dataset_reader.dis_videos] == gen.paths(ds), 'a later load sees the restriction')
    require(k1 == k2, 'restricted dataset: {} {} instead of {} {}', k2, str(got)[:200], k1, str(want)[:200])
    if k1 == 'error':
        return ['refused']
    for k in want:
        require(k in got, 'result {} missing', k)
        if k == 'observers':
            require(list(got[k]) == list(want[k]), 'observers {} instead of {}', str(got[k]), str(want[k]))
        elif want[k] is None:
            require(got[k] is None, '{} is {}', k, str(got[k]))
        else:
            ref.close(np.asarray(got[k], float), np.asarray(want[k], float), 1e-12, 1e-12, k)
    return [model] + (['nt'] if 1 < len(keep) < E else [])


# --- scores handed to the reader directly ---

@st.composite
def given(draw):
    ds = draw(gen.raw(E=(1, 8), S=(1, 4), R=(1, 2), hidden_ref=True))
    E = len(ds['cells'])
    one = st.floats(-200, 200).map(lambda x: round(x, 4))
    c = {'ds': ds, 'form': draw(st.sampled_from(['list', 'array', 'numbers', 'singles', 'vectors'])), 'kw': filters(draw, ds)}
    n = draw(st.integers(2, 4)) if c['form'] == 'vectors' else 1
    c['scores'] = [[draw(one) for _ in range(n)] for _ in range(E)]
    c['std'] = [draw(st.floats(0, 9)) for _ in range(E)] if draw(st.booleans()) else None
    return c


def check_given(c):
    from sureal.dataset_reader import RawDatasetReader
    ds, E = c['ds'], len(c['ds']['cells'])
    o = gen.build(ds)
    before = gen.snapshot(o)
    r = RawDatasetReader(o)
    flat = [x[0] for x in c['scores']]
    scores = {'list': lambda: list(flat), 'array': lambda: np.array(flat), 'numbers': lambda: [np.float64(x) for x in flat],
              'singles': lambda: [np.array(x) for x in c['scores']], 'vectors': lambda: [np.array(x) for x in c['scores']]}[c['form']]()
    kw = dict(copy.deepcopy(c['kw']), **({'scores_std': list(c['std'])} if c['std'] else {}))
    new = r.to_aggregated_dataset(scores, **kw)
    keep = [e for e in range(E) if ('aggregate_content_ids' not in kw or ds['content'][e] in kw['aggregate_content_ids']) and
            ('aggregate_asset_ids' not in kw or ds['asset'][e] in kw['aggregate_asset_ids'])]
    require([v['path'] for v in new.dis_videos] == [gen.paths(ds)[e] for e in keep], 'videos {}', str([v['path'] for v in new.dis_videos]))
    for v, e in zip(new.dis_videos, keep):
        want = c['scores'][e] if c['form'] == 'vectors' else flat[e]
        require(equal(v['groundtruth'], want), 'video {}: score {} instead of {}', e, str(v['groundtruth']), str(want))
        require(('groundtruth_std' in v) == bool(c['std']) and (not c['std'] or equal(v['groundtruth_std'], c['std'][e])),
                'video {}: std {}', e, v.get('groundtruth_std'))
        require('os' not in v, 'video {}: votes kept', e)
    require(gen.snapshot(o) == before, 'exporting modified the source dataset')
    # scores that do not belong to the videos
    sut.refused(lambda: r.to_aggregated_dataset(list(scores) + [1.0]), 'one score too many')
    if E > 1:
        sut.refused(lambda: r.to_aggregated_dataset(list(scores)[:-1]), 'one score too few')
        sut.refused(lambda: r.to_aggregated_dataset(scores, scores_std=[0.5] * (E - 1)), 'one standard deviation too few')
    return [c['form']] + (['nt'] if len(set(flat)) > 1 else [])


SUBTESTS = [Sub('aggregated', aggregated(), check_aggregated, quick=1200, thorough=16000),
            Sub('per_subject', persubject(), check_persubject, quick=1200, thorough=16000),
            Sub('given_scores', given(), check_given, quick=200, thorough=4000),
            Sub('restricted', restricted(), check_restricted, quick=600, thorough=8000)]
