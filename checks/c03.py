"""C03: dataset files round-trip and loads are independent."""
import contextlib
import copy
import json
import math
import os
import sys

from hypothesis import strategies as st

from lib import gen, ref, sut
from lib.core import Sub, require, tmpdir

RULE = ('a dataset with missing votes, repetitions, dictionary or paired-comparison keys or additional attributes, or a '
        'history of at least two loads')

TEXT = st.text(alphabet="abZ09_ '\"\\\n\té,{}#%", max_size=12)
LONG = st.text(alphabet="abZ09_ '\"\\\n,é", min_size=70, max_size=220)
LEAF = st.one_of(st.none(), st.booleans(), st.integers(-10 ** 6, 10 ** 6), st.integers(), st.floats(allow_nan=False),
                 st.sampled_from([0.1, -2.5, 1e-7, 3.0, float('nan'), float('inf'), -float('inf')]), TEXT, TEXT, LONG)
VALUE = st.recursive(LEAF, lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(TEXT, x, max_size=3),
                                               st.lists(x, max_size=3).map(lambda v: {TUPLE: v})), max_leaves=6)
TUPLE = '<tuple>'    # keeps cases serialisable


def untuple(x):
    if isinstance(x, dict):
        return tuple(untuple(v) for v in x[TUPLE]) if set(x) == {TUPLE} else {k: untuple(v) for k, v in x.items()}
    return [untuple(v) for v in x] if isinstance(x, list) else x


ATTRS = ['yuv_fmt', 'width', 'height', 'quality_width', 'note', 'license', 'subjects', 'resampling_type', 'ref_dir', '_lab', 'Scale2', 'x_', 'os']


@st.composite
def case(draw, ds=gen.raw()):
    ds = draw(ds)
    extra = {}
    for a in draw(st.lists(st.sampled_from(ATTRS), max_size=4, unique=True)):
        extra[a] = draw(VALUE)
    ds['extra'] = extra
    # extra fields of videos and references
    ds['vfield'] = draw(st.lists(VALUE, max_size=2))
    ds['paths'] = draw(st.lists(TEXT, max_size=2))
    return ds


def build(ds):
    d = gen.build(ds)
    for k, v in ds.get('extra', {}).items():
        setattr(d, k, untuple(v))
    for i, v in enumerate(ds.get('vfield', [])):
        for w in (d.dis_videos + d.ref_videos)[i::3]:
            w['field{}'.format(i)] = untuple(copy.deepcopy(v))
    for i, t in enumerate(ds.get('paths', [])):
        d.dis_videos[i % len(d.dis_videos)]['path'] = 'p/' + t
    return d


def same(a, b):
    """Equality with NaN == NaN; tuples and lists are told apart, as are ints from bools."""
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def attributes(o):
    return {k: v for k, v in vars(o).items() if not k.startswith('__')}


def compare(want, got, what):
    w, g = attributes(want), attributes(got)
    require(set(w) == set(g), '{}: attributes {} instead of {}', what, str(sorted(g)), str(sorted(w)))
    for k in w:
        require(same(w[k], g[k]), '{}: {} is {} instead of {}', what, k, repr(g[k])[:200], repr(w[k])[:200])


def check_py(ds):
    from sureal.dataset_reader import RawDatasetReader
    from sureal.tools.misc import import_python_file
    d = build(ds)
    keep = gen.snapshot(d)
    with tmpdir() as t:
        p = os.path.join(t, 'a.py')
        RawDatasetReader.write_out_dataset(d, p)
        require(gen.snapshot(d) == keep, 'writing modified the dataset')
        g = import_python_file(p)
        compare(d, g, 'loaded file')
        # a second generation: writing what was loaded
        p2 = os.path.join(t, 'b.py')
        RawDatasetReader.write_out_dataset(g, p2)
        compare(d, import_python_file(p2), 'file written from a loaded file')
        ref.close(RawDatasetReader(g).opinion_score_3darray, gen.array3d(ds), 0, 0, 'votes of the loaded file')
    lab = gen.labels(ds)
    return lab + (['nt'] if set(lab) & {'missing', 'repetitions', 'dict'} or ds['extra'] else [])


def check_pc(p):
    from sureal.dataset_reader import PairedCompDatasetReader
    from sureal.tools.misc import import_python_file
    d = gen.pc_build(p)
    with tmpdir() as t:
        f = os.path.join(t, 'a.py')
        PairedCompDatasetReader.write_out_dataset(d, f)
        g = import_python_file(f)
        compare(d, g, 'loaded paired comparison file')
        ref.close(PairedCompDatasetReader(g).opinion_score_3darray, PairedCompDatasetReader(d).opinion_score_3darray,
                  0, 0, 'comparisons of the loaded file')
    return ['nt'] if len(p['votes']) > 1 else []


def check_json(ds):
    from sureal.dataset_reader import RawDatasetReader
    from sureal.routine import run_subjective_models
    from sureal.tools.misc import import_json_file, import_python_file
    d = build(ds)
    with tmpdir() as t:
        pj, pp = os.path.join(t, 'a.json'), os.path.join(t, 'a.py')
        with open(pj, 'w') as fp:
            json.dump(attributes(d), fp)
        RawDatasetReader.write_out_dataset(d, pp)
        dj, dp = import_json_file(pj), import_python_file(pp)
        want = json.loads(json.dumps(attributes(d)))
        have = attributes(dj)
        require(set(have) == set(want) == set(attributes(dp)), 'JSON attributes {} instead of {}', str(sorted(have)), str(sorted(want)))
        for k in want:
            require(same(want[k], have[k]), 'JSON dataset: {} is {} instead of {}', k, repr(have[k])[:200], repr(want[k])[:200])
        rj, rp = RawDatasetReader(dj), RawDatasetReader(dp)
        ref.close(rj.opinion_score_3darray, rp.opinion_score_3darray, 0, 0, 'votes of the JSON dataset')
        require(rj.content_id_of_dis_videos == rp.content_id_of_dis_videos, 'content ids differ')
        require(list(rj.disvideo_is_refvideo) == list(rp.disvideo_is_refvideo), 'reference flags differ')
        require(rj.ref_score == rp.ref_score, 'ref_score differs')
        cls = [sut.model_class('MOS'), sut.model_class('BR_MOS')]
        _, _, resj = run_subjective_models(pj, cls)
        _, _, resp = run_subjective_models(pp, cls)
        for a, b in zip(resj, resp):
            for k in ('quality_scores', 'quality_scores_std', 'aic'):
                ref.close(a[k], b[k], 1e-12, 1e-12, k + ' of the JSON dataset')
            require(a.get('observers') == b.get('observers'), 'observers differ')
            require(a['dis_video_names'] == b['dis_video_names'], 'video names differ')
    return gen.labels(ds) + ['nt']


@contextlib.contextmanager
def bytecode():
    saved, sys.dont_write_bytecode = sys.dont_write_bytecode, False
    try:
        yield
    finally:
        sys.dont_write_bytecode = saved


@st.composite
def history(draw):
    n = draw(st.integers(2, 5))
    variants = draw(st.lists(gen.raw(E=(1, 5), S=(1, 4)), min_size=2, max_size=3))
    for i, v in enumerate(variants):
        v['extra'] = {'only_in_{}'.format(i): i} if draw(st.booleans()) else {}
        if draw(st.booleans()):
            v['ref_score'] = None
    slots = ['a/data.py', 'b/data.py', 'b/other.py']
    ops = draw(st.lists(st.tuples(st.sampled_from(['write', 'load', 'load', 'filter', 'model', 'mutate']),
                                  st.integers(0, len(slots) - 1), st.integers(0, len(variants) - 1)),
                        min_size=n, max_size=10))
    return {'variants': variants, 'ops': [list(o) for o in ops]}


def check_history(c):
    """Any sequence of writes, loads, filtered loads and models: every load equals the file's content at that time, and
    nothing that was loaded before ever changes."""
    from sureal.dataset_reader import RawDatasetReader
    from sureal.subjective_model import MosModel
    from sureal.tools.misc import import_python_file
    slots = ['a/data.py', 'b/data.py', 'b/other.py']
    loads = 0
    # as in ordinary use, loading may leave cached bytecode (here: in the scratch directory)
    with tmpdir() as t, bytecode():
        os.makedirs(os.path.join(t, 'a'))
        os.makedirs(os.path.join(t, 'b'))
        content, alive = {}, []

        def write(slot, v):
            RawDatasetReader.write_out_dataset(gen.build(c['variants'][v]), os.path.join(t, slots[slot]))
            content[slot] = v
        for i in range(len(slots)):
            write(i, i % len(c['variants']))
        for op, slot, v in c['ops']:
            path = os.path.join(t, slots[slot])
            if op == 'write':
                write(slot, v)
            elif op == 'load':
                g = import_python_file(path)
                compare(gen.build(c['variants'][content[slot]]), g, 'load of ' + slots[slot])
                alive.append((g, gen.build(c['variants'][content[slot]])))
                loads += 1
            elif op == 'filter':
                src = c['variants'][content[slot]]
                keep = sorted(set(src['content']))[:1]
                m = MosModel.from_dataset_file(path, content_ids=keep)
                want = [x['path'] for x in gen.build(src).dis_videos if x['content_id'] in keep]
                require([x['path'] for x in m.dataset_reader.dis_videos] == want, 'filtered load keeps wrong videos')
                loads += 1
            elif op == 'model':
                src = c['variants'][content[slot]]
                m = MosModel.from_dataset_file(path)
                res = m.run_modeling()
                ref.close(res['quality_scores'], ref.mos(gen.votes3d(src)), 1e-9, 1e-9, 'MOS of a loaded file')
                m.to_aggregated_dataset()
                loads += 1
            elif op == 'mutate' and alive:
                g, want = alive.pop()
                g.dis_videos[0]['os'] = [1]
                g.dis_videos.append({'x': 1})
                g.ref_videos[:] = []
            for g, want in alive:
                compare(want, g, 'dataset loaded earlier')
    return ['ops'] + (['nt'] if loads >= 2 else [])


SUBTESTS = [Sub('python_file', case(), check_py, quick=1200, thorough=12000),
            Sub('pc_file', gen.pc(), check_pc, quick=400, thorough=4000),
            Sub('json_file', case(gen.raw(E=(2, 8), S=(2, 6), styles=('list', 'dict'), min_video=2)), check_json, quick=400, thorough=4000),
            Sub('load_history', history(), check_history, quick=400, thorough=4000)]
