"""C21: models and exports neither interfere nor modify their input (stateful histories)."""
import copy
import math
import os
import random

import numpy as np
from hypothesis import strategies as st

from lib import core, gen, models, sut
from lib.core import Sub, Violation, require

RULE = 'a history of at least four operations, at least two of them on the same reader'

MODELS = ['MOS', 'DMOS', 'SR_MOS', 'BT500', 'P913', 'ZS_MOS', 'BR_MOS', 'P910', 'LS', 'PERSUBJECT', 'LIVE_DMOS', 'SR_MOS_PCC',
          'ZS_SR_DMOS', 'MLE_CO_AP', 'Subject_MLE_Projection']
PCM = ['BT_MLE', 'BT_NR', 'THURSTONE_MLE']
RUN = [{}, {}, {'normalize_final': True}, {'transform_final': {'p2': 0.5, 'p0': 1.0}}, {'dscore_mode': True}]
OPS = ['run', 'run', 'run', 'rerun', 'export', 'read', 'pc', 'dict', 'combine', 'list', 'pcrun', 'pcread', 'file', 'from_file',
       'persubject', 'simulate', 'edit', 'edit', 'edit']
EDITED = ['export', 'pc', 'dict', 'combine', 'persubject', 'simulate', 'read']


def enc(x):
    if isinstance(x, dict):
        return ('dict', [(enc(k), enc(v)) for k, v in x.items()])
    if isinstance(x, np.ndarray):
        return ('nd', x.shape, [enc(v) for v in x.ravel().tolist()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [enc(v) for v in x])
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    if isinstance(x, (float, np.floating)):
        return 'nan' if math.isnan(x) else float(x)
    if isinstance(x, (int, np.integer)):
        return repr(int(x))
    if x is None or isinstance(x, str):
        return repr(x)
    if hasattr(x, 'dis_videos'):
        return enc({k: v for k, v in vars(x).items() if not k.startswith('__')})
    return repr(x)


def alike(a, b):
    """Equal up to the rounding of repeated evaluation."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 + 1e-7 * abs(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


@st.composite
def case(draw):
    nds = draw(st.integers(2, 3))
    dss = []
    for i in range(nds):
        d = draw(gen.raw(E=(2, 6), S=(2, 5), R=(1, draw(st.sampled_from([1, 1, 2]))), hidden_ref=True, kinds=['int5', 'seeded', 'eighth']))
        d['name'] = 'set{}'.format(i)
        # paths shared between the datasets, so that combinations are not empty
        dss.append(d)
    pcs = [draw(gen.pc(M=(2, 4), S=(1, 4), max_pairs=15, strong=True)) for _ in range(2)]
    ops = []
    for _ in range(draw(st.integers(3, 12))):
        ops.append([draw(st.sampled_from(OPS)), draw(st.integers(0, nds - 1)), draw(st.integers(0, len(MODELS) - 1)),
                    draw(st.integers(0, len(RUN) - 1))])
    return {'ds': dss, 'pc': pcs, 'ops': ops}


def common_paths(o):
    for e, v in enumerate(o.dis_videos):
        if not v['path'].startswith('ref/'):
            v['path'] = 'dis/{}.yuv'.format(e)
    return o


class World(object):
    """Either shared objects living through the history, or fresh ones for every operation."""

    def __init__(self, c):
        from sureal.dataset_reader import PairedCompDatasetReader, RawDatasetReader
        self.ds = [common_paths(gen.build(d)) for d in c['ds']]
        self.pc = [gen.pc_build(p) for p in c['pc']]
        self.readers = [RawDatasetReader(o) for o in self.ds]
        self.pcreaders = [PairedCompDatasetReader(o) for o in self.pc]
        self.models = {}

    def model(self, k, name):
        if (k, name) not in self.models:
            self.models[(k, name)] = sut.model_class(name)(self.readers[k])
        return self.models[(k, name)]


def perform(w, op, k, mi, ri, d):
    """One operation; returns ('ok', value) or ('error', kind)."""
    try:
        return 'ok', operation(w, op, k, mi, ri, d)
    except (KeyboardInterrupt, SystemExit, MemoryError, Violation):
        raise
    except Exception as e:
        return 'error', type(e).__name__


def operation(w, op, k, mi, ri, d):
    name = MODELS[mi]
    kw = copy.deepcopy(RUN[ri])
    if op == 'run':
        return sut.model_class(name)(w.readers[k]).run_modeling(**kw)
    if op == 'rerun':
        return w.model(k, name).run_modeling(**kw)
    if op == 'export':
        m = w.model(k, name)
        m.run_modeling(**kw)
        return m.to_aggregated_dataset()
    if op == 'read':
        return w.readers[k].opinion_score_3darray
    if op == 'pc':
        return w.readers[k].to_pc_dataset(pc_type='within_subject', sampling_seed=3 + mi, sampling_rate=0.7)
    if op == 'dict':
        # compared by value: the dataset itself may be returned if it has this style already
        return w.readers[k].to_dictionary_style_dataset()
    if op == 'combine':
        return w.readers[k].to_combined_overlap_dataset(w.readers[(k + 1) % len(w.readers)])
    if op == 'list':
        r = w.readers[k]
        return [r.num_observers, r.max_repetitions, r.content_ids, r.disvideo_is_refvideo, r.num_dis_videos, r.asset_ids]
    if op == 'pcrun':
        return sut.model_class(PCM[mi % 3])(w.pcreaders[k % 2]).run_modeling(**({'zscore_output': True} if ri % 2 else {}))
    if op == 'pcread':
        return w.pcreaders[k % 2].opinion_score_3darray
    if op == 'file':
        m = w.model(k, 'MOS')
        m.run_modeling()
        f = os.path.join(d, 'agg{}.py'.format(k))
        m.to_aggregated_dataset_file(f)
        return open(f).read()
    if op == 'from_file':
        f = os.path.join(d, 'src{}.py'.format(k % 2))     # rewritten between uses
        w.readers[k].write_out_dataset(w.ds[k], f)
        m = sut.model_class(name).from_dataset_file(f)
        return m.run_modeling(**kw)
    if op == 'persubject':
        m = w.model(k, 'PERSUBJECT')
        m.run_modeling()
        return m.to_aggregated_dataset()
    if op == 'simulate':
        from sureal import dataset_reader as dr
        cls, inp = [(dr.SelectSubjectRawDatasetReader, {'selected_subjects': [0, 1]}),
                    (dr.SelectDisVideoRawDatasetReader, {'selected_dis_videos': [1, 0]}),
                    (dr.MissingDataRawDatasetReader, {'missing_probability': 0.3}),
                    (dr.CorruptSubjectRawDatasetReader, {'selected_subjects': [0]})][mi % 4]
        return cls(w.ds[k], input_dict=inp).to_dataset()
    if op == 'edit':
        # somebody edits what an operation returned: nothing else may change
        out = operation(w, EDITED[(mi + ri) % len(EDITED)], k, mi, ri, d)
        kept = enc(out)
        if not any(out is o for o in w.ds):
            edit(out)
        return kept
    raise AssertionError(op)


def edit(out):
    if isinstance(out, np.ndarray):
        out[...] = 77.0
        return
    for v in list(out.dis_videos) + list(out.ref_videos):
        if isinstance(v.get('os'), dict):
            v['os']['somebody'] = 77
        elif isinstance(v.get('os'), list):
            v['os'].append(77)
        v['path'] = 'edited'
        v['note'] = 77
    out.dis_videos.append({'note': 77})
    out.ref_videos.append({'note': 77})


def check(c):
    with core.tmpdir() as d, core.tmpdir() as d2:
        w = World(c)
        before = [gen.snapshot(o) for o in w.ds + w.pc]
        earlier = []
        used = {}
        ok = 0
        for n, (op, k, mi, ri) in enumerate(c['ops']):
            random.seed(99)
            np.random.seed(99)
            want = perform(World(c), op, k, mi, ri, d2)
            want = (want[0], enc(want[1]))
            random.seed(99)
            np.random.seed(99)
            got = perform(w, op, k, mi, ri, d)
            what = 'operation {} ({} on {}, {} {})'.format(n, op, k, MODELS[mi], RUN[ri])
            require(got[0] == want[0], '{}: {} {} on shared objects, {} {} on fresh ones', what, got[0], str(got[1])[:150],
                    want[0], str(want[1])[:150])
            e = enc(got[1])
            require(alike(e, want[1]), '{} differs from the same operation on a fresh copy: {}', what, diff(e, want[1]))
            for i, o in enumerate(w.ds + w.pc):
                require(gen.snapshot(o) == before[i], '{} modified dataset {}', what, i)
            for what0, v, e0 in earlier:
                require(enc(v) == e0, '{} changed the result of {}', what, what0)
            if got[0] == 'ok':
                ok += 1
                earlier.append((what, got[1], e))
            used[k] = used.get(k, 0) + 1
        return sorted(set(o[0] for o in c['ops'])) + (['nt'] if ok >= 4 and max(used.values()) >= 2 else [])


def diff(a, b):
    a, b = str(a), str(b)
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return '...{} / ...{}'.format(a[max(0, i - 40):i + 40], b[max(0, i - 40):i + 40])
    return '{} / {} characters'.format(len(a), len(b))


@st.composite
def mle_case(draw):
    dss = [draw(gen.well_posed(E=(6, 9), S=(9, 10), R=(1, 1))) for _ in range(2)]
    for i, d in enumerate(dss):
        d['name'] = 'set{}'.format(i)
    names = ['MLE', 'MLE_CO', 'MLE_SO', 'DMOS_MLE', 'MLE_legacy', 'P910', 'BT500']
    ops = [[draw(st.sampled_from(['run', 'rerun', 'export'])), draw(st.integers(0, 1)), draw(st.sampled_from(names))] for _ in range(4)]
    return {'ds': dss, 'pc': [], 'ops': ops}


def check_mle(c):
    w = World(c)
    before = [gen.snapshot(o) for o in w.ds]
    earlier = []

    def go(w, op, k, name):
        try:
            m = sut.model_class(name)(w.readers[k]) if op == 'run' else w.model(k, name)
            r = m.run_modeling()
            return m.to_aggregated_dataset() if op == 'export' else r
        except (KeyboardInterrupt, SystemExit, MemoryError, Violation):
            raise
        except Exception as e:
            return type(e).__name__
    for n, (op, k, name) in enumerate(c['ops']):
        want, got = enc(go(World(c), op, k, name)), go(w, op, k, name)
        what = '{} {} on {}'.format(op, name, k)
        require(alike(enc(got), want), '{} differs from a fresh copy: {}', what, diff(enc(got), want))
        for i, o in enumerate(w.ds):
            require(gen.snapshot(o) == before[i], '{} modified dataset {}', what, i)
        for what0, v, e0 in earlier:
            require(enc(v) == e0, '{} changed the result of {}', what, what0)
        earlier.append((what, got, enc(got)))
    return ['mle', 'nt']


SUBTESTS = [Sub('histories', case(), check, quick=1600, thorough=16000),
            Sub('maximum_likelihood', mle_case(), check_mle, quick=16, thorough=300, shrink=30)]
