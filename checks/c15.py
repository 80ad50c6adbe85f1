"""C15: paired-comparison scores are read faithfully and antisymmetrically."""
import copy
import gc
import os
import random

import numpy as np
from hypothesis import strategies as st

from lib import core, gen, ref, sut
from lib.core import Sub, require

RULE = 'at least two comparisons and three videos, or a history reading several readers'


def expected(p):
    """Positions in video order, subjects who compared anything sorted by name."""
    names = sorted(set(p['subjects'][a] for a, i, j, v in p['votes']))
    x = np.full((p['m'], p['m'], len(names)), np.nan)
    for a, i, j, v in p['votes']:
        s = names.index(p['subjects'][a])
        x[i, j, s] = v
        x[j, i, s] = 1.0 - v
    return names, x


def same(got, want, what):
    got = np.asarray(got, dtype=float)
    require(got.shape == want.shape, '{}: shape {} instead of {}', what, got.shape, want.shape)
    bad = np.argwhere(~((got == want) | (np.isnan(got) & np.isnan(want))))
    require(len(bad) == 0, '{}: at {} (video, other, subject) {} instead of {}', what, [tuple(map(int, b)) for b in bad[:4]],
            [float(got[tuple(b)]) for b in bad[:4]], [float(want[tuple(b)]) for b in bad[:4]])


@st.composite
def case(draw):
    p = draw(gen.pc(M=(2, 7), S=(1, 6), max_pairs=40))
    # ties may be written at both videos
    p['both'] = draw(st.booleans())
    return p


def build(p):
    o = gen.pc_build(p)
    if p.get('both'):
        for a, i, j, v in p['votes']:
            if v == 0.5 or (a + i) % 2:
                o.dis_videos[j]['os'][(p['subjects'][a], p['asset'][i])] = 1 - v
    return o


def check(p):
    from sureal.dataset_reader import PairedCompDatasetReader
    names, want = expected(p)
    o = build(p)
    before = gen.snapshot(o)
    r = PairedCompDatasetReader(o)
    same(r.opinion_score_3darray, want, 'first read')
    same(r.opinion_score_3darray, want, 'second read')
    require(r.num_observers == len(names), 'num_observers {} instead of {}', r.num_observers, len(names))
    require(r.num_dis_videos == p['m'], 'num_dis_videos {}', r.num_dis_videos)
    require(gen.snapshot(o) == before, 'reading modified the dataset')
    x = np.asarray(r.opinion_score_3darray, dtype=float)
    y = x + np.transpose(x, (1, 0, 2))
    require(bool(np.all(np.isnan(y) | (y == 1))), 'mirrored outcomes do not add up to 1')
    lab = ['shuffled' if p['asset'] != sorted(p['asset']) else 'ordered']
    if any(v == 0.5 for *_, v in p['votes']):
        lab.append('ties')
    if len(p['votes']) >= 2 and p['m'] >= 3:
        lab.append('nt')
    return lab


def check_file(p):
    """The same through a dataset file and the model's loader."""
    from sureal.dataset_reader import PairedCompDatasetReader
    names, want = expected(p)
    with core.tmpdir() as d:
        f = os.path.join(d, 'pc_dataset.py')
        PairedCompDatasetReader.write_out_dataset(build(p), f)
        m = sut.model_class('BT_MLE').from_dataset_file(f)
        same(m.dataset_reader.opinion_score_3darray, want, 'read through a file')
        require(m.dataset_reader.num_observers == len(names), 'num_observers through a file')
    return ['file'] + (['nt'] if len(p['votes']) >= 2 and p['m'] >= 3 else [])


@st.composite
def history(draw):
    ps = [draw(gen.pc(M=(2, 4), S=(1, 3), max_pairs=8)) for _ in range(draw(st.integers(2, 4)))]
    if draw(st.booleans()):
        # equal looking datasets that differ in a single outcome
        q = copy.deepcopy(ps[0])
        k = draw(st.integers(0, len(q['votes']) - 1))
        q['votes'][k][3] = 1 - q['votes'][k][3] if q['votes'][k][3] != 0.5 else 1
        ps.append(q)
    ops = draw(st.lists(st.tuples(st.sampled_from(['new', 'read', 'read', 'drop', 'shared']), st.integers(0, len(ps) - 1)),
                        min_size=4, max_size=24))
    return {'p': ps, 'ops': [list(o) for o in ops]}


def check_history(c):
    from sureal.dataset_reader import PairedCompDatasetReader
    want = [expected(p)[1] for p in c['p']]
    objs = [gen.pc_build(p) for p in c['p']]
    live = {}
    reads = 0
    for op, k in c['ops']:
        if op == 'new':
            live.setdefault(k, []).append(PairedCompDatasetReader(gen.pc_build(c['p'][k])))
        elif op == 'shared':
            live.setdefault(k, []).append(PairedCompDatasetReader(objs[k]))
        elif op == 'drop':
            if live.get(k):
                live[k].pop(0)
                gc.collect()
        else:
            for r in live.get(k, []):
                same(r.opinion_score_3darray, want[k], 'reader of dataset {}'.format(k))
                reads += 1
    for k, rs in live.items():
        for r in rs:
            same(r.opinion_score_3darray, want[k], 'reader of dataset {} at the end'.format(k))
            reads += 1
    return ['history'] + (['nt'] if reads >= 3 and sum(1 for v in live.values() if v) >= 1 else [])


SUBTESTS = [Sub('read', case(), check, quick=2400, thorough=40000),
            Sub('file', case(), check_file, quick=240, thorough=3000),
            Sub('history', history(), check_history, quick=800, thorough=12000)]
