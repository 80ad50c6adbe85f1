"""C17: converting ratings to paired comparisons keeps every preference."""
import copy
import math
import os
import random

import numpy as np
from hypothesis import strategies as st

from lib import core, gen, sut
from lib.core import Sub, require

RULE = 'at least one subject rated two comparable videos with different scores'


def plain(ds):
    """One vote per subject and video, written as a plain number."""
    ds['wrap'] = [[False] * len(r) for r in ds['wrap']]
    return ds


def rated(ds):
    """[(name, {video: score})] in the naming of the conversion."""
    E, S, R = gen.dims(ds)
    out = []
    for s in range(S):
        name = ds['subjects'][s] if ds['style'] == 'dict' else str(s)
        out.append((name, {e: ds['cells'][e][s][0] for e in range(E) if ds['cells'][e][s]}))
    return out


def pairs(ds, across):
    for name, sc in rated(ds):
        for i in sorted(sc):
            for j in sorted(sc):
                if i < j and (across or ds['content'][i] == ds['content'][j]):
                    yield name, i, j


def outcomes(new, ds):
    """{(subject, i, j): value} with positions as recorded."""
    pos = {a: e for e, a in enumerate(ds['asset'])}
    out = {}
    for e, v in enumerate(new.dis_videos):
        for (name, other), val in v['os'].items():
            require(other in pos, 'comparison with unknown asset {}', other)
            out[(name, e, pos[other])] = val
    return out


def winner(a, b):
    return 1 if a > b else 0 if a < b else 0.5


def expect(got, name, i, j, w):
    """The record of the pair must express exactly: video i wins (1), loses (0), ties (0.5)."""
    x, y = got.pop((name, i, j), None), got.pop((name, j, i), None)
    want = {1: (1, None), 0: (None, 1), 0.5: (0.5, 0.5), None: (None, None)}[w]
    require((x, y) == want, 'subject {} videos {} and {}: recorded {} instead of {}', name, i, j, (x, y), want)


def decided(got, name, i, j):
    x, y = got.pop((name, i, j), None), got.pop((name, j, i), None)
    require((x, y) in ((1, None), (None, 1)), 'subject {} videos {} and {}: recorded {}, not one winner', name, i, j, (x, y))
    return 1 if x == 1 else 0


def fields(new, old, ds):
    """Everything but the votes is kept."""
    require(len(new.dis_videos) == len(old.dis_videos), '{} videos', len(new.dis_videos))
    for a, b in zip(new.dis_videos, old.dis_videos):
        x, y = {k: v for k, v in a.items() if k != 'os'}, {k: v for k, v in b.items() if k != 'os'}
        require(x == y, 'video {} became {}', str(y), str(x))
    require(new.ref_videos == old.ref_videos, 'reference videos changed')
    for k, v in vars(old).items():
        if k not in ('dis_videos', 'ref_videos'):
            require(hasattr(new, k) and getattr(new, k) == v, 'attribute {} lost', k)


@st.composite
def case(draw):
    ds = plain(draw(gen.raw(E=(1, 7), S=(1, 5), R=(1, 1), kinds=['int5', 'int5', 'eighth', 'outlier', 'seeded'])))
    ds['extra'] = {'width': 1920, 'yuv_fmt': 'yuv420p'}
    E = len(ds['cells'])
    per = lambda x: st.lists(st.sampled_from(x), min_size=E, max_size=E)
    kw = {}
    if draw(st.booleans()):
        kw['pc_type'] = draw(st.sampled_from(['within_subject', 'within_subject_within_content']))
    if draw(st.booleans()):
        kw['tiebreak_method'] = draw(st.sampled_from(['even_split', 'coin_toss']))
    k = draw(st.sampled_from(['none', 'rate', 'per_asset']))
    if k == 'rate':
        kw['sampling_rate'] = draw(st.sampled_from([0.0, 0.3, 0.7, 1.0, 2.0]))
    if k == 'per_asset':
        kw['per_asset_sampling_rates'] = draw(per([0.0, 0.0, 0.5, 1.0, 2.0]))
    k = draw(st.sampled_from(['none', 'none', 'rate', 'per_asset']))
    if k == 'rate':
        kw['cointoss_rate'] = draw(st.sampled_from([0.0, 1.0]))
    if k == 'per_asset':
        kw['per_asset_cointoss_rates'] = draw(per([0.0, 0.0, 1.0]))
    k = draw(st.sampled_from(['none', 'none', 'level', 'per_asset']))
    if k == 'level':
        kw['noise_level'] = draw(st.sampled_from([0.0, 0.0, 5.0]))
    if k == 'per_asset':
        kw['per_asset_noise_levels'] = draw(per([0.0, 0.0, 0.0, 50.0]))
    if draw(st.sampled_from([False, False, True])):
        kw['per_asset_mean_scores'] = draw(per([1.0, 2.0, 3.5, 4, 5.0]))
    if draw(st.booleans()):
        kw['sampling_seed'] = draw(st.integers(0, 1000))
    for k in ('pc_type', 'sampling_rate', 'noise_level', 'sampling_seed', 'cointoss_rate', 'per_asset_sampling_rates',
              'per_asset_noise_levels', 'per_asset_mean_scores', 'per_asset_cointoss_rates'):
        if k not in kw and draw(st.sampled_from([False, False, False, True])):
            kw[k] = None
    return {'ds': ds, 'kw': kw, 'rs': draw(st.integers(0, 10 ** 6))}


def check(c):
    ds, kw = c['ds'], c['kw']
    from sureal.dataset_reader import RawDatasetReader
    old = gen.build(ds)
    before = gen.snapshot(old)
    random.seed(c['rs'])
    r = RawDatasetReader(old)
    new = r.to_pc_dataset(**copy.deepcopy(kw))
    require(gen.snapshot(old) == before, 'conversion modified the source dataset')
    fields(new, gen.build(ds), ds)
    got = outcomes(new, ds)
    if kw.get('sampling_seed') is not None:
        random.seed(c['rs'] + 17)
        again = outcomes(RawDatasetReader(gen.build(ds)).to_pc_dataset(**copy.deepcopy(kw)), ds)
        require(again == got, 'not reproducible with sampling_seed={}', kw['sampling_seed'])
    across = kw.get('pc_type') == 'within_subject'
    table = dict(rated(ds))
    nt = False
    total = dict(got)
    for name, i, j in pairs(ds, across):
        sc = kw.get('per_asset_mean_scores') or table[name]
        w = winner(sc[i], sc[j])
        rate = kw.get('sampling_rate')
        if rate is None:
            rate = 1.0
        if kw.get('per_asset_sampling_rates') is not None:
            rate = (kw['per_asset_sampling_rates'][i] + kw['per_asset_sampling_rates'][j]) / 2.0
        if rate == 0:
            expect(got, name, i, j, None)
            continue
        present = (name, i, j) in got or (name, j, i) in got
        if rate < 1 and not present:
            continue
        toss = kw.get('cointoss_rate') or 0.0
        if kw.get('per_asset_cointoss_rates') is not None:
            toss = (kw['per_asset_cointoss_rates'][i] + kw['per_asset_cointoss_rates'][j]) / 2.0
        noisy = kw.get('noise_level') or kw.get('per_asset_noise_levels') is not None and (kw['per_asset_noise_levels'][i] or kw['per_asset_noise_levels'][j])
        free = noisy or toss == 1 or (w == 0.5 and kw.get('tiebreak_method') == 'coin_toss')
        nt = nt or w != 0.5
        if rate > 1 and (free or toss > 0):
            # asked more than once: any of the possible outcomes, possibly both
            x, y = got.pop((name, i, j), None), got.pop((name, j, i), None)
            require(x is not None or y is not None, 'pair {} lost', (name, i, j))
        elif free:
            decided(got, name, i, j)
        elif toss > 0:
            x, y = got.get((name, i, j)), got.get((name, j, i))
            if (x, y) in ((1, None), (None, 1)):
                got.pop((name, i, j), None), got.pop((name, j, i), None)
            else:
                expect(got, name, i, j, w)
        else:
            expect(got, name, i, j, w)
    require(not got, 'recorded although not implied by the votes: {}', str(sorted(map(str, got))[:5]))
    lab = gen.labels(ds) + sorted(k for k in kw if kw[k] is not None)
    if total:
        lab.append('recorded')
    return lab + (['nt'] if nt else [])


@st.composite
def read_case(draw):
    ds = plain(draw(gen.raw(E=(2, 7), S=(1, 5), R=(1, 1), kinds=['int5', 'eighth', 'seeded'], contiguous_assets=True)))
    rng = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
    if draw(st.booleans()):
        rng.shuffle(ds['asset'])
    return {'ds': ds, 'across': draw(st.booleans()), 'file': draw(st.sampled_from([False, False, True]))}


def check_read(c):
    """The converted dataset, read by the paired comparison reader."""
    from sureal.dataset_reader import PairedCompDatasetReader, RawDatasetReader
    ds = c['ds']
    r = RawDatasetReader(gen.build(ds))
    kw = {'pc_type': 'within_subject'} if c['across'] else {}
    if c['file']:
        with core.tmpdir() as d:
            f = os.path.join(d, 'converted_pc.py')
            r.to_pc_dataset_file(f, **kw)
            from sureal.tools.misc import import_python_file
            new = import_python_file(f)
    else:
        new = r.to_pc_dataset(**kw)
    X = np.asarray(PairedCompDatasetReader(new).opinion_score_3darray, float)
    E = len(ds['cells'])
    table = dict(rated(ds))
    todo = {}
    for name, i, j in pairs(ds, c['across']):
        todo.setdefault(name, []).append((i, j))
    names = sorted(todo)
    require(X.shape == (E, E, len(names)), 'shape {} for {} videos and subjects {}', X.shape, E, names)
    want = np.full(X.shape, np.nan)
    for k, n in enumerate(names):
        for i, j in todo[n]:
            w = winner(table[n][i], table[n][j])
            want[i, j, k], want[j, i, k] = w, 1 - w
    require(np.array_equal(X, want, equal_nan=True), 'comparison array differs at {}',
            str(np.argwhere(~((X == want) | (np.isnan(X) & np.isnan(want))))[:5].tolist()))
    return ['read'] + (['nt'] if np.any((want == 1)) else [])


# --- random choices follow the given rates ---

@st.composite
def stats_case(draw):
    E, S = 30, 4
    kind = draw(st.sampled_from(['sampling_rate', 'per_asset_sampling_rates', 'cointoss_rate', 'noise_level',
                                 'per_asset_noise_levels', 'coin_toss', 'per_asset_cointoss_rates']))
    return {'kind': kind, 'x': draw(st.sampled_from([0.2, 0.5, 0.8])), 'seed': draw(st.integers(0, 10 ** 6)),
            'shuffle': draw(st.booleans()), 'E': E, 'S': S}


def check_stats(c):
    """Frequencies of kept pairs and upsets within 6 standard deviations of their expectation."""
    from sureal.dataset_reader import RawDatasetReader
    E, S, x = c['E'], c['S'], c['x']
    rng = random.Random(c['seed'])
    q = [rng.uniform(1, 5) for _ in range(E)]
    asset = list(range(E))
    if c['shuffle']:
        rng.shuffle(asset)
    tie = c['kind'] == 'coin_toss'
    ds = {'style': 'dict', 'cells': [[[3 if tie else q[e]] for _ in range(S)] for e in range(E)],
          'wrap': [[False] * S for _ in range(E)], 'content': [0] * E, 'ref_order': [0], 'asset': asset, 'hidden': {},
          'subjects': gen.NAMES[:S], 'ref_score': 5.0, 'name': 'big'}
    group = [rng.random() < 0.5 for _ in range(E)]
    level = [x if g else 1.0 for g in group]
    rates = [1.0 if g else 0.0 for g in group]
    kw = {'sampling_rate': {'sampling_rate': x}, 'per_asset_sampling_rates': {'per_asset_sampling_rates': rates},
          'cointoss_rate': {'cointoss_rate': x}, 'per_asset_cointoss_rates': {'per_asset_cointoss_rates': rates},
          'noise_level': {'noise_level': x}, 'per_asset_noise_levels': {'per_asset_noise_levels': level},
          'coin_toss': {'tiebreak_method': 'coin_toss'}}[c['kind']]
    got = outcomes(RawDatasetReader(gen.build(ds)).to_pc_dataset(sampling_seed=c['seed'], **kw), ds)
    # classes of pairs with the same expected probability, summed
    obs, mean, var = {}, {}, {}
    phi = lambda z: 0.5 * math.erfc(-z / math.sqrt(2))
    for name, i, j in pairs(ds, False):
        k = (group[i], group[j])
        if 'sampling' in c['kind']:
            hit = (name, i, j) in got or (name, j, i) in got
            p = x if c['kind'] == 'sampling_rate' else (rates[i] + rates[j]) / 2
        elif 'cointoss' in c['kind']:
            hit = got.get((name, i, j) if q[i] > q[j] else (name, j, i)) == 1
            t = x if c['kind'] == 'cointoss_rate' else (rates[i] + rates[j]) / 2
            p = 1 - t / 2
        elif tie:
            # by asset number, so that a preference for one side shows
            a, b = (i, j) if asset[i] > asset[j] else (j, i)
            hit, p = got.get((name, a, b)) == 1, 0.5
            k = 0
        else:
            hit = got.get((name, i, j)) == 1
            si, sj = (x, x) if c['kind'] == 'noise_level' else (level[i], level[j])
            p = phi((q[i] - q[j]) / math.sqrt(si * si + sj * sj))
        obs[k] = obs.get(k, 0) + hit
        mean[k] = mean.get(k, 0) + p
        var[k] = var.get(k, 0) + p * (1 - p)
    for k in obs:
        require(abs(obs[k] - mean[k]) <= 6 * math.sqrt(var[k]) + 1e-9, '{} {}: {} hits instead of about {} +- {}', c['kind'],
                k, obs[k], mean[k], math.sqrt(var[k]))
    return [c['kind'], 'nt']


SUBTESTS = [Sub('pairs', case(), check, quick=3200, thorough=50000),
            Sub('read_back', read_case(), check_read, quick=800, thorough=10000),
            Sub('rates', stats_case(), check_stats, quick=96, thorough=1200)]
