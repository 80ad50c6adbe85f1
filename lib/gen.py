"""Generators of datasets (as JSON-serialisable descriptions) and their builders."""
import copy
import math
import random

import numpy as np
from hypothesis import strategies as st

NAMES = ['s1', 's2', 's10', 'Zoe', 'adam', 'Adam', 'user 3', 'b', 'Eve', 'x_7', 'S2', 'émile', '10', '9', 'kim', 'Q',
         "o'brien", 'ann"a', 'z', 'A', 'lee', 'nm', 'pp', 'tt', 'r2', 'r11', 'um', 'v', 'w2', 'w10', 'bo', 'cy',
         ' Diana', 'Diana', 'kim ', "O'Neil", 'say "hi"', 'a,b', 'back\\slash', 'Ü 7', '0', '']

NAN = float('nan')


def isnan(v):
    return isinstance(v, float) and math.isnan(v)


@st.composite
def raw(draw, E=(1, 8), S=(1, 6), R=(1, 3), missing=True, styles=('list', 'tuple', 'dict'), kinds=None, C=(1, 4),
        hidden_ref=None, min_video=1, min_subject=1, contiguous_assets=False, ref_gap=False, distinct_subject=False, big=True, zero=True, sparse=True):
    """A raw-score dataset description.

    cells[e][s] is the list of votes of subject s for video e (empty: absent);
    wrap[e][s] tells whether a single vote is written as a one-element list.
    hidden_ref True: every content has exactly one hidden reference among the videos.
    """
    nE = draw(st.integers(E[0], E[1]))
    nS = draw(st.integers(S[0], S[1]))
    if big:
        # now and then more than ten subjects or videos
        k = draw(st.integers(0, 15))
        if k == 15 and S[1] > 3:
            nS = draw(st.integers(11, 14))
        elif k == 14 and E[1] > 3:
            nE = draw(st.integers(11, 14))
        elif k == 13 and S[1] > 3:
            nS = draw(st.integers(15, len(NAMES)))
        elif k == 12 and E[1] > 3:
            nE = draw(st.integers(15, 45))
    nC = draw(st.integers(C[0], min(C[1], nE)))
    if big and nE > 10 and C[1] > 3 and draw(st.booleans()):
        nC = draw(st.integers(5, min(nE, 14)))
    nR = draw(st.integers(R[0], R[1]))
    if big and k == 11 and R[1] > 2:
        nR = draw(st.integers(4, 7))
    kind = draw(st.sampled_from(kinds or ['int5', 'int5', 'eighth', 'cont', 'wide', 'seeded', 'seeded', 'outlier']))
    style = draw(st.sampled_from(list(styles)))
    rng = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
    miss = draw(st.sampled_from(['none', 'none', 'some', 'heavy'])) if missing else 'none'
    pm = {'none': 0.0, 'some': 0.15, 'heavy': 0.5}[miss]
    low = draw(st.sampled_from([1, 1, 1, 0, -2])) if zero and kind == 'int5' else 1
    direct = kind != 'seeded' and nE * nS * nR <= 60 and draw(st.booleans())

    def value():
        if kind == 'int5':
            return draw(st.integers(low, low + 4)) if direct else rng.randint(low, low + 4)
        if kind == 'eighth':
            return (draw(st.integers(0, 40)) if direct else rng.randint(0, 40)) / 8.0
        if kind == 'cont':
            return (draw(st.integers(0, 10000)) if direct else rng.randint(0, 10000)) / 100.0
        if kind == 'wide':
            return (draw(st.integers(-1000, 1000)) if direct else rng.randint(-1000, 1000)) / 7.0
        if kind == 'outlier':
            k = draw(st.integers(0, 5)) if direct else rng.randint(0, 5)
            return [3, 3, 3, 3, 1, 5][k]
        raise AssertionError(kind)

    if kind == 'seeded':
        q = [rng.uniform(1, 5) for _ in range(nE)]
        b = [rng.gauss(0, 0.4) for _ in range(nS)]
        sd = [rng.uniform(0.2, 1.0) for _ in range(nS)]
        val = lambda e, s: round(q[e] + b[s] + sd[s] * rng.gauss(0, 1), 3)
    else:
        val = lambda e, s: value()

    cells, wrap = [], []
    for e in range(nE):
        row, wr = [], []
        for s in range(nS):
            if nR > 1:
                k = rng.randint(1, nR)
            else:
                k = 1
            if rng.random() < pm:
                k = 0
            row.append([val(e, s) for _ in range(k)])
            wr.append(rng.random() < 0.3)
        cells.append(row)
        wrap.append(wr)
    # repair: enough votes per video and per subject
    for e in range(nE):
        s = 0
        while sum(len(c) for c in cells[e]) < min_video and s < nS * 4:
            if len(cells[e][s % nS]) == 0 or s >= nS:
                if len(cells[e][s % nS]) < max(1, nR):
                    cells[e][s % nS].append(val(e, s % nS))
            s += 1
    for s in range(nS):
        e = 0
        while sum(len(cells[e_][s]) for e_ in range(nE)) < min_subject and e < nE * 4:
            if len(cells[e % nE][s]) == 0 or e >= nE:
                if len(cells[e % nE][s]) < max(1, nR):
                    cells[e % nE][s].append(val(e % nE, s))
            e += 1
    if distinct_subject:
        # every subject uses at least two different scores
        for s in range(nS):
            vs = [v for e in range(nE) for v in cells[e][s]]
            if len(set(vs)) < 2:
                for e in range(nE):
                    if cells[e][s]:
                        cells[e][s][0] = cells[e][s][0] + 1
                        break
                vs = [v for e in range(nE) for v in cells[e][s]]
                if len(set(vs)) < 2:
                    cells[0][s] = (cells[0][s] + [vs[0] + 1, vs[0]] if vs else [1, 2])
    ds = {'style': style, 'cells': cells, 'wrap': wrap}
    # contents
    content = list(range(nC)) + [rng.randint(0, nC - 1) for _ in range(nE - nC)]
    rng.shuffle(content)
    ds['content'] = content
    nref = nC + (rng.randint(0, 1) if ref_gap else 0)
    ref_order = list(range(nref))
    rng.shuffle(ref_order)
    ds['ref_order'] = ref_order
    # assets
    assets = list(range(nE))
    if not contiguous_assets and draw(st.booleans()):
        assets = rng.sample(range(0, 3 * nE + 5), nE)
    ds['asset'] = assets
    # hidden references
    hr = draw(st.booleans()) if hidden_ref is None else hidden_ref
    hidden = {}
    if hr:
        for c in range(nC):
            hidden[str(c)] = rng.choice([e for e in range(nE) if content[e] == c])
    ds['hidden'] = hidden
    names = list(NAMES)
    rng.shuffle(names)
    ds['subjects'] = names[:nS]
    ds['ref_score'] = draw(st.sampled_from([5.0, 5.0, 100.0, 4, -2.5, 0]))
    ds['name'] = draw(st.sampled_from(['ds', 'my_set', 'D 2']))
    k = draw(st.integers(0, 7))
    if k & 1:
        ds['cname'] = 1      # content names in another order than their ids
    if k & 2:
        ds['lookalike'] = 1  # paths resembling the path of the reference
    if k & 4:
        ds['more'] = 1       # further keys
    k = rng.randint(0, 7)
    if k < 2:
        ds['holes'] = rng.randint(1, 10 ** 6)  # missing votes written explicitly (nan), also within repetitions
    if sparse and k in (1, 2):
        spread(ds, rng)
    if k in (2, 3):
        ds['mixed'] = 1      # repetitions as lists here and tuples there
    return ds


def spread(ds, rng):
    """Content ids with gaps."""
    n = len(ds['ref_order'])
    ids = sorted(rng.sample(range(n + 4), n))
    ds['content'] = [ids[c] for c in ds['content']]
    ds['ref_order'] = [ids[c] for c in ds['ref_order']]
    ds['hidden'] = {str(ids[int(c)]): e for c, e in ds['hidden'].items()}


def written(ds, e, s):
    """The votes of a subject for a video as they are written, explicit missing ones included."""
    c = list(ds['cells'][e][s])
    if not ds.get('holes'):
        return c
    rng = random.Random(ds['holes'] * 1000003 + e * 1009 + s)
    R = dims(ds)[2]
    if not c:
        voted = any(row[s] for row in ds['cells'])
        if rng.random() < 0.3 and (voted or ds['style'] != 'dict'):
            return [NAN] * rng.randint(1, R)
        return c
    while len(c) < R and rng.random() < 0.4:
        c.insert(rng.randint(0, len(c)), NAN)
    return c


def content_name(ds, c):
    return '{}ig_buck {}'.format(chr(122 - c % 26), c) if ds.get('cname') else 'content{}'.format(c)


def well_posed(E=(12, 16), S=(8, 10), R=(1, 1), missing=True, styles=('list', 'dict'), C=(2, 4), hidden_ref=True,
               units=(1,), ambiguity=(0.0, 0.3, 0.8), sparse=True):
    """Datasets on which the iterative estimators have an interior optimum (quality + bias + noise)."""
    @st.composite
    def f(draw):
        nE = draw(st.integers(*E))
        nS = draw(st.integers(*S))
        nC = draw(st.integers(*C))
        nR = draw(st.integers(*R))
        style = draw(st.sampled_from(list(styles)))
        rng = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
        pm = draw(st.sampled_from([0.0, 0.0, 0.1, 0.2])) if missing else 0.0
        amb = draw(st.sampled_from(list(ambiguity)))
        unit = draw(st.sampled_from(list(units)))
        content = list(range(nC)) + [rng.randint(0, nC - 1) for _ in range(nE - nC)]
        rng.shuffle(content)
        q = [rng.uniform(1, 5) for _ in range(nE)]
        b = [rng.gauss(0, 0.4) for _ in range(nS)]
        sd = [rng.uniform(0.5, 1.0) for _ in range(nS)]
        ac = [rng.uniform(0.75 * amb if amb > 1 else 0, amb) if amb else 0.0 for _ in range(nC)]
        cells, wrap = [], []
        for e in range(nE):
            row, wr = [], []
            for s in range(nS):
                k = rng.randint(1, nR)
                if rng.random() < pm:
                    k = 0
                row.append([round(q[e] + b[s] + sd[s] * rng.gauss(0, 1) + ac[content[e]] * rng.gauss(0, 1), 3)
                            for _ in range(k)])
                wr.append(False)
            if sum(len(c) for c in row) < 4:
                for s in range(min(4, nS)):
                    if not row[s]:
                        row[s] = [round(q[e] + b[s] + sd[s] * rng.gauss(0, 1), 3)]
            cells.append(row)
            wrap.append(wr)
        for s in range(nS):
            e = 0
            while sum(len(cells[k][s]) for k in range(nE)) < min(3, nE):
                if not cells[e % nE][s]:
                    cells[e % nE][s] = [round(q[e % nE] + b[s] + sd[s] * rng.gauss(0, 1), 3)]
                e += 1
        if unit != 1:
            cells = [[[round(v * unit, 5) for v in c] for c in row] for row in cells]
        names = list(NAMES)
        rng.shuffle(names)
        hidden = {}
        if hidden_ref:
            for c in range(nC):
                hidden[str(c)] = rng.choice([e for e in range(nE) if content[e] == c])
        assets = list(range(nE))
        if draw(st.booleans()):
            assets = rng.sample(range(0, 2 * nE), nE)
        ref_order = list(range(nC))
        rng.shuffle(ref_order)
        ds = {'style': style, 'cells': cells, 'wrap': wrap, 'content': content, 'ref_order': ref_order,
              'asset': assets, 'hidden': hidden, 'subjects': names[:nS], 'ref_score': 5.0, 'name': 'ds'}
        for k in ('cname', 'lookalike', 'more'):
            if rng.random() < 0.5:
                ds[k] = 1
        k = rng.randint(0, 7)
        if k < 2:
            ds['holes'] = rng.randint(1, 10 ** 6)
        if sparse and k in (1, 2):
            spread(ds, rng)
        return ds
    return f()


def dims(ds):
    E = len(ds['cells'])
    S = len(ds['cells'][0])
    return E, S, max([1] + [len(c) for row in ds['cells'] for c in row])


def subject_order(ds):
    """Column order of the score array: list position, or sorted names of those who voted."""
    E, S, R = dims(ds)
    if ds['style'] == 'dict':
        voters = [s for s in range(S) if any(ds['cells'][e][s] for e in range(E))]
        return sorted(voters, key=lambda s: ds['subjects'][s])
    return list(range(S))


def votes3d(ds):
    """Reference score array as nested lists of votes, columns in reading order."""
    order = subject_order(ds)
    return [[list(row[s]) for s in order] for row in ds['cells']]


def array3d(ds):
    R = dims(ds)[2]
    order = subject_order(ds)
    v = [[written(ds, e, s) for s in order] for e in range(len(ds['cells']))]
    return np.array([[c + [NAN] * (R - len(c)) for c in row] for row in v], dtype=float)


def paths(ds):
    E = len(ds['cells'])
    p = ['dis/{}_{}.yuv'.format(ds['name'], e) for e in range(E)]
    if ds.get('lookalike'):
        seen = set()
        for e, c in enumerate(ds['content']):
            q = ['{}.yuv', 'ref/{}', 'REF/{}.yuv', './ref/{}.yuv', 'dis/ref/{}.yuv', 'dis/{}.yuv', 'ref/{}.yuv.mp4', 'ref/{}.YUV',
                 'f/{}.yuv'][e % 9].format(c)
            if q not in seen:
                p[e] = q
                seen.add(q)
    for c, e in ds['hidden'].items():
        p[e] = 'ref/{}.yuv'.format(c)
    for e, c in ds.get('foreign_path', {}).items():
        # the path of another content's reference does not make a video a hidden reference
        p[int(e)] = 'ref/{}.yuv'.format(c)
    return p


def dataset_dict(ds):
    """The dataset as plain Python data (fresh objects each time)."""
    E, S, R = dims(ds)
    pth = paths(ds)
    ref_videos = [{'content_id': c, 'content_name': content_name(ds, c), 'path': 'ref/{}.yuv'.format(c)}
                  for c in ds['ref_order']]
    dis_videos = []
    for e in range(E):
        row = [written(ds, e, s) for s in range(S)]

        def one(c, w):
            if len(c) == 0:
                return NAN
            if len(c) == 1 and not w:
                return c[0]
            other = ds.get('mixed') and (e + len(c)) % 2
            return list(c) if (ds['style'] != 'tuple') != bool(other) else tuple(c)
        if ds['style'] == 'dict':
            # insertion order deliberately not sorted
            os_ = {}
            for s in sorted(range(S), key=lambda s: (s * 7 + e * 3) % 11):
                if row[s]:
                    os_[ds['subjects'][s]] = one(row[s], ds['wrap'][e][s])
        else:
            os_ = [one(row[s], ds['wrap'][e][s]) for s in range(S)]
            if ds['style'] == 'tuple':
                os_ = tuple(os_)
        dis_videos.append({'content_id': ds['content'][e], 'asset_id': ds['asset'][e], 'path': pth[e], 'os': os_})
    if ds.get('more'):
        for e, v in enumerate(dis_videos):
            v['bitrate'] = 100 + 7 * e
        for v in ref_videos:
            v['fps'] = 25 + v['content_id']
    d = {'dataset_name': ds['name'], 'ref_videos': ref_videos, 'dis_videos': dis_videos}
    if ds.get('ref_score') is not None:
        d['ref_score'] = ds['ref_score']
    for k, v in ds.get('extra', {}).items():
        d[k] = copy.deepcopy(v)
    return d


class Obj(object):
    pass


def build(ds):
    o = Obj()
    for k, v in dataset_dict(ds).items():
        setattr(o, k, v)
    return o


def snapshot(obj):
    """Deep structural snapshot of a dataset object (order of keys included)."""
    def enc(x):
        if isinstance(x, dict):
            return ('dict', [(enc(k), enc(v)) for k, v in x.items()])
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [enc(v) for v in x])
        if isinstance(x, np.ndarray):
            return ('nd', x.shape, [enc(v) for v in x.ravel().tolist()])
        if isinstance(x, float) and math.isnan(x):
            return 'nan'
        return repr(x)
    return enc({k: v for k, v in vars(obj).items() if not k.startswith('__')})


def labels(ds):
    E, S, R = dims(ds)
    out = [ds['style']]
    if R > 1:
        out.append('repetitions')
    if any(len(c) == 0 for row in ds['cells'] for c in row):
        out.append('missing')
    if len(set(ds['content'])) > 1:
        out.append('multi_content')
    if ds['hidden']:
        out.append('hidden_ref')
    if S >= 3:
        out.append('S>=3')
    if S > 10:
        out.append('S>10')
    if E > 10:
        out.append('E>10')
    if ds.get('lookalike'):
        out.append('lookalike')
    if ds.get('holes'):
        out.append('explicit_nan')
    if max(ds['ref_order']) + 1 > len(ds['ref_order']):
        out.append('content_gaps')
    return out


# ---------- paired comparison ----------

@st.composite
def pc(draw, M=(2, 6), S=(1, 5), max_pairs=30, strong=False, shuffle=True):
    """A paired-comparison dataset: votes is a list of [subject, i, j, value], i, j video positions."""
    m = draw(st.integers(*M))
    s = draw(st.integers(*S))
    k = draw(st.integers(0, 15))
    if k == 15 and M[1] > 4:
        m = draw(st.integers(7, 13))
    elif k == 14 and S[1] > 3:
        s = draw(st.integers(10, 16))
    if k >= 14:
        max_pairs *= 3
    rng = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
    names = list(NAMES)
    rng.shuffle(names)
    names = names[:s]
    votes = {}

    def put(sub, i, j, v):
        if (sub, i, j) in votes or (sub, j, i) in votes:
            return
        votes[(sub, i, j)] = v
    n = draw(st.integers(1, max_pairs))
    q = [rng.gauss(0, 0.7) for _ in range(m)]
    for _ in range(n):
        i, j = rng.sample(range(m), 2)
        sub = rng.randrange(s)
        v = draw(st.sampled_from([0, 1, 0.5])) if n <= 12 else \
            (0.5 if rng.random() < 0.15 else (1 if rng.random() < 1 / (1 + math.exp(q[j] - q[i])) else 0))
        put(sub, i, j, v)
    if strong:
        # a cycle of wins makes the comparison graph strongly connected
        order = list(range(m))
        rng.shuffle(order)
        for k in range(m):
            i, j = order[k], order[(k + 1) % m]
            for v in ([1] if m > 2 else [1, 0]):
                for sub in range(s):
                    if (sub, i, j) not in votes and (sub, j, i) not in votes:
                        votes[(sub, i, j)] = v
                        break
                else:
                    votes[(len(names), i, j)] = v
                    names.append('extra{}'.format(len(names)))
                    s = len(names)
    assets = list(range(m))
    if shuffle and draw(st.booleans()):
        rng.shuffle(assets)
    content = [rng.randint(0, 1) for _ in range(m)]
    out = {'m': m, 'subjects': names, 'votes': [[a, i, j, v] for (a, i, j), v in votes.items()], 'asset': assets,
           'content': content}
    if rng.random() < 0.3:
        # some comparisons recorded with both videos, in agreement
        out['mirror'] = [k for k in range(len(votes)) if rng.random() < 0.4]
    return out


def pc_build(p):
    o = Obj()
    o.dataset_name = 'pc'
    o.ref_videos = [{'content_id': c, 'content_name': 'c{}'.format(c), 'path': 'ref/{}'.format(c)} for c in range(2)]
    o.dis_videos = [{'content_id': p['content'][e], 'asset_id': p['asset'][e], 'path': 'dis/{}'.format(e), 'os': {}}
                    for e in range(p['m'])]
    for a, i, j, v in p['votes']:
        o.dis_videos[i]['os'][(p['subjects'][a], p['asset'][j])] = v
    for k in p.get('mirror', ()):
        if k < len(p['votes']):
            a, i, j, v = p['votes'][k]
            o.dis_videos[j]['os'][(p['subjects'][a], p['asset'][i])] = 1 - v
    return o


def pc_alpha(p):
    """Win matrix by video position."""
    a = np.zeros((p['m'], p['m']))
    for _, i, j, v in p['votes']:
        a[i, j] += v
        a[j, i] += 1 - v
    return a


def strongly_connected(alpha):
    m = len(alpha)
    reach = (np.array(alpha) > 0) | np.eye(m, dtype=bool)
    for k in range(m):
        reach = reach | (reach[:, k:k + 1] & reach[k:k + 1, :])
    return bool(reach.all())
