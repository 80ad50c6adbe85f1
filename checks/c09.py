"""C09: correlation-based subject rejection uses the stated threshold."""
import math
import random

from hypothesis import strategies as st

from checks.c04 import compare
from lib import gen, ref, sut
from lib.core import Sub, require

RULE = 'at least three subjects of whom at least one is rejected and at least one accepted'
ASSUMPTIONS = ['cases in which a correlation lies within 1e-9 of the threshold are not judged (label ambiguous)']
TYPES = {'SR_MOS_PCC': ('pearson', False), 'SR_MOS_SRCC': ('spearman', False),
         'BR_SR_MOS_PCC': ('pearson', True), 'BR_SR_MOS_SRCC': ('spearman', True)}


@st.composite
def panel(draw):
    nE, nS = draw(st.integers(3, 14)), draw(st.integers(2, 9))
    nR = draw(st.sampled_from([1, 1, 2, 3]))
    rng = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
    noise = draw(st.sampled_from([0.1, 0.4, 1.0, 3.0]))
    # a multiple of 1/4, 1/8 or continuous votes: ties or none
    grid = draw(st.sampled_from([1, 4, 1000]))
    pm = draw(st.sampled_from([0, 0, 0.2, 0.5]))
    bad = [rng.choice(['good', 'good', 'good', 'noise', 'flip', 'const']) for _ in range(nS)]
    if draw(st.booleans()):
        bad = ['good'] * nS
    q = [rng.uniform(1, 5) for _ in range(nE)]
    cells = []
    for e in range(nE):
        row = []
        for s in range(nS):
            c = []
            for _ in range(rng.randint(1, nR)):
                v = {'good': q[e] + rng.gauss(0, noise), 'noise': rng.uniform(1, 5), 'flip': 6 - q[e] + rng.gauss(0, noise),
                     'const': 3}[bad[s]]
                c.append(round(v * grid) / float(grid))
            row.append([] if rng.random() < pm else c)
        cells.append(row)
    for e in range(nE):
        if not any(cells[e]):
            cells[e][0] = [3]
    for s in range(nS):
        if not any(cells[e][s] for e in range(nE)):
            cells[s % nE][s] = [4]
    names = list(gen.NAMES)
    rng.shuffle(names)
    ds = {'style': draw(st.sampled_from(['list', 'dict'])), 'cells': cells,
          'wrap': [[False] * nS for _ in range(nE)], 'content': [0] * nE, 'ref_order': [0], 'asset': list(range(nE)),
          'hidden': {'0': 0}, 'subjects': names[:nS], 'ref_score': 5.0, 'name': 'ds'}
    return {'ds': ds, 'model': draw(st.sampled_from(sorted(TYPES)))}


def correlations(W, kind):
    """Per subject: correlation of the repetition averages with the mean scores of the videos."""
    avg = [[ref.mean(c) if c else None for c in row] for row in W]
    m = [ref.mean([a for a in row if a is not None]) for row in avg]
    sure = all(ref.exact(c) and len(c) in (0, 1, 2, 4) for row in W for c in row)
    f = ref.pearson if kind == 'pearson' else ref.spearman
    out = []
    for s in range(len(W[0])):
        idx = [e for e in range(len(W)) if avg[e][s] is not None]
        x, y = [avg[e][s] for e in idx], [m[e] for e in idx]
        # ties of ranks are judged only where the averages are exact in floating point
        if kind == 'spearman':
            for l in (x, y):
                o = sorted(l)
                if any(0 <= b - a < 1e-9 and not (sure and a == b) for a, b in zip(o, o[1:])):
                    raise ref.Ambiguous()
        if len(idx) >= 2 and (max(x) - min(x) < 1e-9 or max(y) - min(y) < 1e-9):
            if not (x == [x[0]] * len(x) and ref.exact(x)):
                raise ref.Ambiguous()
        out.append(f(x, y))
    return out


def check(c):
    ds = c['ds']
    kind, br = TYPES[c['model']]
    V = gen.votes3d(ds)
    E, S, R = len(V), len(V[0]), ref.maxrep(V)
    W = ref.unbias(V)[0] if br else V
    try:
        r = correlations(W, kind)
    except ref.Ambiguous:
        return ['ambiguous']
    if br and any(math.isnan(x) for x in r):
        return ['ambiguous']   # bias removal makes constant votes only approximately constant
    known = [x for x in r if not math.isnan(x)]
    thr = min(0.7, ref.mean(known) - ref.std(known)) if known else float('nan')
    if any(abs(x - thr) < 1e-9 for x in known):
        return ['ambiguous']
    rej = [(not math.isnan(x)) and x <= thr for x in r]
    res = sut.run(c['model'], ds)
    ref.close(res['observer_rejected_1st_stats'], r, 1e-7, 1e-7, c['model'] + ' correlations')
    got = [bool(x) for x in res['observer_rejected']]
    require(got == rej, '{}: rejected {} instead of {} (correlations {}, threshold {})', c['model'], str(got), str(rej),
            str(r), thr)
    compare(res, ref.drop_subjects(W, rej), V, 2 * E + (S * R if br else 0), c['model'], R=R)
    if br:
        ref.close(res['observer_bias'], ref.bias(V), 1e-9, 1e-8, 'observer_bias')
    lab = [c['model']] + gen.labels(ds)
    if any(rej):
        lab.append('rejected')
    if any(math.isnan(x) for x in r):
        lab.append('undefined')
    if known and thr == 0.7:
        lab.append('capped')
    if S >= 3 and any(rej) and not all(rej):
        lab.append('nt')
    return lab


SUBTESTS = [Sub('rule', panel(), check, quick=2400, thorough=40000)]
