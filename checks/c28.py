"""C28: every named model is the composition of preprocessing steps its name stands for."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, models, ref, sut
from lib.core import Sub, require, Violation
from checks.c08 import panel
from checks.c09 import correlations

RULE = ('composition: a model with at least one step on at least three videos and subjects; order: at least two steps; refusal and '
        'lookup: every case')
KW = {'d': {'dscore_mode': True}, 'z': {'zscore_mode': True}, 'b': {'bias_offset': True}, 'r': {'subject_rejection': True},
      'p': {'subject_rejection': True, 'subject_rejection_type': 'pearson'},
      's': {'subject_rejection': True, 'subject_rejection_type': 'spearman'}}
# name: (base model, steps)
NAMED = {'DMOS': ('MOS', 'd'), 'ZS_MOS': ('MOS', 'z'), 'BR_MOS': ('MOS', 'b'), 'SR_MOS': ('MOS', 'r'), 'BT500': ('MOS', 'r'),
         'SR_MOS_PCC': ('MOS', 'p'), 'SR_MOS_SRCC': ('MOS', 's'), 'ZS_SR_MOS': ('MOS', 'zr'), 'SR_DMOS': ('MOS', 'dr'),
         'ZS_SR_DMOS': ('MOS', 'dzr'), 'BR_SR_MOS': ('MOS', 'br'), 'P913': ('MOS', 'br'), 'BR_SR_MOS_PCC': ('MOS', 'bp'),
         'BR_SR_MOS_SRCC': ('MOS', 'bs'), 'P910': ('Subject_MLE_Projection2', ''), 'MLE_CO_AP': ('Subject_MLE_Projection', ''),
         'MLE_CO_AP2': ('Subject_MLE_Projection2', '')}
MLES = {'DMOS_MLE': ('MLE', 'd'), 'DMOS_MLE_CO': ('MLE_CO', 'd')}


def options(steps):
    kw = {}
    for x in steps:
        kw.update(KW[x])
    return kw


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def steady(W, kind):
    """No decision of the rejection is within rounding error."""
    try:
        if kind == 'r':
            ref.bt500(W, len(W) * ref.maxrep(W))
            return all(len(v) < 2 or max(v) == min(v) and ref.exact(v) or max(v) - min(v) > 1e-6 for v in ref.flat_video(W))
        if kind in 'ps':
            r = correlations(W, 'pearson' if kind == 'p' else 'spearman')
            known = [x for x in r if not math.isnan(x)]
            if len(known) < len(r) or not known:
                return False
            thr = min(0.7, ref.mean(known) - ref.std(known))
            return all(abs(x - thr) > 1e-9 for x in known) and max(known) - min(known) > 1e-9
    except ref.Ambiguous:
        return False
    return True


def sane(W):
    return all(math.isfinite(v) for row in W for c in row for v in c)


def pre(V, ds, steps):
    W = V
    if 'd' in steps:
        flag = [False] * len(V)
        for c, e in ds['hidden'].items():
            flag[e] = True
        W = ref.dscore(W, ds['content'], flag, ds['ref_score'])
    if 'z' in steps:
        if any(len(x) < 2 or ref.std(x, 1) < 1e-3 for x in ref.flat_subject(W)):
            return None
        W = ref.zscore(W)
    if 'b' in steps:
        W = ref.unbias(W)[0]
    return W


datasets = st.one_of(gen.raw(E=(2, 9), S=(2, 8), R=(1, 2), hidden_ref=True, min_subject=2),
                     gen.raw(E=(3, 9), S=(3, 8), R=(1, 1), hidden_ref=True, kinds=('seeded', 'cont'), min_subject=2),
                     panel(S=(6, 14), E=(4, 12), kinds=('spread', 'gauss', 'mixed')))


@st.composite
def composition(draw):
    name = draw(st.sampled_from(sorted(NAMED)))
    base, steps = NAMED[name]
    free = [x for x in ('d', 'z', 'b') if x not in steps]
    if 'b' in steps:
        free = [x for x in free if x != 'z']
    if 'z' in steps:
        free = [x for x in free if x != 'b']
    extra = draw(st.lists(st.sampled_from(free), unique=True, max_size=1)) if free and draw(st.booleans()) else []
    return {'ds': draw(datasets), 'name': name, 'extra': ''.join(extra),
            'off': draw(st.sampled_from([None, None, 'dscore_mode', 'zscore_mode', 'bias_offset', 'subject_rejection'])),
            'type': draw(st.sampled_from([None, None, None, 'kurtosis', 'pearson', 'spearman']))}


SAME = ('quality_scores', 'quality_scores_std', 'quality_scores_ci95', 'raw_scores', 'reconstructions', 'loglikelihood', 'observer_rejected',
        'observer_rejected_1st_stats', 'observer_rejected_2nd_stats', 'observer_scores_mean', 'observer_scores_std', 'observer_bias',
        'observer_bias_std', 'observer_inconsistency', 'observer_inconsistency_std')


def compare(a, b, what, exactly=None, tol=1e-9):
    for k in SAME:
        if k == 'observer_bias' and (k in a) != (k in b):
            continue                # reported by the bias removing models only
        require((k in a) == (k in b), '{}: {} is reported by one of them only', what, k)
        if k in a and a[k] is not None:
            ref.close(np.asarray(a[k], float), np.asarray(b[k], float), tol, tol, '{}: {}'.format(what, k))


def check_composition(c):
    ds, name = c['ds'], c['name']
    base, steps = NAMED[name]
    kw = options(c['extra'])
    own = options(steps)
    if c['off'] and c['off'] not in kw:
        kw[c['off']] = False        # switching off explicitly what is off by default, or what the name stands for, has no effect
    if c['type'] and steps.endswith('r') and 'subject_rejection_type' not in own:
        kw['subject_rejection_type'] = c['type']
    want, err = attempt(lambda: sut.run(base, ds, **dict(kw, **own)))
    got, err2 = attempt(lambda: sut.run(name, ds, **kw))
    if want is None or got is None:
        require(want is None and got is None, '{} {} but {} with the steps {} {}', name, 'runs' if got is not None else 'fails ({})'.format(err2),
                base, steps, 'runs' if want is not None else 'fails ({})'.format(err))
        return ['undefined', name]
    compare(got, want, '{} against {} with {}'.format(name, base, sorted(dict(kw, **own))))
    out = ['nt'] if len(ds['cells']) >= 3 and len(ds['cells'][0]) >= 3 and (steps or name in models.PROJECTION) else []
    if 'observer_rejected' in got and any(got['observer_rejected']):
        out.append('rejects')
    return out + [name]


@st.composite
def order(draw):
    d = draw(st.sampled_from(['', 'd', 'd']))
    m = draw(st.sampled_from(['', 'z', 'b']))
    r = draw(st.sampled_from(['', 'r', 'r', 'p', 's']))
    return {'ds': draw(datasets), 'steps': d + m + r, 'base': draw(st.sampled_from(['MOS', 'MOS', 'MOS', 'PERSUBJECT', 'Subject_MLE_Projection2', 'P910']))}


def check_order(c):
    """All steps at once give the same as applying them one after another, each to the result of the one before."""
    ds, steps = c['ds'], c['steps']
    V = gen.votes3d(ds)
    W = pre(V, ds, steps)
    if W is None or not sane(W):
        return ['undefined']
    rej = [x for x in steps if x in 'rps']
    if rej and not steady(W, rej[0]):
        return ['threshold']
    d2 = copy.deepcopy(ds)
    S = len(W[0])
    d2.update(style='list', cells=W, wrap=[[False] * S for _ in W], subjects=gen.NAMES[:S])
    two, err = attempt(lambda: sut.run(c['base'], d2, **options(rej)))
    one, err2 = attempt(lambda: sut.run(c['base'], ds, **options(steps)))
    if one is None or two is None:
        require(one is None and two is None, '{} with {}: all at once {}, one after another {}', c['base'], steps, str(err2), str(err))
        return ['undefined']
    if c['base'] in models.PROJECTION and not (models.settled(c['base'], one, d2) and models.settled(c['base'], two, d2)):
        return ['unsettled']
    tol = models.tolerance(c['base'])
    q1, q2 = np.asarray(one['quality_scores'], float), np.asarray(two['quality_scores'], float)
    size = max(1.0, float(np.nanmax(np.abs(q2))))
    ref.close(q1, q2, tol, tol * size, '{} with {}: quality scores'.format(c['base'], steps))
    out = []
    if rej and 'observer_rejected' in one:
        require(list(one['observer_rejected']) == list(two['observer_rejected']), '{} with {}: rejected {} at once, {} one after another', c['base'], steps,
                str(list(one['observer_rejected'])), str(list(two['observer_rejected'])))
        if any(one['observer_rejected']):
            out = ['rejects']
    return out + [c['base'], steps or 'none'] + (['nt'] if len(steps) > 1 else [])


# ---- the maximum likelihood models --------------------------------------------------------------

@st.composite
def mle(draw):
    return {'ds': draw(gen.well_posed(E=(8, 14), S=(8, 12))), 'name': draw(st.sampled_from(sorted(MLES)))}


def check_mle(c):
    base, steps = MLES[c['name']]
    want, err = attempt(lambda: sut.run(base, c['ds'], **options(steps)))
    got, err2 = attempt(lambda: sut.run(c['name'], c['ds']))
    if want is None or got is None:
        require(want is None and got is None, '{} and {} with {}: {} / {}', c['name'], base, steps, str(err2), str(err))
        return ['undefined']
    compare(got, want, '{} against {} with {}'.format(c['name'], base, steps))
    for k in ('aic', 'bic', 'dof', 'content_ambiguity'):
        require((k in got) == (k in want), '{} reported by one only', k)
        if k in want:
            ref.close(got[k], want[k], 1e-9, 1e-9, k)
    # the same steps with the plain model differ from no steps
    return ['nt', c['name']]


# ---- refusals -----------------------------------------------------------------------------------

NO_REJECTION = ['LS', 'MLE', 'MLE_CO', 'MLE_SO', 'MLE_legacy', 'DMOS_MLE', 'DMOS_MLE_CO']


def forbidden():
    out = []
    for n, (b, s) in sorted(list(NAMED.items()) + list(MLES.items()) + [('LIVE_DMOS', ('', 'dz'))]):
        for x in s:
            out.append([n, {'dscore_mode': True} if x == 'd' else {'zscore_mode': True} if x == 'z' else {'bias_offset': True} if x == 'b'
                        else {'subject_rejection': True}])
        if 'z' in s:
            out.append([n, {'bias_offset': True}])
        if 'b' in s:
            out.append([n, {'zscore_mode': True}])
        if 'r' in s:
            out.append([n, {'subject_rejection_type': 'cosine'}])
    for n in sorted(models.STEPS):
        if n in NO_REJECTION:
            out.append([n, {'subject_rejection': True}])
        if n in ('MOS', 'P910', 'PERSUBJECT', 'MLE_CO', 'MLE', 'Subject_MLE_Projection', 'DMOS'):
            out.append([n, {'zscore_mode': True, 'bias_offset': True}])
        if not set(models.STEPS[n]) & set('rps'):
            for t in ('kurtosis', 'pearson', 'spearman'):
                out.append([n, {'subject_rejection_type': t}])
            if n not in NO_REJECTION:
                out.append([n, {'subject_rejection': True, 'subject_rejection_type': 'cosine'}])
    return out


FORBIDDEN = forbidden()


@st.composite
def refusal(draw):
    return {'ds': draw(gen.raw(E=(3, 6), S=(3, 6), R=(1, 1), hidden_ref=True, missing=False, kinds=('seeded', 'int5'), distinct_subject=True)),
            'which': draw(st.integers(0, len(FORBIDDEN) - 1)), 'more': draw(st.sampled_from([{}, {'normalize_final': False}, {'transform_final': {'p1': 2}}]))}


def check_refusal(c):
    name, kw = FORBIDDEN[c['which']]
    if attempt(lambda: sut.run(name, c['ds'], **c['more']))[0] is None:
        return ['undefined']
    sut.refused(lambda: sut.run(name, c['ds'], **dict(kw, **c['more'])), '{} with {}'.format(name, kw))
    return ['nt', name]


@st.composite
def several(draw):
    ds = draw(gen.raw(E=(2, 6), S=(2, 5), R=(2, 3), kinds=('int5', 'seeded'), missing=False))
    ds['cells'][0][0] = [1, 2]
    return {'ds': ds, 'name': draw(st.sampled_from(['LS', 'MLE_legacy']))}


def check_repetition(c):
    sut.refused(lambda: sut.run(c['name'], c['ds']), '{} on repeated votes'.format(c['name']))
    return ['nt', c['name']]


# ---- lookup -------------------------------------------------------------------------------------

ALL = sorted(models.STEPS) + ['BT_MLE', 'BT_NR', 'THURSTONE_MLE', 'MLE_BSTP', 'MLE_CO_BSTP']


@st.composite
def lookup(draw):
    n = draw(st.sampled_from(ALL))
    edit = draw(st.sampled_from(['none', 'none', 'lower', 'upper', 'prefix', 'cut', 'space', 'suffix', 'free', 'empty', 'swap', 'version']))
    return {'name': n, 'edit': edit, 'text': draw(st.text('ABMOSPZRT_0913', min_size=1, max_size=8)), 'k': draw(st.integers(0, 20))}


def check_lookup(c):
    from sureal.subjective_model import SubjectiveModel
    import sureal  # noqa: the ITU names
    n = c['name']
    cls = sut.model_class(n)
    k = c['k'] % len(n)
    s = {'none': n, 'lower': n.lower(), 'upper': n.upper(), 'prefix': c['text'] + n, 'cut': n[:k] + n[k + 1:], 'space': n + ' ', 'suffix': n + c['text'],
         'free': c['text'], 'empty': '', 'swap': n[k:] + n[:k], 'version': n + '_V' + cls.VERSION}[c['edit']]
    if s in ALL:
        got = SubjectiveModel.find_subclass(s)
        require(got.TYPE == s, 'looking up {} gives {}', s, got.TYPE)
        require(issubclass(got, SubjectiveModel), '{} is no subjective model', s)
        return ['nt', 'found']
    sut.refused(lambda: SubjectiveModel.find_subclass(s), 'lookup of the unknown model {!r}'.format(s))
    return ['nt', 'unknown', c['edit']]


# eight videos of two contents, seven subjects: every forbidden combination and every name is tried at least once
FIXED = {'style': 'list', 'cells': [[[1 + (3 * e + 5 * s + e * s) % 5 + 0.25 * ((e + 2 * s) % 3)] for s in range(7)] for e in range(8)],
         'wrap': [[False] * 7 for _ in range(8)], 'content': [e % 2 for e in range(8)], 'ref_order': [0, 1], 'asset': list(range(8)),
         'hidden': {'0': 0, '1': 3}, 'subjects': gen.NAMES[:7], 'ref_score': 5.0, 'name': 'fixed'}

SUBTESTS = [Sub('composition', composition(), check_composition, quick=480), Sub('order', order(), check_order, quick=480),
            Sub('mle', mle(), check_mle, quick=16, thorough=200), Sub('refusal', refusal(), check_refusal, quick=300,
                explicit=[{'ds': FIXED, 'which': i, 'more': {}} for i in range(len(FORBIDDEN))]),
            Sub('repetitions', several(), check_repetition, quick=24), Sub('lookup', lookup(), check_lookup, quick=300,
                explicit=[{'name': n, 'edit': e, 'text': 'X', 'k': 0} for n in ALL for e in ('none', 'lower', 'cut', 'suffix')])]
