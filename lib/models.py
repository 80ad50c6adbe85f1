"""The raw-score models by name, the steps their names stand for, and where their results are stable under rounding."""
import math

import numpy as np

from . import gen, ref
from .core import require

STEPS = {
    'MOS': '', 'DMOS': 'd', 'ZS_MOS': 'z', 'BR_MOS': 'b', 'SR_MOS': 'r', 'ZS_SR_MOS': 'zr', 'SR_DMOS': 'dr',
    'ZS_SR_DMOS': 'dzr', 'BR_SR_MOS': 'br', 'BT500': 'r', 'P913': 'br', 'SR_MOS_PCC': 'p', 'SR_MOS_SRCC': 's',
    'BR_SR_MOS_PCC': 'bp', 'BR_SR_MOS_SRCC': 'bs', 'LIVE_DMOS': 'dz', 'LS': '', 'PERSUBJECT': '',
    'P910': '', 'Subject_MLE_Projection': '', 'Subject_MLE_Projection2': '', 'MLE_CO_AP': '', 'MLE_CO_AP2': '',
    'MLE': '', 'MLE_CO': '', 'MLE_SO': '', 'DMOS_MLE': 'd', 'DMOS_MLE_CO': 'd', 'MLE_legacy': '',
}
PROJECTION = ('P910', 'Subject_MLE_Projection', 'Subject_MLE_Projection2', 'MLE_CO_AP', 'MLE_CO_AP2')
MLE = ('MLE', 'MLE_CO', 'MLE_SO', 'DMOS_MLE', 'DMOS_MLE_CO', 'MLE_legacy')
DIRECT = [m for m in STEPS if m not in PROJECTION and m not in MLE]
SINGLE = ('LS', 'MLE_legacy')   # repeated votes not supported

PER_VIDEO = ('quality_scores', 'quality_scores_std', 'quality_ambiguity', 'quality_scores_ci95')
PER_SUBJECT = ('observer_bias', 'observer_bias_std', 'observer_bias_ci95', 'observer_inconsistency',
               'observer_inconsistency_std', 'observer_inconsistency_ci95', 'observer_scores_mean', 'observer_scores_std',
               'observer_rejected', 'observer_rejected_1st_stats', 'observer_rejected_2nd_stats')
PER_CONTENT = ('content_ambiguity', 'content_ambiguity_std', 'content_ambiguity_ci95')
SCALAR = ('dof', 'loglikelihood', 'aic', 'bic')


def processed(model, ds):
    """The votes left by the preprocessing before rejection."""
    V = gen.votes3d(ds)
    st = STEPS[model]
    if 'd' in st:
        E = len(V)
        flag = [False] * E
        for c, e in ds['hidden'].items():
            flag[e] = True
        V = ref.dscore(V, ds['content'], flag, ds['ref_score'])
    if 'z' in st:
        V = ref.zscore(V)
    if 'b' in st:
        V = ref.unbias(V)[0]
    return V


def fit(model, ds):
    """Is the dataset within the domain of the model (as opposed to refused or undefined)?"""
    V = gen.votes3d(ds)
    if 'd' in STEPS[model] and not ds['hidden']:
        return False
    if 'z' in STEPS[model] and not all(ref.std(x, 1) > 1e-3 for x in ref.flat_subject(processed(
            {'ZS_MOS': 'MOS', 'ZS_SR_MOS': 'MOS', 'ZS_SR_DMOS': 'DMOS', 'LIVE_DMOS': 'DMOS'}[model], ds))):
        return False
    if model in SINGLE and gen.dims(ds)[2] > 1:
        return False
    if model == 'LS' or model == 'MLE_legacy':
        return all(c for row in V for c in row)
    return True


def stable(model, ds):
    """False where a decision of the model lies within rounding error of its threshold."""
    st = STEPS[model]
    try:
        if 'r' in st:
            W = processed(model, ds)
            ref.bt500(W, len(W) * ref.maxrep(W))
            if st != 'r':
                # inexact votes: stay away from unanimous videos too
                for v in ref.flat_video(W):
                    if max(v) - min(v) < 1e-6:
                        return False
        if 'p' in st or 's' in st:
            from checks.c09 import correlations
            W = processed(model, ds)
            r = correlations(W, 'pearson' if 'p' in st else 'spearman')
            known = [x for x in r if not math.isnan(x)]
            if 'b' in st and len(known) < len(r):
                return False
            if known:
                thr = min(0.7, ref.mean(known) - ref.std(known))
                if any(abs(x - thr) < 1e-9 for x in known):
                    return False
    except ref.Ambiguous:
        return False
    if model in MLE:
        from checks.c12 import tame
        return tame({'ds': ds, 'model': 'MLE_CO' if model == 'MLE_legacy' else model})[0]
    return True


def settled(model, res, ds):
    """For the projection: the iteration converged to a solution that is not degenerate."""
    if model in PROJECTION:
        vs = [v for row in gen.votes3d(ds) for c in row for v in c]
        v = np.array(res['observer_inconsistency'], float)
        return res['num_iter'] < 1000 and bool(np.isfinite(v).all()) and v.min() > 2e-2 * max(1e-9, max(vs) - min(vs))
    return True


def tolerance(model):
    if model in PROJECTION:
        return 1e-5
    if model in MLE:
        return 1e-5
    return 1e-8


def ll_defined(ds, V=None):
    """The likelihood of the MOS family is undefined where all votes of a video are equal."""
    for v in ref.flat_video(V or gen.votes3d(ds)):
        if len(v) > 1 and max(v) - min(v) < 1e-6 * max(1.0, max(abs(x) for x in v)):
            return False
    return True


def compare(a, b, tol, what, video=None, subject=None, content=None, f=None, skip=()):
    """b is the result on the transformed dataset: b[key][i] must equal a[key][video[i]] (subject, content alike).

    f: optional {key: function} applied to a's values first.
    """
    require(set(a) - {'observers'} == set(b) - {'observers'}, '{}: results {} and {}', what, str(sorted(a)), str(sorted(b)))

    def pick(x, idx):
        x = np.asarray(x, dtype=float)
        return x if idx is None else np.take(x, idx, axis=-1)
    acc = None
    if a.get('observer_rejected') is not None:
        acc = [i for i, r in enumerate(a['observer_rejected']) if not r]
    f = f or {}
    sc = 1.0
    for k in a:
        if k in skip or k in ('observers', 'num_iter') or a[k] is None:
            if k in a and k not in skip and a[k] is None:
                require(b[k] is None, '{} {}: {} instead of None', what, k, str(b[k]))
            continue
        if k in SCALAR or k in PER_VIDEO or k in PER_SUBJECT or k in PER_CONTENT:
            x = np.asarray(a[k], dtype=float)
            if x.ndim == 3:   # per-subject scores
                x = f.get(k, lambda u: u)(x)
                if video is not None:
                    x = x[video]
                if subject is not None:
                    x = x[:, subject]
                ref.close(ref.compact(b[k]), ref.compact(x), tol, tol * sc, '{} {}'.format(what, k))
                continue
            idx = video if k in PER_VIDEO else subject if k in PER_SUBJECT else content if k in PER_CONTENT else None
            x = f.get(k, lambda u: u)(x)
            ref.close(b[k], pick(x, idx), tol, tol * max(1.0, float(np.nanmax(np.abs(np.where(np.isfinite(x), x, 0)))) if x.size
                                                          else 1.0), '{} {}'.format(what, k))
        elif k in ('raw_scores', 'reconstructions'):
            x = f.get(k, lambda u: u)(np.asarray(a[k], dtype=float))
            if video is not None:
                x = x[video]
            if subject is not None:
                if acc is None or x.shape[1] == len(subject):
                    x = x[:, subject]
                else:
                    pos = {s: i for i, s in enumerate(acc)}
                    x = x[:, [pos[s] for s in subject if s in pos]]
            ref.close(ref.compact(b[k]), ref.compact(x), tol, tol * max(1.0, float(np.nanmax(np.abs(x))) if np.isfinite(x).any() else 1.0),
                      '{} {}'.format(what, k))
        else:
            require(False, '{}: unexpected result {}', what, k)
