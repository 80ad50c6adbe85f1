"""C32: plots show exactly the votes and the models' results."""
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

from checks.c22 import independent, names_of, usable, write
from lib import core, gen, ref, sut
from lib.core import Sub, Violation, require

RULE = 'at least two videos and two subjects (or three videos compared) with values that are not all equal'
ASSUMPTIONS = ['votes are multiples of 1/8 with at most two repetitions, so that averages over repetitions are exact and equal '
               'averages are recognised as equal',
               'what is drawn is read off the axes (positions, heights, error bars, image values, labels), not off the calls']
RAW = ['MOS', 'P910', 'P913', 'BT500', 'BR_MOS', 'SR_MOS', 'ZS_MOS', 'DMOS', 'LS', 'MLE_CO_AP2', 'SR_DMOS', 'BR_SR_MOS']


def fresh():
    import matplotlib.pyplot as plt
    plt.close('all')
    return plt


def num(x):
    return np.ma.filled(np.ma.asarray(x, float), np.nan)


def series(ax):
    """Labelled data series of the axes: [(label, xs, ys, lower, upper)]."""
    from matplotlib.container import BarContainer, ErrorbarContainer
    out, seen = [], set()
    for c in ax.containers:
        if isinstance(c, ErrorbarContainer):
            line, caps, bars = c.lines
            for a in [line] + list(caps):
                seen.add(id(a))
            x, y = num(line.get_xdata()), num(line.get_ydata())
            lo = hi = None
            if c.has_yerr and bars:
                segs = {}
                for s in bars[-1].get_segments():
                    s = np.asarray(s, float)
                    if len(s) == 2:
                        segs[round(float(s[0, 0]), 6)] = (float(s[0, 1]), float(s[1, 1]))
                e = [segs.get(round(float(p), 6), (np.nan, np.nan)) for p in x]
                lo, hi = y - np.array([q[0] for q in e]), np.array([q[1] for q in e]) - y
            out.append((c.get_label(), x, y, lo, hi))
        elif isinstance(c, BarContainer):
            p = list(c.patches)
            out.append((c.get_label(), np.array([q.get_x() for q in p]), np.array([q.get_height() for q in p]), None, None))
    for l in ax.lines:
        if id(l) not in seen and not str(l.get_label()).startswith('_'):
            out.append((l.get_label(), num(l.get_xdata()), num(l.get_ydata()), None, None))
    return out


def scatters(ax):
    from matplotlib.collections import PathCollection
    out = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            o = num(c.get_offsets())
            out.append((c.get_label(), o[:, 0], o[:, 1], np.asarray(c.get_sizes(), float)))
    return out


def image(ax, want, what):
    require(len(ax.images) == 1, '{}: {} images', what, len(ax.images))
    got = num(ax.images[0].get_array())
    require(got.shape == np.shape(want), '{}: image of {} instead of {}', what, got.shape, np.shape(want))
    ref.close(got, want, 1e-7, 1e-7, what)


def points(got, want, what):
    """The same finite points, in whatever order."""
    g = sorted((float(a), float(b)) for a, b in got if np.isfinite(a) and np.isfinite(b))
    w = sorted((float(a), float(b)) for a, b in want if np.isfinite(a) and np.isfinite(b))
    require(len(g) == len(w), '{}: {} points instead of {}', what, len(g), len(w))
    if g:
        key = lambda p: (round(p[0], 6), round(p[1], 6))
        ref.close(np.array(sorted(g, key=key)), np.array(sorted(w, key=key)), 1e-6, 2e-6, what)


def number(label, tag):
    m = re.search(re.escape(tag) + r' (-?\d+\.\d+|-?nan|-?inf)\]', label)
    return float(m.group(1)) if m else None


def one_series(s, model, ys, ci, what, bic=None, bars=False):
    label, x, y, lo, hi = s
    require(label == model or label.startswith(model + ' '), '{}: series called {} in place of {}', what, label, model)
    require(len(y) == len(ys), '{}: {} values for {}', what, len(y), len(ys))
    ref.close(y, ys, 1e-7, 1e-8, '{} of {}'.format(what, model))
    ref.close(np.diff(x), np.ones(len(x) - 1), 1e-6, 1e-6, '{} of {}: positions'.format(what, model))
    if bars:
        return
    if ci is not None:
        ci = np.asarray(ci, float)
        require(lo is not None, '{} of {}: no intervals drawn', what, model)
        ok = np.isfinite(ci).all(axis=0)
        ref.close(lo[ok], ci[0][ok], 1e-6, 1e-6, '{} of {}: lower interval'.format(what, model))
        ref.close(hi[ok], ci[1][ok], 1e-6, 1e-6, '{} of {}: upper interval'.format(what, model))
        v = number(label, '[avg CI')
        w = float(np.mean(ci[0] + ci[1]))
        if np.isfinite(w):
            require(v is not None and abs(v - w) <= 0.0051 + 1e-9 * abs(w), '{}: label {} for an average interval of {}', what, label, w)
    else:
        require(lo is None or not np.isfinite(lo).any() or abs(lo[np.isfinite(lo)]).max() == 0, '{} of {}: intervals drawn', what, model)
    if bic is not None and np.isfinite(bic):
        v = number(label, '[NBIC')
        require(v is not None and abs(v - bic) <= 0.0051 + 1e-9 * abs(bic), '{}: label {} for a BIC of {}', what, label, bic)


def select(ax, results, key, what, order=None, bars=False, withbic=False, plain=False):
    have = [m for m in results if results[m].get(key) is not None]
    got = series(ax)
    require(len(got) == len(have), '{}: {} series for {} models', what, len(got), len(have))
    if len(got) > 1 and len(got[0][1]):
        # side by side, so that all can be seen
        at = sorted(float(s[1][0]) for s in got)
        require(at[0] > -0.51 and at[-1] < 0.4 * len(results), '{}: series at {} are not drawn with their items', what, str(at))
        require(min(np.diff(at)) > 1e-3, '{}: series of several models at the same positions {}', what, str(at))
    if got and not bars and not plain and len(results) <= 4:
        left, right = sorted(ax.get_xlim())
        first = min(got, key=lambda s: s[1][0])[1]
        require(left <= first.min() + 1e-9 and first.max() <= right + 1e-9, '{}: points at {} .. {} outside of the plot ({} .. {})',
                what, float(first.min()), float(first.max()), float(left), float(right))
    for m in have:
        r = results[m]
        t = sut.model_class(m).TYPE
        mine = [s for s in got if s[0] == t or s[0].startswith(t + ' ')]
        require(len(mine) == 1, '{}: {} series of {} among {}', what, len(mine), t, str([s[0] for s in got]))
        ys = np.asarray(r[key], float)
        ci = None if plain or bars else r.get(key + '_ci95')
        if order is not None:
            ys = ys[order]
            ci = None if ci is None else np.asarray(ci, float)[:, order]
        one_series(mine[0], t, ys, ci, what, r.get('bic') if withbic and 'reconstructions' in r else None, bars or plain)
    return len(have)


@st.composite
def case(draw):
    ds = draw(gen.raw(E=(2, 7), S=(2, 6), R=(1, draw(st.sampled_from([1, 1, 2]))), hidden_ref=True, styles=('list', 'dict'),
                      kinds=('int5', 'eighth')))
    return {'ds': ds, 'models': draw(st.lists(st.sampled_from(RAW), min_size=1, max_size=3, unique=True)) if draw(st.integers(0, 7)) else
            draw(st.permutations(RAW)),
            'ext': draw(st.sampled_from(['py', 'py', 'json'])), 'bar': draw(st.booleans()), 'sort': draw(st.booleans()),
            'own': draw(st.booleans()), 'some': draw(st.booleans())}


ALL = ['raw_scores', 'raw_counts', 'raw_counts_per_subject', 'raw_scores_minus_quality_scores',
       'raw_scores_minus_quality_scores_and_observer_bias', 'quality_scores', 'subject_scores']


def mean_votes(V):
    """subjects x videos, averages over the repetitions."""
    return np.array([[ref.mean(V[e][s]) if V[e][s] else np.nan for e in range(len(V))] for s in range(len(V[0]))])


def counts(ax, rows, what):
    want = {}
    for i, row in enumerate(rows):
        for v in row:
            if np.isfinite(v):
                want[(i, round(float(v), 6))] = want.get((i, round(float(v), 6)), 0) + 1
    sc = scatters(ax)
    require(len(sc) == 1, '{}: {} scatter plots', what, len(sc))
    _, x, y, size = sc[0]
    require(len(x) == len(want), '{}: {} points instead of {}', what, len(x), len(want))
    size = np.broadcast_to(size, len(x)) if len(size) in (1, len(x)) else size
    got = {(int(round(a)), round(float(b), 6)): float(c) for a, b, c in zip(x, y, size)}
    require(set(got) == set(want), '{}: points {} instead of {}', what, str(sorted(got)[:6]), str(sorted(want)[:6]))
    # sizes are proportional to the counts
    f = [got[k] / want[k] for k in want]
    require(max(f) - min(f) < 1e-6 * max(f) and min(f) > 0, '{}: sizes {} for counts {}', what, str(sorted(got.items())[:6]), str(sorted(want.items())[:6]))


def check(c):
    from sureal.routine import run_subjective_models
    ds = c['ds']
    names = usable(c)
    if not names:
        return ['unfit']
    results = independent(c, names)
    if results is None:
        return ['undefined']
    if any(not np.isfinite(np.asarray(results[m]['quality_scores'], float)).all() for m in names):
        return ['undefined']
    for m in names:
        for k in ('quality_scores_ci95', 'observer_bias_ci95', 'observer_inconsistency_ci95'):
            if results[m].get(k) is not None and (np.asarray(results[m][k], float) < 0).any():
                return ['undefined']
    V = gen.votes3d(ds)
    M = mean_votes(V)
    S, E = M.shape
    plt = fresh()
    from matplotlib.figure import Figure
    ax = {}
    rej = ('ax_rejected', 'ax_rejected_1st_stats', 'ax_rejected_2nd_stats')
    keys = ['ax_raw_scores', 'ax_raw_counts', 'raw_counts_per_subject', 'ax_quality_scores', 'ax_observer_bias', 'ax_observer_inconsistency'] + list(rej)
    if len(names) == 1:
        keys += ['ax_raw_scores_minus_quality_scores', 'ax_raw_scores_minus_quality_scores_and_observer_bias']
    todo = ALL if c['own'] or not c['some'] else ['quality_scores', 'subject_scores']
    if not c['own']:
        # axes given by the caller
        for k in keys:
            ax[k] = plt.subplots(figsize=(2, 2))[1]
    kw = {'plot_type': 'bar'} if c['bar'] else {}
    if c['sort']:
        kw['sort_quality_scores_in_plot'] = True
    try:
        with core.tmpdir() as d:
            f = write(ds, c['ext'], d)
            before = len(plt.get_fignums())
            out = run_subjective_models(f, [sut.model_class(m) for m in names], do_plot=list(todo), ax_dict=dict(ax), **kw)
        figs = [plt.figure(i) for i in plt.get_fignums()[before:]]
        # plotting changes no result
        for m, r in zip(names, out[2]):
            ref.close(np.asarray(r['quality_scores'], float), np.asarray(results[m]['quality_scores'], float), 1e-7, 1e-9, m + ' while plotting')
        nb = [m for m in names if 'observer_bias' in results[m]]
        if c['own']:
            want = 3 + len(names) + len(nb) + 1 + 1
            require(len(figs) == want, '{} figures instead of {}', len(figs), want)
            axs = [g.axes for g in figs]
            ax = {'ax_raw_scores': axs[0][0], 'ax_raw_counts': axs[1][0], 'raw_counts_per_subject': axs[2][0],
                  'ax_quality_scores': axs[-2][0], 'ax_observer_bias': axs[-1][0], 'ax_observer_inconsistency': axs[-1][1]}
            res_ax, resb_ax = [a[0] for a in axs[3:3 + len(names)]], [a[0] for a in axs[3 + len(names):3 + len(names) + len(nb)]]
        elif len(names) == 1:
            res_ax, resb_ax = [ax['ax_raw_scores_minus_quality_scores']], [ax['ax_raw_scores_minus_quality_scores_and_observer_bias']] * len(nb)
        else:
            axs = [g.axes[0] for g in figs]
            res_ax, resb_ax = axs[:len(names)], axs[len(names):]
        if len(todo) > 2:
            image(ax['ax_raw_scores'], M, 'raw scores')
            counts(ax['ax_raw_counts'], M.T, 'counts per video')
            counts(ax['raw_counts_per_subject'], M, 'counts per subject')
            require(len(res_ax) == len(names) and len(resb_ax) == len(nb), '{} and {} residual plots', len(res_ax), len(resb_ax))
            for m, a in zip(names, res_ax):
                image(a, M - np.asarray(results[m]['quality_scores'], float)[None, :], 'residuals of ' + m)
                require(sut.model_class(m).TYPE in a.get_title(), 'title {} in place of {}', a.get_title(), m)
            for m, a in zip(nb, resb_ax):
                image(a, M - np.asarray(results[m]['quality_scores'], float)[None, :] - np.asarray(results[m]['observer_bias'], float)[:, None],
                      'residuals without bias of ' + m)
        q0 = np.asarray(out[2][0]['quality_scores'], float)
        order = np.argsort(q0) if c['sort'] else None
        tied = c['sort'] and (np.diff(np.sort(q0)) < 1e-9).any()
        if not tied:
            select(ax['ax_quality_scores'], results, 'quality_scores', 'quality plot', order, bars=c['bar'], withbic=True)
        select(ax['ax_observer_bias'], results, 'observer_bias', 'bias plot', bars=c['bar'])
        select(ax['ax_observer_inconsistency'], results, 'observer_inconsistency', 'inconsistency plot', bars=c['bar'])
        for k in rej:
            if k in ax:
                select(ax[k], results, {'ax_rejected': 'observer_rejected'}.get(k, 'observer_' + k[3:]), k, plain=True)
        if nb:
            a = ax['ax_observer_inconsistency']
            labels = [(float(x), t.get_text()) for x, t in zip(a.get_xticks(), a.get_xticklabels())]
            who = [ds['subjects'][s] for s in gen.subject_order(ds)] if ds['style'] == 'dict' else ['#{}'.format(s + 1) for s in range(S)]
            require([t for _, t in labels] == who, 'subjects are labelled {} instead of {}', str([t for _, t in labels]), str(who))
            require([int(math.floor(x)) for x, _ in labels] == list(range(S)), 'labels at {}', str(labels))
    finally:
        plt.close('all')
    lab = gen.labels(ds) + ['bar' if c['bar'] else 'errorbar'] + (['sorted'] if c['sort'] else []) + (['own_figures'] if c['own'] else [])
    lab += ['many_models'] if len(names) > 8 else []
    return lab + (['nt'] if E >= 2 and S >= 2 and np.nanmax(M) > np.nanmin(M) else [])


@st.composite
def scatter(draw):
    ds = draw(gen.raw(E=(2, 6), S=(2, 5), R=(1, draw(st.sampled_from([1, 2]))), hidden_ref=True, kinds=('int5', 'eighth'), styles=('list', 'dict')))
    return {'ds': ds, 'models': draw(st.lists(st.sampled_from(['MOS', 'BR_MOS', 'P910', 'SR_MOS', 'DMOS']), min_size=1, max_size=2, unique=True)),
            'ext': 'py'}


def check_scatter(c):
    """Quality against every subject's votes."""
    from sureal.routine import run_subjective_models
    names = usable(c)
    results = independent(c, names) if names else None
    if results is None or any(not np.isfinite(np.asarray(results[m]['quality_scores'], float)).all() for m in names):
        return ['undefined']
    M = mean_votes(gen.votes3d(c['ds']))
    if not np.nanmax(M) > np.nanmin(M):
        return ['constant']
    plt = fresh()
    try:
        with core.tmpdir() as d:
            run_subjective_models(write(c['ds'], 'py', d), [sut.model_class(m) for m in names], do_plot=['quality_scores_vs_raw_scores'])
        figs = [plt.figure(i) for i in plt.get_fignums()]
        require(len(figs) == len(names), '{} figures for {} models', len(figs), len(names))
        for m, g in zip(names, figs):
            axs = [a for a in g.axes if scatters(a)]
            require(len(axs) == len(M), '{} subjects drawn instead of {}', len(axs), len(M))
            for s, a in enumerate(axs):
                sc = scatters(a)[0]
                points(zip(sc[1], sc[2]), zip(M[s], results[m]['quality_scores']), 'votes of subject {} against {}'.format(s, m))
                require(str(s + 1) in re.findall(r'\d+', a.get_title()), 'subject {} is titled {}', s, a.get_title())
    finally:
        plt.close('all')
    return ['nt']


@st.composite
def content(draw):
    return {'ds': draw(gen.well_posed(E=(8, 14), S=(8, 12), R=(1, 1))), 'bar': draw(st.booleans())}


def check_content(c):
    from sureal.routine import run_subjective_models
    ds = dict(c['ds'], ref_order=c['ds']['ref_order'][::-1])
    plt = fresh()
    try:
        with core.tmpdir() as d:
            f = write(ds, 'py', d)
            try:
                _, ms, rs = run_subjective_models(f, [sut.model_class(m) for m in ('MOS', 'MLE', 'MLE_CO')])
            except Exception:
                return ['undefined']
            amb, ci = np.asarray(rs[1]['content_ambiguity'], float), np.asarray(rs[1]['content_ambiguity_ci95'], float)
            run_subjective_models(f, [sut.model_class(m) for m in ('MOS', 'MLE', 'MLE_CO')], do_plot=['content_scores'],
                                  **({'plot_type': 'bar'} if c['bar'] else {}))
        require(len(plt.get_fignums()) == 1, '{} figures', len(plt.get_fignums()))
        a = plt.gcf().axes[0]
        s = series(a)
        require(len(s) == 1, '{} series of ambiguities', len(s))
        one_series(s[0], 'MLE', amb, None if c['bar'] else ci, 'ambiguity plot', bars=c['bar'])
        labels = [t.get_text() for t in a.get_xticklabels()]
        require(labels == [gen.content_name(ds, i) if i in ds['ref_order'] else '' for i in range(len(amb))], 'contents are labelled {}', str(labels))
    finally:
        plt.close('all')
    return ['nt'] if len(amb) > 1 else []


@st.composite
def pc_case(draw):
    return draw(gen.pc(M=(2, 6), S=(1, 5), max_pairs=24, strong=draw(st.booleans())))


def check_pc(p):
    """The picture of a paired-comparison dataset shows the winning rates."""
    from sureal.routine import visualize_pc_dataset
    from sureal.dataset_reader import PairedCompDatasetReader
    r = sut.pc_reader(p)
    X = np.array(r.opinion_score_3darray, float)
    m = X.shape[0]
    want = np.full((m, m), np.nan)
    for i in range(m):
        for j in range(m):
            a = [x for x in X[i, j] if x == x]
            b = [x for x in X[j, i] if x == x]
            t = math.fsum(a) + math.fsum(b)
            if t > 0:
                want[i, j] = math.fsum(a) / t
    plt = fresh()
    try:
        with core.tmpdir() as d:
            f = os.path.join(d, 'pc_file.py')
            PairedCompDatasetReader.write_out_dataset(gen.pc_build(p), f)
            visualize_pc_dataset(f)
        a = [x for x in plt.gcf().axes if x.images]
        require(len(plt.get_fignums()) == 1 and len(a) >= 1, 'no picture')
        image(a[0], want, 'winning rates')
    finally:
        plt.close('all')
    return ['nt'] if m >= 3 and np.isfinite(want).any() else []


@st.composite
def compare(draw):
    ds = draw(gen.raw(E=(3, 8), S=(2, 8), R=(1, 1), missing=False, kinds=('seeded', 'cont', 'int5'), styles=('list', 'dict'), hidden_ref=True))
    k = draw(st.integers(1, 3))
    pick = st.sampled_from(['MOS', 'P910', 'BR_MOS', 'SR_MOS', 'DMOS', 'ZS_MOS'])
    return {'ds': ds, 'a': [draw(pick) for _ in range(k)], 'b': [draw(pick) for _ in range(k)],
            'fa': draw(st.sampled_from([None, 1.0, 0.75])), 'fb': draw(st.sampled_from([None, 0.5, 0.8])), 'seed': draw(st.integers(0, 1000))}


def check_compare(c):
    """Scatter plots of one model (and share of subjects) against another."""
    from sureal.routine import get_sample_stats, plot_scatter_target_vs_compared_models
    ds = c['ds']
    plt = fresh()
    try:
        with core.tmpdir() as d:
            f = write(ds, 'py', d)
            wants = []
            try:
                for side, fr in (('a', c['fa']), ('b', c['fb'])):
                    kw = {} if fr is None else {'subj_fraction': fr, 'random_seed': c['seed']}
                    wants.append([np.asarray(get_sample_stats([{'path': f}], [sut.model_class(m)], **kw)[0][0]['quality_scores'], float)
                                  for m in c[side]])
            except Exception:
                return ['undefined']
            if not all(np.isfinite(w).all() and np.ptp(w) > 1e-6 for s in wants for w in s):
                return ['undefined']
            plot_scatter_target_vs_compared_models(c['a'], c['b'], [{'path': f}], target_subj_fraction=c['fa'],
                                                   compared_subj_fraction=c['fb'], random_seed=c['seed'])
        require(len(plt.get_fignums()) == 1, '{} figures', len(plt.get_fignums()))
        axs = plt.gcf().axes
        sca = [a for a in axs if scatters(a)]
        his = [a for a in axs if not scatters(a)]
        require(len(sca) == len(c['a']) and len(his) == len(c['a']), '{} scatter plots, {} histograms', len(sca), len(his))
        for i, (a, h) in enumerate(zip(sca, his)):
            x, y = wants[0][i], wants[1][i]
            s = scatters(a)
            require(len(s) == 1, '{} series', len(s))
            points(zip(s[0][1], s[0][2]), zip(x, y), '{} against {}'.format(c['a'][i], c['b'][i]))
            for side, text in (('a', a.get_xlabel()), ('b', a.get_ylabel())):
                fr = c['f' + side]
                require(text.split(' ')[0] == c[side][i], 'axis {} in place of {}', text, c[side][i])
                require(('%' in text) == (fr is not None) and (fr is None or '{}%'.format(int(fr * 100)) in text), 'axis {} for {}', text, fr)
            bars = series(h)
            n = sum(float(p.get_height()) for p in h.patches)
            require(abs(n - len(x)) < 1e-9, 'histogram of {} differences instead of {}', n, len(x))
            t = h.get_title()
            for tag, w in (('plcc', ref.pearson(list(x), list(y))), ('srocc', ref.spearman(list(x), list(y))), ('mean', float(np.mean(y - x))), ('std', float(np.std(y - x)))):
                g = re.search(tag + r' (-?\d+\.\d+|nan)', t)
                require(g is not None and abs(float(g.group(1)) - w) <= 0.00051, '{} in the title {} is {}', tag, t, w)
    finally:
        plt.close('all')
    return ['nt'] + (['fraction'] if c['fa'] or c['fb'] else [])


@st.composite
def sample(draw):
    ds = draw(gen.raw(E=(3, 7), S=(3, 8), R=(1, 1), missing=False, kinds=('seeded', 'int5', 'eighth'), styles=('list', 'dict')))
    return {'ds': ds, 'models': draw(st.lists(st.sampled_from(['MOS', 'BR_MOS', 'P910', 'SR_MOS', 'P913']), min_size=1, max_size=3, unique=True)),
            'f': draw(st.sampled_from([None, 0.5, 1.0])), 'seed': draw(st.integers(0, 999)), 'bar': draw(st.booleans())}


def check_sample(c):
    """The figures of a sampled dataset show its results."""
    from sureal.routine import get_sample_stats
    kw = {} if c['f'] is None else {'subj_fraction': c['f'], 'random_seed': c['seed']}
    plt = fresh()
    try:
        with core.tmpdir() as d:
            f = write(c['ds'], 'py', d)
            try:
                want = get_sample_stats([{'path': f}], [sut.model_class(m) for m in c['models']], **kw)[0]
            except Exception:
                return ['undefined']
            results = dict(zip(c['models'], want))
            for r in want:
                for k in ('quality_scores', 'quality_scores_ci95', 'observer_bias_ci95', 'observer_inconsistency_ci95'):
                    if r.get(k) is not None and (not np.isfinite(np.asarray(r[k], float)).all() or
                                                 k.endswith('95') and (np.asarray(r[k], float) < 0).any()):
                        return ['undefined']
            require(len(plt.get_fignums()) == 0, 'figures although none were asked for')
            got = get_sample_stats([{'path': f}], [sut.model_class(m) for m in c['models']], do_plot=True,
                                   **dict(kw, **({} if c['bar'] else {'plot_type': 'errorbar'})))[0]
        for m, a, b in zip(c['models'], got, want):
            ref.close(np.asarray(a['quality_scores'], float), np.asarray(b['quality_scores'], float), 1e-7, 1e-9, m + ' while plotting')
        axs = [plt.figure(i).axes for i in plt.get_fignums()]
        require(len(axs) == 3 and len(axs[2]) >= 3, '{} figures', len(axs))
        select(axs[1][0], results, 'quality_scores', 'quality plot', bars=c['bar'], withbic=True)
        select(axs[2][0], results, 'observer_bias', 'bias plot', bars=c['bar'])
        select(axs[2][1], results, 'observer_inconsistency', 'inconsistency plot', bars=c['bar'])
        select(axs[2][2], results, 'observer_rejected', 'rejection plot', plain=True)
    finally:
        plt.close('all')
    return ['nt', 'f={}'.format(c['f'])]


@st.composite
def command(draw):
    ds = draw(gen.raw(E=(2, 5), S=(2, 5), R=(1, 1), missing=False, sparse=False, kinds=('int5', 'eighth'), styles=('list', 'dict')))
    return {'ds': ds, 'models': draw(st.lists(st.sampled_from(['MOS', 'P910', 'BT500', 'P913']), min_size=1, max_size=2, unique=True)),
            'raw': draw(st.booleans()), 'dis': draw(st.booleans()), 'obs': draw(st.booleans()), 'ext': 'py'}


def check_command(c):
    """The command line writes one picture per plot asked for."""
    import sys
    import contextlib
    import io
    results = independent(c, c['models'])
    if results is None:
        return ['undefined']
    for r in results.values():
        for k in ('quality_scores', 'quality_scores_ci95', 'observer_bias_ci95', 'observer_inconsistency_ci95'):
            if r.get(k) is not None and (not np.isfinite(np.asarray(r[k], float)).all() or k.endswith('95') and (np.asarray(r[k], float) < 0).any()):
                return ['undefined']
    plt = fresh()
    from sureal.__main__ import main
    argv = sys.argv
    try:
        with core.tmpdir() as d:
            f = write(c['ds'], 'py', d)
            out = os.path.join(d, 'a', 'out')
            sys.argv = ['sureal', '--dataset', f, '--models'] + c['models'] + ['--output-dir', out] + \
                ['--plot-raw-data'] * c['raw'] + ['--plot-dis-videos'] * c['dis'] + ['--plot-observers'] * c['obs']
            with contextlib.redirect_stdout(io.StringIO()):
                require(main() == 0, 'exit status')
            pics = sorted(x for x in os.listdir(out) if x.endswith('.png'))
            for x in pics:
                with open(os.path.join(out, x), 'rb') as fp:
                    require(fp.read(8) == b'\x89PNG\r\n\x1a\n', '{} is no picture', x)
            want = 3 * c['raw'] + c['dis'] + c['obs']
            require(len(pics) == want, '{} pictures instead of {}', len(pics), want)
            require(os.path.exists(os.path.join(out, 'output.json')), 'no report')
            kinds = [[a.get_title().split(',')[0] for a in plt.figure(i).axes if a.get_title()] for i in plt.get_fignums()]
            flat = ' '.join(t for k in kinds for t in k)
            for on, words in ((c['raw'], 'Counts'), (c['dis'], 'Recovered Quality')):
                require((words in flat) == bool(on), 'plots {} for {} {}', flat, words, on)
    finally:
        sys.argv = argv
        plt.close('all')
    return ['nt'] if want else []


@st.composite
def valid(draw):
    ds = draw(gen.raw(E=(3, 8), S=(3, 7), R=(1, 1), missing=False, sparse=False, kinds=('int5',), styles=('list', 'dict')))
    E, S = gen.dims(ds)[:2]
    f = lambda n, a, b: [draw(st.integers(a, b)) / 64 for _ in range(n)]
    return {'ds': ds, 'seed': draw(st.integers(0, 999)), 'q': f(E, 64, 320), 'b': f(S, -48, 48), 'i': f(S, 8, 64), 'std': f(E, 4, 40),
            'amb': f(E, 4, 40), 'models': draw(st.lists(st.sampled_from(['MOS', 'P910', 'BR_MOS', 'P913', 'BT500', 'LS']), min_size=1, max_size=3, unique=True)),
            'errorbar': draw(st.sampled_from([None, False, True, True]))}


KEYS = ['quality_scores', 'quality_scores_std', 'observer_bias', 'observer_inconsistency', 'quality_ambiguity']


def check_valid(c):
    """Recovered against true values, with their intervals, error and coverage."""
    from sureal.dataset_reader import SyntheticRawDatasetReader
    from sureal.routine import validate_with_synthetic_dataset
    truth = {'quality_scores': c['q'], 'observer_bias': c['b'], 'observer_inconsistency': c['i'], 'quality_scores_std': c['std'],
             'quality_ambiguity': c['amb'], 'content_bias': [0.0] * (max(c['ds']['content']) + 1),
             'content_ambiguity': [0.0] * (max(c['ds']['content']) + 1)}
    truth = dict({k: np.array(v) for k, v in truth.items()}, seed=c['seed'])
    names = c['models']
    plt = fresh()
    try:
        ax = {k: plt.subplots(figsize=(2, 2))[1] for k in KEYS}
        with core.tmpdir() as d:
            f = write(c['ds'], 'py', d)
            votes = SyntheticRawDatasetReader(gen.build(c['ds']), input_dict=dict(truth)).opinion_score_3darray
            results = {}
            try:
                for m in names:
                    results[m] = sut.model_class(m)(SyntheticRawDatasetReader(gen.build(c['ds']), input_dict=dict(truth))).run_modeling()
            except Exception:
                return ['undefined']
            for r in results.values():
                for k in KEYS:
                    if r.get(k) is not None and not np.isfinite(np.asarray(r[k], float)).all():
                        return ['undefined']
                    w = r.get(k + '_ci95')
                    if w is not None and (not np.isfinite(np.asarray(w, float)).all() or (np.asarray(w, float) < 0).any()):
                        return ['undefined']
            if len(np.unique(votes)) < 2:
                return ['constant']
            kw = {} if c['errorbar'] is None else {'do_errorbar': c['errorbar']}
            validate_with_synthetic_dataset(SyntheticRawDatasetReader, [sut.model_class(m) for m in names], f, truth, ax, **kw)
        n = 0
        for k in KEYS:
            have = [m for m in names if results[m].get(k) is not None]
            got = [(l, num(x), num(y), None, None) for l, x, y, _ in scatters(ax[k])] + \
                [s for s in series(ax[k]) if s[3] is not None or s[0] and not str(s[0]).startswith('_')]
            require(len(got) == len(have), '{}: {} series for {} models', k, len(got), len(have))
            for m in have:
                t = sut.model_class(m).TYPE
                mine = [s for s in got if s[0].startswith(t + ' ')]
                require(len(mine) == 1, '{}: {} series of {}', k, len(mine), t)
                label, x, y, lo, hi = mine[0]
                w = results[m].get(k + '_ci95')
                bars = c['errorbar'] is True and w is not None
                tx, ty = np.asarray(truth[k], float), np.asarray(results[m][k], float)
                points(zip(x, y), zip(tx, ty), '{} of {}'.format(k, m))
                e = number(label.replace(',', ']').replace(')', ']'), 'RMSE')
                want = math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(tx, ty)) / len(tx))
                require(e is not None and abs(e - want) <= 0.000051 + 1e-9 * want, '{}: label {} for an error of {}', k, label, want)
                require(('CI%' in label) == bars, '{}: label {} with intervals {}', k, label, bars)
                require((lo is not None) == bars, '{}: intervals of {}', k, m)
                if bars:
                    w = np.asarray(w, float)
                    edge = min(min(abs(tx - ty + w[0])), min(abs(tx - ty - w[1])))
                    if edge > 1e-6:
                        ci = 100.0 * sum(1 for a, b, l, u in zip(tx, ty, w[0], w[1]) if b - l <= a <= b + u) / len(tx)
                        v = re.search(r'CI% (\d+\.\d+)', label)
                        require(v and abs(float(v.group(1)) - ci) <= 0.051, '{}: label {} for a coverage of {}', k, label, ci)
                    if len(set(tx.tolist())) == len(tx):
                        i, j = np.argsort(x), np.argsort(tx)
                        ref.close(lo[i], w[0][j], 1e-6, 1e-6, '{} of {}: lower interval'.format(k, m))
                        ref.close(hi[i], w[1][j], 1e-6, 1e-6, '{} of {}: upper interval'.format(k, m))
                n += 1
    finally:
        plt.close('all')
    return ['nt' if n else 'nothing', 'errorbar={}'.format(c['errorbar'])]


SUBTESTS = [Sub('models', case(), check, quick=480, thorough=6000, shrink=60),
            Sub('against_votes', scatter(), check_scatter, quick=80, thorough=1000, shrink=60),
            Sub('contents', content(), check_content, quick=24, thorough=240, shrink=20),
            Sub('winning_rates', pc_case(), check_pc, quick=240, thorough=3000),
            Sub('comparison', compare(), check_compare, quick=120, thorough=1500, shrink=60),
            Sub('sampled', sample(), check_sample, quick=80, thorough=1000, shrink=60),
            Sub('validation', valid(), check_valid, quick=160, thorough=2000, shrink=60),
            Sub('command_line', command(), check_command, quick=64, thorough=600, shrink=40)]
