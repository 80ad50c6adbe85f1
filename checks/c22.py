"""C22: reports contain exactly the model results."""
import contextlib
import copy
import io
import json
import math
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from lib import core, gen, models, ref, sut
from lib.core import Sub, require

RULE = 'at least two videos and two models, or a command-line run'

RAW = ['MOS', 'P910', 'P913', 'BT500', 'BR_MOS', 'SR_MOS', 'ZS_MOS', 'DMOS', 'LS', 'MLE_CO_AP', 'MLE_CO_AP2', 'LIVE_DMOS',
       'Subject_MLE_Projection', 'SR_DMOS']
PROJECTION = ('P910', 'MLE_CO_AP', 'MLE_CO_AP2', 'Subject_MLE_Projection', 'Subject_MLE_Projection2')
PC = ['BT_MLE', 'BT_NR', 'THURSTONE_MLE']
VIDEO = {'quality_score': 'quality_scores', 'quality_score_std': 'quality_scores_std', 'quality_score_ci95': 'quality_scores_ci95'}
OBS = {k: k for k in ('observer_bias', 'observer_bias_std', 'observer_bias_ci95', 'observer_inconsistency',
                      'observer_inconsistency_std', 'observer_inconsistency_ci95', 'observer_scores_mean', 'observer_scores_std')}
CON = {k: k for k in ('content_ambiguity', 'content_ambiguity_std', 'content_ambiguity_ci95')}


def close(got, want, what):
    ref.close(np.asarray(got, float), np.asarray(want, float), 1e-7, 1e-9, what)


def section(entries, names, key, mapping, results, gate, what):
    """One entry per name, in order, with every model's values."""
    have = [t for t in results if results[t].get(gate) is not None]
    if not have:
        require(not entries, '{}: entries although no model has {}', what, gate)
        return
    require([e[key] for e in entries] == names, '{}: {} instead of {}', what, str([e.get(key) for e in entries]), str(names))
    for i, e in enumerate(entries):
        require(set(e['models']) == set(have), '{} {}: models {} instead of {}', what, names[i], str(sorted(e['models'])),
                str(sorted(have)))
        for t in have:
            r = results[t]
            want = {}
            for out, src in mapping.items():
                if r.get(src) is None:
                    continue
                x = np.asarray(r[src], float)
                want[out] = x[:, i] if src.endswith('ci95') else x[i]
            got = e['models'][t]
            require(set(got) == set(want), '{} {} {}: {} instead of {}', what, names[i], t, str(sorted(got)), str(sorted(want)))
            for k in want:
                close(got[k], want[k], '{} {} {} {}'.format(what, names[i], t, k))


def verify(report, results, videos, observers, contents):
    """results: {type: independent model result}."""
    section(report.get('dis_videos', []), videos, 'dis_video_name', VIDEO, results, 'quality_scores', 'video')
    section(report.get('observers', []), observers, 'observer', OBS, results, 'observer_bias', 'observer')
    section(report.get('contents', []), contents, 'content', CON, results, 'content_ambiguity', 'content')
    want = {t: {k: r[k] for k in ('aic', 'bic') if k in r} for t, r in results.items()}
    want = {t: v for t, v in want.items() if v}
    got = report.get('stats', {}).get('models', {})
    require(set(got) == set(want), 'stats of {} instead of {}', str(sorted(got)), str(sorted(want)))
    for t in want:
        require(set(got[t]) == set(want[t]), 'stats of {}: {}', t, str(sorted(got[t])))
        for k in want[t]:
            close(got[t][k], want[t][k], '{} {}'.format(t, k))
    require(set(report) <= {'dis_videos', 'observers', 'contents', 'stats'}, 'unexpected sections {}', str(sorted(report)))


@st.composite
def raw_case(draw, plain=False):
    ds = draw(gen.raw(E=(2, 6), S=(2, 6), R=(1, draw(st.sampled_from([1, 1, 2]))), hidden_ref=True, styles=('list', 'dict')))
    names = draw(st.lists(st.sampled_from(RAW), min_size=1, max_size=4, unique=True))
    return {'ds': ds, 'models': names, 'ext': draw(st.sampled_from(['py', 'json']))}


def write(ds, ext, d):
    f = os.path.join(d, 'dataset_file.' + ext)
    if ext == 'py':
        from sureal.dataset_reader import RawDatasetReader
        RawDatasetReader.write_out_dataset(gen.build(ds), f)
    else:
        with open(f, 'w') as fp:
            json.dump(gen.dataset_dict(ds), fp)
    return f


def names_of(ds):
    observers = [ds['subjects'][s] for s in gen.subject_order(ds)] if ds['style'] == 'dict' else \
        ['observer{}'.format(s) for s in range(len(ds['cells'][0]))]
    return gen.paths(ds), observers, [gen.content_name(ds, c) if c in ds['ref_order'] else '' for c in range(max(ds['ref_order']) + 1)]


def usable(c):
    """Models defined on the dataset; the reconstruction statistics need two votes."""
    return [m for m in c['models'] if models.fit(m, c['ds'])]


def independent(c, names):
    out = {}
    for m in names:
        try:
            out[m] = sut.run(m, c['ds'])
        except (AssertionError, ValueError, ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError, IndexError):
            return None
        if 'raw_scores' in out[m] and np.isfinite(np.asarray(out[m]['raw_scores'], float) +
                                                  np.asarray(out[m]['reconstructions'], float)).sum() < 2:
            return None
    return out


def check_report(c):
    from sureal.routine import format_output_of_run_subjective_models, run_subjective_models
    ds = c['ds']
    names = usable(c)
    if not names:
        return ['unfit']
    results = independent(c, names)
    if results is None:
        return ['undefined']
    with core.tmpdir() as d:
        f = write(ds, c['ext'], d)
        dataset, ms, rs = run_subjective_models(f, [sut.model_class(m) for m in names])
        require([m.TYPE for m in ms] == names, 'models {}', str([m.TYPE for m in ms]))
        report = format_output_of_run_subjective_models(dataset, ms, rs)
    types = {m: sut.model_class(m).TYPE for m in names}
    verify(json.loads(json.dumps(report)), {types[m]: results[m] for m in names}, *names_of(ds))
    lab = ['py' if c['ext'] == 'py' else 'json', ds['style']]
    for m, r in zip(names, rs):
        require(list(r['dis_video_names']) == gen.paths(ds), '{}: video names {}', m, str(r['dis_video_names']))
        if 'raw_scores' in r and 'reconstructions' in r:
            close(r['raw_scores'], results[m]['raw_scores'], m + ' raw scores')
            a = np.asarray(results[m]['raw_scores'], float).ravel()
            b = np.asarray(results[m]['reconstructions'], float).ravel()
            ok = ~np.isnan(a) & ~np.isnan(b)
            x, y = a[ok].tolist(), b[ok].tolist()
            s = r['reconstruction_stats']
            close(s['rmse'], math.sqrt(ref.mean([(p - q) ** 2 for p, q in zip(x, y)])), m + ' rmse')
            if len(x) > 2 and np.std(x) > 1e-6 and np.std(y) > 1e-6:
                close(s['cc'], ref.pearson(x, y), m + ' cc')
                # ranks only where ties are not a matter of rounding
                u = np.unique(np.array(y))
                if len(u) < 2 or np.diff(u).min() > 1e-9 * max(1, np.abs(u).max()):
                    close(s['srocc'], ref.spearman(x, y), m + ' srocc')
            lab.append('reconstruction')
        else:
            require('reconstruction_stats' not in r, '{}: unexpected reconstruction statistics', m)
    return lab + (['nt'] if len(names) > 1 else [])


@st.composite
def reader_case(draw):
    c = draw(raw_case())
    ds = c['ds']
    n = len(gen.build(ds).dis_videos)
    c['kind'] = draw(st.sampled_from(['subjects', 'videos', 'missing']))
    c['order'] = draw(st.permutations(range(max(n, len(ds['cells'][0])))))
    c['keep'] = draw(st.integers(2, 6))
    c['seed'] = draw(st.integers(0, 1000))
    c['options'] = draw(st.sampled_from([{}, {}, {'zscore_mode': True}, {'bias_offset': True}, {'subject_rejection': True},
                                         {'transform_final': {'p0': 1, 'p1': 2}}, {'normalize_final': True}]))
    return c


def check_reader(c):
    """Another reader and model options given to the routine."""
    from sureal import dataset_reader as dr
    from sureal.routine import format_output_of_run_subjective_models, run_subjective_models
    ds = c['ds']
    plain = sut.reader(ds)
    videos, observers, contents = names_of(ds)
    if c['kind'] == 'subjects':
        sel = [i for i in c['order'] if i < plain.num_observers][:c['keep']]
        cls, info = dr.SelectSubjectRawDatasetReader, {'selected_subjects': sel}
        observers = [observers[i] for i in sel] if ds['style'] == 'dict' else observers[:len(sel)]
    elif c['kind'] == 'videos':
        sel = [i for i in c['order'] if i < len(videos)][:c['keep']]
        cls, info = dr.SelectDisVideoRawDatasetReader, {'selected_dis_videos': sel}
        o = gen.build(ds).dis_videos
        videos = [videos[i] for i in sel]
        if ds['style'] == 'dict':
            observers = sorted(set(n for i in sel for n in o[i]['os']))
    else:
        cls, info = dr.MissingDataRawDatasetReader, {'missing_probability': 0.2, 'seed': c['seed']}
    results = {}
    for m in c['models']:
        if m in ('LS', 'LIVE_DMOS', 'DMOS', 'SR_DMOS'):
            continue
        try:
            r = sut.model_class(m)(cls(gen.build(ds), input_dict=copy.deepcopy(info))).run_modeling(**copy.deepcopy(c['options']))
            if 'raw_scores' in r and np.isfinite(np.asarray(r['raw_scores'], float) + np.asarray(r['reconstructions'], float)).sum() < 2:
                continue
        except (AssertionError, ValueError, ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError, IndexError):
            continue
        results[m] = r
    if c['options'].get('subject_rejection') and any(m in PROJECTION for m in results):
        # these models report on the accepted subjects only
        rejected = sut.model_class('MOS')(cls(gen.build(ds), input_dict=copy.deepcopy(info))).run_modeling(subject_rejection=True)['observer_rejected']
        if any(rejected):
            results = {m: r for m, r in results.items() if m in PROJECTION or r.get('observer_bias') is None}
            observers = [o for o, x in zip(observers, rejected) if not x]
    if not results:
        return ['undefined']
    with core.tmpdir() as d:
        f = write(ds, c['ext'], d)
        dataset, ms, rs = run_subjective_models(f, [sut.model_class(m) for m in results], dataset_reader_class=cls,
                                                dataset_reader_info_dict=copy.deepcopy(info), **copy.deepcopy(c['options']))
        for r in rs:
            require(list(r['dis_video_names']) == videos, '{} reader: video names {} instead of {}', c['kind'], str(r['dis_video_names']), str(videos))
        report = format_output_of_run_subjective_models(dataset, ms, rs)
    verify(json.loads(json.dumps(report)), {sut.model_class(m).TYPE: r for m, r in results.items()}, videos, observers, contents)
    return [c['kind'], ds['style']] + sorted(c['options']) + (['nt'] if len(videos) > 1 else [])


@st.composite
def pc_case(draw):
    return {'p': draw(gen.pc(M=(2, 5), S=(1, 5), max_pairs=25, strong=True)),
            'models': draw(st.lists(st.sampled_from(PC), min_size=1, max_size=3, unique=True))}


def write_pc(p, d):
    from sureal.dataset_reader import PairedCompDatasetReader
    f = os.path.join(d, 'pc_file.py')
    PairedCompDatasetReader.write_out_dataset(gen.pc_build(p), f)
    return f


def check_pc_report(c):
    from sureal.dataset_reader import PairedCompDatasetReader
    from sureal.routine import format_output_of_run_subjective_models, run_subjective_models
    from checks.c16 import mild
    if not mild(gen.pc_alpha(c['p'])):
        return ['extreme']
    results = {m: sut.run_pc(m, c['p']) for m in c['models']}
    with core.tmpdir() as d:
        f = write_pc(c['p'], d)
        dataset, ms, rs = run_subjective_models(f, [sut.model_class(m) for m in c['models']],
                                                dataset_reader_class=PairedCompDatasetReader)
        report = format_output_of_run_subjective_models(dataset, ms, rs)
    verify(json.loads(json.dumps(report)), results, ['dis/{}'.format(e) for e in range(c['p']['m'])], [], [])
    return ['pc', 'nt']


# --- maximum likelihood: contents in the report ---

@st.composite
def mle_case(draw):
    ds = draw(gen.well_posed(E=(8, 10), S=(9, 10), R=(1, 1), C=(2, 3)))
    rng_order = draw(st.permutations(ds['ref_order']))
    ds['ref_order'] = list(rng_order)
    return {'ds': ds, 'models': draw(st.permutations(['MLE', 'P910'])), 'ext': draw(st.sampled_from(['py', 'json']))}


# --- command line ---

@st.composite
def cli_case(draw):
    kind = draw(st.sampled_from(['raw', 'raw', 'raw', 'pc', 'mixed', 'unknown', 'badfile', 'old', 'old', 'oldbad']))
    c = {'kind': kind, 'print': draw(st.booleans()), 'plot': draw(st.sampled_from([[], [], [], ['--plot-dis-videos'],
                                                                                 ['--plot-observers'], ['--plot-raw-data'],
                                                                                 ['--plot-observers', '--plot-dis-videos']]))}
    c['ds'] = draw(gen.raw(E=(2, 5), S=(3, 6), R=(1, 1), hidden_ref=True, styles=('list', 'dict')))
    c['ext'] = draw(st.sampled_from(['py', 'json']))
    c['swap'], c['stale'] = draw(st.booleans()), draw(st.booleans())
    c['models'] = draw(st.lists(st.sampled_from(['MOS', 'P910', 'P913', 'BT500', 'DMOS', 'MLE_CO_AP']), min_size=1, max_size=3,
                                unique=True))
    c['p'] = draw(gen.pc(M=(2, 4), S=(1, 4), max_pairs=15, strong=True))
    c['pcmodels'] = draw(st.lists(st.sampled_from(PC), min_size=1, max_size=3, unique=True))
    c['old'] = draw(st.sampled_from(['MOS', 'DMOS', 'SR_MOS', 'MLE_CO_AP', 'MLE_CO_AP2', 'ZS_SR_MOS', 'SR_DMOS', 'ZS_SR_DMOS', 'MLE',
                                     'MLE_CO', 'DMOS_MLE', 'DMOS_MLE_CO']))
    if kind == 'mixed':
        c['refused'] = draw(st.permutations(c['models'] + c['pcmodels'][:2]))
    elif kind == 'unknown':
        c['refused'] = draw(st.permutations(draw(st.sampled_from([[], ['MOS'], ['P910', 'BT_MLE']])) +
                                            [draw(st.sampled_from(['NO_SUCH_MODEL', 'mos', 'MOS ', 'P911', 'SubjectiveModel']))]))
    if kind == 'oldbad':
        c['few'] = draw(st.sampled_from([0, 1, 2, 2]))
        c['old'] = draw(st.sampled_from(['NO_SUCH_MODEL', 'mos', 'P9100', 'BT']))
    if kind == 'old' and c['old'] in models.MLE:
        c['ds'] = draw(gen.well_posed(E=(8, 10), S=(9, 10), R=(1, 1), C=(2, 3)))
    return c


def invoke(module, argv):
    """main() with the given arguments; returns (exit code or exception name, standard output)."""
    import importlib
    from matplotlib import pyplot as plt
    mod = importlib.import_module(module)
    old = sys.argv
    plt.close('all')
    out = io.StringIO()
    sys.argv = ['sureal'] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                code = mod.main()
            except SystemExit as e:
                code = e.code
            except (AssertionError, ValueError, KeyError, TypeError, AttributeError) as e:
                code = type(e).__name__ + ': ' + str(e)
    finally:
        sys.argv = old
        plt.close('all')
    return code, out.getvalue()


WITH_SUBJECTS = ('MLE', 'MLE_CO', 'MLE_CO_AP', 'MLE_CO_AP2', 'DMOS_MLE', 'DMOS_MLE_CO')


def pictures(out, number, what):
    files = [f for f in os.listdir(out) if f.endswith('.png')]
    require(len(files) == number, '{}: {} pictures instead of {}', what, len(files), number)
    for f in files:
        with open(os.path.join(out, f), 'rb') as fp:
            require(fp.read(8) == b'\x89PNG\r\n\x1a\n', '{}: {} is no picture', what, f)


def stale(c, out, name):
    """The report of an earlier run in the same place."""
    if c.get('stale'):
        os.makedirs(out)
        with open(os.path.join(out, name), 'w') as fp:
            json.dump({'old': ['x' * 100] * 200}, fp)


def check_cli(c, call=invoke):
    from checks.c16 import mild
    kind, ds = c['kind'], c['ds']
    names = usable(c)
    with core.tmpdir() as d:
        out = os.path.join(d, 'out', 'deep')
        if kind == 'old':
            if not models.fit(c['old'], ds):
                return ['unfit']
            f = write(ds, c['ext'], d)
            if independent(c, [c['old']]) is None:
                return ['undefined']
            want = sut.run(c['old'], ds, gradient_method='simplified')
            stale(c, out, 'sureal.json')
            rest = [['--output-dir', out]] + ([['--print']] if c['print'] else [])
            code, text = call('sureal.cmd_deprecated', [c['old'], f] + sum(rest[::-1] if c.get('swap') else rest, []))
            require(code == 0, 'deprecated command: {} {}', code, text[-300:])
            got = json.load(open(os.path.join(out, 'sureal.json')))
            for k in want:
                if isinstance(want[k], list) and want[k] and not isinstance(want[k][0], (str, list, np.ndarray)):
                    close(got[k], want[k], 'deprecated command {}'.format(k))
            require(list(got['dis_video_names']) == gen.paths(ds), 'video names')
            if c['print']:
                body = json.loads(text[text.index('Result:') + 7: text.rindex('}') + 1])
                close(body['quality_scores'], want['quality_scores'], 'printed scores')
            pictures(out, 2 + (c['old'] in WITH_SUBJECTS) + (c['old'] in ('MLE', 'DMOS_MLE')), 'deprecated command for ' + c['old'])
            return ['old', 'nt']
        if kind == 'oldbad':
            f = write(ds, c['ext'], d)
            code, text = call('sureal.cmd_deprecated', [c['old'], f, '--output-dir', out][:c['few'] if c['few'] < 2 else 4])
            require(code not in (0, None), 'deprecated command: accepted {} with {} arguments', c['old'], c['few'])
            require(not os.path.exists(out), 'deprecated command: wrote output for {}', c['old'])
            return [kind, 'nt']
        if kind == 'raw':
            if not names:
                return ['unfit']
            results = independent(c, names)
            if results is None:
                return ['undefined']
            f, wanted = write(ds, c['ext'], d), names_of(ds)
        elif kind == 'pc':
            if not mild(gen.pc_alpha(c['p'])):
                return ['extreme']
            names = c['pcmodels']
            results = {m: sut.run_pc(m, c['p']) for m in names}
            f, wanted = write_pc(c['p'], d), (['dis/{}'.format(e) for e in range(c['p']['m'])], [], [])
            c = dict(c, plot=[])
        else:
            f = write(ds, c['ext'], d)
            names = c.get('refused', ['MOS'])
            if kind == 'badfile':
                bad = os.path.join(d, 'dataset.txt')
                os.rename(f, bad)
                f = bad
            code, text = call('sureal.__main__', ['--dataset', f, '--models'] + names + ['--output-dir', out])
            require(code != 0, '{}: accepted {}', kind, names)
            require(not os.path.exists(os.path.join(out, 'output.json')), '{}: wrote a report', kind)
            return [kind, 'nt']
        args = ['--dataset', f, '--models'] + names + c['plot']
        if c.get('swap'):
            args = c['plot'] + ['--models'] + names + ['--dataset', f]
        if c['print']:
            code, text = call('sureal.__main__', args)
            require(code == 0, 'exit {}: {}', code, text[-300:])
            report = json.loads(text[text.index('{\n'):])
        else:
            stale(c, out, 'output.json')
            code, text = call('sureal.__main__', ['--output-dir', out] + args if c.get('swap') else args + ['--output-dir', out])
            require(code == 0, 'exit {}: {}', code, text[-300:])
            report = json.load(open(os.path.join(out, 'output.json')))
            pictures(out, 3 * ('--plot-raw-data' in c['plot']) + ('--plot-dis-videos' in c['plot']) + ('--plot-observers' in c['plot']),
                     ' '.join(c['plot']))
    verify(report, results, *wanted)
    return [kind, 'print' if c['print'] else 'file'] + c['plot'] + ['nt']


def spawn(module, argv):
    env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND='Agg')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', module.replace('.__main__', '')] + argv, cwd=core.scratch(), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    return p.returncode, p.stdout.decode()


def check_process(c):
    return ['process'] + [x for x in check_cli(c, spawn)]


SUBTESTS = [Sub('report', raw_case(), check_report, quick=800, thorough=10000),
            Sub('reader', reader_case(), check_reader, quick=400, thorough=5000),
            Sub('pc_report', pc_case(), check_pc_report, quick=160, thorough=2000),
            Sub('mle_report', mle_case(), check_report, quick=16, thorough=200, shrink=20),
            Sub('command_line', cli_case(), check_cli, quick=240, thorough=3000),
            Sub('process', cli_case(), check_process, quick=24, thorough=240, shrink=15)]
