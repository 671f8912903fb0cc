"""C31: realizations of a model (uncertainty quantification) and the tables and figures made of them."""
import json
import os
import pickle
import shutil

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import torch

from fw import expect
import model_architectures.materials.process_predictions as pp
import model_architectures.procedures.convergence_plots as cp
import model_architectures.procedures.model_prediction as mp
import time_series_data.time_dataset as td
import user_scripts.local_model_update.hybrid_material_model.uncertainty_quantification as uq_hybrid
import user_scripts.local_model_update.rc_material_model.uncertainty_quantification as uq_rc
import user_scripts.local_model_update.rnn_material_model.uncertainty_quantification as uq_rnn

UQ = {'rnn': uq_rnn, 'rc': uq_rc, 'hybrid': uq_hybrid}
TYPES = {'in_distribution': '5_testing_id_dataset', 'out_distribution': '6_testing_od_dataset', 'validation': '2_validation_dataset'}
KEYS = sorted(TYPES)
SIZES = (40, 7, 160)
COMPS = ('stress_11', 'stress_22', 'stress_33', 'stress_12', 'stress_23', 'stress_13')
NAMES = ('E', 'v', 's0')


def length(s):
    return 3 + (s * 2) % 4


def truth(t, s):
    """Ground truth of a test sample: six stress components and the accumulated plastic strain."""
    n = length(s)
    return -(1 + KEYS.index(t) * 100 + s * 10 + torch.arange(n)[:, None] + torch.arange(7)[None, :] / 8.0)


def pred(k, t, s):
    """Predictions of the model of training k."""
    n = length(s)
    return 1000.0 * ((k * 7) % 11) + k + KEYS.index(t) * 100 + s * 10 + torch.arange(n)[:, None] * ((k % 3) - 1) + torch.arange(7)[None, :] / 8.0


def loss(k, t):
    return 1e3 + ((k * 5) % 13) * 10 + k / 64 + KEYS.index(t)


def param(k):
    return {n: float(100 * j + (k * 3) % 17 + k / 32) for j, n in enumerate(NAMES)}


class Study:
    def __init__(self, ctx, beh):
        self.root, self.beh = ctx.tmpdir(), beh
        self.mod = UQ[beh['fam']]
        self.tok, self.where, self.figs = 0, {}, []
        self.nsam = {t: 5 + i for i, t in enumerate(KEYS)}
        for b in range(1, beh['B'] + 1):
            for d, n in [('1_training_dataset', SIZES[b - 1])] + [(TYPES[t], self.nsam[t]) for t in KEYS]:
                t = [x for x in KEYS if TYPES[x] == d]
                path = os.path.join(self.base(b), d)
                os.makedirs(path)
                sam = [{'time_hist': torch.linspace(0, 1 + s, length(s)).reshape(-1, 1),
                        'stress_path': truth(t[0], s)[:, :6] if t else torch.full((length(s), 6), float(b))} for s in range(n)]
                td.save_dataset(td.TimeSeriesDatasetInMemory(sam), 'ss_paths_dataset', path, is_append_n_sample=True)

    def base(self, b):
        return os.path.join(self.root, f'case_{b}')

    def data(self, b, d):
        path = os.path.join(self.base(b), d)
        return os.path.join(path, [f for f in os.listdir(path) if f.endswith('.pkl')][0])

    def uq(self, b):
        return os.path.join(self.base(b), 'uncertainty_quantification')

    # scripted network: a training is a number, predictions carry the number of the training
    def train(self, train_dataset_file_path, model_directory, val_dataset_file_path=None, device_type='cpu', is_verbose=False):
        b = self.now['b']
        expect(os.path.realpath(train_dataset_file_path) == os.path.realpath(self.data(b, '1_training_dataset')),
               'a realization was trained on something else than the training data set')
        expect(val_dataset_file_path is not None and os.path.realpath(val_dataset_file_path) == os.path.realpath(self.data(b, TYPES['validation'])),
               'a realization was trained without its validation data set')
        self.tok += 1
        os.makedirs(model_directory, exist_ok=True)
        with open(os.path.join(model_directory, 'weights.json'), 'w') as f:
            json.dump(self.tok, f)
        with open(os.path.join(model_directory, 'parameters_best.pkl'), 'wb') as f:
            pickle.dump({'best_model_parameters': param(self.tok), 'model_parameters_bounds': {}}, f)

    def predict(self, predict_directory, dataset_file_path, model_directory, device_type='cpu', is_verbose=False, **kw):
        b, t = self.now['b'], self.now['t']
        expect(os.path.isfile(os.path.join(model_directory, 'weights.json')), 'prediction without a model')
        with open(os.path.join(model_directory, 'weights.json')) as f:
            k = json.load(f)
        expect(os.path.realpath(dataset_file_path) == os.path.realpath(self.data(b, TYPES[t])),
               'predictions of another data set than the testing data set')
        expect(os.path.isdir(predict_directory), 'prediction folder missing')
        j = 0
        while os.path.exists(os.path.join(predict_directory, f'prediction_set_{j}')):
            j += 1
        d = os.path.join(predict_directory, f'prediction_set_{j}')
        os.makedirs(d)
        for s in list(range(self.nsam[t]))[::-1]:
            with open(os.path.join(d, f'prediction_sample_{s}.pkl'), 'wb') as f:
                pickle.dump({'features_out': pred(k, t, s), 'targets': truth(t, s), 'stress_comps_order': COMPS,
                             'prediction_loss_data': ('features_out', 'mse', loss(k, t), False)}, f)
        with open(os.path.join(d, 'summary.dat'), 'w') as f:
            f.write(f'Summary\nNumber of samples:  7\nAvg. prediction loss per sample:   {loss(k, t):.8e}\nTotal time: 3.0\n')
        self.where[b, t] = d
        return d if self.beh['fam'] == 'rc' else (d, loss(k, t))

    def run(self, b, n, t, training):
        self.now = dict(b=b, t=t)
        pdir = os.path.join(self.base(b), '7_prediction', t)
        os.makedirs(pdir, exist_ok=True)
        self.mod.perform_model_standard_training, self.mod.perform_model_prediction = self.train, self.predict
        self.mod.perform_model_uq(self.uq(b), n, self.data(b, '1_training_dataset'), os.path.join(self.base(b), '3_model'), pdir,
                                  self.data(b, TYPES[t]), is_model_training=training,
                                  val_dataset_file_path=self.data(b, TYPES['validation']), device_type='cpu', is_verbose=False)

    def folder(self, d, t, where):
        """Training whose predictions a folder holds."""
        if not os.path.isdir(d) or not os.listdir(d):
            return 0
        expect(sorted(os.listdir(d)) == sorted([f'prediction_sample_{s}.pkl' for s in range(self.nsam[t])] + ['summary.dat']),
               f'{where}: files {sorted(os.listdir(d))}')
        out = set()
        for s in range(self.nsam[t]):
            with open(os.path.join(d, f'prediction_sample_{s}.pkl'), 'rb') as f:
                r = pickle.load(f)
            out |= {k for k in range(1, self.tok + 1) if torch.equal(r['features_out'], pred(k, t, s))}
        expect(len(out) == 1, f'{where}: predictions of trainings {sorted(out)} in one folder')
        return out.pop()

    def model(self, d):
        f = os.path.join(d, 'weights.json')
        return json.load(open(f)) if os.path.isfile(f) else 0

    def compare(self, st, where):
        for b in range(1, self.beh['B'] + 1):
            dirs = sorted(x for x in os.listdir(self.uq(b)) if x.startswith('model_')) if os.path.isdir(self.uq(b)) else []
            expect(dirs == sorted(f'model_{i}' for i in st['dirs'][b - 1]), f'{where}: realizations {dirs} in case {b}, specified {st["dirs"][b - 1]}')
            for i in st['dirs'][b - 1]:
                d = os.path.join(self.uq(b), f'model_{i}')
                got = self.model(os.path.join(d, '3_model'))
                expect(got == st['m'][b - 1][str(i)], f'{where}: realization {i} of case {b} holds the model of training {got}, specified {st["m"][b - 1][str(i)]}')
                for t in KEYS:
                    want = st['p'][b - 1][str(i)][t]
                    got = self.folder(os.path.join(d, '7_prediction', t), t, f'{where}: realization {i} of case {b}, {t}')
                    expect(got == want, f'{where}: realization {i} of case {b} holds {t} predictions of training {got}, specified {want}')

    # figures
    def saved(self, figure, filename, *a, **kw):
        out = {'name': filename, 'axes': []}
        for ax in figure.axes:
            out['axes'].append(dict(
                lines=[(np.array(x.get_xdata(), float), np.array(x.get_ydata(), float)) for x in ax.lines],
                areas=[c.get_paths()[0].vertices.copy() for c in ax.collections if isinstance(c, matplotlib.collections.PolyCollection)],
                dots=[np.array(np.ma.filled(c.get_offsets(), np.nan), float) for c in ax.collections if isinstance(c, matplotlib.collections.PathCollection)]))
        self.figs.append(out)

    def box(self, real):
        def f(data, *a, **kw):
            self.boxes.append(np.array(data, float))
            return real(data, *a, **kw)
        return f

    def uq_figures(self, b, t, row, par, where, comps, nsam):
        """Figures of one set of realizations per component and sample."""
        byname = {f['name']: f for f in self.figs}
        for c in comps:
            for s in range(nsam):
                f = [x for n, x in byname.items() if n.endswith(f'_{COMPS[c]}_path_sample_{s}')]
                expect(len(f) == 1, f'{where}: {len(f)} figures of component {COMPS[c]} of sample {s}')
                yield c, s, f[0]['axes'][0]

    def area(self, ax, x, ys, where):
        """A shaded area between the lowest and highest realization."""
        ys = np.array(ys)
        ok = False
        for v in ax['areas']:
            lo = np.array([v[np.isclose(v[:, 0], xx), 1].min() if np.isclose(v[:, 0], xx).any() else np.nan for xx in x])
            hi = np.array([v[np.isclose(v[:, 0], xx), 1].max() if np.isclose(v[:, 0], xx).any() else np.nan for xx in x])
            ok = ok or (np.allclose(lo, ys.min(0), atol=1e-3, rtol=1e-5) and np.allclose(hi, ys.max(0), atol=1e-3, rtol=1e-5))
        expect(ok, f'{where}: the shaded range is not that of the realizations')

    def line(self, ax, x, y, what):
        ok = any(len(lx) == len(x) and np.allclose(lx, x, atol=1e-5) and np.allclose(ly, y, atol=1e-3, rtol=1e-5) for lx, ly in ax['lines'])
        expect(ok, f'{what} is not drawn')

    def collect(self, o, where, rng):
        b, t, row = o['b'], o['t'], o['row']
        ds, pdir = self.data(b, TYPES[t]), os.path.join(self.base(b), '7_prediction', t, 'prediction_set_0')
        n = self.nsam[t]
        ids = [s for s in range(n) if rng.random() < 0.6] or [n - 1]
        rng.shuffle(ids)
        sel = 'all' if rng.random() < 0.3 else ids
        kind = rng.choice(['stress_comps', 'acc_p_strain', 'p_strain_comps'])
        nc = 1 if kind == 'acc_p_strain' else int(rng.integers(1, 7))
        labels = COMPS[:nc] if kind == 'stress_comps' else tuple(f'x{i}' for i in range(nc))
        col = (lambda c: 6) if kind == 'acc_p_strain' else (lambda c: c)
        if o['ok']:
            out = pp.build_time_series_predictions_data(ds, pdir, kind, labels, samples_ids=sel, is_uncertainty_quantification=True)
            self.series(out, t, row, nc, col, range(n) if sel == 'all' else ids, f'{where}: {kind}')
        else:
            try:
                pp.build_time_series_predictions_data(ds, pdir, kind, labels, samples_ids=sel, is_uncertainty_quantification=True)
            except Exception:
                pass
            else:
                expect(False, f'{where}: predictions collected although a realization has none')
        # one realization alone
        for i, k in zip(o['who'], row):
            if k:
                d = os.path.join(self.uq(b), f'model_{i}', '7_prediction', t)
                out = pp.build_time_series_predictions_data(ds, d, kind, labels, samples_ids=sel)
                self.series(out, t, [k], nc, col, range(n) if sel == 'all' else ids, f'{where}: {kind} of realization {i}')
                out = pp.build_prediction_data_arrays(d, kind, labels, samples_ids=sel)
                expect(len(out) == nc, f'{where}: {len(out)} arrays, specified {nc}')
                for c in range(nc):
                    want = [np.stack([truth(t, s)[:, col(c)].numpy(), pred(k, t, s)[:, col(c)].numpy()], 1) for s in (range(n) if sel == 'all' else ids)]
                    if sel == 'all':
                        got = sorted(map(tuple, out[c].tolist()))
                        expect(np.allclose(got, sorted(map(tuple, np.concatenate(want).tolist()))), f'{where}: {kind}: pairs of truth and prediction')
                    else:
                        expect(out[c].shape == np.concatenate(want).shape and np.allclose(out[c], np.concatenate(want)),
                               f'{where}: {kind}: pairs of truth and prediction of samples {ids} of realization {i}')
                break
        bad = [([n], 'a sample that is not in the data set'), ((0,), 'sample identifiers that are not a list')]
        for x, what in bad:
            for fn in (lambda: pp.build_time_series_predictions_data(ds, pdir, kind, labels, samples_ids=x, is_uncertainty_quantification=True),
                       lambda: pp.build_prediction_data_arrays(d, kind, labels, samples_ids=x)):
                if o['ok']:
                    try:
                        fn()
                    except RuntimeError:
                        pass
                    else:
                        expect(False, f'{where}: {what} was accepted')
        if o['ok'] and rng.random() < 0.35 and (self.beh['fam'] != 'rc' or all(o['par'])):
            self.plots(o, where)

    def series(self, out, t, row, nc, col, ids, where):
        expect(len(out) == nc, f'{where}: {len(out)} components, specified {nc}')
        for c in range(nc):
            expect(sorted(out[c]) == sorted(map(str, ids)), f'{where}: samples {sorted(out[c])}, specified {sorted(ids)}')
            for s in ids:
                x = np.linspace(0, 1 + s, length(s))
                want = np.stack([x, truth(t, s)[:, col(c)].numpy()] + [pred(k, t, s)[:, col(c)].numpy() for k in row], 1)
                got = np.asarray(out[c][str(s)], float)
                expect(got.shape == want.shape, f'{where}: shape {got.shape} of sample {s}, specified {want.shape}')
                expect(np.allclose(got, want, atol=1e-5, rtol=1e-6), f'{where}: time, truth and realizations of component {c} of sample {s}:\n{got}\nspecified\n{want}')

    def plots(self, o, where):
        b, t, row = o['b'], o['t'], o['row']
        self.figs, self.boxes = [], []
        real = self.mod.plot_boxplots
        keep = mp.save_figure, self.mod.save_figure
        mp.save_figure = self.mod.save_figure = self.saved
        self.mod.plot_boxplots = self.box(real)
        try:
            self.mod.gen_model_uq_plots(self.uq(b), len(row), os.path.join(self.base(b), TYPES[t]), t, is_save_fig=True, is_latex=False)
        finally:
            mp.save_figure, self.mod.save_figure = keep
            self.mod.plot_boxplots = real
            plt.close('all')
        want = np.array([[loss(k, t)] for k in row])
        expect(any(x.shape == want.shape and np.allclose(x, want, rtol=1e-7) for x in self.boxes), f'{where}: prediction losses of the realizations')
        if self.beh['fam'] == 'rc':
            d = os.path.join(self.uq(b), 'plots', 'data')
            f = [x for x in os.listdir(d) if x.endswith('_best_parameters_data.pkl')]
            expect(len(f) == 1, f'{where}: tables of best parameters {f}')
            rec = pickle.load(open(os.path.join(d, f[0]), 'rb'))
            want = np.array([[param(k)[x] for x in NAMES] for k in o['par']])
            expect(tuple(rec['model_parameters_names']) == NAMES and np.allclose(rec['samples_parameters_data'], want),
                   f'{where}: best parameters of the realizations {rec["samples_parameters_data"]}, specified {want}')
            expect(any(x.shape == want.shape and np.allclose(x, want) for x in self.boxes), f'{where}: best parameters drawn')
        for c, s, ax in self.uq_figures(b, t, row, None, where, range(6), 3):
            x = np.linspace(0, 1 + s, length(s))
            ys = [pred(k, t, s)[:, c].numpy().astype(float) for k in row]
            w = f'{where}: component {COMPS[c]} of sample {s}'
            self.line(ax, x, truth(t, s)[:, c].numpy(), f'{w}: the ground truth')
            self.line(ax, x, np.mean(ys, 0), f'{w}: the mean of the realizations')
            self.area(ax, x, ys, w)
        shutil.rmtree(os.path.join(self.uq(b), 'plots')) if self.beh['fam'] != 'rc' else None

    def study(self, o, where, rng):
        B, t = self.beh['B'], o['t']
        bases = [self.base(b) for b in range(1, B + 1)]
        tr = [os.path.join(x, '1_training_dataset') for x in bases]
        te = [os.path.join(x, TYPES[t]) for x in bases]
        pr = [self.where[b, t] for b in range(1, B + 1)]
        save = os.path.join(self.root, 'figures')
        shutil.rmtree(save, ignore_errors=True)
        os.makedirs(save)
        keep = cp.save_figure, mp.save_figure
        cp.save_figure = mp.save_figure = self.saved
        real = cp.plot_boxplots
        cp.plot_boxplots = self.box(real)
        c, s = int(rng.integers(6)), int(rng.integers(self.nsam[t]))
        ptypes = {'stress_comps': COMPS[:c + 1]}
        x = np.linspace(0, 1 + s, length(s))
        try:
            self.figs, self.boxes = [], []
            cp.plot_prediction_loss_convergence(bases, tr, pr, filename='conv', save_dir=save, is_save_fig=True, is_save_plot_data=True, is_latex=False)
            d = pickle.load(open(os.path.join(save, 'plot_data', 'conv_data.pkl'), 'rb'))
            want = np.array([[SIZES[b], loss(o['sp'][b], t)] for b in range(B)])
            expect(np.allclose(np.array(d['data_xy'], float), want, rtol=1e-7), f'{where}: loss against training size {d["data_xy"]}, specified {want}')
            dots = np.concatenate([z for f in self.figs for a in f['axes'] for z in a['dots']])
            expect(np.allclose(sorted(map(tuple, dots)), sorted(map(tuple, want)), rtol=1e-7), f'{where}: loss against training size drawn')
            if rng.random() < 0.5:
                cp.plot_prediction_loss_convergence_uq(bases, tr, pr, filename='convuq', save_dir=save, is_save_fig=True, is_save_plot_data=True, is_latex=False)
                d = pickle.load(open(os.path.join(save, 'plot_data', 'convuq_data.pkl'), 'rb'))
                want = np.array([[v for k in o['rows'][b] for v in (SIZES[b], loss(k, t))] for b in range(B)])
                got = np.array(d['data_xy'], float)
                expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-7), f'{where}: losses of the realizations against training size {got}, specified {want}')
                ax = self.figs[-1]['axes'][0]
                self.line(ax, want[:, 0], want[:, 1::2].mean(1), f'{where}: the mean loss of the realizations against training size')
            # predictions of one component of one sample
            self.figs = []
            cp.plot_time_series_convergence(bases, tr, te, pr, ptypes, plot_type='time_series_path', samples_ids=[s], filename='ts', save_dir=save, is_save_fig=True, is_latex=False)
            for cc in range(c + 1):
                f = [z for z in self.figs if z['name'].endswith(f'_{COMPS[cc]}_path_sample_{s}')]
                expect(len(f) == 1, f'{where}: {len(f)} figures of {COMPS[cc]}')
                self.line(f[0]['axes'][0], x, truth(t, s)[:, cc].numpy(), f'{where}: the ground truth')
                for b in range(B):
                    self.line(f[0]['axes'][0], x, pred(o['sp'][b], t, s)[:, cc].numpy(), f'{where}: the prediction of case {b + 1}')
            self.figs = []
            cp.plot_time_series_convergence(bases, tr, te, pr, {'stress_comps': COMPS[:1]}, plot_type='time_series_scatter', samples_ids=[s], filename='sc', save_dir=save, is_save_fig=True, is_latex=False)
            dots = self.figs[0]['axes'][0]['dots']
            for b in range(B):
                want = np.stack([truth(t, s)[:, 0].numpy(), pred(o['sp'][b], t, s)[:, 0].numpy()], 1)
                expect(any(z.shape[0] >= len(want) and np.allclose(z[:len(want)], want, atol=1e-3) for z in dots), f'{where}: truth and prediction of case {b + 1}')
            self.figs = []
            cp.plot_time_series_convergence_uq(bases, tr, te, pr, {'stress_comps': COMPS[:1]}, plot_type='time_series_path', samples_ids=[s], filename='tsuq', save_dir=save, is_save_fig=True, is_latex=False)
            ax = self.figs[0]['axes'][0]
            self.line(ax, x, truth(t, s)[:, 0].numpy(), f'{where}: the ground truth')
            for b in range(B):
                ys = [pred(k, t, s)[:, 0].numpy().astype(float) for k in o['rows'][b]]
                self.line(ax, x, np.mean(ys, 0), f'{where}: the mean of the realizations of case {b + 1}')
                self.area(ax, x, ys, f'{where}: case {b + 1}')
            if self.beh['fam'] == 'rc' and all(o['sm']) and all(all(r) for r in o['pars']):
                self.figs = []
                cp.plot_best_parameters_convergence(bases, tr, filename='bp', save_dir=save, is_save_fig=True, is_latex=False)
                for n in NAMES:
                    f = [z for z in self.figs if z['name'] == f'bp_{n}']
                    want = np.array([[SIZES[b], param(o['sm'][b])[n]] for b in range(B)])
                    expect(len(f) == 1 and np.allclose(sorted(map(tuple, f[0]['axes'][0]['dots'][0])), sorted(map(tuple, want))), f'{where}: best {n} against training size')
                for b in range(B):
                    self.plots(dict(b=b + 1, t=t, row=o['rows'][b], par=o['pars'][b]), f'{where}, case {b + 1}')
                self.boxes = []
                cp.plot_best_parameters_convergence_uq(bases, tr, filename='bpuq', save_dir=save, is_save_fig=True, is_latex=False)
                expect(len(self.boxes) == len(NAMES), f'{where}: {len(self.boxes)} parameters drawn')
                for n, x in zip(NAMES, self.boxes):
                    want = np.array([[param(k)[n] for k in r] for r in o['pars']]).T
                    expect(x.shape == want.shape and np.allclose(x, want), f'{where}: best {n} of the realizations of every case {x}, specified {want}')
        finally:
            cp.save_figure, mp.save_figure = keep
            cp.plot_boxplots = real
            plt.close('all')


def run(ctx):
    torch.set_num_threads(1)
    torch.set_default_dtype(torch.float64)
    inv = ['Emit', 'Own', 'Apart', 'Homes']
    one, rand = ctx.tlc_many([
        (('Realizations',), dict(constants=dict(Sim=False, Bases={1}, MaxM=2, Types=set(KEYS[:1]), Families={'rnn'}, MaxOps=3 if ctx.quick else 4),
                                 spec='Spec', invariants=inv, label='every short history')),
        (('Realizations',), dict(constants=dict(Sim=True, Bases={1, 2, 3}, MaxM=12, Types=set(KEYS), Families=set(UQ), MaxOps=12),
                                 spec='Spec', invariants=inv, simulate=40 if ctx.quick else 300, depth=16, workers=4, label='random studies')),
    ])

    def replay(beh):
        torch.set_default_dtype(torch.float64)
        rng = np.random.default_rng(len(json.dumps(beh)) * 7 + ctx.seed)
        st = Study(ctx, beh)
        try:
            for i, o in enumerate(beh['ops']):
                where = f'op {i} {o["op"]}'
                if o['op'] == 'run':
                    st.run(o['b'], o['n'], o['t'], o['train'])
                    st.compare(full(o['st']), where)
                elif o['op'] == 'runall':
                    for b in range(1, beh['B'] + 1):
                        st.run(b, o['n'], o['t'], True)
                    st.compare(full(o['st']), where)
                elif o['op'] == 'forget':
                    shutil.rmtree(os.path.join(st.uq(o['b']), f'model_{o["i"]}', '3_model'))
                elif o['op'] == 'drop':
                    shutil.rmtree(os.path.join(st.uq(o['b']), f'model_{o["i"]}'))
                elif o['op'] == 'collect':
                    st.collect(o, where, rng)
                else:
                    st.study(o, where, rng)
        finally:
            ctx.rmdir(st.root)
        return len(beh['ops'])

    def full(s):
        for x in s['p']:
            for i in x:
                x[i] = {**{t: 0 for t in KEYS}, **x[i]}
        return s

    ctx.preplays([(one.behaviours, replay, 'every short history'), (rand.behaviours, replay, 'random studies')])
    ctx.assumptions += ['training and prediction of one model are scripted (they are the subject of C02, C03 and C06)']
