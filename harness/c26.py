"""C26: histories of spec/Metrics.tla replayed on the real metrics, report files, result arrays and losses."""
import math
import os
import pickle

import numpy as np
import torch

from fw import expect, expect_raises
from model_architectures.materials.process_predictions import (
    build_prediction_data_arrays, build_time_series_predictions_data)
from model_architectures.procedures.model_prediction import save_sample_predictions
from time_series_data.time_dataset import TimeSeriesDatasetInMemory, save_dataset
from utilities.loss_functions import get_pytorch_loss
from utilities.output_prediction_metrics import (
    compute_directory_prediction_metrics, compute_processes_prediction_metrics, get_samples_prediction_files,
    plot_prediction_metrics_convergence, read_mean_metrics_results_file, write_mean_metrics_results_file)
from utilities.prediction_metrics import compute_prediction_metrics

S = 4.0


def same(a, b, rtol=2e-5):
    a, b = [float(x) for x in a], [float(x) for x in b]
    return len(a) == len(b) and all(
        (math.isnan(x) and math.isnan(y)) or x == y or (math.isfinite(y) and abs(x - y) <= rtol * abs(y) + 1e-9)
        for x, y in zip(a, b))


def rmse(f):
    return [math.sqrt(s / f['T']) / S for s in f['se']]


def gt(f):
    return [a / f['T'] / S for a in f['ag']]


def ratio(a, b):
    return a / b if b else (math.nan if a == 0 else math.inf)


def facts_of(x):
    """A function of sample ids arrives as an object, or as a list when the ids are 1..k."""
    return list(x.values()) if isinstance(x, dict) else list(x)


def means(facts, which):
    out = {}
    for m in which:
        rows = [rmse(f) if m == 'rmse' else [ratio(a, b) for a, b in zip(rmse(f), gt(f))] for f in facts_of(facts)]
        out[m] = [math.fsum(c) / len(c) if all(math.isfinite(v) for v in c) else sum(c) / len(c) for c in zip(*rows)]
    return out


class MetricsRun:
    def __init__(self, hist, ctx, k):
        self.hist, self.ctx, self.k = hist, ctx, k
        self.root = ctx.tmpdir('metrics')
        self.dir = os.path.join(self.root, 'prediction_set_0')
        self.rep = os.path.join(self.root, 'report')
        os.makedirs(self.dir)
        os.makedirs(self.rep)
        self.samples = {}

    def run(self):
        try:
            for i, h in enumerate(self.hist):
                self.where = f'step {i + 1} ({h["op"]})'
                getattr(self, 'op_' + h['op'])(h)
        finally:
            self.ctx.rmdir(self.root)
        return len(self.hist)

    def path(self, i):
        return os.path.join(self.dir, f'prediction_sample_{i}.pkl')

    def op_put(self, h):
        s = h['sample']
        self.samples[h['id']] = s
        save_sample_predictions(self.dir, h['id'], dict(
            features_out=torch.tensor(s['out']) / S, targets=torch.tensor(s['tgt']) / S if s['gt'] else None,
            stress_comps_order=('11', '22')))

    def op_delete(self, h):
        os.remove(self.path(h['id']))
        del self.samples[h['id']]

    def op_junk(self, h):
        if h['kind'] == 'folder':
            os.makedirs(os.path.join(self.dir, 'plots'), exist_ok=True)
            return
        name = {'bak': 'prediction_sample_1.pkl.bak', 'summary': 'summary.dat', 'named': 'prediction_sample_best.pkl'}[h['kind']]
        with open(os.path.join(self.dir, name), 'w') as f:
            f.write('no results')

    def op_one(self, h):
        labels = sorted(h['which'])
        if not h['ok']:
            expect_raises(lambda: compute_prediction_metrics(self.path(h['id']), labels),
                          f'{self.where}: metrics without ground truth')
            return
        got = compute_prediction_metrics(self.path(h['id']), labels)
        f = h['facts']
        want = {'mse': [s / f['T'] / S ** 2 for s in f['se']], 'rmse': rmse(f), 'mav': [a / f['T'] / S for a in f['av']],
                'mav_gt': gt(f)}
        expect(set(got) == set(labels), f'{self.where}: metrics {sorted(got)}')
        for m in labels:
            expect(same(got[m].tolist(), want[m]), f'{self.where}: {m} of sample {h["id"]}',
                   dict(got=got[m].tolist(), spec=want[m]))

    def means(self, got, facts, which, where):
        want = means(facts, which)
        expect(set(got) == set(which), f'{where}: metrics {sorted(got)}, specified {sorted(which)}')
        for m in which:
            expect(same(got[m].tolist(), want[m]), f'{where}: mean {m}', dict(got=got[m].tolist(), spec=want[m]))

    def op_mean(self, h):
        which = sorted(h['which'])
        call = lambda: compute_directory_prediction_metrics(self.dir, which, process_label='p', is_save_file=h['save'])
        if not h['ok']:
            expect_raises(call, f'{self.where}: metrics without ground truth')
            return
        n, got = call()
        expect(n == h['n'], f'{self.where}: {n} samples, specified {h["n"]}')
        self.means(got, h['facts'], which, self.where)
        paths, ids = get_samples_prediction_files(self.dir)
        expect(sorted(ids) == sorted(self.samples) and sorted(paths) == sorted(self.path(i) for i in ids)
               and [os.path.basename(p) for p in paths] == [f'prediction_sample_{i}.pkl' for i in ids],
               f'{self.where}: result files', dict(ids=ids, paths=paths))
        if h['save']:
            f = os.path.join(self.dir, 'prediction_metrics', 'mean_prediction_metrics.dat')
            for k in (None, h['n']):
                self.means(read_mean_metrics_results_file(f, k), h['facts'], which, f'{self.where}, read back')

    def op_write(self, h):
        which = ['rmse', 'nrmse']
        if self.k % 2 and not h['over']:
            out = compute_processes_prediction_metrics({h['label']: self.dir}, which, save_dir=self.rep, is_save_file=True)
            expect(set(out) == {h['label']} and out[h['label']]['n_sample'] == h['n'], f'{self.where}: processes')
            if self.k % 5 == 0:
                self.convergence(out, which)
        else:
            n, got = compute_directory_prediction_metrics(self.dir, which)
            write_mean_metrics_results_file(self.rep, n, got, process_label=h['label'], is_overwrite=h['over'])

    def convergence(self, out, which):
        """The plotted convergence data are the metrics of the processes in the order of their sizes."""
        m = out[next(iter(out))]['mean_metrics_results']
        if not all(torch.isfinite(v).all() for v in m.values()):
            return
        procs = {f'n{c}': dict(n_sample=1, mean_metrics_results={k: v * c for k, v in m.items()}) for c in (400, 3, 20)}
        d = os.path.join(self.root, 'conv')
        os.makedirs(d, exist_ok=True)
        plot_prediction_metrics_convergence(procs, which, save_dir=d, is_save_plot_data=True)
        for k in which:
            with open(os.path.join(d, 'plot_data', f'mean_{k}_convergence_data.pkl'), 'rb') as f:
                data = pickle.load(f)['data_xy']
            want = np.array([[v for x in m[k].tolist() for v in (c, x * c)] for c in (3, 20, 400)])
            expect(data.shape == want.shape and np.allclose(data, want, rtol=1e-5), f'{self.where}: convergence data of {k}',
                   dict(got=data.tolist(), spec=want.tolist()))

    def op_read(self, h):
        f = os.path.join(self.rep, 'mean_prediction_metrics.dat')
        call = lambda: read_mean_metrics_results_file(f, h['k'] or None)
        if h['ok']:
            self.means(call(), h['facts'], ['rmse', 'nrmse'], f'{self.where}, {h["k"] or "any number of"} samples')
        else:
            expect_raises(call, f'{self.where}: metrics read without a report of {h["k"]} samples')

    def op_arrays(self, h):
        labels = ['a', 'b'][:h['nc']]
        ids = 'all' if h['all'] else list(h['ids'])
        call = lambda: build_prediction_data_arrays(self.dir, h['kind'], labels, samples_ids=ids)
        rows = h['rows']
        if not h['ok']:
            expect_raises(call, f'{self.where}: arrays of missing samples or without ground truth')
            return
        rows = {int(k): v for k, v in rows.items()} if isinstance(rows, dict) else {i + 1: v for i, v in enumerate(rows)}
        got = call()
        expect(len(got) == h['nc'], f'{self.where}: {len(got)} arrays, specified {h["nc"]}')
        for m in range(h['nc']):
            a = [tuple(r) for r in np.asarray(got[m]).tolist()]
            b = [tuple(x / S for x in r) for i in (sorted(rows) if h['all'] else ids) for r in rows[i][m]]
            expect((sorted(a) == sorted(b)) if h['all'] else a == b, f'{self.where}: array {m} ({h["kind"]})',
                   dict(got=a, spec=b))
        self.series(h, labels, ids, rows)

    def series(self, h, labels, ids, rows):
        """Time series of the samples of a data set: time, ground truth and the predictions of one or several models."""
        base = os.path.join(self.root, f'model_{self.where.split()[1]}')
        dd = os.path.join(base, '5_testing')
        os.makedirs(dd)
        N = max(rows) + 1
        if N > 12:
            return
        times = [torch.arange(self.samples[i]['T'] if i in self.samples else 2).reshape(-1, 1) * (i + 1.0) for i in range(N)]
        ds = TimeSeriesDatasetInMemory([dict(time_hist=t) for t in times])
        save_dataset(ds, 'ts_dataset', dd)
        f = next(os.path.join(dd, x) for x in os.listdir(dd))
        got = build_time_series_predictions_data(f, self.dir, h['kind'], labels, samples_ids=ids)
        self.series_check(got, h, rows, times, [0.0])
        if not h['all']:
            expect_raises(lambda: build_time_series_predictions_data(f, self.dir, h['kind'], labels, samples_ids=ids + [N]),
                          f'{self.where}: sample outside of the data set accepted')
        # several models: the same predictions shifted by the model number, in the order of the numbers
        nums = (0, 2, 10)
        for c in nums:
            d = os.path.join(base, 'uncertainty_quantification', f'model_{c}', '7_prediction', 'in_distribution')
            os.makedirs(d)
            for i, s in self.samples.items():
                if s['gt']:
                    save_sample_predictions(d, i, dict(features_out=torch.tensor(s['out']) / S + c,
                                                       targets=torch.tensor(s['tgt']) / S, stress_comps_order=('11', '22')))
        got = build_time_series_predictions_data(f, os.path.join(base, '7_prediction', 'in_distribution', 'prediction_set_0'),
                                                 h['kind'], labels, samples_ids=ids if not h['all'] else 'all',
                                                 is_uncertainty_quantification=True)
        self.series_check(got, h, rows, times, nums)

    def series_check(self, got, h, rows, times, shifts):
        expect(len(got) == h['nc'], f'{self.where}: {len(got)} series, specified {h["nc"]}')
        for m in range(h['nc']):
            expect({int(k) for k in got[m]} == set(rows), f'{self.where}: samples of the series {sorted(got[m])}')
            for i in rows:
                want = np.array([[float(t), r[0] / S] + [r[1] / S + c for c in shifts]
                                 for t, r in zip(times[i].ravel(), rows[i][m])])
                a = np.asarray(got[m][str(i)])
                expect(a.shape == want.shape and np.array_equal(a, want), f'{self.where}: time series of sample {i}',
                       dict(got=a.tolist(), spec=want.tolist()))

    def op_loss(self, h):
        how = h['how']
        if how == 'unknown':
            expect_raises(lambda: get_pytorch_loss('no_loss'), f'{self.where}: unknown loss accepted')
            return
        if how == 'badzero':
            expect_raises(lambda: get_pytorch_loss('mre', zero_handling='ignore'), f'{self.where}: unknown treatment accepted')
            return
        o = (torch.tensor(h['out'], dtype=torch.float32) / S).requires_grad_()
        t = torch.tensor(h['tgt'], dtype=torch.float32) / S
        m = len(h['out'])
        d = [a / S for a in h['num']]
        if how == 'mse':
            fn = get_pytorch_loss('mse')
            want = sum(a * a for a in d) / m
            grad = [2 * (a - b) / S / m for a, b in zip(h['out'], h['tgt'])]
        else:
            fn = get_pytorch_loss('mre', zero_handling=how, small=h['s'] / S)
            den = [c / S if c else 1.0 for c in h['den']]
            want = sum(a / c for a, c in zip(d, den)) / m
            grad = [math.copysign(1.0, a - b) / c / m if a != b else 0.0 for a, b, c in zip(h['out'], h['tgt'], den)]
        shape = (m, 1) if self.k % 2 else (m,)
        v = fn(o.reshape(shape), t.reshape(shape))
        expect(v.ndim == 0 and same([v], [want]), f'{self.where}: loss ({how})', dict(got=float(v), spec=want, case=h))
        bad = o.detach().clone()
        bad[-1] = math.nan                                # an undefined prediction is not passed over
        expect(math.isnan(float(fn(bad.reshape(shape), t.reshape(shape)))), f'{self.where}: loss of an undefined prediction ({how})')
        v.backward()
        expect(same(o.grad.tolist(), grad), f'{self.where}: gradient of the loss ({how})',
               dict(got=o.grad.tolist(), spec=grad, case=h))

    def op_bad(self, h):
        p = self.path(h['id'])
        if h['kind'] == 'metric':
            expect_raises(lambda: compute_prediction_metrics(p, ['no_metric']), f'{self.where}: unknown metric accepted')
        elif h['kind'] == 'mean':
            expect_raises(lambda: compute_directory_prediction_metrics(self.dir, ['mse_mean']),
                          f'{self.where}: unknown mean metric accepted')
        elif h['kind'] == 'type':
            expect_raises(lambda: build_prediction_data_arrays(self.dir, 'no_type', ['a']), f'{self.where}: unknown type accepted')
        else:
            expect_raises(lambda: build_prediction_data_arrays(self.dir + '_x', 'stress_comps', ['a']),
                          f'{self.where}: missing folder accepted')
            expect_raises(lambda: compute_prediction_metrics(self.path(99), ['mse']), f'{self.where}: missing file accepted')


def run(ctx):
    inv = ['Sound', 'Emit']
    runs = [(('Metrics', dict(MaxOps=2 if ctx.quick else 3, Sim=False)),
             dict(spec='Spec', invariants=inv, workers=1, label='Metrics/all short histories')),
            (('Metrics', dict(MaxOps=18, Sim=True)),
             dict(spec='Spec', invariants=inv, simulate=250 if ctx.quick else 4000, depth=22, label='Metrics/random histories'))]
    res = ctx.tlc_many(runs)
    small = res[0].behaviours
    cap = 500 if ctx.quick else 5000
    if len(small) > cap:
        step = len(small) // cap + 1
        small = small[ctx.seed % step::step]
    ctx.preplay(list(enumerate(small + res[1].behaviours)), lambda it: MetricsRun(it[1], ctx, it[0]).run(), 'metrics')
