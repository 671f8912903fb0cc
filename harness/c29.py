"""C29: data set pruning. Runs of the code with scripted training and prediction are recorded as histories of
events, and TLC judges every history with spec/Pruning.tla."""
import json
import os
import pickle
import re

import numpy as np
import torch

from fw import Machinery, Violation, expect
import miscellaneous.pruning.pruning_dataset as pd
import time_series_data.time_dataset as td

BASE = {'in_distribution': ('5_testing_id_dataset', 1000), 'out_distribution': ('6_testing_od_dataset', 2000)}


def samples(ids):
    return [{'strain_path': torch.full((3, 2), float(i)), 'stress_path': torch.full((3, 2), 2.0 * i + 1)} for i in ids]


def ids(path):
    """Identifiers of the samples of a stored data set, which have to be unchanged."""
    ds = td.load_dataset(path)
    out = []
    for s in ds:
        i = int(s['strain_path'][0, 0])
        expect(bool((s['strain_path'] == i).all()) and bool((s['stress_path'] == 2 * i + 1).all())
               and s['strain_path'].shape == (3, 2), f'sample {i} of {os.path.basename(path)} was changed')
        out.append(i)
    return out


def tree(d):
    """Contents of a directory."""
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            with open(os.path.join(root, f), 'rb') as fh:
                out[os.path.relpath(os.path.join(root, f), d)] = fh.read()
    return out


class Run:
    """One pruning run, its scripted network and the recorded events."""

    def __init__(self, par, rng, root, types, tests):
        self.par, self.rng, self.root, self.types, self.tests = par, rng, root, types, tests
        self.events, self.trained, self.iters, self.steps = [], None, [], 0
        self.loss_of, self.nrmse_of = {}, {}

    def train(self, train_dataset_file_path, model_directory, val_dataset_file_path=None, **kw):
        expect(os.path.isdir(model_directory), 'model directory missing at training')
        expect(not os.listdir(model_directory), 'training starts from a model directory that is not empty')
        expect(val_dataset_file_path is not None, 'training without validation data set')
        self.trained = dict(dir=os.path.normpath(model_directory), tr=ids(train_dataset_file_path),
                            va=ids(val_dataset_file_path), ts={})
        self.flush()
        self.open = self.trained
        with open(os.path.join(model_directory, 'model.pt'), 'w') as fh:
            fh.write(json.dumps(sorted(self.trained['tr'])))

    def predict(self, predict_directory, dataset_file_path, model_directory, is_remove_sample_prediction=False, **kw):
        expect(self.trained is not None and os.path.normpath(model_directory) == self.trained['dir']
               and os.path.isfile(os.path.join(model_directory, 'model.pt')),
               'prediction with another model than the one just trained')
        expect(os.path.isdir(predict_directory), 'prediction directory missing')
        te = ids(dataset_file_path)
        d = os.path.join(predict_directory, 'prediction_set_0')
        os.makedirs(d)
        p = self.par
        lo = [(p['a'] * i + p['b'] * (self.steps + 1) * i) % p['m'] for i in te]
        order = list(range(len(te)))
        self.rng.shuffle(order)
        if not is_remove_sample_prediction:
            for j in order:
                with open(os.path.join(d, f'prediction_sample_{j}.pkl'), 'wb') as fh:
                    pickle.dump({'prediction_loss_data': ('features_out', 'mse', lo[j] / 7.0, False)}, fh)
        kind = os.path.basename(os.path.normpath(predict_directory))
        if os.path.basename(os.path.dirname(self.trained['dir'])) == 'pruning_step':
            self.trained.update(te=te, lo=lo)
        else:
            self.trained['ts'][kind] = te
        loss = float(self.rng.uniform(1, 2))
        self.trained.setdefault('loss', {})[kind] = loss
        return d, loss

    def flush(self):
        """Record the model that was trained before as an event."""
        t, self.open = getattr(self, 'open', None), None
        if t is None:
            return
        if 'te' in t:
            self.steps += 1
            self.events.append(dict(e='step', tr=t['tr'], va=t['va'], te=t['te'], lo=t['lo']))
            return
        inv = []
        for kind, te in t['ts'].items():
            if kind in BASE and te != self.tests[kind]:
                inv.append(f'the {kind} test set is not the given one')
        ts = dict(t['ts'])
        if 'unused_data' in self.types and 'unused_data' not in ts:
            ts['unused_data'] = []
        for kind in self.types:
            if kind not in ts:
                inv.append(f'no test on {kind}')
        self.iters.append(t)
        self.events.append(dict(e='iter', tr=t['tr'], va=t['va'], inv=inv,
                                ts={'unused_data': ts['unused_data']} if 'unused_data' in ts else {'none': []}))


def params(p):
    den = p['den']
    sched = {'n_prun_sample': p['np']} if p['sched'] == 'constant' else {'prun_ratio': p['np'] / den}
    return {'n_iter_max': p['nmax'], 'prun_scheduler_type': p['sched'], 'prun_scheduler_params': sched,
            'n_dev_min': p['nmin'], 'ratio_dev_min': p['rmin'] / den, 'n_prun_test_min': p['tmin'],
            'prun_test_ratio_max': p['rmax'] / den,
            'pruning_step_sizes': dict(zip(('training', 'validation', 'testing'), (x / den for x in p['s3']))),
            'pruning_iter_sizes': dict(zip(('training', 'validation'), (x / den for x in p['s2'])))}


def runner(ctx, out):
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item])
        torch.manual_seed(int(rng.integers(1 << 30)))
        par = b['par']
        root = ctx.tmpdir('c29')
        base = os.path.join(root, 'base_datasets')
        types = [t for t in ('in_distribution', 'out_distribution', 'unused_data') if rng.random() < 0.6]
        rng.shuffle(types)
        tests = {}
        os.makedirs(os.path.join(base, '1_training_dataset'))
        full = samples(range(1, par['n'] + 1))
        full = td.TimeSeriesDatasetInMemory(full)
        if rng.random() < 0.4:                          # the full data set is itself a part of another one
            order = list(range(par['n'] + 5))
            rng.shuffle(order)
            more = td.TimeSeriesDatasetInMemory(samples([i + 1 for i in order]))
            full = torch.utils.data.Subset(more, [j for j, i in enumerate(order) if i < par['n']])
        td.save_dataset(full, 'ss_paths_dataset', os.path.join(base, '1_training_dataset'), is_append_n_sample=True)
        for kind in ('in_distribution', 'out_distribution'):
            name, first = BASE[kind]
            n = int(rng.integers(1, 14))
            os.makedirs(os.path.join(base, name))
            tests[kind] = [first + i for i in range(n)]
            td.save_dataset(td.TimeSeriesDatasetInMemory(samples(tests[kind])), 'ss_paths_dataset',
                            os.path.join(base, name), is_append_n_sample=True)
            if rng.random() < 0.5:
                os.makedirs(os.path.join(base, name, 'plots'))
                with open(os.path.join(base, name, 'parameters.dat'), 'w') as fh:
                    fh.write('x')
        before = tree(base)
        traces = []
        train, predict = pd.perform_model_standard_training, pd.perform_model_prediction
        try:
            for again in range(2 if rng.random() < 0.2 else 1):
                r = Run(par, rng, root, types, tests)
                pd.perform_model_standard_training, pd.perform_model_prediction = r.train, r.predict
                remove = bool(rng.random() < 0.5)
                given, data = pd.prune_time_series_dataset(root, tuple(types), pruning_params=params(par),
                                                           is_remove_pruning_models=remove)
                r.flush()
                r.events.append(dict(e='end'))
                results(r, given, data, remove, len(full))
                traces.append(dict(par=par, ev=r.events, types=types))
        finally:
            pd.perform_model_standard_training, pd.perform_model_prediction = train, predict
        expect(tree(base) == before, 'pruning changed the base data sets')
        with open(os.path.join(out, f'{ctx.item}.json'), 'w') as fh:
            json.dump(traces, fh)
        ctx.rmdir(root)
        return sum(len(t['ev']) for t in traces)
    return run


def results(r, given, data, remove, n_full):
    """The reported results are those of the recorded events."""
    par, n = r.par, len(r.iters)
    expect(set(data) == {str(i) for i in range(n)}, f'{n} iterations, results for {sorted(data)}')
    with open(os.path.join(r.root, 'pruning_data.pkl'), 'rb') as fh:
        kept = pickle.load(fh)
    expect(kept['pruning_iterative_data'] == data and kept['pruning_params'] == given, 'stored results differ')
    expect(given['n_full'] == n_full, 'recorded size of the full data set')
    with open(os.path.join(r.root, 'summary.dat')) as fh:
        text = fh.read()
    rows = re.findall(r'^ *(\d+) +(\d+) +([\d.]+) +(\d+) +([\d.]+) +(\d+) +([\d.]+) +(\d+) +([\d.]+)(.*)$', text, re.M)
    expect(len(rows) == n, f'{n} iterations, {len(rows)} rows in the summary')
    last = {len(t['tr']): i for i, t in enumerate(r.iters)}
    for i, t in enumerate(r.iters):
        d, n_dev = data[str(i)], len(t['tr']) + len(t['va'])
        want = dict(iter=i, n_full=n_full, n_dev=n_dev, n_train=len(t['tr']), n_valid=len(t['va']), n_unused=n_full - n_dev)
        expect(all(d[q] == v for q, v in want.items()), f'results of iteration {i}: {d}, recorded {want}')
        loss = {k: t.get('loss', {}).get(k) for k in r.types}
        expect(d['testing_types_loss'] == loss, f'test losses of iteration {i}: {d["testing_types_loss"]}, returned {loss}')
        row = rows[i]
        expect([int(row[j]) for j in (0, 1, 3, 5, 7)] == [i, n_dev, len(t['tr']), len(t['va']), n_full - n_dev],
               f'row {i} of the summary: {row}')
        shown = [f'{loss[k]:.4e}' for k in ('in_distribution', 'out_distribution', 'unused_data') if loss.get(k) is not None]
        expect(row[9].split() == shown, f'losses in row {i} of the summary: {row[9]}, returned {shown}')
        here = os.path.dirname(t['dir'])
        if last[len(t['tr'])] != i:
            continue                                    # a later iteration of the same size has taken its directory
        for name, want in (('1_training_dataset', t['tr']), ('2_validation_dataset', t['va'])):
            fs = os.listdir(os.path.join(here, name))
            expect(len(fs) == 1 and ids(os.path.join(here, name, fs[0])) == want, f'{name} of iteration {i}: {fs}')
        for kind, te in t['ts'].items():
            name = BASE[kind][0] if kind in BASE else '8_testing_unused_dataset'
            fs = os.listdir(os.path.join(here, name))
            expect(len(fs) == 1 and ids(os.path.join(here, name, fs[0])) == te, f'{name} of iteration {i}: {fs}')
        expect(os.path.isdir(t['dir']) != remove, f'model of iteration {i} {"kept" if remove else "lost"}')
        if not remove:
            with open(os.path.join(t['dir'], 'model.pt')) as fh:
                expect(json.load(fh) == sorted(t['tr']), f'model of iteration {i} is another')
    left = set(os.listdir(os.path.join(r.root, 'pruned_datasets')))
    expect(left == {f'n{k}' for k in last}, f'directories left: {sorted(left)}')


def run(ctx):
    torch.set_num_threads(1)
    runs = ctx.tlc_many([
        (('Pruning',), dict(constants=dict(Mode='explore', MaxN=0), spec='Spec', label='explore',
                            invariants=['Partition', 'Pruned', 'Share', 'Bounded'], properties=['NeverBack'], workers=4)),
    ] + [
        (('Pruning',), dict(constants=dict(Mode='cases', MaxN=60 + 20 * i), spec='Spec', label=f'cases {i}', invariants=['Emit'],
                            workers=1)) for i in range(1 if ctx.quick else 6)])
    items = [b for c in runs[1:] for b in sorted(c.behaviours, key=lambda b: b['k'])]
    out = ctx.tmpdir('traces')
    ctx.preplay(items, runner(ctx, out), 'pruning')
    recs = []
    for f in sorted(os.listdir(out), key=lambda f: int(f[:-5])):
        with open(os.path.join(out, f)) as fh:
            recs += json.load(fh)
    if not recs:
        if not ctx.violations:
            raise Machinery('no recorded run')
        return
    j = ctx.tlc('Pruning', dict(Mode='check', MaxN=0), spec='Spec', invariants=['Emit', 'Partition'], label='judge',
                files={'records.json': recs})
    if {b['k'] for b in j.behaviours} != set(range(1, len(recs) + 1)):
        raise Machinery('not every recorded run was judged')
    ctx.extra['runs_judged'] = len(recs)
    ctx.extra['pruning_steps_judged'] = sum(e['e'] == 'step' for r in recs for e in r['ev'])

    def one(b):
        rec = recs[b['k'] - 1]
        if b['why'] or b['stage'] != 'ended':
            raise Violation(b['why'] or 'the run did not end', dict(par=rec['par'], event=rec['ev'][b['at'] - 1],
                                                                  history=rec['ev'][:b['at'] - 1]))
        return b['at']
    ctx.replay(sorted(j.behaviours, key=lambda b: b['k']), one, 'judgement')
