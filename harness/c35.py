"""C35: training and prediction studies of the local models (spec/Studies.tla)."""
import glob
import hashlib
import inspect
import os
import pickle
import re
import shutil

import matplotlib
matplotlib.use('Agg')
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
import torch

from fw import Machinery, expect, expect_raises
import time_series_data.time_dataset as td
from model_architectures.hybrid_base_model.model.hybrid_model import HybridModel
from model_architectures.procedures.model_data_scaling import data_scaler_transform
from model_architectures.rc_base_model.model.recurrent_model import RecurrentConstitutiveModel
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
import user_scripts.local_model_update.hybrid_material_model.predict as p_hybrid
import user_scripts.local_model_update.hybrid_material_model.train_model as t_hybrid
import user_scripts.local_model_update.rc_material_model.predict as p_rc
import user_scripts.local_model_update.rc_material_model.train_model as t_rc
import user_scripts.local_model_update.rnn_material_model.predict as p_rnn
import user_scripts.local_model_update.rnn_material_model.train_model as t_rnn

TRAIN = {'rnn': t_rnn, 'rc': t_rc, 'hybrid': t_hybrid}
PRED = {'rnn': p_rnn, 'rc': p_rc, 'hybrid': p_hybrid}
CLS = {'rnn': GRURNNModel, 'rc': RecurrentConstitutiveModel, 'hybrid': HybridModel}
COMPS = ('11', '22', '33', '12', '23', '13')
HID = 4


def tree(d, skip=()):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            if not any(p.startswith(s) for s in skip):
                with open(p, 'rb') as h:
                    out[p] = hashlib.md5(h.read()).hexdigest()
    return out


def stats(x):
    """Mean and standard deviation of features over all steps of all paths."""
    x = np.asarray(x, np.float64).reshape(-1, x.shape[-1])
    m = np.array([np.sum(c) / len(c) for c in x.T])
    return m, np.sqrt(np.array([np.sum((c - k) ** 2) / len(c) for c, k in zip(x.T, m)]))


class Study:
    def __init__(self, b, root, rng):
        self.b, self.root, self.rng, self.steps = b, root, rng, 0
        self.mod, self.prd = TRAIN[b['fam']], PRED[b['fam']]
        self.model_dir = os.path.join(root, '3_model')
        self.x, self.y, self.e, self.t, self.file = {}, {}, {}, {}, {}
        self.made, self.figs, self.scale = {}, [], None
        os.makedirs(self.model_dir)
        for d in range(1, len(b['size']) + 1):
            n, m = b['size'][d - 1], b['len'][d - 1]
            x = np.cumsum(rng.normal(size=(n, m, 6)) * 2e-3, axis=1)
            self.x[d] = x.astype(np.float32)
            self.e[d] = (x * rng.uniform(0.2, 0.9, size=x.shape)).astype(np.float32)
            self.y[d] = (rng.normal(size=(n, m, 6)) * 300 + rng.normal(size=6) * 200).astype(np.float32)
            self.t[d] = np.cumsum(rng.uniform(0.1, 1, size=(n, m)), axis=1).astype(np.float32)
            path = os.path.join(root, f'data_{d}')
            os.makedirs(path)
            os.makedirs(self.pdir(d))
            sam = [dict(time_hist=torch.tensor(self.t[d][i])[:, None], strain_path=torch.tensor(self.x[d][i]), stress_path=torch.tensor(self.y[d][i]),
                        e_strain_mf=torch.tensor(self.e[d][i]), strain_comps_order=COMPS, stress_comps_order=COMPS) for i in range(n)]
            td.save_dataset(td.TimeSeriesDatasetInMemory(sam), 'ss_paths_dataset', path, is_append_n_sample=True)
            self.file[d] = glob.glob(os.path.join(path, '*.pkl'))[0]
            self.made[d] = []

    def pdir(self, d):
        return os.path.join(self.root, '7_prediction', f'type_{d}')

    # ------------------------------------------------------------ figures
    def saved(self, figure, path, *a, **kw):
        ax = []
        for x in figure.axes:
            ax.append(dict(lines=[(np.array(z.get_xdata(), float), np.array(z.get_ydata(), float)) for z in x.lines],
                           dots=[np.array(np.ma.filled(c.get_offsets(), np.nan), float) for c in x.collections if isinstance(c, matplotlib.collections.PathCollection)],
                           segs=[c.get_segments() for c in x.collections if isinstance(c, matplotlib.collections.LineCollection)]))
        self.figs.append(dict(path=str(path), name=os.path.splitext(os.path.basename(str(path)))[0], axes=ax))
        with open(path, 'w') as f:
            f.write('figure')

    def drawn(self, name, where, x, ys):
        f = [z for z in self.figs if z['name'] == name]
        expect(len(f) == 1, f'{where}: {len(f)} figures {name}')
        lines = [z for a in f[0]['axes'] for z in a['lines']]
        for what, y in ys.items():
            scale = max(1e-12, np.abs(np.asarray(y, float)).max())
            expect(any(len(lx) >= len(x) and np.allclose(lx[:len(x)], x, rtol=1e-5, atol=1e-6) and np.allclose(ly[:len(x)], y, rtol=1e-4, atol=1e-5 * scale)
                       and np.isnan(ly[len(x):]).all() for lx, ly in lines), f'{where}: {what} is not drawn in {name}')

    # ------------------------------------------------------------ operations
    def small(self):
        """Small networks: the sizes of the scripts are those of production runs."""
        old = {}

        def put(n, f):
            old[n] = getattr(self.mod, n)
            setattr(self.mod, n, f(old[n]))
        if self.b['fam'] == 'rnn':
            def f(real):
                def g(*a, **k):
                    r = real(*a, **k)
                    r['hidden_layer_size'], r['n_recurrent_layers'] = HID, 2
                    return r
                return g
            put('set_default_model_parameters', f)
        if self.b['fam'] == 'hybrid':
            def f(real):
                def g(cls, *a, **k):
                    if cls is GRURNNModel:
                        k['model_init_args'] = dict(k['model_init_args'], hidden_layer_size=HID, n_recurrent_layers=2)
                    return real(cls, *a, **k)
                return g
            put('set_hybridized_model', f)
        return old, put

    def check_data(self, ds, d, where):
        expect(len(ds) == len(self.x[d]), f'{where}: {len(ds)} paths instead of {len(self.x[d])}')
        for i in range(len(ds)):
            s = ds[i]
            expect(np.array_equal(s['features_in'].numpy(), self.x[d][i]), f'{where}: input features of path {i} are not its strains')
            expect(np.array_equal(s['features_out'].numpy(), self.y[d][i]), f'{where}: output features of path {i} are not its stresses')
            if 'hidden_features_in' in s:
                expect(float(s['hidden_features_in'].abs().max()) == 0, f'{where}: initial memory of path {i} is not zero')

    def train(self, o):
        where = f'{self.b["fam"]} training on data set {o["d"]}'
        shutil.rmtree(self.model_dir)
        os.makedirs(self.model_dir)
        fn = self.mod.perform_model_standard_training
        kw = {} if o['v'] == 0 else dict(val_dataset_file_path=self.file[o['v']])
        before = tree(self.root, (self.model_dir,))
        old, put = self.small()
        calls = []

        def wrap(real):
            sig = inspect.signature(real)

            def g(*a, **k):
                ba = sig.bind(*a, **k)
                ba.apply_defaults()
                q = ba.arguments
                calls.append(dict(q))
                ds = q.get('train_dataset', q.get('dataset'))
                self.check_data(ds, o['d'], f'{where}: training data')
                if q['is_early_stopping']:
                    self.check_data(q['early_stopping_kwargs']['validation_dataset'], o['v'], f'{where}: validation data')
                expect(os.path.realpath(q['model_init_args']['model_directory']) == os.path.realpath(self.model_dir), f'{where}: model stored in another folder')
                expect(q['model_load_state'] is None, f'{where}: does not start anew')
                q['n_max_epochs'] = o['e']
                return real(*ba.args, **ba.kwargs)
            return g
        put('train_model', wrap)
        self.figs = []
        try:
            if not o['ok']:
                expect_raises(lambda: fn(self.file[o['d']], self.model_dir, **kw), f'{where}: accepted without validation data', RuntimeError)
            else:
                fn(self.file[o['d']], self.model_dir, **kw)
        finally:
            for n, v in old.items():
                setattr(self.mod, n, v)
            plt.close('all')
        expect(tree(self.root, (self.model_dir,)) == before, f'{where}: changed files outside of the model folder')
        if not o['ok']:
            expect(not calls, f'{where}: trained before it was refused')
            return
        expect(len(calls) == 1, f'{where}: {len(calls)} trainings')
        self.train_set = o['d']
        # records and figures of the training
        with open(os.path.join(self.model_dir, 'loss_history_record.pkl'), 'rb') as f:
            rec = pickle.load(f)
        hist = [float(x) for x in rec['training_loss_history']]
        expect(len(hist) == o['e'] + 1 or len(hist) <= o['e'] + 1 and self.b['fam'] != 'rc', f'{where}: {len(hist)} recorded losses of {o["e"]} epochs')
        ys = {'the training loss': hist}
        self.drawn('training_loss_history', where, np.arange(len(hist)), ys)
        if self.b['fam'] != 'rc':
            val = [float(x) for x in rec['validation_loss_history']]
            self.drawn('training_loss_history', where, np.arange(len(val)), {'the validation loss': val})
        lr = [float(x[0] if isinstance(x, (list, tuple)) else x) for x in rec['lr_history_epochs']]
        self.drawn('training_loss_and_lr_history', where, np.arange(len(hist)), dict(ys, **{'the learning rate': lr}))
        if self.b['fam'] == 'rc':
            with open(os.path.join(self.model_dir, 'parameters_history_record.pkl'), 'rb') as f:
                rec = pickle.load(f)
            q = calls[0]['model_init_args']['learnable_parameters']
            expect(set(rec['model_parameters_history']) == set(q), f'{where}: histories of parameters {sorted(rec["model_parameters_history"])}')
            for n, h in rec['model_parameters_history'].items():
                h = [float(z) for z in h]
                lo, hi = q[n]['bounds']
                expect(all(lo - 1e-4 * (hi - lo) <= z <= hi + 1e-4 * (hi - lo) for z in h), f'{where}: parameter {n} leaves its bounds: {h}')
                expect(abs(h[0] - q[n]['initial_value']) <= 1e-4 * (hi - lo), f'{where}: parameter {n} starts at {h[0]} instead of {q[n]["initial_value"]}')
                self.drawn(f'model_parameter_history_{n}', where, np.arange(len(h)), {f'parameter {n}': h})
                seg = [s for f in self.figs if f['name'] == f'model_parameter_history_{n}' for a in f['axes'] for c in a['segs'] for s in c]
                for z in (lo, hi):
                    expect(any(np.allclose(s[:, 1], z) for s in seg), f'{where}: bound {z} of parameter {n} is not drawn')
        # one best state; states of other epochs are spoilt, so that only the best one can give the right predictions
        pts = [p for p in glob.glob(os.path.join(self.model_dir, '*.pt')) if '_optim' not in os.path.basename(p)]
        best = [p for p in pts if re.search('best', os.path.basename(p))]
        expect(len(best) == 1, f'{where}: best states {sorted(map(os.path.basename, pts))}')
        state = torch.load(best[0])
        for p in pts:
            if p != best[0]:
                st = torch.load(p)
                torch.save({k: v + 0.37 if torch.is_floating_point(v) else v for k, v in st.items()}, p)
        m = CLS[self.b['fam']].init_model_from_file(model_directory=self.model_dir)
        m.load_state_dict(state)
        m.eval()
        self.model, self.norm = m, (stats(self.x[o['d']]), stats(self.y[o['d']]))
        self.steps += 5

    def answer(self, d):
        """Predictions of the best state, path by path."""
        out = []
        (mx, sx), (my, sy) = self.norm
        with torch.no_grad():
            for x in self.x[d]:
                x = torch.tensor(x)[:, None, :]
                if self.b['fam'] == 'rnn':
                    x = torch.tensor((x.numpy() - mx) / sx, dtype=torch.float32)
                    y = self.model(x, torch.zeros(2, 1, HID))
                else:
                    y = self.model(x)
                y = (y[0] if isinstance(y, tuple) else y)[:, 0, :].numpy().astype(np.float64)
                if self.b['fam'] != 'rc':
                    y = y * sy + my
                out.append(y)
        return np.array(out)

    def predict(self, o):
        d = o['d']
        where = f'{self.b["fam"]} prediction of data set {d} ({len(self.x[d])} paths)'
        fn = self.prd.perform_model_prediction
        kw = dict(is_remove_sample_prediction=True) if o['remove'] else {}
        before = tree(self.root)
        self.figs = []
        try:
            if not o['ok']:
                expect_raises(lambda: fn(self.pdir(d), self.file[d], self.model_dir, **kw), f'{where}: accepted without a model', RuntimeError)
                expect(tree(self.root) == before, f'{where}: refused but changed files')
                return
            r = fn(self.pdir(d), self.file[d], self.model_dir, **kw)
        finally:
            plt.close('all')
        sub, avg = r if isinstance(r, tuple) else (r, None)
        want = os.path.join(self.pdir(d), f'prediction_set_{len(o["sets"]) - 1}')
        expect(os.path.realpath(sub) == os.path.realpath(want), f'{where}: stored in {sub}, specified {want}')
        after = tree(self.root)
        expect({p: h for p, h in after.items() if not os.path.realpath(p).startswith(os.path.realpath(want) + os.sep)} == before,
               f'{where}: changed other files than those of its prediction set')
        y, t, n = self.answer(d), self.y[d].astype(np.float64), len(self.x[d])
        sig = max(1.0, np.abs(y).max(), np.abs(t).max())
        tol = 2e-3 if self.b['fam'] != 'rnn' else 1e-4
        names = sorted(f for f in os.listdir(sub) if f.startswith('prediction_sample'))
        expect(names == ([] if o['remove'] else sorted(f'prediction_sample_{i}.pkl' for i in range(n))), f'{where}: sample files {names} (remove={o["remove"]})')
        for i in range(n if names else 0):
            with open(os.path.join(sub, f'prediction_sample_{i}.pkl'), 'rb') as f:
                s = pickle.load(f)
            expect(np.array_equal(s['targets'].numpy(), self.y[d][i]), f'{where}: ground truth of path {i}')
            expect(np.abs(s['features_out'].numpy() - y[i]).max() <= tol * sig, f'{where}: predictions of path {i} are not those of the best state', (s['features_out'].tolist(), y[i].tolist()))
        mse = np.mean([np.mean((y[i] - t[i]) ** 2) for i in range(n)])
        if avg is not None:
            expect(abs(float(avg) - mse) <= 4 * tol * sig ** 2, f'{where}: average loss {float(avg)}, specified {mse}')
        # table of metrics
        path = os.path.join(sub, 'prediction_metrics', 'mean_prediction_metrics.dat')
        expect(os.path.isfile(path), f'{where}: no metrics')
        txt = open(path).read()
        expect(int(re.search(r'n_sample\s*=\s*(\d+)', txt).group(1)) == n, f'{where}: metrics of another number of paths')
        rmse = np.array([np.sqrt(np.mean((y[i] - t[i]) ** 2, axis=0)) for i in range(n)])
        mav = np.array([np.mean(np.abs(t[i]), axis=0) for i in range(n)])
        for k, v in (('rmse', rmse.mean(0)), ('nrmse', (rmse / mav).mean(0))):
            got = np.array([float(z) for z in re.search(r'>\s*' + k + r':\s*\[([^\]]*)\]', txt).group(1).split(',')])
            expect(got.shape == v.shape and np.allclose(got, v, rtol=20 * tol, atol=2 * tol * (sig if k == 'rmse' else (sig / mav).max())), f'{where}: {k} {got}, specified {v}')
        # figures
        for c in range(6):
            f = [z for z in self.figs if z['name'] == f'stress_{COMPS[c]}']
            expect(len(f) == 1, f'{where}: {len(f)} figures stress_{COMPS[c]}')
            dots = [z for a in f[0]['axes'] for z in a['dots']]
            w = np.stack([t[:, :, c].ravel(), y[:, :, c].ravel()], 1)
            expect(any(z.shape == w.shape and self.same_cloud(z, w, tol * sig) for z in dots), f'{where}: truth against prediction of stress {COMPS[c]} is not drawn')
            for i in range(min(5, n)):
                f = [z for z in self.figs if z['name'] == f'stress_{COMPS[c]}_path_sample_{i}']
                expect(len(f) == 1, f'{where}: {len(f)} figures of stress {COMPS[c]} of path {i}')
                lines = [z for a in f[0]['axes'] for z in a['lines']]
                for what, v in (('the ground truth', t[i][:, c]), ('the prediction', y[i][:, c])):
                    expect(any(len(lx) == len(v) and np.allclose(lx, self.t[d][i], rtol=1e-5) and np.abs(ly - v).max() <= tol * sig for lx, ly in lines),
                           f'{where}: {what} of stress {COMPS[c]} of path {i} is not drawn')
        self.made[d].append(after)
        self.steps += n

    @staticmethod
    def same_cloud(a, b, tol):
        left = list(map(tuple, b))
        for p in a:
            k = [i for i, q in enumerate(left) if abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol]
            if not k:
                return False
            left.pop(k[0])
        return True

    def fit(self, o):
        """Data scalers of the network inside of a hybrid model."""
        d, where = o['d'], f'component {o["o"]} fitted to data set {o["d"]}'
        ds = td.load_dataset(self.file[d])
        old, _ = self.small()
        try:
            r = t_hybrid.set_hybridized_gru_model((1, 0), o['o'], ds)
        finally:
            for n, v in old.items():
                setattr(self.mod, n, v)
        expect(tuple(r['hyb_indices']) == (1, 0), f'{where}: position {r["hyb_indices"]}')
        x, y, e = self.x[d].astype(np.float64), self.y[d].astype(np.float64), self.e[d].astype(np.float64)
        fin, fout = x, y
        if o['o'] == 'strain_to_pstrain':
            fout = x - e
        if o['o'].endswith('stressvd'):
            vol = y[..., :3].sum(-1, keepdims=True) / 3
            dev = y.copy()
            dev[..., :3] -= vol
            fout = np.concatenate([vol, dev], -1)
        if 'i1_i2' in o['o']:
            i1 = x[..., :3].sum(-1, keepdims=True)
            sq = (x[..., :3] ** 2).sum(-1, keepdims=True) + 2 * (x[..., 3:] ** 2).sum(-1, keepdims=True)
            fin = np.concatenate([x, i1, 0.5 * (i1 ** 2 - sq)], -1)
        m = r['hyb_model']
        probe = torch.tensor(self.rng.normal(size=(3, 1, fin.shape[-1])), dtype=torch.float32)
        for typ, f in (('features_in', fin), ('features_out', fout)):
            mu, sd = stats(f)
            q = torch.tensor(self.rng.normal(size=(3, 1, f.shape[-1])) * sd + mu, dtype=torch.float32)
            got = data_scaler_transform(m, tensor=q, features_type=typ, mode='normalize').numpy()
            w = (q.numpy() - mu) / sd
            expect(got.shape == w.shape and np.allclose(got, w, rtol=1e-3, atol=1e-3), f'{where}: {typ} are not scaled by the mean and standard deviation of the data', (got.tolist(), w.tolist()))
        with torch.no_grad():
            y = m(probe)
        y = y[0] if isinstance(y, tuple) else y
        expect(tuple(y.shape) == (3, 1, fout.shape[-1]), f'{where}: output of shape {tuple(y.shape)}')
        self.steps += 1

    def go(self):
        keep = matplotlib.figure.Figure.savefig
        me = self
        matplotlib.figure.Figure.savefig = lambda fig, path, *a, **k: me.saved(fig, path, *a, **k)
        try:
            for o in self.b['ops']:
                dict(train=self.train, predict=self.predict, fit=self.fit)[o['op']](o)
        finally:
            matplotlib.figure.Figure.savefig = keep
        return self.steps + len(self.b['ops'])


def run(ctx):
    torch.set_num_threads(1)

    def one(b):
        rng = np.random.default_rng([ctx.seed, ctx.item])
        torch.manual_seed(int(rng.integers(1 << 30)))
        import random
        random.seed(int(rng.integers(1 << 30)))
        np.random.seed(int(rng.integers(1 << 30)))
        root = ctx.tmpdir('c35')
        try:
            return Study(b, root, rng).go()
        finally:
            ctx.rmdir(root)
    n = 1 if ctx.quick else 8
    inv = ['Known', 'Aged', 'Refused']
    runs = [(('Studies', dict(Sim=True, Families={'rnn', 'rc', 'hybrid'}, NData=3, MaxOps=6, MaxEpochs=4)),
             dict(spec='Spec', invariants=inv + ['Emit'], properties=['Kept'], simulate=24 * n, depth=9, label='Studies/histories')),
            (('Studies', dict(Sim=False, Families={'rnn', 'rc', 'hybrid'}, NData=2, MaxOps=3 if ctx.quick else 4, MaxEpochs=2)),
             dict(spec='Spec', invariants=inv, properties=['Kept'], view='Short', label='Studies/all'))]
    items = [b for r in ctx.tlc_many(runs) for b in r.behaviours]
    for f in ('rnn', 'rc', 'hybrid'):
        if not any(b['fam'] == f and any(o['op'] == 'predict' and o['ok'] and b['size'][o['d'] - 1] < 5 for o in b['ops']) for b in items):
            raise Machinery(f'no prediction of a small data set ({f})')
    ctx.preplay(items, one, 'studies')
    ops = [o for b in items for o in b['ops']]
    ctx.extra['ops'] = {k: sum(o['op'] == k for o in ops) for k in ('train', 'predict', 'fit')}
    ctx.assumptions += ['networks of 2 layers of 4 units, 2-4 epochs; figures are read when they are saved']
