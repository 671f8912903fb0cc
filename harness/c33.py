"""C33: data sets of a material at a grid of conditions, histories of spec/Conditions.tla."""
import contextlib
import io
import os
import random
import re
import shutil
import warnings

import matplotlib
matplotlib.use('Agg')
import numpy as np
import torch

from fw import Machinery, expect, expect_raises
from time_series_data.time_dataset import load_dataset
from user_scripts.complete_pipelines import local_model_update as lmu

FOLDER = dict(training='1_training_dataset', validation='2_validation_dataset', testing_id='5_testing_id_dataset')
STEPS = 9


def parameters(T, C):
    """Calibrated parameters of the material: E, v, initial yield stress, hardening slope."""
    t, c = (T - 325.0) / 180.606, (C - 0.5) / 0.3168
    E = 1000 * ((20.186 * c + 135.546) + (0.936 * c - 8.489) * t)
    G = 1000 * ((8.843 * c + 52.891) + (0.405 * c - 3.34) * t)
    s0 = ((39.738 * c**2 - 47.582 * c + 25.107) * np.exp(-(-0.091 * c**2 + 0.018 * c + 0.883) * t)
          + (20.025 * c**4 + 29.518 * c**3 - 121.669 * c**2 - 74.391 * c + 541.225))
    s1 = (2213.1 * c + 7253.7) + (-57.7 * c - 68.7) * t
    return E, E / (2 * G) - 1, s0, s1


def response(order, strain, T, C):
    """Von Mises with linear isotropic hardening, radial return, step by step."""
    E, v, s0, s1 = parameters(T, C)
    G, K = E / (2 * (1 + v)), E / (3 * (1 - 2 * v))
    ep, a, out, acc = np.zeros((3, 3)), 0.0, [], []
    for row in strain:
        e = np.zeros((3, 3))
        for k, x in zip(order, row):
            i, j = int(k[0]) - 1, int(k[1]) - 1
            e[i, j] = e[j, i] = x
        ee = e - ep
        dev = 2 * G * (ee - np.trace(ee) / 3 * np.eye(3))
        q = np.sqrt(1.5 * np.sum(dev**2))
        f = q - (s0 + s1 * a)
        if f > 0:
            dg = f / (3 * G + s1)
            n = 1.5 * dev / q
            ep, a = ep + dg * n, a + dg
            dev = dev - 2 * G * dg * n
        out.append(dev + K * np.trace(ee) * np.eye(3))
        acc.append(a)
    return np.array(out), np.array(acc)


def key(s):
    return s['strain_path'].numpy().tobytes()


def same(a, b):
    return sorted(a) == sorted(b) and all(torch.equal(a[k], b[k]) if torch.is_tensor(a[k]) else a[k] == b[k] for k in a)


class Fail:
    """Stress paths that fail when the script says so."""

    def __init__(self, script, always):
        self.script, self.always, self.sample, self.tries, self.lost = script, always, 1, 0, []

    def __enter__(self):
        self.old = old = lmu.MaterialResponseDatasetGenerator.compute_stress_path

        def path(gen, order, time, strain, *args, **kwargs):
            r = old(gen, order, time, strain, *args, **kwargs)
            self.tries += 1
            if (self.always and self.sample == 2) or self.tries <= self.script.get(self.sample, 0):
                self.lost.append(torch.tensor(strain, dtype=torch.get_default_dtype()).numpy().tobytes())
                return r[0], r[1], r[2], True
            self.sample, self.tries = self.sample + 1, 0
            return r
        lmu.MaterialResponseDatasetGenerator.compute_stress_path = path
        return self

    def __exit__(self, *exc):
        lmu.MaterialResponseDatasetGenerator.compute_stress_path = self.old


@contextlib.contextmanager
def short_paths():
    old = getattr(lmu, 'set_strain_path_generator', None)
    if old is None:
        yield
        return

    def small(*args, **kwargs):
        g, kw = old(*args, **kwargs)
        return g, dict(kw, n_time=STEPS)
    lmu.set_strain_path_generator = small
    try:
        yield
    finally:
        lmu.set_strain_path_generator = old


class Study:
    def __init__(self, b, root, rng):
        self.b, self.root, self.rng = b, root, rng
        self.T = [float(x) for x in b['P']['t']]
        self.C = [x / 100 for x in b['P']['c']]
        self.dir = lmu.set_lmu_dir(root)
        self.problem = int(rng.choice([1, 4]))
        self.live, self.asm, self.steps = {}, {}, 0

    def seed(self, n):
        random.seed(n)
        np.random.seed(n)
        torch.manual_seed(n)

    def file(self, c, k, n):
        return os.path.join(self.dir, '0_simulation', f'T{self.T[c[0] - 1]:.2f}_C{self.C[c[1] - 1]:.2f}', f'{k}_dataset', f'ss_paths_dataset_n{n}.pkl')

    def produce(self, o, where):
        names = list(o['types'])
        self.rng.shuffle(names)
        n = {k: o['types'][k]['n'] for k in names}
        q = {k: o['types'][k]['q'] / 4 for k in names}
        T = self.T + [630.0] if o['bad'] == 'outside' else self.T
        if o['bad'] == 'ratio' and self.rng.random() < 0.3:
            q = {}
        with short_paths():
            lmu.generate_material_data(where, 'infinitesimal', self.problem, 'von_mises', temperatures=list(T), compositions=list(self.C),
                                       n_sample_type=dict(n), rnd_strain_path_ratio=q, is_save_dataset_plots=False, is_verbose=False)

    def gen(self, o):
        state = self.rng.bit_generator.state
        seed = int(self.rng.integers(1 << 30))
        script = {f['at']: f['times'] for f in o['fail']} if self.rng.random() < 0.6 else {}
        self.seed(seed)
        where = f'generation {o["gen"]}'
        with Fail(script, o['bad'] == 'trials') as f:
            if o['bad']:
                expect_raises(lambda: self.produce(o, self.dir), f'{where}: accepted ({o["bad"]})', RuntimeError)
                self.live = {}
                return
            again = self.rng.random() < 0.15
            mid = self.rng.bit_generator.state
            self.produce(o, self.dir)
        lost = set(f.lost)
        self.live = {}
        for i in range(len(self.T)):
            for j in range(len(self.C)):
                for k, t in o['types'].items():
                    c = (i + 1, j + 1)
                    p = self.file(c, k, t['n'])
                    expect(os.path.isfile(p), f'{where}: no {k} data of temperature {self.T[i]}, composition {self.C[j]}')
                    d = load_dataset(p)
                    expect(len(d) == t['n'], f'{where}: {len(d)} {k} samples, asked for {t["n"]}')
                    self.live[c, k] = [d[x] for x in range(len(d))]
                    for x, s in enumerate(self.live[c, k]):
                        expect(key(s) not in lost, f'{where}: sample {x} of {k} is one whose response failed')
                        self.sample(s, x, k, t, c, o, where)
        every = [key(s) for d in self.live.values() for s in d]
        expect(len(set(every)) == len(every), f'{where}: a path occurs twice')
        found = sorted(os.listdir(os.path.join(self.dir, '0_simulation')))
        expect(len(found) == len(self.T) * len(self.C), f'{where}: folders {found}')
        if again:
            end = self.rng.bit_generator.state
            self.rng.bit_generator.state = mid
            other = os.path.join(self.root, 'again')
            os.makedirs(other, exist_ok=True)
            self.seed(seed)
            with Fail(script, False):
                self.produce(o, other)
            for (c, k), d in self.live.items():
                e = load_dataset(self.file(c, k, len(d)).replace(self.dir, other))
                expect(all(same(a, e[x]) for x, a in enumerate(d)), f'{where}: not repeated by the same seed ({k})')
            self.rng.bit_generator.state = end

    def sample(self, s, x, k, t, c, o, where):
        at = f'{where}: sample {x} of {k} at {self.T[c[0] - 1]}, {self.C[c[1] - 1]}'
        single = torch.get_default_dtype() == torch.float32
        T, C = s['temperature_hist'].numpy().astype(float), s['composition_hist'].numpy().astype(float)
        n = len(s['time_hist'])
        expect(T.shape == C.shape == (n, 1) and len(s['strain_path']) == len(s['stress_path']) == n, f'{at}: lengths', (T.shape, n))
        expect(np.all(T == T[0]) and np.all(C == C[0]), f'{at}: temperature or composition varies along the path')
        T, C = T[0, 0], C[0, 0]
        tol = 1e-4 if single else 1e-9
        if k == 'training':
            expect(abs(T - self.T[c[0] - 1]) <= tol and abs(C - self.C[c[1] - 1]) <= tol, f'{at}: temperature {T}, composition {C}')
        else:
            (tl, th), (cl, ch) = o['range'][c[0] - 1], o['crange'][c[1] - 1]
            expect(tl - tol <= T <= th + tol and cl / 100 - tol <= C <= ch / 100 + tol, f'{at}: {T}, {C} outside neighbouring conditions', ((tl, th), (cl, ch)))
        e = s['strain_path'].numpy().astype(float)
        expect(np.abs(e).max() <= 0.05 * (1 + 1e-6) and np.abs(e).max() > 0, f'{at}: strain bounds')
        sv = np.linalg.svd(e, compute_uv=False)
        expect((sv[1] > 1e-4 * sv[0]) == (x < t['rnd']), f'{at}: {"proportional" if x < t["rnd"] else "random"} path', (t, sv.tolist()))
        ref, acc = response(s['strain_comps_order'], e, T, C)
        got = s['stress_path'].numpy().astype(float)
        rtol = 1e-3 if single else 1e-5
        for i, m in enumerate(s['stress_comps_order']):
            r = ref[:, int(m[0]) - 1, int(m[1]) - 1]
            expect(np.abs(got[:, i] - r).max() <= rtol * np.abs(ref).max(), f'{at}: stress {m} is not the response at {T}, {C}', (got[:, i].tolist(), r.tolist()))
        a = s['acc_p_strain'].numpy().astype(float).ravel()
        expect(np.abs(a - acc).max() <= rtol * max(acc.max(), 1e-3), f'{at}: accumulated plastic strain', (a.tolist(), acc.tolist()))
        self.steps += 1

    def drop(self, o):
        c = tuple(o['cond'])
        for k in [k for k in self.live if k[0] == c]:
            shutil.rmtree(os.path.dirname(os.path.dirname(self.file(c, k[1], 1))), ignore_errors=True)
            del self.live[k]

    def assemble(self, o):
        val = {'1': 0.25, '2': 0.5, '3': 0.75, '4': 1.0, '5': 1.25, 'neg': -0.5, 'int': 3}
        red = {k: val[t['f']] for k, t in o['types'].items() if t['f'] != 'no'}
        names = list(o['types'])
        self.rng.shuffle(names)
        self.seed(int(self.rng.integers(1 << 30)))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            lmu.assemble_material_datasets(self.dir, 'infinitesimal', self.problem, names, 'ss_paths_dataset',
                                           size_balanced_reduction=red if o['red'] else None)
        for k, t in o['types'].items():
            where = f'assembled {k} data'
            d = os.path.join(self.dir, FOLDER[k])
            expect(os.listdir(d) == [f'ss_paths_dataset_n{t["n"]}.pkl'], f'{where}: files {os.listdir(d)}, {t["n"]} samples expected')
            data = load_dataset(os.path.join(d, f'ss_paths_dataset_n{t["n"]}.pkl'))
            expect(len(data) == t['n'], f'{where}: {len(data)} samples instead of {t["n"]}')
            source = {key(s): (c, s) for (c, kk), ss in self.live.items() if kk == k for s in ss}
            count, seen = {}, set()
            for x in range(len(data)):
                s = data[x]
                expect(key(s) in source, f'{where}: sample {x} is of no {k} data set on disk')
                expect(key(s) not in seen, f'{where}: sample {x} occurs twice')
                seen.add(key(s))
                c, ref = source[key(s)]
                expect(same(s, ref), f'{where}: sample {x} differs from its source')
                count[c] = count.get(c, 0) + 1
            for c in t['conds']:
                expect(count.get(tuple(c), 0) == t['per'], f'{where}: {count.get(tuple(c), 0)} samples of condition {c} instead of {t["per"]}')
            self.asm[k] = [data[x] for x in range(len(data))]
            self.steps += len(data)
        for (c, k), ss in self.live.items():
            d = load_dataset(self.file(c, k, len(ss)))
            expect(len(d) == len(ss) and all(same(a, d[x]) for x, a in enumerate(ss)), f'assembling changed the {k} data of condition {c}')

    def update(self, o):
        calls = []
        model, pred, uq = (os.path.join(self.dir, x) for x in ('3_model', '7_prediction', 'uncertainty_quantification'))
        kept = os.path.join(uq, 'kept')
        os.makedirs(uq, exist_ok=True)
        for p in (kept,):
            open(p, 'w').close()
        if self.rng.random() < 0.5:
            os.makedirs(os.path.join(model, 'old'), exist_ok=True)
            os.makedirs(os.path.join(pred, 'in_distribution', 'old'), exist_ok=True)

        def uq_stub(*args, **kwargs):
            names = ('uq_directory', 'n_model_sample', 'train_dataset_file_path', 'model_directory', 'prediction_directory', 'test_dataset_file_path')
            a = dict(zip(names, args), **kwargs)
            calls.append((a, {k: len(load_dataset(a[n])) for k, n in (('training', 'train_dataset_file_path'), ('validation', 'val_dataset_file_path'), ('testing_id', 'test_dataset_file_path'))},
                          {k: load_dataset(a[n]) for k, n in (('training', 'train_dataset_file_path'), ('validation', 'val_dataset_file_path'), ('testing_id', 'test_dataset_file_path'))},
                          os.listdir(a['model_directory']) if os.path.isdir(a['model_directory']) else None,
                          os.listdir(a['prediction_directory']) if os.path.isdir(a['prediction_directory']) else None, os.path.exists(kept)))
        old, lmu.perform_model_uq = lmu.perform_model_uq, uq_stub
        try:
            def go():
                lmu.perform_material_model_updating(self.dir, n_model_sample=o['m'], is_model_training=o['training'])
            if o['raises']:
                expect_raises(go, 'update without all data sets: accepted', RuntimeError)
                expect(not calls, 'update without all data sets: trained')
                return
            go()
        finally:
            lmu.perform_model_uq = old
        expect(len(calls) == 1, f'update: {len(calls)} trainings')
        a, sizes, data, m, p, k = calls[0]
        expect(sizes == o['sizes'], f'update: sizes {sizes} instead of {o["sizes"]}')
        for t, d in data.items():
            expect(all(same(s, d[x]) for x, s in enumerate(self.asm[t])), f'update: {t} data is not the assembled data')
        expect(a['n_model_sample'] == o['m'] and a['is_model_training'] is o['training'], 'update: options', (a['n_model_sample'], a['is_model_training']))
        expect(os.path.normpath(a['uq_directory']) == os.path.normpath(uq), f'update: results in {a["uq_directory"]}')
        expect(m == [] and p == [], 'update: starts from an earlier model or prediction', (m, p))
        expect(k == (not o['training']), 'update: earlier models ' + ('lost' if not o['training'] else 'kept'))
        expect(not os.path.exists(model) and not os.path.exists(pred), 'update: working folders remain')
        self.steps += 1

    def go(self):
        open(os.path.join(self.dir, 'note'), 'w').close()
        expect(lmu.set_lmu_dir(self.root) == self.dir and os.path.exists(os.path.join(self.dir, 'note')), 'study folder: cleared by reopening it')
        for o in self.b['ops']:
            dict(gen=self.gen, drop=self.drop, assemble=self.assemble, update=self.update)[o['op']](o)
        self.preview()
        return self.steps

    def preview(self):
        n = {'training': int(self.rng.integers(1, 9)), 'testing_id': int(self.rng.integers(1, 9))}
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            lmu.preview_material_datasets_sizes(self.T, self.C, n)
        got = [int(x) for x in re.findall(r'Total number of samples: (\d+)', out.getvalue())]
        expect(got == [len(self.T) * len(self.C) * x for x in n.values()], f'preview: {got} samples')


def run(ctx):
    torch.set_num_threads(1)

    def one(b):
        rng = np.random.default_rng([ctx.seed, ctx.item])
        torch.set_default_dtype(torch.float64 if rng.random() < 0.8 else torch.float32)
        root = ctx.tmpdir('c33')
        try:
            return Study(b, root, rng).go()
        finally:
            torch.set_default_dtype(torch.float32)
            ctx.rmdir(root)
    n = 1 if ctx.quick else 8
    inv = ['OneGen', 'Balanced', 'Ranges']
    runs = [(('Conditions', dict(Sim=True, MaxT=3, MaxC=3, MaxOps=6, MaxN=6)), dict(spec='Spec', invariants=inv + ['Emit'], simulate=30 * n, depth=12, label='Conditions/histories')),
            (('Conditions', dict(Sim=False, MaxT=2, MaxC=1, MaxOps=3, MaxN=2)), dict(spec='Spec', invariants=inv, view='Short', label='Conditions/all'))]
    items = [b for r in ctx.tlc_many(runs) for b in r.behaviours]
    ops = [o for b in items for o in b['ops']]
    for k in ('gen', 'drop', 'assemble', 'update'):
        if not any(o['op'] == k for o in ops):
            raise Machinery(f'no {k} in the behaviours')
    if not any(o['op'] == 'update' and not o['raises'] and o['training'] for o in ops):
        raise Machinery('no successful update in the behaviours')
    ctx.preplay(items, one, 'studies')
    ctx.extra['ops'] = {k: sum(o['op'] == k for o in ops) for k in ('gen', 'drop', 'assemble', 'update')}
    ctx.assumptions += ['training itself is a stand-in that records what it is given (C31 decides the repetitions)',
                        'conditions differ at two decimals, as the folder names do']
