"""C27: histories of spec/Response.tla replayed on the real response data set generators and readers."""
import math
import os
import zlib

import numpy as np
import torch

from data_generation.strain_paths.proportional_path import ProportionalStrainPathGenerator
from data_generation.strain_paths.random_path import RandomStrainPathGenerator
from fw import expect, expect_raises
from simulators.fetorch.material.models.standard.von_mises import VonMises
from simulators.links.utilities.links_out_to_dataset import build_dataset
from time_series_data.time_dataset import TimeSeriesDatasetInMemory, save_dataset
from user_scripts.synthetic_data.gen_noisy_response_dataset import NoisyMaterialResponseDatasetGenerator
from user_scripts.synthetic_data.gen_response_dataset import MaterialResponseDatasetGenerator
from utilities.data_scalers import TorchMinMaxScaler

COMPS = {2: ('11', '22', '12'), 3: ('11', '22', '33', '12', '23', '13')}
FAILS = (20, -35, 15)
ELASTIC = {'elastic_symmetry': 'isotropic', 'E': 2.5, 'v': 0.25, 'euler_angles': (0.0, 0.0, 0.0)}


def comps_of(t, dim):
    return torch.stack([t[int(c[0]) - 1, int(c[1]) - 1] for c in COMPS[dim]])


def kelvin(v, dim):
    f = torch.tensor([1.0 if c[0] == c[1] else math.sqrt(2.0) for c in COMPS[dim]], dtype=v.dtype)
    return f * v


class Memory:
    """The abstract material of the specification."""
    def __init__(self, dim, fails=None):
        self.dim = dim
        self.fails = fails or (lambda d: round(float(d[0])) in FAILS and abs(float(d[0]) - round(float(d[0]))) < 1e-2)

    def get_strain_type(self):
        return 'infinitesimal'

    def state_init(self):
        z = torch.zeros(len(COMPS[self.dim]))
        return dict(stress_mf=z.clone(), e_strain_mf=z.clone(), strain_mf=z.clone(), acc_p_strain=torch.tensor(0.0), m=z.clone(),
                    is_su_fail=False)

    def state_update(self, inc, old):
        expect(tuple(inc.shape) == (self.dim, self.dim) and bool((inc == inc.T).all()), 'the strain increment is not a symmetric tensor', inc.tolist())
        d = comps_of(inc, self.dim).to(old['m'].dtype)
        m = 2 * old['m'] + d + torch.roll(d, -1)
        new = dict(m=m, stress_mf=kelvin(m, self.dim), e_strain_mf=old['e_strain_mf'] + kelvin(d, self.dim),
                   strain_mf=old['strain_mf'] + kelvin(d, self.dim), acc_p_strain=old['acc_p_strain'] + d.abs().sum(),
                   is_su_fail=bool(old['is_su_fail']) or bool(self.fails(d)))
        if new['is_su_fail']:
            new['stress_mf'] = new['stress_mf'] * float('nan')
        return new, None


class Noise:
    """Scripted noise: the next trial of the sample it is asked for."""
    def __init__(self, op, src):
        self.op, self.src, self.count, self.weights = op, src, {}, []

    def generate_noise_path(self, path, noise_variability='homoscedastic', heteroscedastic_weights=None):
        # equal paths are asked for in the order of the samples: find the sample whose trials are not used up
        js = [j for j, s in enumerate(self.src['samples']) if same(stored(s, 'strain'), path)]
        expect(bool(js), 'noise of a path which is not that of a sample', np.asarray(path).tolist())
        tr = self.op['trials']
        j = next((j for j in js if self.count.get(j, 0) < (tr[j] or 11)), js[-1])
        k = self.count[j] = self.count.get(j, 0) + 1
        expect((noise_variability == 'homoscedastic') == (self.op['het'] == 'no'), 'variability of the noise', noise_variability)
        if self.op['het'] != 'no':
            self.weights.append((j, None if heteroscedastic_weights is None else np.array(heteroscedastic_weights, dtype=float)))
        z = self.op['noise'][j][min(k, 11) - 1]
        return np.array(z, dtype=np.asarray(path).dtype)[:, np.array(self.src['samples'][j]['order']) - 1]


def stored(s, key):
    """Rows of a specified sample in its component order."""
    a = np.array(s[key], dtype=float)
    return a[:, np.array(s['order']) - 1]


def same(a, b, tol=1e-5):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(a).max(initial=0))))


def features(feats, dim):
    return {f: (len(COMPS[dim]) if f == 'e_strain_mf' else 1) for f in sorted(feats, reverse=True)}


class ResponseRun:
    def __init__(self, b, ctx, idx):
        self.b, self.ctx, self.dir = b, ctx, ctx.tmpdir(f'c27_{idx}')
        self.f32 = idx % 4 == 3
        self.sets, self.k = [], 0

    def run(self):
        old = torch.get_default_dtype()
        torch.set_default_dtype(torch.float32 if self.f32 else torch.float64)
        try:
            for op in self.b['ops']:
                self.k += 1
                made = getattr(self, 'do_' + op['op'])(op)
                if op['made']:
                    expect(made is not None, op['op'] + ': no data set')
                    self.sets.append((made, op['made'][0]))
                    if len(self.sets) > 4:
                        self.sets.pop(0)
                elif op['op'] != 'compute':
                    expect(made is None, op['op'] + ': a data set was made of a failing request')
                for ds, spec in self.sets:
                    self.compare(ds, spec, op)
        finally:
            torch.set_default_dtype(old)
            self.ctx.rmdir(self.dir)
        return len(self.b['ops'])

    def compare(self, ds, spec, op):
        why = f'after {op["op"]}: '
        expect(len(ds) == len(spec['samples']), why + f'{len(ds)} samples, specified {len(spec["samples"])}')
        for i, s in enumerate(spec['samples']):
            x, order = ds[i], [COMPS[spec['dim']][c - 1] for c in s['order']]
            keys = {'strain_comps_order', 'strain_path', 'stress_comps_order', 'stress_path', 'time_hist'} | (set(spec['feats']) - {'unknown'})
            keys |= {'strain_noise_path', 'stress_noise_path'} if s['noise'] else set()
            expect(set(x) == keys, why + 'features of a sample', (sorted(x), sorted(keys)))
            expect(list(x['strain_comps_order']) == order and list(x['stress_comps_order']) == order, why + 'component order')
            want = dict(strain_path=stored(s, 'strain'), stress_path=stored(s, 'stress'), time_hist=np.array(s['time'], dtype=float)[:, None])
            if 'acc_p_strain' in keys:
                want['acc_p_strain'] = np.array(s['acc'], dtype=float)[:, None]
            if 'e_strain_mf' in keys:
                want['e_strain_mf'] = stored(s, 'e')
            if s['noise']:
                want.update(strain_noise_path=stored(s, 'noise'), stress_noise_path=stored(s, 'snoise'))
            for k, w in want.items():
                expect(torch.is_tensor(x[k]) and x[k].dtype == torch.get_default_dtype(), why + f'{k} is not a tensor of the default type')
                expect(same(w, x[k].numpy()), why + f'{k} of sample {i} of a data set made by {spec["mat"]}', dict(got=x[k].tolist(), want=w.tolist(), op=op['op']))

    def do_compute(self, op):
        dim, order = op['dim'], np.array(op['order']) - 1
        cls = NoisyMaterialResponseDatasetGenerator if op['noisyclass'] else MaterialResponseDatasetGenerator
        gen, mat = cls('infinitesimal', 1 if dim == 2 else 4), Memory(dim)
        comps = tuple(COMPS[dim][c] for c in order)
        samples = []
        for p, fails in zip(op['paths'], op['fails']):
            path, time = np.array(p, dtype=float)[:, order], np.array(op['time'], dtype=float)
            kept = path.copy()
            res = gen.compute_stress_path(comps, time, path, mat, state_features=features(op['feats'], dim))
            expect(bool(res[3]) == fails, f'failure of a state update is told {res[3]}, specified {fails}')
            expect(np.array_equal(kept, path), 'the strain path was changed')
            if not fails:
                samples.append(NoisyMaterialResponseDatasetGenerator.build_response_path(comps, path, res[0], res[1], time, state_path=res[2]))
        return TimeSeriesDatasetInMemory(samples) if samples else None

    def do_generate(self, op):
        dim = op['dim']
        feats, pt = features(op['feats'], dim), 1 if dim == 2 else 4
        kw, asked = dict(n_time=len(op['time']), strain_bounds={'any': self.k}), []

        def scripted(obj, **got):
            expect(got == kw, 'the path generator is asked with other parameters', (got, kw))
            asked.append(1)
            p = op['paths'][min(len(asked), len(op['paths'])) - 1]
            return COMPS[dim], np.array(op['time'], dtype=float), np.array(p, dtype=float)
        cls = RandomStrainPathGenerator if op['kind'] == 'random' else ProportionalStrainPathGenerator
        old = cls.generate_strain_path
        cls.generate_strain_path = scripted
        try:
            ds = self.generate(op, kw, feats, pt)
        finally:
            cls.generate_strain_path = old
        expect(not op['ok'] or len(asked) == op['asked'], 'number of paths generated', (len(asked), op['asked']))
        return ds

    def generate(self, op, kw, feats, pt):
        dim, kind = op['dim'], op['kind']
        if op['mat'] == 'elastic':
            gen = MaterialResponseDatasetGenerator('infinitesimal', pt)
            more = {}
            if op['disk']:
                d = os.path.join(self.dir, f'set{self.k}')
                os.mkdir(d)
                more = dict(is_in_memory_dataset=False, dataset_directory=d, dataset_basename='paths')
                for part in (dict(dataset_directory=d), dict(dataset_basename='x')):
                    expect_raises(lambda: gen.generate_response_dataset(1, kind, kw, 'elastic', dict(ELASTIC), is_in_memory_dataset=False, **part),
                                  'an on-disk data set without a name or directory is accepted', RuntimeError)
            ds = gen.generate_response_dataset(op['m'], kind, kw, 'elastic', dict(ELASTIC), state_features=feats, **more)
            if op['disk']:
                expect(len([f for f in os.listdir(d) if f.endswith('.pt')]) == op['m'], 'one file per sample', os.listdir(d))
            return ds
        gen = NoisyMaterialResponseDatasetGenerator('infinitesimal', pt)

        def go():
            return gen.generate_noiseless_dataset(op['m'], kind, kw, Memory(dim), state_features=feats)
        if op['ok']:
            return go()
        expect_raises(go, 'paths whose state update always fails are accepted', RuntimeError)

    def do_fromstrain(self, op):
        ds, spec = self.sets[op['src'] - 1]
        d = os.path.join(self.dir, f'src{self.k}')
        os.mkdir(d)
        path = save_dataset(ds, 'src', d)
        path = path if isinstance(path, str) else os.path.join(d, [f for f in os.listdir(d) if f.endswith('.pkl')][0])
        gen = MaterialResponseDatasetGenerator('infinitesimal', 1 if spec['dim'] == 2 else 4)
        return gen.gen_response_dataset_from_strain_dataset(path, 'elastic', dict(ELASTIC), state_features=features(op['feats'], spec['dim']))

    def do_noisy(self, op):
        ds, spec = self.sets[op['src'] - 1]
        dim, nc = spec['dim'], len(COMPS[spec['dim']])
        gen, noise = NoisyMaterialResponseDatasetGenerator('infinitesimal', 1 if dim == 2 else 4), Noise(op, spec)
        kw = dict(state_features=features(op['feats'], dim), is_denoise_strain_path=op['dn'],
                  noise_variability='homoscedastic' if op['het'] == 'no' else 'heteroscedastic')
        if op['g']:
            lo = torch.full((nc,), float(op['lo']))
            kw['strain_data_scaler'] = TorchMinMaxScaler(nc, minimum=lo, maximum=lo + 2 * op['g'])
        if op['het'] == 'given':
            kw['heteroscedastic_normalizer'] = 16.0

        def go():
            return gen.generate_noisy_dataset(ds, noise, Memory(dim), **kw)
        if not op['ok']:
            return expect_raises(go, 'paths whose state update always fails are accepted', RuntimeError)
        out = go()
        for j, w in noise.weights:
            sq = np.array(op['normsq'][j], dtype=float)
            expect(w is not None and same(np.sqrt(sq) / (16.0 if op['het'] == 'given' else math.sqrt(sq.max())), w),
                   'weights of heteroscedastic noise', dict(got=None if w is None else w.tolist(), normsq=op['normsq'][j], het=op['het']))
        return out

    def names(self, op, ext):
        d = os.path.join(self.dir, f'files{self.k}_9')
        os.mkdir(d)
        return [os.path.join(d, [f'path_{f["num"]}{ext}', f'run{99 - i}_path_{f["num"]}{ext}', f'p{f["num"]:05d}_data{ext}'][f['style']])
                for i, f in enumerate(op['files'])]

    def do_csv(self, op):
        paths = self.names(op, '.csv')
        for p, f in zip(paths, op['files']):
            with open(p, 'w') as fh:
                fh.write('TIME,E11,E22,E33,E12,E23,E13,S11,S22,S33,S12,S23,S13' + ('' if op['ok'] else ',X') + '\n')
                for t, e, s in zip(f['time'], f['strain'], f['stress']):
                    fh.write(','.join(str(float(v)) for v in [t] + e + s + ([] if op['ok'] else [1])) + '\n')
        gen = MaterialResponseDatasetGenerator('infinitesimal', 1 if op['dim'] == 2 else 4)
        more = {}
        if op['disk']:
            d = os.path.join(self.dir, f'set{self.k}')
            os.mkdir(d)
            more = dict(is_in_memory_dataset=False, dataset_directory=d, dataset_basename='paths')

        def go():
            return gen.gen_response_dataset_from_csv(paths, **more)
        return go() if op['ok'] else expect_raises(go, 'a response file with other columns is accepted', RuntimeError)

    def do_out(self, op):
        paths = self.names(op, '.out')
        for p, f in zip(paths, op['files']):
            with open(p, 'w') as fh:
                fh.write(' GAUSS POINT RESULTS\n' + ' '.join(f'V{i}' for i in range(62)) + '\n')
                for t, e, s in zip(f['time'], f['strain'], f['stress']):
                    row = [7.0 + i for i in range(62)]
                    row[0], row[11:17] = t, s
                    row[53:59] = e[:3] + [2 * v for v in e[3:]]
                    fh.write('  '.join(f'{v:.8E}' for v in row) + '\n')
        return build_dataset(paths, 3)


def random_paths(case):
    """Random paths answered by the abstract material (failing ones are replaced) and by a plastic material."""
    kind, dim, mat, seed, f32 = case
    old = torch.get_default_dtype()
    torch.set_default_dtype(torch.float32 if f32 else torch.float64)
    try:
        np.random.seed(seed)
        pt, comps = (1 if dim == 2 else 4), COMPS[dim]
        kw = dict(strain_bounds={c: (-0.05, 0.05) for c in comps}, n_time=9)
        if kind == 'random':
            kw.update(n_control=3, generative_type='polynomial')
        feats = {'e_strain_mf': len(comps), 'acc_p_strain': 1}
        if mat == 'memory':
            fails = lambda d: zlib.crc32(np.float32(float(d[0])).tobytes()) % 23 == 0   # noqa: E731
            model = Memory(dim, fails)
            ds = NoisyMaterialResponseDatasetGenerator('infinitesimal', pt).generate_noiseless_dataset(6, kind, kw, model, state_features=feats)
        else:
            from simulators.fetorch.material.models.standard.hardening import get_hardening_law
            par = dict(elastic_symmetry='isotropic', E=100.0, v=0.3, euler_angles=(0.0, 0.0, 0.0), hardening_law=get_hardening_law('linear'),
                       hardening_parameters={'s0': 2.0, 'a': 10.0})
            model = VonMises('infinitesimal', pt, dict(par))
            ds = MaterialResponseDatasetGenerator('infinitesimal', pt).generate_response_dataset(6, kind, kw, 'von_mises', par, state_features=feats)
        expect(len(ds) == 6, 'number of samples', len(ds))
        seen = set()
        for i in range(6):
            x = ds[i]
            e, s = x['strain_path'].double(), x['stress_path'].double()
            expect(tuple(e.shape) == (9, len(comps)) and tuple(s.shape) == (9, len(comps)), 'shape of a sample', (e.shape, s.shape))
            expect(bool((s[0] == 0).all()), 'the stress does not start at zero', s[0].tolist())
            seen.add(x['strain_path'].numpy().tobytes())
            st, tol = model.state_init(), (2e-3 if f32 else 1e-7)
            scale = float(s.abs().max()) + 1e-9
            for t in range(1, 9):
                inc = torch.zeros(dim, dim)
                for k, c in enumerate(x['strain_comps_order']):
                    a, b = int(c[0]) - 1, int(c[1]) - 1
                    inc[a, b] = inc[b, a] = (e[t, k] - e[t - 1, k]).to(inc.dtype)
                st, _ = model.state_update(inc, st)
                if mat != 'memory' or not f32:
                    expect(not st['is_su_fail'], 'a path whose state update fails was stored')
                mf = st['stress_mf'] if torch.isfinite(st['stress_mf']).all() else kelvin(st['m'], dim)
                st['is_su_fail'] = False
                want = mf.double() / torch.tensor([1.0 if c[0] == c[1] else math.sqrt(2.0) for c in comps], dtype=torch.float64)
                expect(bool((s[t] - want).abs().max() <= tol * scale), f'stress at time {t} of sample {i} is not the response to its strain path',
                       dict(got=s[t].tolist(), want=want.tolist()))
                expect(abs(float(x['acc_p_strain'][t, 0]) - float(st['acc_p_strain'])) <= tol * (1e-3 + float(st['acc_p_strain'])), 'state feature acc_p_strain')
                ee = st['e_strain_mf'].double() / torch.tensor([1.0 if c[0] == c[1] else math.sqrt(2.0) for c in comps], dtype=torch.float64)
                expect(bool((x['e_strain_mf'][t].double() - ee).abs().max() <= max(tol * 0.05, 1e-9)), 'state feature e_strain_mf')
        expect(len(seen) == 6, 'samples repeat the same strain path')
    finally:
        torch.set_default_dtype(old)
    return 6


def run(ctx):
    inv = ['Started', 'Answers', 'Emit']
    res = ctx.tlc_many([(('Response', dict(Sim=True, MaxOps=8, MaxSets=4)),
                         dict(spec='Spec', invariants=inv, simulate=120 if ctx.quick else 1500, depth=12, label='Response/random histories')),
                        (('Response', dict(Sim=True, MaxOps=14, MaxSets=4)),
                         dict(spec='Spec', invariants=inv, simulate=40 if ctx.quick else 500, depth=18, label='Response/long histories'))])
    torch.set_num_threads(1)
    items = res[0].behaviours + res[1].behaviours
    ctx.preplay(list(enumerate(items)), lambda it: ResponseRun(it[1], ctx, it[0]).run(), 'response data sets')
    n = 2 if ctx.quick else 12
    ctx.preplay([(k, d, m, ctx.seed * 50 + i, i % 3 == 2) for i in range(n * 8) for k, d, m in
                 [[('random', 'proportional')[i & 1], (2, 3)[i >> 1 & 1], ('memory', 'von_mises')[i >> 2 & 1]]]],
                random_paths, 'random paths')
    ctx.extra['operations'] = {k: sum(o['op'] == k for b in items for o in b['ops']) for k in ('compute', 'generate', 'fromstrain', 'noisy', 'csv', 'out')}
