"""C23: data sets of spec/Features.tla; derived strain and stress features of the real data sets."""
import os

import torch

from fw import expect, expect_raises
import time_series_data.time_dataset as td
from model_architectures.hybrid_base_model.model.hybridized_layers import VolDevCompositionModel
from model_architectures.materials.strain_features import add_strain_features
from model_architectures.materials.stress_features import add_stress_features


class FeatRun:
    def __init__(self, b, ctx, dtype):
        self.b, self.ctx, self.dtype = b, ctx, dtype
        self.tol = 1e-12 if dtype == torch.float64 else 1e-5
        self.scale = 0.01                     # strains and stresses are multiples of it
        self.feats = {}

    def paths(self, samples):
        return [{k: self.scale * torch.tensor(s[k], dtype=self.dtype) for k in ('strain', 'stress')} for s in samples]

    def run(self):
        for h in self.b['log']:
            getattr(self, 'op_' + h['op'])(h)
        return len(self.b['log'])

    def op_create(self, h):
        self.order = {k: tuple(v) for k, v in h['order'].items()}
        samples = []
        for s in self.paths(h['samples']):
            samples.append({'strain_comps_order': self.order['strain'], 'strain_path': s['strain'], 'stress_comps_order': self.order['stress'],
                            'stress_path': s['stress'], 'time_hist': torch.arange(len(s['strain']), dtype=self.dtype).view(-1, 1)})
        self.dir = self.ctx.tmpdir('ds')
        if h['kind'] == 'list':
            self.ds = samples
        elif h['kind'] == 'memory':
            self.ds = td.TimeSeriesDatasetInMemory(samples)
        else:
            files = []
            for i, s in enumerate(samples):
                files.append(os.path.join(self.dir, f'ss_response_path_{i}.pt'))
                torch.save(s, files[-1])
            self.ds = td.TimeSeriesDataset(self.dir, files)
        self.check(h['samples'])

    def adder(self, label):
        return add_stress_features if 'stress' in label else add_strain_features

    def op_add(self, h):
        self.ds = self.adder(h['label'])(self.ds, h['label'])
        p = self.scale if h['label'] != 'i2_strain' else self.scale ** 2
        self.feats[h['label']] = [p * torch.tensor(r, dtype=torch.float64) / h['div'] for r in h['rows']]
        self.check(None)

    def op_reject(self, h):
        for fn in (add_strain_features, add_stress_features) if h['label'] == 'i3' else (self.adder(h['label']),):
            expect_raises(lambda: fn(self.ds, h['label']), 'a feature that does not exist was computed', Exception)
        if h['label'] != 'i3':
            other = add_strain_features if 'stress' in h['label'] else add_stress_features
            expect_raises(lambda: other(self.ds, h['label']), 'a feature of the other kind was computed', Exception)
        self.check(None)

    def op_look(self, h):
        expect(set(h['labels']) == set(self.feats), 'features of the specification')
        self.check(h['samples'])

    def op_compose(self, h):
        vd = VolDevCompositionModel()
        for i, s in enumerate(self.paths(h['samples'])):
            x = torch.cat((self.ds[i]['vol_stress'], self.ds[i]['dev_stress']), dim=1)
            kept = x.clone()
            self.near(vd(x), s['stress'].double(), 'volumetric and deviatoric parts composed')
            many = torch.stack((x, -x, 2 * x), dim=1)
            self.near(vd(many), torch.stack((s['stress'], -s['stress'], 2 * s['stress']), dim=1).double(), 'a batch of volumetric and deviatoric parts composed')
            expect(torch.equal(x, kept) and torch.equal(many[:, 0], kept), 'composition changed its parts')

    def near(self, got, want, clause):
        expect(isinstance(got, torch.Tensor) and tuple(got.shape) == tuple(want.shape), clause + ': shape', (getattr(got, 'shape', got), want.shape))
        expect(bool(((got.double() - want).abs() <= self.tol * (1 + float(want.abs().max()))).all()), clause,
               dict(got=got.tolist(), want=want.tolist(), order=self.order))

    def check(self, samples):
        if samples is not None:
            self.base = self.paths(samples)
        expect(len(self.ds) == len(self.base), 'number of samples')
        for i, s in enumerate(self.base):
            got = self.ds[i]
            expect(torch.equal(got['strain_path'], s['strain']) and torch.equal(got['stress_path'], s['stress']), 'adding a feature changed the paths', i)
            expect(got['strain_comps_order'] == self.order['strain'] and got['stress_comps_order'] == self.order['stress'], 'component order changed')
            expect(set(got) == {'strain_comps_order', 'strain_path', 'stress_comps_order', 'stress_path', 'time_hist'} | set(self.feats),
                   'features of a sample', sorted(got))
            for l, rows in self.feats.items():
                self.near(got[l], rows[i], f'feature {l}')


def case(b, ctx):
    for dtype in (torch.float64, torch.float32):
        torch.set_default_dtype(dtype)
        try:
            n = FeatRun(b, ctx, dtype).run()
        finally:
            torch.set_default_dtype(torch.float32)
    return 2 * n


def run(ctx):
    inv = ['Invariants', 'Traceless', 'Composed']
    runs = [(('Features', dict(Sim=False, MaxSamples=1, MaxOps=2)), dict(spec='Spec', invariants=inv + ['Emit'], workers=1, label='Features/basis')),
            (('Features', dict(Sim=True, MaxSamples=3, MaxOps=6)),
             dict(spec='Spec', invariants=inv + ['Emit'], simulate=500 if ctx.quick else 8000, depth=14, label='Features/random'))]
    res = ctx.tlc_many(runs)
    items = [b for b in res[0].behaviours if any(h['op'] == 'add' for h in b['log'])]
    if ctx.quick:
        items = items[ctx.seed % 2::2]
    torch.set_num_threads(1)
    ctx.preplay(items + res[1].behaviours, lambda b: case(b, ctx), 'features')
    ctx.assumptions += ['features are defined for three-dimensional tensors (two-dimensional paths are rejected by the code)']
