"""C21: layouts of spec/Hybrid.tla built from real parts; the specified term is evaluated with the parts standing alone."""
import copy
import os

import torch

from fw import Machinery, expect, expect_raises
from model_architectures.hybrid_base_model.model.hybrid_model import HybridModel
from model_architectures.hybrid_base_model.model.hybridized_layers import BatchedElasticModel, VolDevCompositionModel
from model_architectures.hybrid_base_model.model.hybridized_model import set_hybridized_model
from model_architectures.hybrid_base_model.model.transfer_learning import PolynomialLinearRegressor
from model_architectures.procedures.model_data_scaling import set_data_scalers
from model_architectures.rc_base_model.model.recurrent_model import RecurrentConstitutiveModel
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from simulators.fetorch.math.matrixops import get_problem_type_parameters
from utilities.data_scalers import TorchMinMaxScaler, TorchStandardScaler

F = 6
ORDER = get_problem_type_parameters(4)[1]
E_, NU = 110.0, 0.3


def gen(*key):
    return torch.Generator().manual_seed(abs(hash(key)) % (2 ** 31))


class Part:
    """One part: the object handed to the hybrid model and what it computes, written here."""

    def __init__(self, p, ctx, seed):
        self.p, self.seed = p, seed
        ty, ni, no = p['type'], p['in'], p['out']
        idx, res = (p['chan'], p['pos']), p['res']
        key = (seed, int(p['name'][1:]))
        self.si = self.so = None
        scal = {}
        if p['nin'] or p['nout']:
            self.si = self.params(key + (1,), ni)
            self.so = self.params(key + (2,), no)
            scal = dict(features_in=self.scaler(self.si, ni), features_out=self.scaler(self.so, no))
        nrm = dict(is_model_in_normalized=p['nin'], is_model_out_normalized=p['nout'])
        if ty == 'gru':
            args = dict(n_features_in=ni, n_features_out=no, hidden_layer_size=3, n_recurrent_layers=1 + key[1] % 2,
                        gru_model_source='custom' if key[1] % 3 == 0 else 'torch', **nrm)
            d = ctx.tmpdir('gru')
            m = GRURNNModel(model_directory=d, **args)
            self.randomize(m, key)
            if scal:
                set_data_scalers(m, scal['features_in'], scal['features_out'])
            torch.save(m.state_dict(), os.path.join(d, 'state.pt'))
            # a trained model found in its directory
            if key[1] % 5 < 3:
                self.data = set_hybridized_model(GRURNNModel, idx, model_init_file_path=os.path.join(d, 'model_init_file.pkl'),
                                                 model_state_file_path=os.path.join(d, 'state.pt'), is_input_residual=res)
            # a network set up by its arguments, with given weights and data scalers
            else:
                self.data = set_hybridized_model(GRURNNModel, idx, model_init_args=dict(args, model_directory=None), data_scalers=scal or None,
                                                 model_state_file_path=os.path.join(d, 'state.pt'), is_input_residual=res)
        elif ty == 'poly':
            self.deg, self.bias = 1 + key[1] % 3, key[1] % 2 == 0
            self.data = set_hybridized_model(PolynomialLinearRegressor, idx, is_input_residual=res, model_init_args=dict(
                n_features_in=ni, poly_degree=self.deg, is_bias=self.bias, **nrm), data_scalers=scal or None)
            self.randomize(self.data['hyb_model'], key)
        elif ty == 'elastic':
            self.data = set_hybridized_model(BatchedElasticModel, idx, is_input_residual=res, model_init_args=dict(
                problem_type=4, elastic_properties={'E': E_, 'v': NU}, elastic_symmetry='isotropic'))
        elif ty == 'voldev':
            self.data = set_hybridized_model(VolDevCompositionModel, idx, is_input_residual=res, model_init_args={})
        else:
            self.data = set_hybridized_model(RecurrentConstitutiveModel, idx, is_input_residual=res, model_init_args=dict(
                n_features_in=F, n_features_out=F, learnable_parameters={'E': dict(initial_value=E_, bounds=(50.0, 150.0))},
                strain_formulation='infinitesimal', problem_type=4, material_model_name='elastic',
                material_model_parameters={'elastic_symmetry': 'isotropic', 'E': E_, 'v': NU}, model_directory=None))
        self.ref = copy.deepcopy(self.data['hyb_model']) if ty in ('gru', 'rc') else None
        self.weights = {k: v.detach().clone() for k, v in self.data['hyb_model'].named_parameters()}

    @staticmethod
    def randomize(m, key):
        g = gen(*key, 7)
        with torch.no_grad():
            for _, q in sorted(m.named_parameters()):
                q.copy_(torch.randn(q.shape, generator=g) * 0.5)

    @staticmethod
    def params(key, n):
        g = gen(*key)
        if key[-2] % 2:
            lo = -torch.rand(n, generator=g) - 0.5
            return ('mm', lo, lo + 1.0 + 2.0 * torch.rand(n, generator=g))
        return ('ms', torch.randn(n, generator=g), 0.5 + torch.rand(n, generator=g))

    @staticmethod
    def scaler(prm, n):
        if prm[0] == 'mm':
            return TorchMinMaxScaler(n, minimum=prm[1], maximum=prm[2])
        return TorchStandardScaler(n, mean=prm[1], std=prm[2])

    @staticmethod
    def scale(prm, x, back):
        """Normalization, or its inverse, written here: mean-std, or min-max onto [-1, 1]."""
        a, b = (prm[1], prm[2]) if prm[0] == 'ms' else ((prm[1] + prm[2]) / 2.0, (prm[2] - prm[1]) / 2.0)
        return x * b + a if back else (x - a) / b

    def apply(self, x):
        """What the part computes on sequences (T, B, features)."""
        ty = self.p['type']
        if ty in ('gru', 'rc'):
            cols = []
            for b in range(x.shape[1]):
                y = self.ref(x[:, b, :].clone().unsqueeze(1))
                cols.append((y[0] if isinstance(y, tuple) else y)[:, 0, :])
            return torch.stack(cols, dim=1).detach()
        if ty == 'poly':
            out = []
            for f in range(self.p['in']):
                c = self.weights[f'_polynomial_layers.{f}.weight'][0]
                degs = range(0 if self.bias else 1, self.deg + 1)
                out.append(sum(c[k] * x[..., f] ** d for k, d in enumerate(degs)))
            return torch.stack(out, dim=-1)
        if ty == 'elastic':
            e = x if x.shape[-1] == F else x[..., F:] - x[..., :F]
            lam, mu = E_ * NU / ((1 + NU) * (1 - 2 * NU)), E_ / (2 * (1 + NU))
            tr = sum(e[..., i] for i, c in enumerate(ORDER) if c[0] == c[1])
            return torch.stack([2 * mu * e[..., i] + (lam * tr if c[0] == c[1] else 0.0) for i, c in enumerate(ORDER)], dim=-1)
        if ty == 'voldev':
            return torch.stack([x[..., i + 1] + (x[..., 0] if c[0] == c[1] else 0.0) for i, c in enumerate(ORDER)], dim=-1)
        raise Machinery(ty)


def evaluate(t, x, parts):
    op = t['op']
    if op == 'in':
        return x
    if op == 'sum':
        ys = [evaluate(a, x, parts) for a in t['args']]
        return torch.stack(ys).sum(0)
    a = evaluate(t['a'], x, parts)
    if op == 'cat':
        return torch.cat((a, evaluate(t['b'], x, parts)), dim=-1)
    p = parts[t['part']]
    if op == 'normalize':
        return Part.scale(p.si, a, False)
    if op == 'denormalize':
        return Part.scale(p.so, a, True)
    return p.apply(a)


class HybridRun:
    def __init__(self, b, ctx, seed):
        self.b, self.ctx, self.seed, self.steps = b, ctx, seed, 0

    def features(self, op):
        g = gen(self.seed, op['x'], 11)
        n = {'path': (5, F), 'batch': (4, 3, F), 'single': (1, 1, F)}[op['shape']]
        return 0.3 * torch.randn(n, generator=g)

    def run(self):
        for op in self.b['log']:
            getattr(self, op['op'])(op)
            self.steps += 1
        return self.steps

    def dict_of(self, parts):
        return {p['name']: self.parts[p['name']].data for p in parts}

    def reject(self, op):
        self.parts = {p['name']: Part(p, self.ctx, self.seed) for p in op['parts']}
        expect_raises(lambda: HybridModel(F, F, self.dict_of(op['parts']), model_directory=self.ctx.tmpdir('hyb')),
                      'two models at the same place were accepted', Exception)

    def build(self, op):
        self.spec = op
        self.parts = {p['name']: Part(p, self.ctx, self.seed) for p in op['parts']}
        self.dir = self.ctx.tmpdir('hyb')
        self.model = HybridModel(F, F, self.dict_of(op['parts']), model_directory=self.dir, hybridization_type=op['kind'],
                                 is_model_out_normalized=op['out'])
        self.so = None
        if op['out']:
            self.so = Part.params((self.seed, 2, 21), F)
            set_data_scalers(self.model, Part.scaler(Part.params((self.seed, 1, 22), F), F), Part.scaler(self.so, F))
        for p in op['parts']:
            expect(self.model.get_hybridized_model(p['name']) is self.parts[p['name']].data['hyb_model'], 'a part found by its name', p['name'])
        expect(sorted(self.model.get_hybridized_models_names()) == sorted(self.parts), 'names of the parts')
        expect_raises(lambda: self.model.get_hybridized_model('absent'), 'an unknown part was returned', Exception)

    def want(self, x):
        y = evaluate(self.spec['term'], x if x.dim() == 3 else x.unsqueeze(1), self.parts)
        if self.spec['out']:
            y = Part.scale(self.so, y, False)
        return y if x.dim() == 3 else y.squeeze(1)

    def forward(self, op):
        x = self.features(op)
        want = self.want(x)
        for grad in (False, True):
            with torch.set_grad_enabled(grad):
                arg = x.clone()
                for _ in range(2):                    # a second evaluation starts afresh
                    y = self.model(arg)
                    expect(torch.equal(arg, x), 'the evaluation changed its input')
                    expect(tuple(y.shape) == tuple(want.shape), 'shape of the output', (y.shape, want.shape))
                    scale = 1.0 + float(want.abs().max())
                    expect(bool(((y.detach() - want).abs() <= 2e-4 * scale).all()), 'the model does not compute the declared composition of its parts',
                           dict(kind=self.spec['kind'], parts=self.spec['parts'], got=y.detach().flatten()[:12].tolist(), want=want.flatten()[:12].tolist()))
                    y.detach().add_(1.0)              # nor does changing the output change anything
        for p in self.parts.values():
            for k, v in p.data['hyb_model'].named_parameters():
                expect(torch.equal(v.detach(), p.weights[k]), 'the evaluation changed the parameters of a part', (p.p['name'], k))

    def reload(self, op):
        how = op['n'] % 2
        self.model = (HybridModel.init_model_from_file(model_directory=self.dir) if how else
                      HybridModel.init_model_from_file(model_init_file_path=os.path.join(self.dir, 'model_init_file.pkl')))
        expect(self.model.is_model_out_normalized == self.spec['out'], 'reloaded model', 'normalization')
        expect(sorted(self.model.get_hybridized_models_names()) == sorted(self.parts), 'names of the parts of the reloaded model')


def layers(_):
    """The layers refuse features of other sizes, and compute the same on a path and on a batch of one path."""
    el, vd = BatchedElasticModel(4, {'E': E_, 'v': NU}, 'isotropic'), VolDevCompositionModel()
    for n in (1, 5, 7, 11, 13):
        expect_raises(lambda: el(torch.zeros(3, n)), 'features of another size were accepted', Exception)
    for n in (1, 6, 8):
        expect_raises(lambda: vd(torch.zeros(3, n)), 'features of another size were accepted', Exception)
    for m, n in ((el, 6), (el, 12), (vd, 7)):
        x = torch.randn(4, n, generator=gen(5, n))
        keep = x.clone()
        a, b = m(x), m(keep.clone().unsqueeze(1)).squeeze(1)
        expect(torch.equal(x, keep), 'a layer changed its input')
        expect(bool(torch.allclose(a, b, rtol=1e-5, atol=1e-5)), 'a layer on a path and on a batch')
    # plane strain
    e = torch.randn(4, 3, generator=gen(6))
    s = BatchedElasticModel(1, {'E': E_, 'v': NU}, 'isotropic')(e)
    lam, mu = E_ * NU / ((1 + NU) * (1 - 2 * NU)), E_ / (2 * (1 + NU))
    o2 = get_problem_type_parameters(1)[1]
    tr = sum(e[:, i] for i, c in enumerate(o2) if c[0] == c[1])
    want = torch.stack([2 * mu * e[:, i] + (lam * tr if c[0] == c[1] else 0.0) for i, c in enumerate(o2)], dim=-1)
    expect(bool(((s - want).abs() < 1e-3).all()), 'elastic layer in plane strain')
    expect_raises(lambda: HybridModel(F, F, {'e': dict(hyb_model=el, hyb_indices=(0, 0), is_input_residual=False)}, model_directory=None,
                                      hybridization_type='other', is_save_model_init_file=False), 'an unknown kind was accepted', Exception)
    # a normalized part without scalers
    p = set_hybridized_model(PolynomialLinearRegressor, (0, 0), model_init_args=dict(n_features_in=6, is_model_in_normalized=True))
    expect_raises(lambda: HybridModel(F, F, {'p': p}, model_directory=None, is_save_model_init_file=False),
                  'a normalized part without scalers was accepted', Exception)
    for bad in ([0, 0], (0,), (0, 1, 2), (0.0, 1)):
        expect_raises(lambda: set_hybridized_model(VolDevCompositionModel, bad, model_init_args={}), 'invalid indices were accepted', Exception)
    return 20


def run(ctx):
    runs = [(('Hybrid', dict(Sim=False, MaxParts=2, MaxUse=0)),
             dict(spec='Spec', invariants=['Once', 'All', 'Unordered', 'NoClash'], label='Hybrid/design')),
            (('Hybrid', dict(Sim=True, MaxParts=5, MaxUse=4)),
             dict(spec='Spec', invariants=['Once', 'All', 'NoClash', 'Emit'], simulate=500 if ctx.quick else 6000, depth=40, label='Hybrid/random')),
            (('Hybrid', dict(Sim=True, MaxParts=3, MaxUse=4)),
             dict(spec='Spec', invariants=['Once', 'All', 'NoClash', 'Emit'], simulate=200 if ctx.quick else 2000, depth=40, label='Hybrid/small'))]
    if not ctx.quick:
        runs.append((('Hybrid', dict(Sim=False, MaxParts=3, MaxUse=0)),
                     dict(spec='Spec', invariants=['Once', 'All', 'Unordered', 'NoClash'], label='Hybrid/design3')))
    res = ctx.tlc_many(runs)
    ctx.replay([0], layers, 'layers')
    torch.set_num_threads(1)
    items = res[1].behaviours + res[2].behaviours
    ctx.preplay(list(enumerate(items)), lambda it: HybridRun(it[1], ctx, ctx.seed * 100003 + it[0]).run(), 'hybrid')
    ctx.assumptions += ['parts are evaluated in single precision; agreement within 2e-4 of the largest component']
