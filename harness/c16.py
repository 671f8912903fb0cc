"""C16: histories of spec/Params.tla on the real recurrent constitutive models and the material model finder."""
import math

import numpy as np
import torch

from torch.optim.optimizer import register_optimizer_step_pre_hook

import material_model_finder.train.training as finder_tr
import model_architectures.hybrid_base_model.train.training as hyb_tr
import model_architectures.rc_base_model.train.training as rc_tr
import time_series_data.time_dataset as td
from c24 import specimen
from fw import Machinery, expect, expect_raises
from material_model_finder.data.specimen_data import SpecimenNumericalData
from material_model_finder.model.material_discovery import MaterialModelFinder
from model_architectures.hybrid_base_model.model.hybridized_model import set_hybridized_model
from model_architectures.hybrid_base_model.model.transfer_learning import PolynomialLinearRegressor
from model_architectures.procedures.model_state_files import load_model_state, save_model_state
from model_architectures.rc_base_model.model.recurrent_model import RecurrentConstitutiveModel
from simulators.fetorch.element.type.hexa8 import FEHexa8
from simulators.fetorch.element.type.quad4 import FEQuad4
from simulators.fetorch.material.models.standard.drucker_prager import DruckerPrager
from simulators.fetorch.material.models.standard.elastic import Elastic
from simulators.fetorch.material.models.standard.hardening import get_hardening_law
from simulators.fetorch.material.models.standard.lou import LouZhangYoon
from simulators.fetorch.material.models.standard.von_mises import VonMises
from simulators.fetorch.material.models.standard.von_mises_mixed import VonMisesMixed
from simulators.fetorch.math.matrixops import get_problem_type_parameters
from simulators.fetorch.structure.structure_state import StructureMaterialState

# unit of each parameter (specified values are multiples of 1/64 of it)
UNIT = dict(E=1000.0, v=0.06, s0=2.0, a=20.0, b=0.1, kin_s0=1.0, kin_a=15.0, kin_b=0.1, friction_angle=0.08,
            yield_cohesion_parameter=0.2, yield_pressure_parameter=0.1, flow_pressure_parameter=0.1,
            yield_a_s0=0.5, yield_b_s0=0.02, yield_c_s0=1.0, yield_d_s0=3 * math.sqrt(3) / 8,
            yield_a_a=0.1, yield_b_a=0.005, yield_c_a=0.05, yield_d_a=0.02,
            yield_a_b=0.1, yield_b_b=0.1, yield_c_b=0.1, yield_d_b=0.1)
CLS = dict(elastic=Elastic, von_mises=VonMises, von_mises_mixed=VonMisesMixed, drucker_prager=DruckerPrager,
           lou_zhang_yoon=LouZhangYoon)
CD = ('yield_c_s0', 'yield_d_s0')


def name_of(const):
    where, key = const
    if where in ('material', 'hardening'):
        return key
    return 'kin_' + key if where == 'kinematic_hardening' else f'yield_{where[0]}_{key}'


def constants(material, values):
    """Material parameters with the given physical values (per learnable name)."""
    p = {'elastic_symmetry': 'isotropic', 'E': values['E'], 'v': values['v']}
    law = lambda s: {'s0': values.get(s + 's0'), 'a': values.get(s + 'a'), 'b': values.get(s + 'b'), 'ep0': 0.01}
    nl = get_hardening_law('nadai_ludwik')
    if material != 'elastic':
        p.update(hardening_law=nl, hardening_parameters=law(''))
    if material == 'von_mises_mixed':
        p.update(kinematic_hardening_law=nl, kinematic_hardening_parameters=law('kin_'))
    if material == 'drucker_prager':
        if 'friction_angle' in values:
            f = values['friction_angle']
            values = dict(values, yield_cohesion_parameter=2 / math.sqrt(3) * math.cos(f),
                          yield_pressure_parameter=3 / math.sqrt(3) * math.sin(f),
                          flow_pressure_parameter=3 / math.sqrt(3) * math.sin(f))
        p.update({k: values[k] for k in ('yield_cohesion_parameter', 'yield_pressure_parameter',
                                         'flow_pressure_parameter')})
    if material == 'lou_zhang_yoon':
        for k in 'abcd':
            p.update({f'{k}_hardening_law': nl, f'{k}_hardening_parameters': law(f'yield_{k}_')})
        p['is_associative_hardening'] = True
    return p


def paths(rng, n_dim, n_path):
    nf = 6 if n_dim == 3 else 3
    inc = rng.normal(size=(5, n_path, nf)) * 2e-3
    inc[:, :, n_dim:] *= 0.5
    inc[0] = 0.0
    return torch.tensor(np.cumsum(inc, axis=0))


def reference(material, values, n_dim, path):
    """Stress path of the standard model with constant parameters (None if its state update fails)."""
    m = CLS[material]('infinitesimal', 4 if n_dim == 3 else 1, constants(material, values))
    s, out = m.state_init(), []
    order = [(int(c[0]) - 1, int(c[1]) - 1) for c in get_problem_type_parameters(4 if n_dim == 3 else 1)[1]]
    prev = np.zeros((n_dim, n_dim))
    for row in path.detach().numpy():
        e = np.zeros((n_dim, n_dim))
        for v, (i, j) in zip(row, order):
            e[i, j] = e[j, i] = v
        if out:
            s, _ = m.state_update(torch.tensor(e - prev), s)
            if bool(s['is_su_fail']) or not bool(torch.isfinite(s['stress_mf']).all()):
                return None
        prev = e
        mf = np.asarray(s['stress_mf'].detach(), dtype=float)
        out.append([v / (1 if i == j else math.sqrt(2)) for v, (i, j) in zip(mf, order)])
    return np.array(out)


class Case:
    """One real model (alone, or the material of a finder) with the learnable parameters of a behaviour."""

    def __init__(self, b, ctx, rng, material, version):
        self.b, self.ctx, self.rng, self.material, self.version = b, ctx, rng, material, version
        self.norm = b['norm']
        self.lo = {r['p']: r['v'] for r in b['lo']}
        self.hi = {r['p']: r['v'] for r in b['hi']}
        self.base = {r['p']: r['v'] for r in b['base']}
        self.n_dim = 3 if rng.random() < 0.5 else 2
        self.tol = 1e-6
        init = {r['p']: r['v'] for r in b['ops'][0]['phys']}
        names = list(b['learn'])
        rng.shuffle(names)
        learn = {p: dict(initial_value=self.val(p, init[p]), bounds=(self.val(p, self.lo[p]), self.val(p, self.hi[p])))
                 for p in names}
        base = {p: self.val(p, v) for p, v in self.base.items() if p != 'friction_angle'}
        nf = 6 if self.n_dim == 3 else 3
        self.dir = ctx.tmpdir('rc')
        kw = dict(n_features_in=nf, n_features_out=nf, learnable_parameters=learn, model_directory=self.dir,
                  is_normalized_parameters=self.norm, device_type='cpu')
        law = material + ('_vmap' if version == 'vmap' else '')
        self.finder, self.label = None, 'model_1_'
        kind = rng.random()
        if kind < 0.4:
            self.model = RecurrentConstitutiveModel(
                strain_formulation='infinitesimal', problem_type=4 if self.n_dim == 3 else 1, model_name='m',
                material_model_name=law, material_model_parameters=constants(material, base), **kw)
        elif kind < 0.7:
            # a part of a hybrid model, with parts without explicit parameters around it
            self.model = RecurrentConstitutiveModel(
                strain_formulation='infinitesimal', problem_type=4 if self.n_dim == 3 else 1, model_name='m',
                material_model_name=law, material_model_parameters=constants(material, base), **kw)
            name = 'x_E' if rng.random() < 0.5 else 'mat'
            other = lambda i: set_hybridized_model(PolynomialLinearRegressor, i, model_init_args=dict(
                n_features_in=nf, poly_degree=1, is_model_in_normalized=False, is_model_out_normalized=False))
            parts = [(name, dict(hyb_model=self.model, hyb_indices=(0, 1), is_input_residual=False)),
                     ('low', other((0, 0))), ('side', other((1, 0)))]
            sm = StructureMaterialState('infinitesimal', 4 if self.n_dim == 3 else 1, 1)
            sm.init_elements_model('hybrid_material_model', {}, [1], {'1': FEHexa8() if self.n_dim == 3 else FEQuad4()},
                                   model_kwargs=dict(n_features_in=nf, n_features_out=nf, hyb_models_dict=dict(
                                       parts[i] for i in rng.permutation(3)), hybridization_type='additive',
                                       model_directory=ctx.tmpdir('hyb'), is_model_in_normalized=False,
                                       is_model_out_normalized=False, device_type='cpu'))
            self.hybrid, self.part = sm.get_elements_material()['1'], name
            expect(self.hybrid.get_hybridized_model(name) is self.model, 'part of the hybrid model')
            self.finder, self.label = MaterialModelFinder(ctx.tmpdir('finder')), f'model_1_{name}_'
            self.finder._specimen_material_state = sm
        else:
            sm = StructureMaterialState('infinitesimal', 4 if self.n_dim == 3 else 1, 1)
            sm.init_elements_model('rc_' + law, constants(material, base), [1],
                                   {'1': FEHexa8() if self.n_dim == 3 else FEQuad4()},
                                   model_kwargs=dict(kw, material_model_name=law, state_features_out={},
                                                     is_auto_sync_parameters=True, is_check_su_fail=True,
                                                     is_model_in_normalized=False, is_model_out_normalized=False))
            self.model = sm.get_elements_material()['1']
            self.finder = MaterialModelFinder(ctx.tmpdir('finder'))
            self.finder._specimen_material_state = sm

    def val(self, p, x):
        return x / 64 * UNIT[p]

    def check(self, h, where):
        """Stored and physical values, bounds and gradients flags."""
        raw = {r['p']: r['v'] for r in h['raw']}
        phys = {r['p']: r['v'] for r in h['phys']}
        par = self.model.get_model_parameters()
        expect(set(par.keys()) == set(raw), f'{where}: learnable parameters {sorted(par.keys())}')
        got = self.model.get_detached_model_parameters(is_normalized_out=False)
        nrm = self.model.get_detached_model_parameters(is_normalized_out=True)
        expect(set(got) == set(raw) == set(nrm), f'{where}: parameters read {sorted(got)}')
        for p in raw:
            u = UNIT[p]
            want = raw[p] / 64 if self.norm else self.val(p, raw[p])
            tol = self.tol if p in CD else 1e-6
            scale = 1 if self.norm else u
            expect(abs(float(par[p]) - want) <= tol * 8 * scale, f'{where}: stored value of {p}',
                   dict(got=float(par[p]), spec=want))
            expect(abs(got[p] - self.val(p, phys[p])) <= tol * 8 * u, f'{where}: physical value of {p}',
                   dict(got=got[p], spec=self.val(p, phys[p])))
            w = 2 * (phys[p] - self.lo[p]) / (self.hi[p] - self.lo[p]) - 1
            expect(abs(nrm[p] - w) <= tol * 8, f'{where}: normalized value of {p}', dict(got=nrm[p], spec=w))
            expect(abs(self.model.transform_parameter(
                p, self.model.transform_parameter(p, got[p], 'normalize'), 'denormalize') - got[p]) <= 1e-6 * 8 * u,
                f'{where}: normalizing and denormalizing {p}')
        bounds = self.model.get_model_parameters_bounds()
        expect({p: tuple(v) for p, v in bounds.items()} ==
               {p: (self.val(p, self.lo[p]), self.val(p, self.hi[p])) for p in raw}, f'{where}: bounds {bounds}')
        bounds.clear()
        got.clear()
        if self.finder is not None:
            got = self.finder.get_detached_model_parameters()
            bounds = self.finder.get_model_parameters_bounds()
            expect(len(got) == len(raw) and set(got) == set(bounds), f'{where}: finder parameters {sorted(got)}')
            for key, v in got.items():
                p = [q for q in raw if key == self.label + q]
                expect(len(p) == 1, f'{where}: finder parameter {key}')
                p = p[0]
                expect(abs(v - self.val(p, phys[p])) <= (self.tol if p in CD else 1e-6) * 8 * UNIT[p]
                       and tuple(bounds[key]) == (self.val(p, self.lo[p]), self.val(p, self.hi[p])),
                       f'{where}: finder reads {v} for {p}')
        if self.label != 'model_1_':
            h = self.hybrid
            want = self.model.get_detached_model_parameters(), self.model.get_detached_model_parameters(True)
            expect((h.get_detached_model_parameters(), h.get_detached_model_parameters(is_normalized_out=True)) ==
                   tuple({f'{self.part}_{p}': v for p, v in w.items()} for w in want) and h.get_model_parameters_bounds() ==
                   {f'{self.part}_{p}': v for p, v in self.model.get_model_parameters_bounds().items()},
                   f'{where}: parameters of the hybrid model')

    def target(self):
        return self.finder if self.finder is not None and self.rng.random() < 0.7 else self.model

    def do(self, h, where):
        getattr(self, 'op_' + h['op'])(h, where)

    def op_init(self, h, where):
        pass

    def op_step(self, h, where):
        opt = torch.optim.SGD([p for p in self.model.parameters()], lr=1.0)
        grad = {r['p']: r['v'] for r in h['grad']}
        loss = sum(-(g / 64 if self.norm else self.val(p, g)) * self.model.get_model_parameters()[p]
                   for p, g in grad.items())
        opt.zero_grad()
        if loss.requires_grad:
            loss.backward()
        opt.step()

    def op_bounds(self, h, where):
        self.target().enforce_parameters_bounds()

    def op_enforce(self, h, where):
        t = self.target()
        t.enforce_parameters_bounds()
        if self.material == 'lou_zhang_yoon':
            self.tol = 1e-3
        t.enforce_parameters_constraints()

    def op_free(self, h, where):
        """Both convexity parameters off the axes: kept if convex, else moved towards zero to the convex boundary."""
        t = self.target()
        t.enforce_parameters_bounds()
        if len([p for p in CD if p in self.b['learn']]) < 2:
            raise Machinery('constant convexity parameter off the axis')
        self.check(h, where + ' before constraints')
        raw0 = {p: float(self.model.get_model_parameters()[p]) for p in CD}
        c, d = (self.model.get_detached_model_parameters()[p] for p in CD)
        t.enforce_parameters_constraints()
        cc, dd = (self.model.get_detached_model_parameters()[p] for p in CD)
        m, r0, r1 = convexity(c, d), math.hypot(c, d), math.hypot(cc, dd)
        if m > 1e-3:
            expect(raw0 == {p: float(self.model.get_model_parameters()[p]) for p in CD},
                   f'{where}: convex parameters ({c:g}, {d:g}) moved to ({cc:g}, {dd:g})')
        if m < -1e-3:
            expect(abs(c * dd - d * cc) <= 1e-3 * r0 and c * cc + d * dd > 0 and r1 <= r0,
                   f'{where}: ({c:g}, {d:g}) moved to ({cc:g}, {dd:g}), not towards zero')
            expect(convexity(cc * 0.999, dd * 0.999) > 0, f'{where}: ({cc:g}, {dd:g}) is not convex')
            expect(convexity(cc * 1.005, dd * 1.005) < 0, f'{where}: ({cc:g}, {dd:g}) is not on the boundary')
        h['skip'] = True

    def op_freeze(self, h, where):
        self.model.freeze_parameter(h['p'])
        expect_raises(lambda: self.model.freeze_parameter('nothing'), f'{where}: unknown parameter frozen')

    def op_read(self, h, where):
        got = self.model.get_detached_model_parameters(is_normalized_out=h['norm'])
        got[next(iter(got))] = 1e9
        self.model.get_model_parameters_norm_bounds().clear()

    def op_respond(self, h, where):
        values = {name_of(r['c']): self.val(name_of(r['c']), r['v']) for r in h['const']}
        n_path = int(self.rng.integers(1, 3))
        x = paths(self.rng, self.n_dim, n_path)
        want = [reference(self.material, values, self.n_dim, x[:, i]) for i in range(n_path)]
        if any(w is None for w in want):
            self.ctx.extra['failed_references'] = self.ctx.extra.get('failed_references', 0) + 1
            return
        single = n_path == 1 and self.rng.random() < 0.5
        out = self.model(x[:, 0] if single else x)
        out = out[:, None] if single else out
        y = out.detach().numpy()
        for i, w in enumerate(want):
            bad = [t for t in range(len(w)) if np.isnan(y[t, i]).all()]
            if self.material == 'lou_zhang_yoon' and self.version == 'vmap' and bad and y[:, i].shape == w.shape:
                # a failed state update is reported as NaN; convergence is not guaranteed near the apex or at the
                # boundary of the convex domain, so the path is followed on a smaller scale
                expect(bad[0] > 0 and bad == list(range(bad[0], len(w))), f'{where}: response {y[:, i].tolist()}')
                w, z = reference(self.material, values, self.n_dim, x[:, i] / 8), self.model(x[:, i] / 8)
                if w is not None:
                    expect(np.abs(z.detach().numpy() - w).max() <= max(1e-5, 30 * self.tol * (self.tol > 1e-6))
                           * (1 + np.abs(w).max()), f'{where}: response is not that of the current parameters {values}',
                           dict(got=z.tolist(), spec=w.tolist()))
                continue
            expect(y[:, i].shape == w.shape and np.abs(y[:, i] - w).max() <= max(1e-5, 30 * self.tol * (self.tol > 1e-6))
                   * (1 + np.abs(w).max()), f'{where}: response is not that of the current parameters {values}',
                   dict(got=y[:, i].tolist(), spec=w.tolist()))
        self.gradient(x, where)

    def gradient(self, x, where):
        """The response is differentiable with respect to the stored values (compared with differences)."""
        par = self.model.get_model_parameters()
        free = [p for p in par if par[p].requires_grad]
        if not free or (self.material == 'lou_zhang_yoon') or self.rng.random() < 0.5:
            return
        p = free[self.rng.integers(len(free))]
        w = torch.tensor(self.rng.normal(size=(x.shape[0], x.shape[1], x.shape[2])))
        f = lambda: (self.model(x) * w).sum()
        y = f()
        g = torch.autograd.grad(y, par[p], allow_unused=True)[0] if y.requires_grad else None
        g = 0.0 if g is None else float(g)
        v0 = par[p].data.clone()
        eps = 1e-5 * (1 if self.norm else UNIT[p])
        d = []
        with torch.no_grad():
            for s in (1, -1):
                par[p].data = v0 + s * eps
                d.append((float(f()) - float(y)) / (s * eps))
            par[p].data = v0
        if abs(d[0] - d[1]) > 1e-3 * (1 + abs(d[0]) + abs(d[1])):
            return                                       # a kink of the response
        num = (d[0] + d[1]) / 2
        expect(abs(g - num) <= 2e-2 * (abs(num) + 1e-2), f'{where}: derivative of the response by {p} is {g:g}, '
               f'differences give {num:g}')

    def op_reload(self, h, where):
        if self.finder is not None:
            for p in self.model.parameters():
                p.requires_grad = True
            return
        self.model.save_model_init_file()
        save_model_state(self.model, state_type='epoch', epoch=3)
        self.model = RecurrentConstitutiveModel.init_model_from_file(model_directory=self.dir)
        load_model_state(self.model, model_load_state=3)


def convexity(c, d):
    """Smallest curvature of the yield locus (relative): positive iff the surface is convex."""
    k = 2 / math.sqrt(27)
    x = np.cos(np.linspace(0, np.pi, 4001))
    g, de = c * k * k, d * k
    w = 1 - g * x * x
    if w.min() <= 1e-9:
        return -1.0
    s = np.sqrt(w)
    h, h1, h2 = s - de * x, -g * x / s - de, -g / s ** 3
    if h.min() <= 1e-9:
        return -1.0
    return float((h * h + 3 * h * ((1 - x * x) * h2 - x * h1) - 2 * (1 - x * x) * h1 * h1).min())


def runner(ctx, material, version):
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item, len(material)])
        torch.set_default_dtype(torch.float64)
        try:
            c = Case(b, ctx, rng, material, version)
            for i, h in enumerate(b['ops']):
                where = f'{material} {version}, step {i} ({h["op"]})'
                c.do(h, where)
                if not h.get('skip'):
                    c.check(h, where)
        finally:
            torch.set_default_dtype(torch.float32)
        return len(b['ops'])
    return run


def axes():
    """The driver's convexity measure agrees with the specified convex intervals on the axes."""
    for c, d, ok in ((2.24, 0, 1), (2.26, 0, 0), (-3.36, 0, 1), (-3.39, 0, 0), (0, 1.295, 1), (0, 1.303, 0),
                     (0, -1.295, 1), (0, -1.303, 0)):
        if (convexity(c, d) > 0) != bool(ok):
            raise Machinery('convexity measure')


def run(ctx):
    axes()
    probe(ctx)
    training(ctx)
    n, ops = (24, 14) if ctx.quick else (200, 25)
    inv = ['Admissible', 'Idempotent', 'Inverse']
    cases = [(material, nrm) for material in CLS for nrm in (True, False)]
    res = ctx.tlc_many(
        [(('Params', dict(Material='elastic', Norm=nrm, MaxOps=2 if ctx.quick else 3, Sim=False)),
          dict(spec='Spec', invariants=inv, workers=2, label=f'design, normalized {nrm}')) for nrm in (True, False)] +
        [(('Params', dict(Material=material, Norm=nrm, MaxOps=ops, Sim=True)),
          dict(spec='Spec', invariants=inv + ['Emit'], depth=ops + 4, workers=2,
               simulate=n * (2 if material == 'lou_zhang_yoon' else 1), label=f'{material}, normalized {nrm}'))
         for material, nrm in cases])[2:]
    plays = []
    for (material, _), r in zip(cases, res):
        if not r.behaviours:
            raise Machinery('no behaviours')
        bs = r.behaviours
        ver = ['standard'] if material == 'elastic' else ['standard', 'vmap']
        for k, v in enumerate(ver):
            plays.append((bs[k::len(ver)] if ctx.quick else bs, runner(ctx, material, v), f'{material} {v}'))
    torch.set_num_threads(1)
    ctx.preplays(plays)


def training(ctx):
    """Real training: after every update the parameters are in their bounds and satisfy the material constraints."""
    def one(case):
        kind, version, norm, seed = case
        rng = np.random.default_rng([ctx.seed, seed, 5])
        values = {p: UNIT[p] for p in ('E', 'v', 's0', 'a', 'b')}
        values.update({f'yield_{k}_{q}': UNIT[f'yield_{k}_{q}'] for k in 'abcd' for q in ('s0', 'a', 'b')})
        # start at the convex boundary, in a random direction, and move by large steps
        a = rng.uniform(0, 2 * math.pi)
        u = (0.95 if seed % 2 == 0 or kind == 'hybrid' else 1.1) * min(r for r in np.linspace(0.05, 6, 400) if convexity(r * math.cos(a), r * math.sin(a)) < 0)
        start = dict(yield_c_s0=u * math.cos(a), yield_d_s0=u * math.sin(a), yield_a_s0=0.5, E=1000.0)
        bounds = dict(yield_c_s0=(-4.5, 4.5), yield_d_s0=(-2.5, 2.5), yield_a_s0=(0.45, 0.55), E=(900.0, 1100.0))
        d = ctx.tmpdir('train')
        args = dict(n_features_in=6, n_features_out=6, strain_formulation='infinitesimal', problem_type=4, is_normalized_parameters=norm,
                    learnable_parameters={p: dict(initial_value=start[p], bounds=bounds[p]) for p in rng.permutation(list(start))},
                    material_model_name='lou_zhang_yoon' + ('_vmap' if version == 'vmap' else ''),
                    material_model_parameters=constants('lou_zhang_yoon', values), model_directory=None if kind == 'hybrid' else d)
        x = [paths(rng, 3, 1)[:, 0].float() / 100 for _ in range(2)]
        ds = td.TimeSeriesDatasetInMemory([{'features_in': v, 'features_out': torch.randn(*v.shape, generator=torch.Generator().manual_seed(seed)) * 50}
                                           for v in x])
        kw, mod = {}, rc_tr
        if kind != 'hybrid':
            kw = dict(is_params_stopping=False)
        if 'finder' in kind:
            args.update(n_features_in=3, n_features_out=3)
            formulation, problem = args.pop('strain_formulation'), args.pop('problem_type')

            def material(sm, el):
                rest = {k: v for k, v in args.items() if k != 'material_model_parameters'}
                if kind == 'finder':
                    sm.init_elements_model('rc_' + rest['material_model_name'], args['material_model_parameters'], [1, 2], el, model_kwargs=dict(
                        rest, state_features_out={}, is_auto_sync_parameters=True, is_check_su_fail=False, model_directory=ctx.tmpdir('rc'),
                        is_model_in_normalized=False, is_model_out_normalized=False, device_type='cpu'))
                else:
                    part = set_hybridized_model(RecurrentConstitutiveModel, (0, 0), model_init_args=dict(
                        args, strain_formulation=formulation, problem_type=1, model_directory=None))
                    sm.init_elements_model('hybrid_material_model', {}, [1, 2], el, model_kwargs=dict(
                        n_features_in=3, n_features_out=3, hyb_models_dict={'mat': part}, hybridization_type='additive',
                        model_directory=ctx.tmpdir('hyb'), is_model_in_normalized=False, is_model_out_normalized=False, device_type='cpu'))
            data, sm = specimen(ctx, None, norm, material)
            real = MaterialModelFinder.forward
            MaterialModelFinder.forward = lambda self, *a, **k: 1.0 + 0.0 * sum(p.sum() for p in self.parameters())
            kw.update(specimen_data=data, specimen_material_state=sm, model_init_args=dict(model_directory=d, model_name='finder'),
                      is_explicit_model_parameters=True)
        elif kind == 'hybrid':
            mod = hyb_tr
            args = dict(n_features_in=6, n_features_out=6, model_directory=d, hyb_models_dict={
                'mat': set_hybridized_model(RecurrentConstitutiveModel, (0, 0), model_init_args=args)})
        seen = []

        def pre(opt, *a):
            # a gradient in a random direction instead of that of the loss
            ps = [p for g in opt.param_groups for p in g['params']]
            seen.append([float(p.detach()) for p in ps])
            for p in ps:
                p.grad = torch.full_like(p, float(rng.choice((-1.0, 1.0))))
        hook = register_optimizer_step_pre_hook(pre)
        try:
            if 'finder' in kind:
                model, _, _ = finder_tr.train_model(n_max_epochs=6, lr_init=0.6, **kw)
            else:
                model, _, _ = mod.train_model(3, ds, args, 0.6, batch_size=1, seed=seed, **kw)
        finally:
            hook.remove()
            if 'finder' in kind:
                MaterialModelFinder.forward = real
        part = model if 'finder' not in kind else next(iter(model.get_material_models().values()))
        part = part.get_hybridized_model('mat') if 'hybrid' in kind else part
        order = [[n for n, q in part.get_model_parameters().items() if q is p][0] for p in model.parameters()]
        seen.append([float(p.detach()) for p in model.parameters()])
        moved = False
        for k, row in list(enumerate(seen))[1 if kind == 'hybrid' else 0:]:
            v = dict(zip(order, row))
            if norm:
                v = {p: bounds[p][0] + (w + 1) * (bounds[p][1] - bounds[p][0]) / 2 for p, w in v.items()}
            for p, w in v.items():
                s = 1e-5 * (bounds[p][1] - bounds[p][0])
                expect(bounds[p][0] - s <= w <= bounds[p][1] + s, f'{kind} training: {p} = {w:g} after update {k}, out of its bounds')
            c, e = v['yield_c_s0'], v['yield_d_s0']
            expect(convexity(c * 0.998, e * 0.998) > 0, f'{kind} training: ({c:g}, {e:g}) after update {k} is not convex')
            moved = moved or abs(math.hypot(c, e) - u) > 1e-3
        if not moved:
            raise Machinery('the parameters did not move')
        return len(seen)
    torch.set_num_threads(1)
    ctx.preplays([([(k, 'standard', nrm, s) for k in ('rc', 'hybrid', 'finder', 'hybrid finder') for nrm in (True, False) for s in range(3 if ctx.quick else 20)],
                   one, 'training')])


KNOWN = ('with only yield_c_s0 learnable and a non-zero constant yield_d_s0 the enforced pair can remain non-convex '
         '(recurrent_model.py: enforce_parameters_constraints scales both parameters but stores only the learnable one)')


def probe(ctx):
    """Listed finding: bounds (-4, 4), constant yield_d_s0 = 1.25, yield_c_s0 = 4."""
    def one(_):
        values = {p: UNIT[p] for p in ('E', 'v', 's0', 'a', 'b')}
        values.update({f'yield_{k}_{q}': UNIT[f'yield_{k}_{q}'] for k in 'abcd' for q in ('s0', 'a', 'b')})
        values.update(yield_c_s0=0.0, yield_d_s0=1.25)
        m = RecurrentConstitutiveModel(
            strain_formulation='infinitesimal', problem_type=4, model_name='m', n_features_in=6, n_features_out=6,
            material_model_name='lou_zhang_yoon', material_model_parameters=constants('lou_zhang_yoon', values),
            learnable_parameters={'yield_c_s0': dict(initial_value=4.0, bounds=(-4.0, 4.0))},
            model_directory=ctx.tmpdir('rc'), is_normalized_parameters=False, device_type='cpu')
        m.enforce_parameters_bounds()
        m.enforce_parameters_constraints()
        c = m.get_detached_model_parameters()['yield_c_s0']
        expect(-4 <= c <= 4, 'outside of the bounds')
        if convexity(c, 1.25) < -1e-3:
            ctx.known(KNOWN)
        return 1
    ctx.replay([0], one, 'constant convexity parameter')
