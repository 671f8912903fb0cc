"""C28: the gradient of the finder's loss, against the exact derivative of spec/Loss.tla (elastic and plastic materials)
and against differences of the specified loss (networks)."""
import math

import numpy as np
import torch

from c15 import E0, Specimen
from c16 import UNIT, constants
from fw import Machinery, expect
from simulators.fetorch.structure.structure_state import StructureMaterialState


def learnables(s, rng):
    """Learnable parameters of every material: (name, derivative of the physical parameter by the specified quantity)."""
    s.learn, par = {}, {}
    for m in sorted(set(s.mat.values())):
        p = s.params(m, True)
        names = ['E'] if s.kind == 'elastic' else ['E', 's0'] if rng.random() < 0.6 else [str(rng.choice(['E', 's0', 'v']))]
        if len(s.mat) > 1 and rng.random() < 0.15:
            names = []                                  # a material without learnable parameters
        rng.shuffle(names)
        val = dict(E=p['E'], v=p['v'], s0=p['hardening_parameters']['s0'])
        s.learn[m] = {}
        for q in names:
            w = 0.4 if q == 'v' else 4 * abs(val[q])
            lo = val[q] - w * float(rng.uniform(0.1, 0.9))
            s.learn[m][q] = dict(initial_value=val[q], bounds=(lo, lo + w))
        par[m] = val
    return par


def expected(s, m, q, val, lt):
    """Derivative of the loss by the physical parameter q of material m."""
    g = s.b['grad'][lt]
    if q == 'E':
        return g['g'][m - 1] * E0 / (s.t0 * (1 + val['v']))
    if q == 's0':
        return g['y'][m - 1] / (math.sqrt(3) * s.t0)
    return -g['g'][m - 1] * s.b['mats'][m - 1]['g'] / (1 + val['v'])


def runner(ctx, kind, n_mat):
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item])
        torch.set_default_dtype(torch.float64)
        n = 0
        try:
            s = Specimen(b, kind, n_mat, rng, ctx)
            for lt in ('pointwise', 'dirichlet_sets'):
                for mode, model in (('sequential_element', 'rc'), ('sequential_element_vmap', 'vmap')):
                    if mode == 'sequential_element_vmap' and len(set(s.mat.values())) > 1:
                        continue
                    if b['grad']:
                        n += analytic(s, lt, mode, model, rng)
                if rng.random() < (0.25 if s.dim == 2 else 0.1):
                    n += network(s, lt, rng)
                if s.kind == 'elastic' and rng.random() < (0.6 if s.dim == 2 else 0.2):
                    n += hardening(s, lt, rng)
        finally:
            torch.set_default_dtype(torch.float32)
        return n
    return run


def analytic(s, lt, mode, model, rng):
    s.norm_par = bool(rng.random() < 0.5)
    seed = int(rng.integers(1 << 30))
    s.rng = np.random.default_rng(seed)
    par = learnables(s, rng)
    s.rng = np.random.default_rng(seed)                 # the same constants again
    f = s.finder(lt, model)
    models = f.get_material_models()
    where = f'{lt} loss, {mode}, {s.kind}'
    order = sorted(set(s.mat.values()))
    w = max([r['w'] for r in s.b['nrm']] or [1])
    top = max((abs(c['v']) for st in s.b['sig'] for ms in st for c in ms), default=0)
    area = float(np.prod(sorted(s.b['size'][:s.dim])[1:]))
    bulk = s.b['sc'] * sum(s.b['W']) * len(s.b['L']) * (w * top * area) ** 2       # loss if no force were balanced
    for again in range(2 if rng.random() < 0.3 else 1):
        for p in f.parameters():
            p.grad = None
        loss = f(sequential_mode=mode)
        want = s.b['loss'][lt]
        expect(abs(float(loss) - want) <= 2e-4 * (1 + abs(want)), f'{where}: loss {float(loss):g}, specified {want}')
        if not any(s.learn.values()):
            expect(not loss.requires_grad, f'{where}: gradient without learnable parameters')
            return 1
        if loss.requires_grad:                          # otherwise the loss does not depend on them
            loss.backward()
        for k, m in enumerate(order):
            for q, d in s.learn[m].items():
                g = models[str(k + 1)].get_model_parameters()[q].grad
                ref = expected(s, m, q, par[m], lt)
                if s.norm_par:
                    ref *= (d['bounds'][1] - d['bounds'][0]) / 2
                size = abs(ref) + (max(want, 1) + 0.1 * bulk) / ((d['bounds'][1] - d['bounds'][0]) / 2 if not s.norm_par else 1)
                g = 0.0 if g is None else float(g)
                expect(math.isfinite(g) and abs(g - ref) <= 1e-4 * size,
                       f'{where}: derivative by {q} of material {m} is {g:g}, specified {ref:g}'
                       f'{" (normalized)" if s.norm_par else ""}{" (again)" if again else ""}')
    s.learn, s.norm_par = {}, False
    return 1


PARAMS = dict(von_mises=['E', 'v', 's0', 'a', 'b'],
              von_mises_mixed=['E', 'v', 's0', 'a', 'b', 'kin_s0', 'kin_a', 'kin_b'],
              drucker_prager=['E', 'v', 's0', 'a', 'b', 'friction_angle', 'yield_cohesion_parameter',
                              'yield_pressure_parameter', 'flow_pressure_parameter'],
              lou_zhang_yoon=['E', 'v', 's0', 'a', 'b'] + [f'yield_{k}_{q}' for k in 'abcd' for q in ('s0', 'a', 'b')])


class Hardening(Specimen):
    """Specimen with hardening materials of any kind and any learnable parameters."""

    def state(self, model, data, groups=None):
        sm = StructureMaterialState('infinitesimal', self.pt, self.n_elem)
        nf = len(self.b['path'][0])
        for m in sorted(set(self.mat.values())):
            material, values, learn = self.choice[m]
            law = material + ('_vmap' if model == 'vmap' else '')
            kw = dict(n_features_in=nf, n_features_out=nf, learnable_parameters=learn, material_model_name=law,
                      state_features_out={}, is_auto_sync_parameters=True, is_check_su_fail=False,
                      model_directory=self.ctx.tmpdir('rc'), is_normalized_parameters=self.norm_par,
                      is_model_in_normalized=False, is_model_out_normalized=False, device_type='cpu')
            sm.init_elements_model('rc_' + law, constants(material, values),
                                   [e for e, k in self.mat.items() if k == m], data.specimen_mesh.get_elements_type(),
                                   model_kwargs=kw)
        return sm


def hardening(s, lt, rng):
    """Derivatives by the parameters of hardening materials, against differences of the loss."""
    h = Hardening(s.b, s.kind, 2 if len(set(s.mat.values())) > 1 else 1, rng, s.ctx)
    h.norm_par = bool(rng.random() < 0.5)
    h.choice = {}
    for m in sorted(set(h.mat.values())):
        material = str(rng.choice(list(PARAMS), p=[0.3, 0.3, 0.3, 0.1]))
        names = [p for p in PARAMS[material] if p != 'friction_angle']
        if material == 'drucker_prager' and rng.random() < 0.5:
            names = ['E', 'v', 's0', 'a', 'b', 'friction_angle']
        values = {p: UNIT[p] * float(rng.uniform(3, 5)) for p in names}
        if material == 'lou_zhang_yoon':                # well inside of the convex domain
            values.update(yield_c_s0=float(rng.uniform(-1, 1)), yield_d_s0=float(rng.uniform(-0.4, 0.4)))
        learn = {p: dict(initial_value=values[p], bounds=(values[p] - 0.6 * abs(values[p]), values[p] + 0.7 * abs(values[p])))
                 for p in names if rng.random() < 0.7}
        if material == 'drucker_prager' and 'friction_angle' in names:
            learn['friction_angle'] = dict(initial_value=values['friction_angle'], bounds=(0.05, 0.9))
        h.choice[m] = material, values, learn
    h.disp = h.disp * float(rng.uniform(1, 3))
    if rng.random() < 0.4:                              # undeformed at the first steps, or at some step
        t = int(rng.integers(1, h.n_time))
        h.disp[:, :, :t + 1] *= 0 if rng.random() < 0.5 else (np.arange(t + 1) != t)
    n = 0
    for mode, model in (('sequential_element', 'rc'), ('sequential_element_vmap', 'vmap')):
        if model == 'vmap' and len(h.choice) > 1:
            continue
        f = h.finder(lt, model)
        loss = f(sequential_mode=mode)
        if not math.isfinite(float(loss)):
            continue                                    # a state update that did not converge
        models = f.get_material_models()
        par = [(m, q, models[str(k + 1)].get_model_parameters()[q]) for k, m in enumerate(sorted(h.choice))
               for q in h.choice[m][2]]
        if not par:
            continue
        if loss.requires_grad:                          # otherwise the loss does not depend on them
            loss.backward()
        grads = [0.0 if p.grad is None else float(p.grad) for _, _, p in par]
        for k in rng.choice(len(par), size=min(2, len(par)), replace=False):
            m, q, p = par[k]
            eps = 1e-5 * (1 if h.norm_par else abs(float(p)))
            d = []
            with torch.no_grad():
                for sgn in (1, -1):
                    p += sgn * eps
                    d.append((float(f(sequential_mode=mode)) - float(loss)) / (sgn * eps))
                    p -= sgn * eps
            num, size = (d[0] + d[1]) / 2, (float(loss) + 1e-3) / (1 if h.norm_par else abs(float(p)))
            if not abs(d[0] - d[1]) <= 1e-3 * (abs(num) + size):
                continue                                # a kink of the response
            expect(abs(grads[k] - num) <= 5e-3 * abs(num) + 1e-4 * size,
                   f'{lt} loss, {mode}: derivative by {q} of {h.choice[m][0]} (material {m}) is {grads[k]:g}, '
                   f'differences give {num:g}{" (normalized)" if h.norm_par else ""}')
            n += 1
    return n


def network(s, lt, rng):
    ins, outs = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    n = 0
    for mode in ('sequential_element', 'sequential_element_vmap'):
        if mode == 'sequential_element_vmap' and len(set(s.mat.values())) > 1:
            continue
        f = s.finder(lt, ('gru', ins, outs))
        net = [p for m, _ in s.nets.values() for p in m.parameters()]
        v = [torch.tensor(rng.normal(size=tuple(p.shape))) for p in net]
        for p in net:
            p.grad = None
        loss = f(sequential_mode=mode)
        loss.backward()
        g = sum(float((p.grad * d).sum()) for p, d in zip(net, v) if p.grad is not None)
        eps, val = 1e-5, {}
        for k in (1, -1):
            with torch.no_grad():
                for p, d in zip(net, v):
                    p += k * eps * d
                val[k] = s.loss(s.forces(s.gru_response(ins, outs)), lt)
                for p, d in zip(net, v):
                    p -= k * eps * d
        num = (val[1] - val[-1]) / (2 * eps)
        expect(abs(g - num) <= 1e-4 * (abs(num) + float(loss) + 1e-3),
               f'{lt} loss, {mode}, networks (normalized in: {ins}, out: {outs}): derivative {g:g}, differences give {num:g}')
        n += 1
    return n


def run(ctx):
    reps = 24 if ctx.quick else 120
    cases = [(2, 2, 2, 1, 'elastic', 2), (2, 3, 1, 1, 'shear', 2), (2, 2, 1, 1, 'shear', 1), (2, 2, 2, 1, 'elastic', 1),
             (3, 2, 1, 1, 'shear', 2), (3, 1, 1, 1, 'shear', 1), (3, 2, 1, 1, 'elastic', 2)]
    nt = [4 if c[0] == 3 else 5 if ctx.quick else 8 for c in cases]
    res = ctx.tlc_many(
        [(('Loss', dict(Dim=dim, NX=nx, NY=ny, NZ=nz, Kind=kind, NMat=nm, NTime=t, Sim=True)),
          dict(spec='Spec', invariants=['Equilibrium', 'Homogeneous', 'EmitG'], simulate=reps // 4 if dim == 3 else reps,
               depth=t + 4, workers=2, label=f'{dim}D {nx}x{ny}x{nz} {kind}, {nm} materials'))
         for (dim, nx, ny, nz, kind, nm), t in zip(cases, nt)])
    if not all(any(b['grad'] for b in r.behaviours) for r in res):
        raise Machinery('no behaviours')
    torch.set_num_threads(1)
    ctx.preplays([(r.behaviours, runner(ctx, c[4], c[5]), f'{c[0]}D {c[4]}') for c, r in zip(cases, res)][::-1])
