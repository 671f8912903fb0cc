"""C24: training runs of spec/Training.tla replayed on the real learning procedure of the material model finder."""
import os

import numpy as np
import torch

from fw import Machinery, Violation, expect
from train_drv import LR0, Recorder, fname, states
import material_model_finder.train.training as ft
from c02 import INV
from material_model_finder.data.specimen_data import SpecimenNumericalData
from material_model_finder.model.material_discovery import MaterialModelFinder
from model_architectures.procedures.model_training import read_loss_history_from_file, read_lr_history_from_file
from simulators.fetorch.element.type.quad4 import FEQuad4
from simulators.fetorch.material.models.standard.hardening import get_hardening_law
from simulators.fetorch.structure.structure_state import StructureMaterialState

START = {'1': {'E': 101.0, 'v': 0.30}}       # the learning procedure maps over the elements of one material
N_TIME = 3
LAW = 'von_mises_vmap'


def specimen(ctx, bounds, norm, material=None):
    """Two square elements of a material with two learnable parameters."""
    el = {'1': FEQuad4(), '2': FEQuad4()}
    x = torch.tensor([[0., 0.], [1., 0.], [2., 0.], [0., 1.], [1., 1.], [2., 1.]])
    conn = {'1': (1, 2, 5, 4), '2': (2, 3, 6, 5)}
    d = SpecimenNumericalData()
    dirichlet = torch.zeros(6, 2, dtype=torch.int)
    dirichlet[[0, 3]] = 1
    d.set_specimen_mesh(x, el, conn, dirichlet)
    disp = torch.zeros(6, 2, N_TIME)
    for t in range(N_TIME):
        disp[:, 0, t] = 0.01 * t * x[:, 0] + 0.003 * t * x[:, 1]
        disp[:, 1, t] = 0.002 * t * x[:, 0] * x[:, 1]
    d.set_specimen_data(disp, torch.zeros(6, 2, N_TIME), dirichlet[:, :, None].repeat(1, 1, N_TIME), torch.arange(N_TIME) * 1.0)
    sm = StructureMaterialState('infinitesimal', 1, 2)
    if material is not None:
        material(sm, el)
        return d, sm
    for m in START:
        s = START[m]
        p = {'elastic_symmetry': 'isotropic', 'E': s['E'], 'v': s['v'], 'hardening_law': get_hardening_law('linear'),
             'hardening_parameters': {'s0': 1e9, 'a': 0.0}}
        learn = {k: dict(initial_value=s[k], bounds=(s[k] * (1 - bounds), s[k] * (1 + bounds))) for k in ('E', 'v')}
        sm.init_elements_model('rc_' + LAW, p, [1, 2], el, model_kwargs=dict(
            n_features_in=3, n_features_out=3, learnable_parameters=learn, material_model_name=LAW, state_features_out={},
            is_auto_sync_parameters=True, is_check_su_fail=False, model_directory=ctx.tmpdir('rc'), is_normalized_parameters=norm,
            is_model_in_normalized=False, is_model_out_normalized=False, device_type='cpu'))
    return d, sm


class ParamRecorder(Recorder):
    """Values of the parameters in the order of the optimizer."""
    @staticmethod
    def flat(params):
        return torch.tensor([float(p.detach()) for p in params], dtype=torch.float64)


class ScriptedLoss:
    """The real loss with its value replaced by the specified one; its gradient is kept."""

    def __init__(self, levels, where, on_call):
        self.levels, self.where, self.on_call, self.n = levels, where, on_call, 0

    def __enter__(self):
        self.h = torch.nn.modules.module.register_module_forward_hook(self.hook)
        return self

    def __exit__(self, *a):
        self.h.remove()

    def hook(self, module, args, output):
        if not isinstance(module, MaterialModelFinder):
            return None
        if self.n >= len(self.levels):
            raise Violation(f'{self.where}: {self.n + 1} evaluations, specified {len(self.levels)}')
        if not isinstance(output, torch.Tensor) or not output.requires_grad or not bool(torch.isfinite(output)):
            raise Machinery(f'loss of the finder {output}')
        self.on_call(self.n)
        v = self.levels[self.n]
        self.n += 1
        return output - output.detach() + v


class FinderRun:
    def __init__(self, b, ctx, explicit, norm):
        self.b, self.ctx, self.explicit, self.norm = b, ctx, explicit, norm
        self.versions = {}

    def run(self):
        self.dir = self.ctx.tmpdir('finder')
        for i, r in enumerate(self.b):
            self.one(r, f'run {i + 1}')
        return sum(r['epochs'] for r in self.b)

    def named(self, values):
        """{(material, parameter): stored value} of a vector in the order of the optimizer."""
        return {k: float(values[i]) for k, i in self.pos.items()}

    def phys(self, m, p, v):
        if not self.norm:
            return v
        s = START[m][p]
        return s * (1 - self.bnd) + s * self.bnd * (v + 1.0)

    def one(self, r, where):
        c = r['cfg']
        if c['nb'] != 1 or c['early'] or c['load'] != 'new':
            raise Machinery('not a run of the finder')
        self.bnd = 0.01 if c['pstop'] else 0.5
        data, sm = specimen(self.ctx, self.bnd, self.norm)
        lr0 = 64.0 if c['pstop'] else LR0
        losses = [float(e[0]) for e in r['losses']]
        seen = []
        kw = dict(n_max_epochs=c['nmax'], specimen_data=data, specimen_material_state=sm, model_init_args=dict(model_directory=self.dir, model_name='finder'),
                  lr_init=lr0, save_every=c['every'] or None, is_explicit_model_parameters=self.explicit, is_params_stopping=c['pstop'])
        if c['pstop']:
            kw['params_stopping_kwargs'] = dict(convergence_tolerance=1e-4, trigger_tolerance=c['trig'])
        if c['sched'] != 'none':
            kw['lr_scheduler_type'] = c['sched']
            kw['lr_scheduler_kwargs'] = dict(steplr=dict(step_size=2, gamma=0.5), explr=dict(gamma=0.5),
                                             linlr=dict(start_factor=0.5, end_factor=1.0, total_iters=4))[c['sched']]
        with ParamRecorder() as rec, ScriptedLoss(losses, where, lambda k: seen.append(self.listing())) as sl:
            model, best_loss, best_epoch = ft.train_model(**kw)
        ne = r['epochs']
        expect(sl.n == ne, f'{where}: {sl.n} epochs, specified {ne}')
        expect(len(rec.post) == ne, f'{where}: {len(rec.post)} updates, specified {ne}')
        # which parameter is where
        init = {(m, p): (0.0 if self.norm else START[m][p]) for m in START for p in START[m]}
        vec = [float(x) for x in rec.pre[0]]
        if self.norm:
            names = [(m, p) for m, mod in sm.get_material_models().items() for p in mod.get_model_parameters().keys()]
            ids = {id(q): (m, k) for m, mod in sm.get_material_models().items() for k, q in mod.get_model_parameters().items()}
            self.pos = {ids[id(q)]: i for i, q in enumerate(model.parameters(recurse=True))}
            expect(len(self.pos) == len(names), f'{where}: parameters of the finder', sorted(self.pos))
        else:
            self.pos = {}
            for k, v in init.items():
                hit = [i for i, x in enumerate(vec) if abs(x - v) < 1e-5 * v]
                expect(len(hit) == 1, f'{where}: parameter {k} is not optimized', vec)
                self.pos[k] = hit[0]
        expect(sorted(self.pos.values()) == list(range(len(vec))), f'{where}: optimized parameters', vec)
        want = [lr0 * x / 4096 for x in r['lr']]
        expect(np.allclose(rec.lr, want, rtol=1e-9), f'{where}: learning rates differ', dict(used=rec.lr, specified=want))
        # parameter versions
        self.versions[c['start']] = self.named(rec.pre[0])
        for k, v in enumerate(rec.post):
            w = self.named(v)
            if self.explicit:                       # bounds are enforced after every update
                for (m, p), x in w.items():
                    lo, hi = (-1.0, 1.0) if self.norm else (START[m][p] * (1 - self.bnd), START[m][p] * (1 + self.bnd))
                    w[(m, p)] = min(max(x, lo), hi)
            self.versions[c['start'] + 1 + k] = w
        for e in range(1, ne):                      # what is stored when epoch e starts
            self.files(seen[e], r['log'][e - 1], c['start'], f'{where}: after epoch {e - 1}')
        self.files(self.listing(), r, c['start'], f'{where}: at the end')
        self.contents(r, c['start'], where, model)
        self.records(r, where, model, best_loss, best_epoch, kw, lr0)

    def listing(self):
        out = {'': states(self.dir)}
        for m in START:
            d = os.path.join(self.dir, 'material_models', f'model_{m}')
            expect(os.path.isdir(d), 'directory of a material model', d)
            out[m] = states(d)
        return out

    def want_files(self, r, start):
        """States of the finder, and of one material model (whose directory is made anew by every run)."""
        finder = sorted([fname('finder', f) for f in r['files'] if f['kind'] != 'init'] + [fname('finder', f, True) for f in r['optim']])
        mat = sorted(fname('rc_' + LAW, f) for f in r['files'] if f['v'] >= start)
        return finder, mat

    def files(self, got, r, start, where):
        finder, mat = self.want_files(r, start)
        expect(got[''] == finder, f'{where}: stored states of the finder differ', dict(stored=got[''], specified=finder))
        for m in START:
            expect(got[m] == mat, f'{where}: stored states of material model {m} differ', dict(stored=got[m], specified=mat))

    def contents(self, r, start, where, model):
        for f in r['files']:
            w = self.versions[f['v']]
            if f['kind'] != 'init':
                sd = torch.load(os.path.join(self.dir, fname('finder', f)))
                got = sorted({round(float(v), 6) for v in sd.values()})
                expect(np.allclose(got, sorted({round(x, 6) for x in w.values()}), rtol=1e-6, atol=1e-6) if len(got) == len(set(round(x, 6) for x in w.values())) else False,
                       f'{where}: state {fname("finder", f)} does not hold parameter version {f["v"]}', dict(got=got, specified=w))
            if f['v'] >= start:
                for m in START:
                    sd = torch.load(os.path.join(self.dir, 'material_models', f'model_{m}', fname('rc_' + LAW, f)))
                    for k, v in sd.items():
                        x = w[(m, k.split('.')[-1])]
                        expect(abs(float(v) - x) <= 1e-6 * (1 + abs(x)), f'{where}: state {fname("rc", f)} of material model {m} does not hold parameter version {f["v"]}',
                               dict(parameter=k, got=float(v), specified=x))
        for f in r['optim']:
            s = torch.load(os.path.join(self.dir, fname('finder', f, True)))
            steps = {int(x['step']) for x in s['state']['state'].values()}
            expect(s['epoch'] == f['e'] and steps == {f['v']}, f'{where}: optimizer state {fname("finder", f, True)} after {steps} steps', f)

    def records(self, r, where, model, best_loss, best_epoch, kw, lr0):
        ne = r['epochs']
        path = os.path.join(self.dir, 'loss_history_record.pkl')
        _, _, train, val = read_loss_history_from_file(path)
        want = [float(e[0]) for e in r['losses']]
        expect(len(train) == ne and np.allclose([float(x) for x in train], want, rtol=1e-6), f'{where}: loss history differs', dict(recorded=train, specified=want))
        expect(val is None, f'{where}: unexpected validation history')
        kind, lrs = read_lr_history_from_file(path)
        want = [lr0 * x / 4096 for x in (r['lrh'] if r['cfg']['sched'] != 'none' else r['lr'])]
        lrs = [float(np.asarray(x).reshape(-1)[0]) for x in lrs]
        expect(kind == kw.get('lr_scheduler_type') and np.allclose(lrs, want, rtol=1e-9) and len(lrs) == ne, f'{where}: learning rate history differs', lrs)
        expect(np.isclose(best_loss, r['best']) and best_epoch == r['bestepoch'],
               f'{where}: returned best loss {best_loss} at epoch {best_epoch}, specified {r["best"]} at {r["bestepoch"]}')
        final = self.versions[r['final']]
        got = {(m, p): float(q) for m, mod in model.get_material_models().items() for p, q in mod.get_model_parameters().items()}
        expect(set(got) == set(final) and all(abs(got[k] - final[k]) <= 1e-6 * (1 + abs(final[k])) for k in got),
               f'{where}: the returned model does not hold the last parameters', dict(got=str(got), specified=str(final)))
        ph, pb = os.path.join(self.dir, 'parameters_history_record.pkl'), os.path.join(self.dir, 'parameters_best.pkl')
        if not self.explicit:
            return
        start = r['cfg']['start']
        hist, bounds = ft.read_parameters_history_from_file(ph)
        best, bounds2 = ft.read_best_parameters_from_file(pb)
        bv = [f['v'] for f in r['files'] if f['kind'] == 'best'][0]
        expect(set(hist) == set(best) == set(bounds) == set(bounds2) == {f'model_{m}_{p}' for m, p in self.pos}, f'{where}: names of the recorded parameters', sorted(hist))
        for m, p in self.pos:
            key = f'model_{m}_{p}'
            want = [self.phys(m, p, self.versions[start + 1 + e][(m, p)]) for e in range(ne)]
            expect(len(hist[key]) == ne and np.allclose(hist[key], want, rtol=1e-5), f'{where}: recorded history of {key} differs', dict(recorded=hist[key], specified=want))
            w = self.phys(m, p, self.versions[bv][(m, p)])
            expect(abs(best[key] - w) <= 1e-5 * w, f'{where}: recorded best parameter {key} is {best[key]}, specified {w}')
            s = START[m][p]
            expect(np.allclose(bounds[key], (s * (1 - self.bnd), s * (1 + self.bnd))), f'{where}: recorded bounds of {key}', bounds[key])


def run(ctx):
    base = dict(Early={False}, Freqs={1}, VLevels={1}, Batches={1}, Resumes={'new'})
    torch.set_num_threads(1)
    runs = [(('Training', dict(base, MaxRuns=2, NMax={0, 2}, Every={0, 2}, Scheds={'none'}, Levels={1, 2}, ParamStop={False}, Trigs={1}, Sim=False)),
             dict(spec='Spec', invariants=INV, label='Training/finder design')),
            (('Training', dict(base, MaxRuns=1, NMax={2}, Every={0, 1, 2}, Scheds={'none'}, Levels={1, 2, 3}, ParamStop={False}, Trigs={1}, Sim=False)),
             dict(spec='Spec', invariants=INV + ['Emit'], workers=1, label='Training/all loss orders')),
            (('Training', dict(base, MaxRuns=2, NMax={0, 1, 2, 3, 5}, Every={0, 1, 2, 3}, Scheds={'none', 'steplr', 'explr', 'linlr'}, Levels={1, 2, 3, 4},
                               ParamStop={False}, Trigs={1}, Sim=True)),
             dict(spec='Spec', invariants=INV + ['Emit'], simulate=60 if ctx.quick else 1000, depth=300, label='Training/random runs')),
            (('Training', dict(base, MaxRuns=1, NMax={1, 2, 3, 5, 7}, Every={0, 2}, Scheds={'none'}, Levels={1, 2, 3}, ParamStop={True}, Trigs={1, 2, 3}, Sim=True)),
             dict(spec='Spec', invariants=INV + ['Emit'], simulate=40 if ctx.quick else 500, depth=300, label='Training/parameter stopping'))]
    res = ctx.tlc_many(runs)
    items = [(b, True, False) for b in res[1].behaviours]
    items += [(b, i % 4 != 1, i % 4 >= 2) for i, b in enumerate(res[2].behaviours)]
    items += [(b, True, i % 2 == 0) for i, b in enumerate(res[3].behaviours)]
    ctx.preplay(items, lambda it: FinderRun(it[0], ctx, it[1], it[2]).run(), 'finder training')
    ctx.assumptions += ['the value of the loss is scripted, its gradient is that of the real force equilibrium loss']
