"""C15: specimens and losses of spec/Loss.tla on the real MaterialModelFinder, in every evaluation mode."""
import math
import os
import pickle

import numpy as np
import torch

from fw import Machinery, expect, expect_raises
from material_model_finder.data.specimen_data import SpecimenNumericalData
from material_model_finder.model.material_discovery import MaterialModelFinder
from simulators.fetorch.element.type.hexa8 import FEHexa8
from simulators.fetorch.element.type.quad4 import FEQuad4
from simulators.fetorch.element.type.hexa20 import FEHexa20
from simulators.fetorch.element.type.quad8 import FEQuad8
from simulators.fetorch.element.type.tetra10 import FETetra10
from simulators.fetorch.element.type.tetra4 import FETetra4
from simulators.fetorch.element.type.tri3 import FETri3
from simulators.fetorch.element.type.tri6 import FETri6
from simulators.fetorch.material.models.standard.elastic import Elastic
from simulators.fetorch.material.models.standard.von_mises import VonMises
from simulators.fetorch.material.models.standard.hardening import get_hardening_law
from simulators.fetorch.structure.structure_state import StructureMaterialState
from time_series_data.time_dataset import load_dataset

QUAD = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
HEXA = [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]
E0 = 1e-3


class Specimen:
    """Real mesh, data and material description of one behaviour."""

    learn, norm_par = {}, False                         # learnable parameters of each material

    def __init__(self, b, kind, n_mat, rng, ctx):
        self.b, self.kind, self.ctx, self.rng = b, kind, ctx, rng
        self.dim = dim = len(b['size'])
        self.t0 = 2.0 ** (dim - 1)                      # stress of one level: forces are integers
        pts = sorted({tuple(r['d'][0][:dim]) for r in b['L']})
        lab = list(range(1, len(pts) + 1))
        rng.shuffle(lab)
        self.node = dict(zip(pts, [int(x) for x in lab]))
        top = [max(p[i] for p in pts) for i in range(dim)]
        els = list(np.ndindex(*top))
        rng.shuffle(els)
        els = [tuple(int(x) for x in e) for e in els]
        loc = QUAD if dim == 2 else HEXA
        self.conn = {str(k + 1): tuple(self.node[tuple(e[i] + (s[i] + 1) // 2 for i in range(dim))] for s in loc)
                     for k, e in enumerate(els)}
        self.mat = {k + 1: (2 if n_mat == 2 and e[0] + 1 > b['region'] else 1) for k, e in enumerate(els)}
        self.n_node, self.n_time, self.n_elem = len(pts), len(b['path']), len(els)
        x = np.zeros((len(pts), dim))
        for p, i in self.node.items():
            x[i - 1] = [p[j] * b['size'][j] for j in range(dim)]
        self.x = x
        self.eps = [self.tensor(t, E0) for t in b['path']]
        self.sig = [[self.tensor(m, self.t0) for m in t] for t in b['sig']]
        self.disp = np.stack([x @ e for e in self.eps], axis=2)
        self.F = self.field(b['F'])
        self.R = self.field(b['R'])
        self.L = self.labels(b['L'])
        self.W = torch.tensor([float(w) for w in b['W']])
        self.pt = 1 if dim == 2 else 4

    def tensor(self, comps, unit):
        m = np.zeros((self.dim, self.dim))
        for r in comps:
            i, j = r['c'][0] - 1, r['c'][1] - 1
            m[i, j] = m[j, i] = r['v'] * unit
        return m

    def labels(self, rows):
        a = np.zeros((self.n_node, self.dim), dtype=int)
        for r in rows:
            a[self.node[tuple(r['d'][0][:self.dim])] - 1, r['d'][1] - 1] = r['v']
        return a

    def field(self, times):
        return np.stack([self.labels(t) for t in times], axis=2).astype(float)

    def data(self, loss_type):
        el = FEQuad4 if self.dim == 2 else FEHexa8
        L = (self.L > 0).astype(int) if loss_type == 'pointwise' else self.L
        d = SpecimenNumericalData()
        d.set_specimen_mesh(torch.tensor(self.x), {k: el() for k in self.conn}, dict(self.conn),
                            torch.tensor((self.L > 0).astype(int)))
        d.set_specimen_data(torch.tensor(self.disp), torch.tensor(self.R),
                            torch.tensor(np.repeat(L[:, :, None], self.n_time, axis=2)),
                            torch.arange(self.n_time).to(torch.get_default_dtype()))
        return d

    def params(self, m, plastic=False):
        m = self.b['mats'][m - 1]
        G = m['g'] * self.t0 / (2 * E0)
        v = 0.0 if self.kind == 'elastic' else float(self.rng.choice([0.0, 0.3]))
        p = {'elastic_symmetry': 'isotropic', 'E': 2 * G * (1 + v), 'v': v}
        if self.kind == 'elastic' and plastic:          # never yields: elastic under vectorized mapping
            p.update(hardening_law=get_hardening_law('linear'), hardening_parameters={'s0': 1e9, 'a': 0.0})
        if self.kind == 'shear':
            p.update(hardening_law=get_hardening_law('linear'),
                     hardening_parameters={'s0': math.sqrt(3) * m['y'] * self.t0, 'a': 0.0})
        return p

    def state(self, model, data, groups=None):
        """Material state with standard, recurrent or vectorized recurrent models."""
        sm = StructureMaterialState('infinitesimal', self.pt, self.n_elem)
        if model == 'standard':
            for k in [k for k, m in sm._modules.items() if isinstance(m, torch.nn.ModuleDict)]:
                delattr(sm, k)
                setattr(sm, k, {})
        types = data.specimen_mesh.get_elements_type()
        for m in sorted(set(self.mat.values())):
            ids = [e for e, k in self.mat.items() if k == m]
            plastic = self.kind == 'shear' or model == 'vmap'
            name, kw = ('von_mises' if plastic else 'elastic'), {}
            if model != 'standard':
                nf = len(self.b['path'][0])
                law = name + ('_vmap' if model == 'vmap' else '')
                kw = dict(n_features_in=nf, n_features_out=nf, learnable_parameters=self.learn.get(m, {}),
                          material_model_name=law,
                          state_features_out={}, is_auto_sync_parameters=True, is_check_su_fail=False,
                          model_directory=self.ctx.tmpdir('rc'), is_normalized_parameters=self.norm_par,
                          is_model_in_normalized=False, is_model_out_normalized=False, device_type='cpu')
                name = 'rc_' + law
            sm.init_elements_model(name, self.params(m, plastic), ids, types, model_kwargs=kw)
        return sm

    def gru_state(self, data, ins, outs):
        """Material state with a random gated recurrent network per material, with normalized features."""
        sm = StructureMaterialState('infinitesimal', self.pt, self.n_elem)
        types = data.specimen_mesh.get_elements_type()
        nf, self.gru, self.nets = len(self.b['path'][0]), {}, {}
        torch.manual_seed(int(self.rng.integers(1 << 30)))
        for m in sorted(set(self.mat.values())):
            ids = [e for e, k in self.mat.items() if k == m]
            a, c = torch.rand(nf) * E0 - E0, torch.rand(nf) * 6 - 3
            sc = dict(features_in=dict(minimum=a, maximum=a + E0 * (1 + 3 * torch.rand(nf))),
                      features_out=dict(minimum=c, maximum=c + 2 + 4 * torch.rand(nf)))
            kw = dict(n_features_in=nf, n_features_out=nf, hidden_layer_size=3, n_recurrent_layers=2, dropout=0,
                      model_directory=self.ctx.tmpdir('gru'), is_model_in_normalized=ins,
                      is_model_out_normalized=outs, gru_model_source='custom', device_type='cpu',
                      scaling_type='min-max', scaling_parameters=sc)
            sm.init_elements_model('gru_material_model', {}, ids, types, model_kwargs=kw)
            self.nets[m] = sm.get_elements_material()[str(ids[0])], sc
        self.gru_response(ins, outs)
        return sm

    def gru_response(self, ins, outs):
        """Stress histories of the current networks."""
        order = [(0, 0), (1, 1), (0, 1)] if self.dim == 2 else [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
        for m, (net, sc) in self.nets.items():
            x = torch.tensor([[e[i] for i in order] for e in self.eps])
            fi, fo = sc['features_in'], sc['features_out']
            if ins:
                x = 2 * (x - fi['minimum']) / (fi['maximum'] - fi['minimum']) - 1
            with torch.no_grad():
                y = net(x)[0]
            if outs:
                y = (y + 1) / 2 * (fo['maximum'] - fo['minimum']) + fo['minimum']
            self.gru[m] = [self.tensor([dict(c=(i + 1, j + 1), v=float(y[t, k])) for k, (i, j) in enumerate(order)], 1)
                           for t in range(self.n_time)]
        return [[self.gru.get(m, self.gru[max(self.gru)])[t] for m in (1, 2)] for t in range(self.n_time)]

    def forces(self, sig):
        """Internal forces of homogeneous stresses sig[t][material], by the formula of the specification."""
        F = np.zeros((self.n_node, self.dim, self.n_time))
        pos = {n: p for p, n in self.node.items()}
        size = self.b['size']
        for e, nodes in self.conn.items():
            low = [min(pos[n][j] for n in nodes) for j in range(self.dim)]
            for n in nodes:
                for j in range(self.dim):
                    area = np.prod([size[k] for k in range(self.dim) if k != j])
                    side = 1 if pos[n][j] > low[j] else -1
                    for t in range(self.n_time):
                        F[n - 1, :, t] += sig[t][self.mat[int(e)] - 1][:, j] * side * area / 2 ** (self.dim - 1)
        return F

    def loss(self, F, loss_type):
        """The loss of internal forces F, by the formula of the specification."""
        w = np.array([r['w'] for r in self.b['nrm']]) if self.b['nrm'] else np.ones(self.dim)
        imb = (F - np.where(self.L[:, :, None] > 0, self.R, 0)) * w[None, :, None]
        out = (imb[self.L == 0] ** 2).sum(axis=0)
        if loss_type == 'pointwise':
            out = out + (imb[self.L > 0] ** 2).sum(axis=0)
        else:
            for k in set(self.L[self.L > 0].tolist()):
                out = out + imb[self.L == k].sum(axis=0) ** 2
        return self.b['sc'] * float((out * np.array(self.b['W'])).sum())

    def finder(self, loss_type, model, **kw):
        data = self.data(loss_type)
        nrm = self.b['nrm']
        f = MaterialModelFinder(self.ctx.tmpdir('f'), force_equilibrium_loss_type=loss_type,
                                is_force_normalization=bool(nrm), **kw)
        fmin = torch.tensor([float(r['lo']) for r in nrm]) if nrm else None
        fmax = torch.tensor([r['lo'] + 2.0 / r['w'] for r in nrm]) if nrm else None
        state = self.gru_state(data, *model[1:]) if isinstance(model, tuple) else self.state(model, data)
        f.set_specimen_data(data, state, force_minimum=fmin, force_maximum=fmax,
                            loss_scaling_factor=self.b['sc'] if self.b['sc'] != 1 else None,
                            loss_time_weights=self.W)
        return f


def agree(got, want, scale, clause):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    expect(got.shape == want.shape, f'{clause}: shape {got.shape}, specified {want.shape}')
    expect(bool(np.isfinite(got).all()) and np.abs(got - want).max() <= 2e-4 * (scale + np.abs(want).max()), clause,
           dict(got=got.tolist(), spec=want.tolist()))


def check_local_paths(f, s, els, where, sig=None):
    sig = sig or s.sig
    d = os.path.join(f.model_directory, 'local_response_dataset')
    files = os.listdir(d)
    expect(len(files) == 1, f'{where}: local response files {files}')
    ds = load_dataset(os.path.join(d, files[0]))
    n_gauss = 4 if s.dim == 2 else 8
    expect(len(ds) == len(els) * n_gauss, f'{where}: {len(ds)} local responses')
    order = [(0, 0), (1, 1), (0, 1)] if s.dim == 2 else [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
    names = tuple(f'{i + 1}{j + 1}' for i, j in order)
    for k, e in enumerate(els):
        for g in range(n_gauss):
            r = ds[k * n_gauss + g]
            expect(tuple(r['strain_comps_order']) == names and tuple(r['stress_comps_order']) == names,
                   f'{where}: component order')
            agree(r['strain_path'] / E0, [[t[i] / E0 for i in order] for t in s.eps], 1,
                  f'{where}: stored strain path of element {e}')
            agree(r['stress_path'] / s.t0, [[t[s.mat[e] - 1][i] / s.t0 for i in order] for t in sig], 1,
                  f'{where}: stored stress path of element {e}')


def runner(ctx, kind, n_mat):
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item])
        torch.set_default_dtype(torch.float64)
        n = 0
        try:
            s = Specimen(b, kind, n_mat, rng, ctx)
            force = torch.tensor(s.F)
            if not (np.allclose(s.forces(s.sig), s.F)
                    and all(np.isclose(s.loss(s.F, lt), b['loss'][lt]) for lt in ('pointwise', 'dirichlet_sets'))):
                raise Machinery('the force and loss formulas of the driver are not those of the specification')
            for lt in ('pointwise', 'dirichlet_sets'):
                want = b['loss'][lt]
                modes = [('sequential_time', 'standard'), ('sequential_element', 'standard'),
                         ('sequential_element', 'rc'), ('sequential_element_vmap', 'vmap')]
                for mode, model in modes:
                    store = mode != 'sequential_time' and rng.random() < 0.4
                    some = sorted(rng.choice(s.n_elem, size=max(1, s.n_elem // 2), replace=False) + 1) \
                        if rng.random() < 0.5 else None
                    some = [int(e) for e in some] if some is not None else None
                    f = s.finder(lt, model, is_store_local_paths=store, local_paths_elements=some)
                    where = f'{lt} loss, {mode}, {model} models'
                    if mode == 'sequential_element_vmap' and len(set(s.mat.values())) > 1:
                        expect_raises(lambda: f(sequential_mode=mode),
                                      f'{where}: several materials evaluated with one of them')
                        continue
                    with torch.no_grad():
                        got = f(sequential_mode=mode)
                    agree(got, want, 1, f'{where}: {float(got):g} is not the specified {want}')
                    if store:
                        check_local_paths(f, s, some or list(range(1, s.n_elem + 1)), where)
                    if model in ('rc', 'vmap') and rng.random() < 0.3:
                        with torch.no_grad():
                            again = f(sequential_mode=mode)
                        agree(again, want, 1, f'{where}: evaluating again gives {float(again):g}')
                    n += 1
                store, kind_ = bool(rng.random() < 0.5), ('gru', bool(rng.random() < 0.7), bool(rng.random() < 0.7))
                for mode in ('sequential_element', 'sequential_element_vmap'):
                    f = s.finder(lt, kind_, is_store_local_paths=store)
                    where = f'{lt} loss, {mode}, network models (normalized in: {kind_[1]}, out: {kind_[2]})'
                    if mode == 'sequential_element_vmap' and len(set(s.mat.values())) > 1:
                        expect_raises(lambda: f(sequential_mode=mode),
                                      f'{where}: several materials evaluated with one of them')
                        continue
                    sig = s.gru_response(*kind_[1:])
                    want_ = s.loss(s.forces(sig), lt)
                    with torch.no_grad():
                        got = f(sequential_mode=mode)
                    agree(got, want_, 1, f'{where}: {float(got):g} is not the specified {want_}')
                    if store:
                        check_local_paths(f, s, list(range(1, s.n_elem + 1)), where, sig)
                    n += 1
                f = s.finder(lt, 'rc')
                bc = f._specimen_data.dirichlet_bc_mesh_hist
                ext, rea = torch.zeros_like(force), torch.tensor(s.R)
                got = f.vforce_equilibrium_hist_loss(force, ext, rea, bc)
                agree(got * b['sc'], want, 1, f'{lt} loss of given forces')
                comp = f.force_equilibrium_loss_components_hist(force, ext, rea, bc)
                w = np.array(b['W']) * b['sc']
                con = np.array(b['point'] if lt == 'pointwise' else b['sets'])
                rows = [(np.array(b['free']) + con) * w]
                if lt == 'dirichlet_sets':
                    rows += [np.array(b['free']) * w, con * w]
                agree(comp, rows, 1, f'{lt} loss history of given forces')
                agree(comp[0].sum(), want, 1, f'{lt} loss history does not add up to the loss')
                expect(torch.equal(force, torch.tensor(s.F)) and torch.equal(rea, torch.tensor(s.R)),
                       'forces modified by the loss')
                if lt == 'dirichlet_sets':
                    got = f.compute_dirichlet_sets_reaction_hist(force, ext, bc)
                    labels = [0] + sorted(set(s.L[s.L > 0].tolist()))
                    rows = [[[s.F[:, :, t][s.L == k].sum() for t in range(s.n_time)]] for k in labels]
                    agree(got, rows, 1, 'reactions of the boundary sets')
            expect_raises(lambda: f(sequential_mode='parallel'), 'unknown mode accepted')
            expect_raises(lambda: MaterialModelFinder(ctx.tmpdir('f'), force_equilibrium_loss_type='sets'),
                          'unknown loss accepted')
        finally:
            torch.set_default_dtype(torch.float32)
        return n
    return run


U0 = 1e-3
TYPES = {'quad4': FEQuad4, 'hexa8': FEHexa8, 'tri3': FETri3, 'tri6': FETri6, 'quad8': FEQuad8, 'tetra4': FETetra4,
         'tetra10': FETetra10, 'hexa20': FEHexa20}


def local_nodes(el):
    """Local coordinates of the nodes of an element type (spec/Elem.tla)."""
    if el[:2] in ('qu', 'he'):
        p = QUAD if el[0] == 'q' else HEXA
        e = {'quad8': [(0, 1), (1, 2), (2, 3), (3, 0)],
             'hexa20': [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 5), (2, 6), (3, 7), (4, 5), (5, 6), (6, 7), (7, 4)]}
    else:
        d = 2 if el[:3] == 'tri' else 3
        p = [[0] * d] + np.eye(d).tolist()
        e = {'tri6': [(0, 1), (1, 2), (2, 0)], 'tetra10': [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]}
    p = np.array(p, dtype=float)
    return np.concatenate([p, [(p[i] + p[j]) / 2 for i, j in e[el]]]) if el in e else p


def check_stored(f, s, F, lt, where):
    """Stored loss history and reactions of the boundary sets."""
    w = np.array(s.b['W']) * s.b['sc']
    k = np.array([r['w'] for r in s.b['nrm']]) if s.b['nrm'] else np.ones(s.dim)
    imb = (F - np.where(s.L[:, :, None] > 0, s.R, 0)) * k[None, :, None]
    free = (imb[s.L == 0] ** 2).sum(axis=0) * w
    sets = sorted(set(s.L[s.L > 0].tolist()))
    con = (imb[s.L > 0] ** 2).sum(axis=0) * w if lt == 'pointwise' else sum([imb[s.L == i].sum(axis=0) ** 2 for i in sets], np.zeros(s.n_time)) * w
    with open(os.path.join(f.model_directory, 'force_equilibrium_loss_components', 'force_equilibrium_loss_data.pkl'), 'rb') as fh:
        got = pickle.load(fh)['force_equilibrium_loss_components_hist']
    rows = [free + con] + ([free, con] if lt == 'dirichlet_sets' else [])
    agree(got, rows, 1, f'{where}: stored loss history')
    d = os.path.join(f.model_directory, 'dirichlet_sets_reaction_forces')
    if lt == 'dirichlet_sets':
        rows = np.array([[F[:, :, t][s.L == i].sum() for t in range(s.n_time)] for i in [0] + sets])
        with open(os.path.join(d, 'dirichlet_sets_data.pkl'), 'rb') as fh:
            got = pickle.load(fh)['dirichlet_sets_reaction_hist']
        agree(got, rows[:, None, :], 1, f'{where}: stored reactions of the boundary sets')
        csv = np.genfromtxt(os.path.join(d, 'dirichlet_reaction_hist_sets.csv'), delimiter=',', skip_header=1).reshape(s.n_time, -1)
        agree(csv, rows.T, 1, f'{where}: exported reactions of the boundary sets')


class FieldSpecimen(Specimen):
    """Every node moves on its own; stresses differ from point to point."""

    def __init__(self, b, n_mat, rng, ctx):
        self.b, self.kind, self.ctx, self.rng = b, 'field', ctx, rng
        self.dim = dim = len(b['size'])
        pts = sorted({tuple(r['d'][0][:dim]) for r in b['L']})
        lab = list(range(1, len(pts) + 1))
        rng.shuffle(lab)
        self.node = dict(zip(pts, [int(x) for x in lab]))
        top = [max(p[i] for p in pts) for i in range(dim)]
        els = [tuple(int(x) for x in e) for e in rng.permutation(list(np.ndindex(*top)))]
        loc = QUAD if dim == 2 else HEXA
        self.conn = {str(k + 1): tuple(self.node[tuple(e[i] + (s[i] + 1) // 2 for i in range(dim))] for s in loc)
                     for k, e in enumerate(els)}
        self.mat = {k + 1: (2 if n_mat == 2 and e[0] + 1 > b['region'] else 1) for k, e in enumerate(els)}
        self.n_node, self.n_time, self.n_elem = len(pts), len(b['path']), len(els)
        self.x = np.zeros((len(pts), dim))
        for p, i in self.node.items():
            self.x[i - 1] = [p[j] * b['size'][j] for j in range(dim)]
        self.disp = U0 * self.field(b['path'])
        self.F, self.R, self.L = self.field(b['F']), self.field(b['R']), self.labels(b['L'])
        self.W = torch.tensor([float(w) for w in b['W']])
        self.pt = 1 if dim == 2 else 4
        self.el = 'quad4' if dim == 2 else 'hexa8'

    def data(self, loss_type):
        el = TYPES[self.el]
        L = (self.L > 0).astype(int) if loss_type == 'pointwise' else self.L
        d = SpecimenNumericalData()
        d.set_specimen_mesh(torch.tensor(self.x), {k: el() for k in self.conn}, dict(self.conn),
                            torch.tensor((self.L > 0).astype(int)))
        d.set_specimen_data(torch.tensor(self.disp), torch.tensor(self.R),
                            torch.tensor(np.repeat(L[:, :, None], self.n_time, axis=2)),
                            torch.arange(self.n_time).to(torch.get_default_dtype()))
        return d

    plastic = False

    def params(self, m, plastic=False):
        m = self.b['mats'][m - 1]
        mu, lam = m['g'] * self.b['den'] / U0, m['y'] * self.b['den'] / U0
        p = {'elastic_symmetry': 'isotropic', 'E': mu * (3 * lam + 2 * mu) / (lam + mu), 'v': lam / (2 * (lam + mu))}
        if self.plastic:
            p.update(hardening_law=get_hardening_law('linear'), hardening_parameters={'s0': 1.2 * m['g'] * self.b['den'], 'a': 0.3 * mu})
        elif plastic:
            p.update(hardening_law=get_hardening_law('linear'), hardening_parameters={'s0': 1e9, 'a': 0.0})
        return p

    def points(self):
        """Gradients of the shape functions and volume at every integration point of every element."""
        el = TYPES[self.el]()
        gp, gw = el.get_gauss_integration_points()
        out = {}
        for e, nodes in self.conn.items():
            x = self.x[[n - 1 for n in nodes]]
            for g in gp:
                dn = torch.func.jacrev(lambda c: el.eval_shapefun(c))(gp[g].to(torch.float64)).numpy()
                J = dn.T @ x                            # d x / d local
                out[int(e), g] = dn @ np.linalg.inv(J).T, float(gw[g]) * np.linalg.det(J)
        return out

    def response(self):
        """Strain and stress at every integration point by single point models, and the internal forces."""
        F, eps, sig = np.zeros((self.n_node, self.dim, self.n_time)), {}, {}
        names = [(0, 0), (1, 1), (0, 1)] if self.dim == 2 else [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
        for (e, g), (dx, vol) in self.points().items():
            nodes = [n - 1 for n in self.conn[str(e)]]
            cls = VonMises if self.plastic else Elastic
            m = cls('infinitesimal', self.pt, self.params(self.mat[e]))
            st = m.state_init()
            last = np.zeros((self.dim, self.dim))
            for t in range(self.n_time):
                gr = self.disp[nodes, :, t].T @ dx      # du_i / dx_j
                strain = (gr + gr.T) / 2
                st, _ = m.state_update(torch.tensor(strain - last), st)
                last = strain
                v = st['stress_mf'].numpy()
                s_ = np.zeros((self.dim, self.dim))
                for k, (i, j) in enumerate(names):
                    s_[i, j] = s_[j, i] = v[k] / (1 if i == j else math.sqrt(2))
                eps.setdefault((e, g), []).append([strain[i] for i in names])
                sig.setdefault((e, g), []).append([s_[i] for i in names])
                F[nodes, :, t] += vol * dx @ s_
        return F, eps, sig

    def state(self, model, data, groups=None):
        sm = StructureMaterialState('infinitesimal', self.pt, self.n_elem)
        if model == 'standard':
            for k in [k for k, m in sm._modules.items() if isinstance(m, torch.nn.ModuleDict)]:
                delattr(sm, k)
                setattr(sm, k, {})
        types = data.specimen_mesh.get_elements_type()
        for m in sorted(set(self.mat.values())):
            ids = [e for e, k in self.mat.items() if k == m]
            plastic = self.plastic or model == 'vmap'
            name, kw = ('von_mises' if plastic else 'elastic'), {}
            if model != 'standard':
                nf = 3 if self.dim == 2 else 6
                law = name + ('_vmap' if model == 'vmap' else '')
                kw = dict(n_features_in=nf, n_features_out=nf, learnable_parameters={}, material_model_name=law,
                          state_features_out={}, is_auto_sync_parameters=True, is_check_su_fail=False,
                          model_directory=self.ctx.tmpdir('rc'), is_normalized_parameters=False,
                          is_model_in_normalized=False, is_model_out_normalized=False, device_type='cpu')
                name = 'rc_' + law
            sm.init_elements_model(name, self.params(m, plastic), ids, types, model_kwargs=kw)
        return sm

    def other(self, el):
        """The same history on a mesh of another element type: distorted elements that share some nodes."""
        self.el = el
        loc = local_nodes(el)
        nn, self.dim = loc.shape
        self.pt = 1 if self.dim == 2 else 4
        self.n_elem = int(self.rng.integers(2, 4))
        A = np.eye(self.dim) + 0.3 * self.rng.uniform(-1, 1, (self.dim, self.dim))
        x = [list(r) for r in loc @ A.T + 0.04 * self.rng.uniform(-1, 1, loc.shape)]
        conn = [list(range(nn))]
        for k in range(1, self.n_elem):
            c = []
            for i in range(nn):                         # nodes of its own, or those of the element before
                if self.rng.random() < 0.5:
                    c.append(conn[-1][i])
                else:
                    x.append([v + 0.04 * self.rng.uniform(-1, 1) for v in x[conn[-1][i]]])
                    c.append(len(x) - 1)
            conn.append(c)
        perm = self.rng.permutation(len(x))             # new label of each node
        self.n_node = len(x)
        self.x = np.zeros((len(x), self.dim))
        self.x[perm] = np.array(x)
        self.conn = {str(k + 1): tuple(int(perm[i]) + 1 for i in c) for k, c in enumerate(conn)}
        mats = sorted(set(self.mat.values()))
        self.mat = {k + 1: int(self.rng.choice(mats)) for k in range(self.n_elem)}
        shape = (self.n_node, self.dim, self.n_time)
        self.disp = U0 * self.rng.integers(-1, 2, shape) * self.rng.random(shape)
        self.disp[:, :, 0] = 0
        self.L = self.rng.integers(0, 3, shape[:2])
        self.L = np.where(self.L > 0, self.L + 2 * np.arange(self.dim)[None, :], 0)
        self.b = dict(self.b, nrm=[])
        F, self.eps_g, self.sig_g = self.response()
        self.R = F + (0 if self.rng.random() < 0.3 else self.rng.normal(0, 1 + np.abs(F).max() / 4, shape))
        return F


def check_points(f, s, els, eps, sig, where):
    """Stored local responses are those of each integration point."""
    d = os.path.join(f.model_directory, 'local_response_dataset')
    ds = load_dataset(os.path.join(d, os.listdir(d)[0]))
    gps = [g for e, g in eps if e == els[0]]
    expect(len(ds) == len(els) * len(gps), f'{where}: {len(ds)} local responses, specified {len(els)} x {len(gps)}')
    big = max(np.abs(np.array(v)).max() for v in sig.values())
    for k, e in enumerate(els):
        for i, g in enumerate(gps):
            r = ds[k * len(gps) + i]
            agree(r['strain_path'] / U0, np.array(eps[e, g]) / U0, 1, f'{where}: stored strain path of point {g} of element {e}')
            agree(r['stress_path'] / big, np.array(sig[e, g]) / big, 1, f'{where}: stored stress path of point {g} of element {e}')


def field_runner(ctx, n_mat):
    def modes(s, F, lt, want, eps, sig, where):
        n = 0
        for mode, model in [('sequential_time', 'standard'), ('sequential_element', 'standard'), ('sequential_element', 'rc'),
                            ('sequential_element_vmap', 'vmap')]:
            if mode == 'sequential_element_vmap' and len(set(s.mat.values())) > 1:
                continue
            store = mode != 'sequential_time' and s.rng.random() < 0.3
            hist = mode == 'sequential_element_vmap' and s.rng.random() < 0.3 and (s.L == 0).any()
            f = s.finder(lt, model, is_store_local_paths=store, is_store_force_equilibrium_loss_hist=hist,
                         is_compute_sets_reaction_hist=hist and lt == 'dirichlet_sets')
            with torch.no_grad():
                got = float(f(sequential_mode=mode))
            size = float((s.loss(np.abs(F) + np.abs(np.where(s.L[:, :, None] > 0, s.R, 0)), lt)))
            expect(math.isfinite(got) and abs(got - want) <= 2e-5 * (size + abs(want)) + 1e-9,
                   f'{where}, {lt} loss, {mode}, {model} models: {got:g} is not the specified {want:g}')
            if hist:
                check_stored(f, s, F, lt, f'{where}, {mode}')
            if store:
                check_points(f, s, list(range(1, s.n_elem + 1)), eps, sig, f'{where}, {mode}, {model} models')
            n += 1
        return n

    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item, 15])
        torch.set_default_dtype(torch.float64)
        n = 0
        try:
            s = FieldSpecimen(b, n_mat, rng, ctx)
            F, eps, sig = s.response()
            if not np.allclose(F, s.F, atol=1e-6) or any(not np.isclose(s.loss(F, lt), b['loss'][lt]) for lt in b['loss']):
                raise Machinery('the integration of the driver is not that of the specification')
            for lt in b['loss']:
                n += modes(s, F, lt, b['loss'][lt], eps, sig, f'field {s.dim}D')
            s.plastic = True
            F, eps, sig = s.response()
            lt = ('pointwise', 'dirichlet_sets')[ctx.item % 2]
            n += modes(s, F, lt, s.loss(F, lt), eps, sig, f'plastic field {s.dim}D')
            el = sorted(k for k in TYPES if (k[:2] in ('tr', 'qu')) == (s.dim == 2))[ctx.item % 4]
            s.plastic = bool(rng.integers(2))
            F = s.other(el)
            n += modes(s, F, lt, s.loss(F, lt), s.eps_g, s.sig_g, f'{"plastic" if s.plastic else "elastic"} {el} mesh')
        finally:
            torch.set_default_dtype(torch.float32)
        return n
    return run


def run(ctx):
    reps = 16 if ctx.quick else 80
    cases = [(2, 2, 2, 1, 'elastic', 2), (2, 3, 1, 1, 'shear', 2), (2, 2, 2, 1, 'shear', 1), (2, 2, 2, 1, 'elastic', 1)] + \
        [(3, 2, 1, 1, k, m) for k in ('elastic', 'shear') for m in (1, 2)] + ([] if ctx.quick else [(2, 3, 3, 1, 'shear', 2)])
    nt = [4 if c[0] == 3 else 5 if ctx.quick else 8 for c in cases]
    res = ctx.tlc_many(
        [(('Loss', dict(Dim=dim, NX=nx, NY=ny, NZ=nz, Kind=kind, NMat=nm, NTime=t, Sim=True)),
          dict(spec='Spec', invariants=['Equilibrium', 'Emit'], simulate=reps // 4 if dim == 3 else reps, depth=t + 4,
               workers=2, label=f'{dim}D {nx}x{ny}x{nz} {kind}, {nm} materials'))
         for (dim, nx, ny, nz, kind, nm), t in zip(cases, nt)])
    fcases = [(2, 2, 2, 1, 1), (2, 3, 2, 1, 2), (3, 2, 1, 1, 1), (3, 2, 1, 1, 2)]
    fres = ctx.tlc_many(
        [(('Loss', dict(Dim=dim, NX=nx, NY=ny, NZ=nz, Kind='field', NMat=nm, NTime=3 if dim == 3 else 4, Sim=True)),
          dict(spec='Spec', invariants=['Equilibrium', 'Rigid', 'EmitField'], simulate=(8 if dim == 2 else 4) * (1 if ctx.quick else 6), depth=10,
               workers=1, label=f'{dim}D {nx}x{ny}x{nz} field, {nm} materials'))
         for dim, nx, ny, nz, nm in fcases])
    if not all(r.behaviours for r in res + fres):
        raise Machinery('no behaviours')
    torch.set_num_threads(1)
    ctx.preplays([(r.behaviours, field_runner(ctx, c[4]), f'{c[0]}D field') for c, r in zip(fcases, fres)][::-1] +
                 [(r.behaviours, runner(ctx, c[4], c[5]), f'{c[0]}D {c[4]}') for c, r in zip(cases, res)][::-1])
