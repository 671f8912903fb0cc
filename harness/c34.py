"""C34: local paths of simulated material patches, histories of spec/Patches.tla.

The simulator is a stand-in that answers every input file with a random displacement field.
"""
import copy
import os
import re
import shutil

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import torch

from fw import Machinery, expect, expect_raises
from simulators.fetorch.element.type.hexa8 import FEHexa8
from simulators.fetorch.material.models.standard.hardening import get_hardening_law
from simulators.links.links import LinksSimulator
from user_scripts.synthetic_data import build_local_paths_dataset as bl
from user_scripts.synthetic_data import gen_random_specimen as gs

NAME = 'random_specimen'
PAIRS = ('11', '22', '33', '12', '23', '13')


def table(text, key):
    """Rows below a keyword of a deck."""
    rows, on = [], False
    for line in text.split('\n'):
        if re.match(rf'{key}\b', line.strip()):
            on = True
        elif on and not line.strip():
            break
        elif on:
            rows.append(line.split())
    return rows


def response(strain, E, v, s0, a):
    """Von Mises, linear isotropic hardening, radial return."""
    G, K = E / (2 * (1 + v)), E / (3 * (1 - 2 * v))
    ep, acc, out = np.zeros((3, 3)), 0.0, []
    for e in strain:
        ee = e - ep
        dev = 2 * G * (ee - np.trace(ee) / 3 * np.eye(3))
        q = np.sqrt(1.5 * np.sum(dev**2))
        f = q - (s0 + a * acc)
        if f > 0:
            dg = f / (3 * G + a)
            n = 1.5 * dev / q
            ep, acc = ep + dg * n, acc + dg
            dev = dev - 2 * G * dg * n
        out.append(dev + K * np.trace(ee) * np.eye(3))
    return np.array(out)


class Study:
    def __init__(self, b, root, rng):
        self.b, self.root, self.rng = b, root, rng
        self.base = os.path.join(root, 'patches')
        os.makedirs(self.base)
        self.run_id, self.bad, self.sims, self.steps, self.geo = 0, None, {}, 0, {}
        self.mat = dict(E=float(rng.uniform(50, 200)), v=float(rng.uniform(0.1, 0.4)), s0=float(rng.uniform(0.3, 1.5)), a=float(rng.uniform(1, 20)))
        self.elems = tuple(int(x) for x in rng.integers(1, 3, 3))
        self.dims = tuple(float(x) for x in rng.uniform(0.5, 2.0, 3))

    def dir(self, k):
        return os.path.join(self.base, NAME if k == -1 else f'{NAME}_{k}')

    # ------------------------------------------------------------- stand-ins
    def simulator(self):
        study = self

        class Sim(LinksSimulator):
            def run_links_simulation(self, path):
                return study.simulate(path)
        return Sim

    def simulate(self, path):
        self.run_id += 1
        with open(path) as fh:
            text = fh.read()
        out = os.path.splitext(path)[0]
        k = os.path.basename(os.path.dirname(os.path.dirname(path)))
        fails = self.bad == 0
        if fails and not self.half:
            return False, out
        if self.bad is not None:
            self.bad -= 1
        x = np.array([[float(c) for c in r[1:]] for r in table(text, 'NODE_COORDINATES')])
        conn = [[int(c) for c in r[2:]] for r in table(text, 'ELEMENTS')]
        bc = table(text, 'NODES_WITH_PRESCRIBED_DISPLACEMENTS')
        n, T = len(x), int(self.rng.integers(2, 5))
        u = np.cumsum(self.rng.normal(0, 0.01, (T, n, 3)), axis=0)
        u[0] = 0
        first = int(self.rng.choice([0, 1, 8, 98]))
        nd = os.path.join(out, 'NODE_DATA')
        os.makedirs(nd)
        for t in self.rng.permutation(T):
            rows = []
            for i in range(n):
                row = [1.0, float(t)] + list(x[i]) + list(u[t, i]) + list(self.rng.normal(size=9))
                rows.append(f'{i + 1:d} ' + ' '.join(f'{w: .15e}' for w in row))
            with open(os.path.join(nd, f'{NAME}_tstep_{first + t}.nodedata'), 'w') as fh:
                fh.write('\n'.join(rows) + '\n')
        self.sims[self.run_id] = dict(x=x, conn=conn, u=u, bc=bc, folder=k)
        return not fails, out

    def material(self):
        m = self.mat
        par = {'elastic_symmetry': 'isotropic', 'E': m['E'], 'v': m['v'], 'euler_angles': (0.0, 0.0, 0.0),
               'hardening_law': get_hardening_law('linear'), 'hardening_parameters': {'s0': m['s0'], 'a': m['a']}}
        kw = dict(n_features_in=6, n_features_out=6, learnable_parameters={}, strain_formulation='infinitesimal', problem_type=4,
                  material_model_name='von_mises_vmap', material_model_parameters=par, state_features_out={}, is_auto_sync_parameters=False,
                  is_check_su_fail=False, model_directory=None, model_name='rc_von_mises_vmap', is_normalized_parameters=True,
                  is_model_in_normalized=False, is_model_out_normalized=False, device_type='cpu')
        return 'infinitesimal', 4, 3, 'rc_von_mises_vmap', par, kw

    # ------------------------------------------------------------ operations
    def generate(self, o):
        self.half = o['half']
        self.bad = o['bad'] if o['bad'] != 99 else None
        old = {n: getattr(gs, n) for n in ('LinksSimulator', 'set_patch_mesh_params', 'set_patch_geometric_params', 'plot_links_tfact_hist')}
        geom = old['set_patch_geometric_params'](3)
        gs.LinksSimulator = self.simulator()
        gs.set_patch_mesh_params = lambda n_dim: dict(elem_type='SHEXA8', n_elems_per_dim=self.elems)
        gs.set_patch_geometric_params = lambda n_dim: dict(copy.deepcopy(geom), patch_dims=self.dims)
        gs.plot_links_tfact_hist = lambda *a, **k: None
        cls = __import__('data_generation.spdg.patch', fromlist=['x']).FiniteElementPatch
        plot, cls.plot_deformed_patch = cls.plot_deformed_patch, lambda *a, **k: None
        where = f'patches n={o["n"]} load={o["load"]} save={o["save"]}'
        before = self.run_id
        try:
            def go():
                return gs.generate_random_patches(self.base, patch_name=NAME, n_patch=o['n'], is_save_material_patch=o['save'], is_load_material_patch=o['load'])
            if not o['ok']:
                expect_raises(go, f'{where}: accepted', RuntimeError)
            else:
                files, outs = go()
                want = {str(i): self.dir(i if o['n'] > 1 else -1) for i in range(o['n'])}
                expect({k: os.path.normpath(v) for k, v in files.items()} == {k: os.path.join(v, 'simulations', NAME + '.dat') for k, v in want.items()}, f'{where}: files {files}')
                expect({k: os.path.normpath(v) for k, v in outs.items()} == {k: os.path.join(v, 'simulations', NAME) for k, v in want.items()}, f'{where}: folders {outs}')
        finally:
            for n, f in old.items():
                setattr(gs, n, f)
            cls.plot_deformed_patch = plot
            plt.close('all')
        expect(self.run_id - before == o['made'] + (not o['ok'] and o['bad'] == o['made'] and self.run_id - before > o['made']),
               f'{where}: {self.run_id - before} simulations instead of {o["made"]}')
        for f in o['folds']:
            k, v = f['k'], f['v']
            expect(os.path.isdir(self.dir(k)), f'{where}: folder of patch {k} is missing')
            if v['sim'] <= before:
                continue
            s = self.sims[v['sim']]
            expect(s['folder'] == os.path.basename(self.dir(k)), f'{where}: patch {k} simulated in {s["folder"]}')
            top = s['x'].max(axis=0) - s['x'].min(axis=0)
            expect(len(s['conn']) == int(np.prod(self.elems)) and np.allclose(top, self.dims, rtol=1e-6), f'{where}: mesh of patch {k}', (len(s['conn']), top.tolist()))
            if v['geo'] in self.geo:
                expect(s['bc'] == self.geo[v['geo']], f'{where}: patch {k} is not the saved one')
            else:
                expect(s['bc'] not in self.geo.values(), f'{where}: patch {k} is not a new one')
                self.geo[v['geo']] = s['bc']
            self.steps += 1
        for k in os.listdir(self.base):
            expect(k in [os.path.basename(self.dir(f['k'])) for f in o['folds']] or k == 'other_3', f'{where}: folder {k}')

    def move(self, o):
        for m in o['moves']:
            os.rename(self.dir(m['from']), self.dir(m['from']) + '.away')
        for m in o['moves']:
            os.rename(self.dir(m['from']) + '.away', self.dir(m['to']))

    def remove(self, o):
        shutil.rmtree(self.dir(o['k']))

    def build(self, o):
        if self.rng.random() < 0.5:
            os.makedirs(os.path.join(self.base, 'other_3'), exist_ok=True)
        old, bl.set_material_model_parameters = bl.set_material_model_parameters, self.material
        try:
            if not o['ok']:
                expect_raises(lambda: bl.build_local_paths_dataset(self.base, NAME), f'build of {o["ids"]} with simulations {o["sims"]}: accepted', RuntimeError)
                return
            data = bl.build_local_paths_dataset(self.base, NAME)
        finally:
            bl.set_material_model_parameters = old
        ref = []
        el = FEHexa8(n_gauss=8)
        gp, _ = el.get_gauss_integration_points()
        for k, r in zip(o['ids'], o['sims']):
            s = self.sims[r]
            for e, nodes in enumerate(s['conn']):
                idx = [n - 1 for n in nodes]
                for g in gp:
                    dn = torch.func.jacrev(lambda c: el.eval_shapefun(c))(gp[g].to(torch.float64)).numpy()
                    dx = dn @ np.linalg.inv(dn.T @ s['x'][idx]).T
                    gr = np.array([s['u'][t, idx].T @ dx for t in range(len(s['u']))])
                    ref.append((k, e + 1, g, (gr + gr.transpose(0, 2, 1)) / 2))
        expect(len(data) == len(ref), f'build of {o["ids"]}: {len(data)} local paths instead of {len(ref)}')
        for i, (k, e, g, eps) in enumerate(ref):
            where = f'build of {o["ids"]}: path {i}, point {g} of element {e} of patch {k}'
            p = data[i]
            sig = response(eps, **self.mat)
            expect(tuple(p['strain_comps_order']) == PAIRS and tuple(p['stress_comps_order']) == PAIRS, f'{where}: components {p["strain_comps_order"]}')
            expect(p['strain_path'].shape == (len(eps), 6) and p['time_hist'].shape == (len(eps), 1), f'{where}: {tuple(p["strain_path"].shape)} instead of {len(eps)} steps')
            expect(np.all(np.diff(p['time_hist'].numpy().ravel()) > 0), f'{where}: time does not increase')
            for c, m in enumerate(PAIRS):
                a, b = int(m[0]) - 1, int(m[1]) - 1
                expect(np.abs(p['strain_path'].numpy()[:, c] - eps[:, a, b]).max() <= 1e-6, f'{where}: strain {m}', (p['strain_path'][:, c].tolist(), eps[:, a, b].tolist()))
                expect(np.abs(p['stress_path'].numpy()[:, c] - sig[:, a, b]).max() <= 1e-4 * max(1e-3, np.abs(sig).max()), f'{where}: stress {m}',
                       (p['stress_path'][:, c].tolist(), sig[:, a, b].tolist()))
            self.steps += 1

    def go(self):
        for o in self.b['ops']:
            dict(generate=self.generate, move=self.move, remove=self.remove, build=self.build)[o['op']](o)
        return self.steps + len(self.b['ops'])


def run(ctx):
    torch.set_num_threads(1)

    def one(b):
        rng = np.random.default_rng([ctx.seed, ctx.item])
        np.random.seed(int(rng.integers(1 << 30)))
        torch.set_default_dtype(torch.float64)
        root = ctx.tmpdir('c34')
        try:
            return Study(b, root, rng).go()
        finally:
            torch.set_default_dtype(torch.float32)
            ctx.rmdir(root)
    n = 1 if ctx.quick else 8
    inv = ['Own', 'Saved', 'Ordered']
    runs = [(('Patches', dict(Sim=True, MaxN=4, MaxOps=7, MaxId=120)), dict(spec='Spec', invariants=inv + ['Emit'], simulate=14 * n, depth=10, label='Patches/histories')),
            (('Patches', dict(Sim=False, MaxN=2, MaxOps=3 if ctx.quick else 4, MaxId=3)), dict(spec='Spec', invariants=inv, view='Short', label='Patches/all'))]
    items = [b for r in ctx.tlc_many(runs) for b in r.behaviours]
    ops = [o for b in items for o in b['ops']]
    if not any(o['op'] == 'build' and o['ok'] and len(o['ids']) > 2 and sorted(map(str, o['ids'])) != list(map(str, o['ids'])) for o in ops):
        raise Machinery('no data set of several patches with numbers of several digits')
    ctx.preplay(items, one, 'patches')
    ctx.extra['ops'] = {k: sum(o['op'] == k for o in ops) for k in ('generate', 'move', 'remove', 'build')}
    ctx.assumptions += ['the simulator is a stand-in that answers with random displacement fields; the material is a von Mises material with linear hardening']
