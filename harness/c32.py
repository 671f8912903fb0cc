"""C32: decks, runs and results of the external simulator, histories of spec/Deck.tla.

The simulator is a stand-in: a script that moves a staged folder to where the results are expected.
"""
import copy
import os
import re
import shutil
import stat

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import torch

from fw import Machinery, expect, expect_raises
import simulators.links.utilities.links_plot_tfact as tf
from data_generation.spdg.patch_generator import FiniteElementPatchGenerator
from simulators.fetorch.material.models.standard.hardening import get_hardening_law
from simulators.links.links import LinksSimulator
from simulators.links.utilities import links_specimen_dirichlet as sd

FORM = {1: ('infinitesimal', 'plane_strain'), 2: ('finite', 'plane_strain'), 3: ('infinitesimal', 'plane_stress'), 4: ('finite', 'axisymmetric')}
CODE = dict(plane_stress='1', plane_strain='2', axisymmetric='3', tridimensional='6')
MOVE = '#!/bin/sh\n[ -d "{stage}" ] && mv "{stage}" "${{1%.dat}}"\nexit 0\n'


def near(a, b, rtol=1e-7):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=rtol, atol=1e-12)


def descriptors(m):
    """Material of the specification as the user describes it to the simulator."""
    q = m['par']
    d = dict(name=m['model'], density=(q[0] + 8) / 4, young=1000.0 + 10 * q[1], poisson=0.25 + q[2] / 64)
    if m['model'] == 'ELASTIC':
        return d
    if m['kind'] == 'linear':
        law, par = 'linear', dict(s0=float(m['h'][0]), a=float(m['h'][1] - m['h'][0]))
    else:
        law, par = 'piecewise_linear', dict(hardening_points=torch.tensor([[0.0, m['h'][0]], [1.0, m['h'][1]], [2.0, m['h'][2]]]))
    d.update(n_hard_point=m['np'], hardening_law=get_hardening_law(law), hardening_parameters=par)
    if m['model'] == 'DRUCKER_PRAGER':
        d.update(friction_angle_deg=10 + q[3] / 4, dilatancy_angle_deg=10 + q[4] / 2)
    if m['model'] == 'LOU':
        for i, c in enumerate('abcd'):
            d[f'yield_{c}_init'] = 1 + (i + 1) * q[i] / 32
            d[f'{c}_hard_slope'] = q[i + 4] / 16 + i
    return d


def expected(m, tab):
    """Numbers of the lines that follow the name of the material."""
    d = descriptors(m)
    E = [d['young'], d['poisson']]
    rows = [[d['density']]]
    if m['model'] == 'DRUCKER_PRAGER':
        rows.append(E + [d['friction_angle_deg'], d['dilatancy_angle_deg'], 3])
    else:
        rows.append(E)
    if m['model'] == 'LOU':
        rows += [[d[f'yield_{c}_init'], d[f'{c}_hard_slope']] for c in 'abcd']
    if m['model'] != 'ELASTIC':
        rows.append([m['np']])
        rows += [[2 * i / (m['np'] - 1), t / (m['np'] - 1)] for i, t in enumerate(tab)]
    return rows


def sections(text):
    """Keyword -> lines below it, up to an empty line."""
    out, key = {}, None
    for line in text.split('\n'):
        if not line.strip():
            key = None
        elif key is None and re.match(r'[A-Za-z]', line):
            key = line.split()[0]
            out.setdefault(key, []).append([line.split()[1:]])
        elif key is not None:
            out[key][-1].append(line.split())
    return out


class Project:
    def __init__(self, b, root, rng):
        self.b, self.root, self.rng = b, root, rng
        self.dim, self.el = b['P']['dim'], b['P']['el']
        self.dir = os.path.join(root, 'decks')
        self.stage = os.path.join(root, 'stage')
        self.bin = os.path.join(root, 'links.sh')
        with open(self.bin, 'w') as fh:
            fh.write(MOVE.format(stage=self.stage))
        os.chmod(self.bin, stat.S_IRWXU)
        np.random.seed(int(rng.integers(1 << 30)))
        gen = FiniteElementPatchGenerator(self.dim, (1.0, 2.0, 0.5)[:self.dim])
        self.ne = (2, self.el, 1)[:self.dim]
        _, self.patch = gen.generate_deformed_patch(('SQUAD4', 'SHEXA8')[self.dim - 2], self.ne)
        self.name = str(rng.choice(['p', 'patch_3', 'x.1']))
        self.paths, self.data, self.text, self.forms, self.steps = [], {}, {}, [], 0

    def sim(self, d):
        f = FORM[d['fm']] if self.dim == 2 else (FORM[d['fm']][0], 'tridimensional')
        return LinksSimulator(self.bin, *f), f

    def read(self, p):
        with open(p) as fh:
            return fh.read()

    def write(self, o):
        d = o['deck']
        sim, form = self.sim(d)
        ph = np.array(d['ph']).reshape(self.ne, order='F')
        desc = {str(k): descriptors(d['mats'][k - 1]) for k in (1, 2, 3)}
        u0 = d['used'][0]
        if o['bad'] == 'phase':
            desc.pop(str(u0))
        elif o['bad'] == 'key':
            desc[str(u0)].pop(str(self.rng.choice([k for k in desc[str(u0)] if k != 'name'])))
        elif o['bad'] == 'model':
            desc[str(u0)]['name'] = 'NEO_HOOKE'
        given = {}
        if self.rng.random() < 0.5:
            given = dict(title='Patch of the study', solver='MA41', parallel_solver=4, vtk_output='ASCII', unknown_option='7')
        mat = dict(mesh_elem_material=ph, mat_phases_descriptors=desc)
        keep = copy.deepcopy({k: {a: b for a, b in v.items() if not callable(b)} for k, v in desc.items()})
        seed = int(self.rng.integers(1 << 30))
        kw = dict(links_input_params=dict(given) if given else None, is_overwrite_file=o['ow'], is_save_increm_file=o['saveload'])
        before = {p: self.read(p) for p in self.paths}
        where = f'write {o["at"]} {o["bad"]}'
        if o['bad']:
            expect_raises(lambda: sim.generate_input_data_file(self.name, self.dir, self.patch, mat, **kw),
                          f'{where}: deck of a material that is not fully described', Exception)
            now = {p: self.read(p) for p in self.paths}
            expect(now == before, f'{where}: a deck that could not be written changed one that exists')
            n = len([f for f in os.listdir(self.dir) if f != 'loading_incrementation.dat' and f.endswith('.dat')]) if os.path.isdir(self.dir) else 0
            expect(n == len(self.paths), f'{where}: a deck that could not be written left a file')
            return
        inc = os.path.join(self.dir, 'loading_incrementation.dat')
        if os.path.exists(inc):
            os.remove(inc)
        np.random.seed(seed)
        path = sim.generate_input_data_file(self.name, self.dir, self.patch, mat, **kw)
        expect({k: {a: b for a, b in v.items() if not callable(b)} for k, v in desc.items()}.__repr__() == keep.__repr__(),
               f'{where}: the description of the materials was changed')
        if o['at'] <= len(self.paths):
            expect(path == self.paths[o['at'] - 1], f'{where}: deck written to another file than the one to overwrite', path)
            before.pop(path)
        else:
            expect(path not in self.paths and os.path.dirname(path) == self.dir, f'{where}: deck written over another', path)
            self.paths.append(path)
        for p, t in before.items():
            expect(self.read(p) == t, f'{where}: another deck was changed', p)
        self.check(path, d, form, given, where)
        text = self.read(path)
        # the same request with the same seed is the same deck
        np.random.seed(seed)
        again = sim.generate_input_data_file('again', os.path.join(self.root, 'again'), self.patch, mat, **dict(kw, is_overwrite_file=True))
        expect(self.read(again) == text, f'{where}: the same seed gives another deck')
        expect(os.path.exists(inc) == o['saveload'], f'{where}: file of the load increments')
        if o['saveload']:
            expect(self.read(inc).strip() in text, f'{where}: load increments stored next to the deck are not those of the deck')
        np.random.seed(seed + 1)
        other = sim.generate_input_data_file('other', os.path.join(self.root, 'again'), self.patch, mat, **dict(kw, is_overwrite_file=True))
        a, c = (sections(self.read(f))['INCREMENTS'][0][1:] for f in (other, path))
        expect(a != c, f'{where}: another seed gives the same load increments')

    def check(self, path, d, form, given, where):
        text = self.read(path)
        s = sections(text)
        for k in ('ANALYSIS_TYPE', 'LARGE_STRAIN_FORMULATION', 'INCREMENTS', 'SOLVER', 'MATERIALS', 'ELEMENT_GROUPS', 'ELEMENTS', 'NODE_COORDINATES'):
            expect(len(s.get(k, [])) == 1, f'{where}: {k} stated {len(s.get(k, []))} times')
        expect(s['ANALYSIS_TYPE'][0][0] == [CODE[form[1]]], f'{where}: type of analysis {s["ANALYSIS_TYPE"]} for {form}')
        expect(s['LARGE_STRAIN_FORMULATION'][0][0] == ['OFF' if form[0] == 'infinitesimal' else 'ON'], f'{where}: large strains {form}')
        expect(s['SOLVER'][0][0] == [given.get('solver', 'PARDISO')], f'{where}: solver', s['SOLVER'])
        expect(s['PARALLEL_SOLVER'][0][0] == [str(given.get('parallel_solver', 1))], f'{where}: parallel solver')
        expect(all(x[0] == [given.get('vtk_output', 'None')] for x in s['VTK_OUTPUT']), f'{where}: output option')
        if given:
            expect(given['title'] in text and 'unknown_option' not in text, f'{where}: title')
        # load increments
        inc = s['INCREMENTS'][0]
        n = int(inc[0][0])
        expect(len(inc) - 1 == n, f'{where}: {len(inc) - 1} load increments, {n} announced')
        rows = np.array([[float(x) for x in r] for r in inc[1:]])
        expect(rows.shape == (n, 4) and (rows[:, 0] == 1.0).all() and (rows[:, 2] > 0).all() and (rows[:, 3] >= 1).all(), f'{where}: load increments')
        tot = np.concatenate([[0.0], np.cumsum(rows[:, 1])])
        expect(np.abs(tot).max() <= 1 + 1e-6 and np.abs(tot).max() > 0, f'{where}: load factor reaches {np.abs(tot).max():g}')
        # a smooth history: the polynomial through at most five control points
        res = tot - np.polyval(np.polyfit(np.linspace(0, 1, n + 1), tot, 4), np.linspace(0, 1, n + 1))
        expect(np.abs(res).max() < 1e-5, f'{where}: the load factor is not a polynomial of the time')
        # materials
        used = sorted(d['used'])
        expect(int(s['MATERIALS'][0][0][0]) == len(used) and int(s['ELEMENT_GROUPS'][0][0][0]) == len(used), f'{where}: number of materials')
        expect(sorted([int(x) for x in r] for r in s['ELEMENT_GROUPS'][0][1:]) == [[k, 1, k] for k in used], f'{where}: element groups')
        got, cur = {}, None
        for r in s['MATERIALS'][0][1:]:
            if len(r) == 2 and re.match('[A-Z]', r[1]):
                cur = int(r[0])
                expect(cur not in got, f'{where}: material {cur} stated twice')
                got[cur] = [r[1]]
            else:
                got[cur].append([float(x) for x in r])
        expect(sorted(got) == used, f'{where}: materials {sorted(got)} of the phases {used}')
        for k in used:
            m, w = d['mats'][k - 1], expected(d['mats'][k - 1], d['tab'][k - 1])
            expect(got[k][0] == m['model'], f'{where}: model of phase {k}')
            expect(len(got[k]) - 1 == len(w), f'{where}: {len(got[k]) - 1} lines of material {m["model"]}, expected {len(w)}')
            for g, e in zip(got[k][1:], w):
                expect(near(g, e, 1e-6), f'{where}: material {m["model"]} states {g}, described {e}')
            self.steps += 1
        el = [[int(x) for x in r] for r in s['ELEMENTS'][0][1:]]
        expect([r[:2] for r in el] == [[i + 1, p] for i, p in enumerate(d['ph'])], f'{where}: phases of the elements', el)
        expect(int(s['ELEMENTS'][0][0][0]) == len(el), f'{where}: number of elements')

    # what a run leaves behind: arrays by time step
    def run(self, o):
        path = self.paths[o['k'] - 1]
        out = os.path.splitext(path)[0]
        name = os.path.basename(out)
        for d in (out, self.stage):
            if os.path.isdir(d):
                shutil.rmtree(d)
        if o['o'] != 'nofolder':
            for d in ('NODE_DATA', 'GLOBAL_DATA'):
                os.makedirs(os.path.join(self.stage, d))
            if o['o'] != 'noreport':
                end = {'ok': ' Program L I N K S successfully completed.\n', 'ok2': 'step 1\n\n  *** Program L I N K S successfully completed.\nbye\n'}
                with open(os.path.join(self.stage, name + '.screen'), 'w') as fh:
                    fh.write('Reading...\n' + end.get(o['o'], ' Program L I N K S aborted.\nnot successfully completed\n'))
            n, c, g = int(self.rng.integers(2, 5)), int(self.rng.integers(2, 8)), int(self.rng.integers(1, 4))
            data = dict(node=self.rng.normal(size=(n, c, len(o['steps']))), glob=self.rng.normal(size=(1, g, len(o['steps']))))
            order = list(range(len(o['steps'])))
            self.rng.shuffle(order)
            for i in order:
                np.savetxt(os.path.join(self.stage, 'NODE_DATA', f'{name}_tstep_{o["steps"][i]}.nodedata'), data['node'][:, :, i], fmt='%.16e')
                np.savetxt(os.path.join(self.stage, 'GLOBAL_DATA', f'{name}_tstep_{o["steps"][i]}.globaldata'), data['glob'][:, :, i], fmt='%.16e')
            for d, f in (('NODE_DATA', 'other_1.nodedata'), ('NODE_DATA', f'{name}_tstep_1.txt'), ('GLOBAL_DATA', 'log'), ('GLOBAL_DATA', f'{name}_tstep_2.globaldata.bak')):
                with open(os.path.join(self.stage, d, f), 'w') as fh:
                    fh.write('1 2\n3 4\n')
            self.data[o['run']] = data
        sim, _ = LinksSimulator(self.bin, 'infinitesimal', 'tridimensional'), None
        where = f'run {o["o"]}'
        if o['raises']:
            expect_raises(lambda: sim.run_links_simulation(path), f'{where}: accepted', RuntimeError)
        else:
            ok, got = sim.run_links_simulation(path)
            expect(ok is o['success'], f'{where}: reported as {"successful" if ok else "failed"}')
            expect(os.path.normpath(got) == os.path.normpath(out), f'{where}: output folder {got}')
        self.steps += 1

    def results(self, o):
        path = self.paths[o['k'] - 1]
        out = os.path.splitext(path)[0]
        keys = tuple(k for k, x in (('node_data', o['node']), ('global_data', o['glob'])) if x)
        sim = LinksSimulator(self.bin, 'infinitesimal', 'tridimensional')
        if o['run'] == 0:
            expect_raises(lambda: sim.read_links_simulation_results(out, keys), 'read: results of a deck that was not run', RuntimeError)
            return
        r = sim.read_links_simulation_results(out, keys)
        expect(sorted(r) == sorted(keys), f'read: {sorted(r)} for {sorted(keys)}')
        for k, a in (('node_data', 'node'), ('global_data', 'glob')):
            if k in keys:
                expect(near(r[k], self.data[o['run']][a], 1e-12), f'read: {k} of run {o["run"]}', (np.shape(r[k]),))
        self.steps += 1

    def go(self):
        for o in self.b['ops']:
            dict(write=self.write, run=self.run, read=self.results)[o['op']](o)
        return self.steps


def loads(b, root, rng):
    P = b['P']
    n = P['n']
    unit = n if P['mode'] == 'number' else 4
    lines = ['', 'TITLE', 'some patch', '', 'SOLVER PARDISO', '']
    word = str(rng.choice(['INCREMENTS', 'Increments', 'increments']))
    if P['mode'] == 'number':
        lines += [f'Number_of_Increments {n}', '', 'CONVERGENCE_TOLERANCE', '1e-6']
    else:
        lines += [f'{word} {n}'] + [('' if P['mode'] == 'list3' else '1.0 ') + f'{d / unit:.8e} 1e-6 20' for d in P['d']]
        lines += dict(blank=['', 'SOLVER X', '1 2 3'], star=['*SOLVER X', '1 2 3'], end=[])[P['end']]
    path = os.path.join(root, 'deck.dat')
    with open(path, 'w') as fh:
        fh.write('\n'.join(lines) + ('' if P['end'] == 'end' else '\n'))
    shown = []
    real = tf.plot_xy_data, tf.save_figure
    tf.plot_xy_data = lambda data, *a, **k: (shown.append(np.array(data)), (plt.figure(), None))[1]
    tf.save_figure = lambda *a, **k: None
    try:
        tf.plot_links_tfact_hist(path, is_save_fig=bool(rng.random() < 0.5))
        want = np.column_stack([np.arange(n + 1) / n, np.array(b['out']) / unit])
        expect(len(shown) == 1 and near(shown[0], want), f'load factor history {shown} of {P}', want.tolist())
        with open(os.path.join(root, 'tfact_hist.dat')) as fh:
            t = fh.read()
        rows = np.array([[float(x) for x in r.split()] for r in t.split('Total Load Factor')[-1].strip().split('\n')])
        expect(near(rows, want), f'stored load factor history of {P}', rows.tolist())
        expect(f'increments = {n}' in t, f'number of increments of {P}')
        acc = float(re.search(r'accumulated load factor = (\S+)', t).group(1))
        expect(abs(acc - b['acc'] / unit) < 1e-9, f'accumulated load factor {acc} of {P}')
        f = float(rng.choice([-2.0, 0.5, 3.0]))
        w0 = want.copy()
        sc = tf.scale_tfact_hist(want, f)
        expect(near(sc[:, 0], want[:, 0]) and near(sc[:, 1], f * want[:, 1]) and np.array_equal(w0, want), 'scaled load factor history')
        # a generated file of load increments shows the history it holds
        shown.clear()
        g = os.path.join(root, 'gen')
        os.makedirs(g)
        tf.gen_links_loading_incrementation_file(g)
        with open(os.path.join(g, 'loading_incrementation.dat')) as fh:
            s = sections(fh.read())['INCREMENTS'][0]
        d = np.array([float(r[1]) for r in s[1:]])
        expect(len(shown) == 1 and near(shown[0][:, 1], np.concatenate([[0], np.cumsum(d)]), 1e-6), 'history of generated load increments')
    finally:
        tf.plot_xy_data, tf.save_figure = real
        plt.close('all')
    return n


def supports(b, root, rng):
    P = b['P']
    top, u = float(P['top']), P['u'] / 4
    X = np.zeros((P['n'], 3))
    for i, q in enumerate(P['pos']):
        for a in range(3):
            inside = float(rng.choice([0.3, 0.5, 0.9, 1e-3, -0.4]))
            X[i, a] = [0.0, inside * (top if a == 1 else 3.0), top][q[a]]
            if q[a] != 1:
                X[i, a] += float(rng.choice([0.0, 1e-10, -1e-10]))
    # through the file of the mesh
    path = os.path.join(root, 'mesh.dat')
    with open(path, 'w') as fh:
        fh.write('TITLE\nx\n\nELEMENTS 1\n1 1 1 2\n\nNODE_COORDINATES %d CARTESIAN\n' % P['n'])
        for i, x in enumerate(X):
            fh.write(f'{i + 1:>5d} ' + ' '.join(f'{v:20.12e}' for v in x) + '\n')
        fh.write(str(rng.choice(['\nELEMENTS 1\n1 1 1 2\n', '*END\n9 9 9 9\n', ''])))
    Y = sd.read_links_nodes_coords_mesh(path)
    expect(near(Y, X, 1e-9), 'node coordinates read from the mesh', Y.tolist())
    label = str(rng.choice(['3d_tensile_double_notched', '3d_tensile_dogbone']))
    A = sd.build_specimen_dbc(label, top, u, Y)
    want = np.array([[r['node']] + r['code'] + [0.0, r['y'] / 4, 0.0] for r in b['dbc']]).reshape(-1, 7)
    expect(np.array(A).reshape(-1, 7).shape == want.shape and near(np.array(A).reshape(-1, 7), want), f'supports of {P}', (np.array(A).tolist(), want.tolist()))
    expect_raises(lambda: sd.build_specimen_dbc('beam', top, u, Y), 'unknown specimen accepted', RuntimeError)
    if len(b['dbc']) == 0:
        return P['n']
    sd.write_links_dirichlet_bc_file(root, A, is_reaction_group=P['group'])
    with open(os.path.join(root, 'specimen_dirichlet_bc.dat')) as fh:
        s = sections(fh.read())
    rows = s['NODES_WITH_PRESCRIBED_DISPLACEMENTS'][0]
    expect(int(rows[0][0]) == len(want) == len(rows) - 1, f'number of supports of {P}', rows[0])
    for r, w in zip(rows[1:], want):
        # the three values follow the code, in fixed fields or separated
        expect(int(r[0]) == w[0] and r[1] == ''.join(str(int(x)) for x in w[1:4]), 'stored support', (r, w.tolist()))
        expect(len(r) == 5 and near([float(x) for x in r[2:]], w[4:7], 1e-4), 'stored prescribed displacement', (r, w.tolist()))
    expect(('NODE_GROUPS' in s) == P['group'], 'group of the reactions')
    if P['group']:
        g = s['NODE_GROUPS'][0]
        expect(g[0] == ['1'] and [int(x) for x in g[1]] == [1, len(b['out'])] and [int(x[0]) for x in g[2:]] == b['out'],
               f'reactions of the nodes {b["out"]} that are moved', g)
    return P['n']


def run(ctx):
    torch.set_num_threads(1)

    def one(b):
        rng = np.random.default_rng([ctx.seed, ctx.item])
        torch.set_default_dtype(torch.float64 if rng.random() < 0.7 else torch.float32)
        root = ctx.tmpdir('c32')
        try:
            if b['kind'] == 'run':
                return Project(b, root, rng).go() + len(b['ops'])
            return dict(load=loads, support=supports)[b['kind']](b, root, rng)
        finally:
            ctx.rmdir(root)
    n = 1 if ctx.quick else 8
    inv = ['Owned', 'TableOK', 'LoadOK', 'SupOK']
    C = dict(Sim=True, MaxN=6, MaxPh=3)
    runs = [(('Deck', dict(C, Kind='run', MaxOps=8)), dict(spec='Spec', invariants=inv + ['Emit'], simulate=60 * n, depth=12, label='Deck/run')),
            (('Deck', dict(C, Kind='load', MaxOps=1)), dict(spec='Spec', invariants=inv + ['Emit'], simulate=60 * n, depth=10, label='Deck/load')),
            (('Deck', dict(C, Kind='support', MaxOps=1, MaxN=12)), dict(spec='Spec', invariants=inv + ['Emit'], simulate=80 * n, depth=16, label='Deck/support')),
            (('Deck', dict(Sim=False, Kind='load', MaxOps=1, MaxN=4, MaxPh=1)), dict(spec='Spec', invariants=inv, label='Deck/load/all')),
            (('Deck', dict(Sim=False, Kind='support', MaxOps=1, MaxN=6, MaxPh=1)), dict(spec='Spec', invariants=inv, label='Deck/support/all'))]
    items = [b for r in ctx.tlc_many(runs) for b in r.behaviours]
    if not all(any(b['kind'] == k for b in items) for k in ('run', 'load', 'support')):
        raise Machinery('a kind of behaviour is missing')
    ctx.preplay(items, one, 'decks')
    ctx.extra['kinds'] = {k: sum(b['kind'] == k for b in items) for k in ('run', 'load', 'support')}
    ctx.assumptions += ['the simulator is a stand-in that only leaves the files of the results; it is not part of the repository']
