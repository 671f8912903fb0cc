"""C25: histories of spec/Specimen.tla replayed on the real conversion and loading of specimen files."""
import os
import shutil

import numpy as np
import pandas
import torch

from fw import Machinery, expect, expect_raises
from material_model_finder.data.specimen_data import SpecimenNumericalData
from simulators.fetorch.element.type.hexa20 import FEHexa20
from simulators.fetorch.element.type.hexa8 import FEHexa8
from simulators.fetorch.element.type.quad4 import FEQuad4
from simulators.fetorch.element.type.tetra4 import FETetra4
from simulators.fetorch.element.type.tri3 import FETri3
from simulators.links.utilities import links_data_to_adimu as conv
from simulators.links.utilities.links_dat_to_inp import abaqus_inp_to_links_dat, links_dat_to_abaqus_inp
from simulators.links.utilities.links_nodedata_to_csv import links_node_output_to_csv
from user_scripts.global_model_update.material_finder.gen_specimen_data import (
    gen_specimen_dataset, get_specimen_history_paths, get_specimen_mesh_from_inp_file, get_specimen_numerical_data)
from user_scripts.global_model_update.utilities.process_specimen_data import (
    build_dirichlet_sets_reaction_history, copy_dbc_labels)

S = 8.0          # specified integers are stored as multiples of 1/8 (exact in every file and in float32)
TYPES = {'tri3': (FETri3, 1, ('TRI3', 'TRI_3')), 'quad4': (FEQuad4, 4, ('QUAD4', 'QUAD_4')),
         'tetra4': (FETetra4, 4, ('TETRA4', 'TETRA_4')), 'hexa8': (FEHexa8, 8, ('HEXA8', 'HEXA_8')),
         'hexa20': (FEHexa20, 8, ('HEXA20', 'HEXA_20'))}
ABQ = {('FETri3', 1): 'CPE3', ('FEQuad4', 4): 'CPE4', ('FETetra4', 4): 'C3D4', ('FEHexa8', 8): 'C3D8',
       ('FEHexa8', 1): 'C3D8R', ('FEHexa20', 8): 'C3D20R'}
HEAD = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3']
MAT = {'elastic_symmetry': 'isotropic', 'E': 100.0, 'v': 0.25, 'euler_angles': (0.0, 0.0, 0.0)}
DBC = ['DBC1', 'DBC2', 'DBC3']


class SpecimenRun:
    def __init__(self, hist, ctx, k):
        self.hist, self.ctx, self.k = hist, ctx, k
        self.name = ('specimen', 'Ti-6242_v1', 'run_7')[k % 3]
        self.root = ctx.tmpdir('specimen')
        self.sims = os.path.join(self.root, 'sims')
        self.data = os.path.join(self.root, 'data')
        self.dat = os.path.join(self.sims, self.name + '.dat')
        self.out = os.path.join(self.sims, self.name)
        self.inp = os.path.join(self.data, self.name + '.inp')
        self.hdir = os.path.join(self.data, 'specimen_history_data')
        os.makedirs(self.sims)
        os.makedirs(self.data)

    def run(self):
        try:
            for i, h in enumerate(self.hist):
                self.where = f'step {i + 1} ({h["op"]})'
                getattr(self, 'op_' + h['op'])(h)
        finally:
            self.ctx.rmdir(self.root)
        return len(self.hist)

    # ------------------------------------------------------------ simulator
    def op_simulate(self, h):
        if os.path.isdir(self.out):
            shutil.rmtree(self.out)
        nd = os.path.join(self.out, 'NODE_DATA')
        os.makedirs(nd)
        self.sim = h['sim']
        m = self.sim['mesh']
        self.write_dat(self.dat, m)
        for num, st in zip(self.sim['num'], self.sim['steps']):
            rows = []
            for v in range(m['n']):
                x = [a / S for a in m['X'][v]] + [0.0] * (3 - m['dim'])
                u = [a / S for a in st['U'][v]]
                r = [a / S for a in st['R'][v]]
                # internal and external forces are no reactions
                row = [v + 1, 1.0, float(num)] + x + u + [a + 0.5 for a in r] + [a - 0.25 for a in r] + r
                rows.append('  '.join(f'{row[0]:d}' if c == 0 else f'{w: .8e}' for c, w in enumerate(row)))
            with open(os.path.join(nd, f'{self.name}_{num}.nodedata'), 'w') as f:
                f.write('\n'.join(rows) + '\n')
        with open(os.path.join(nd, f'{self.name}_0.vtk'), 'w') as f:
            f.write('not nodal data\n')

    def write_dat(self, path, m):
        _, G, names = TYPES[m['type']]
        L = ['TITLE', 'specimen', '', 'ANALYSIS_TYPE 4', '', 'ELEMENT_TYPES 1', f'  1 {names[self.k % 2]}', f'  {G} GP', '',
             f'ELEMENTS {len(m["conn"])}']
        L += [f'{e + 1:>4d} 1 ' + ' '.join(str(v) for v in c) for e, c in enumerate(m['conn'])]
        L += ['', f'NODE_COORDINATES {m["n"]} CARTESIAN']
        L += [f'{v + 1:>4d} ' + ' '.join(f'{a / S:16.8e}' for a in x) for v, x in enumerate(m['X'])]
        nodes = {}
        for b in m['bc']:
            nodes.setdefault(b['v'], {})[b['i']] = b['u'] / S
        L += ['', f'NODES_WITH_PRESCRIBED_DISPLACEMENTS {len(nodes)}']
        for v in sorted(nodes, reverse=bool(self.k % 2)):
            code = ''.join('1' if i in nodes[v] else '0' for i in (1, 2, 3))
            L.append(f'{v:>4d} {code} ' + ' '.join(f'{nodes[v].get(i, 0.0):16.8e}' for i in (1, 2, 3)))
        L += ['', 'LOADINGS', '']
        with open(path, 'w') as f:
            f.write('\n'.join(L))

    # ---------------------------------------------------------- conversions
    def op_gen(self, h):
        inp, hdir = conv.gen_adimu_data_from_links(self.dat, self.out, self.data)
        expect(os.path.abspath(inp) == self.inp and os.path.abspath(hdir) == self.hdir,
               f'{self.where}: paths {inp}, {hdir}')
        want = {f'{self.name}_tstep_{t}.csv' for t in range(h['T'])}
        expect(set(os.listdir(self.hdir)) == want, f'{self.where}: history files differ',
               dict(got=sorted(os.listdir(self.hdir)), spec=sorted(want)))
        for t in range(h['T']):
            df = pandas.read_csv(os.path.join(self.hdir, f'{self.name}_tstep_{t}.csv'))
            expect(list(df.columns) == HEAD + DBC, f'{self.where}: columns {list(df.columns)}')
            self.frame(df, self.sim['steps'][t], f'{self.where}: step {t}')

    def frame(self, df, st, where):
        m = self.sim['mesh']
        X = np.array([[a / S for a in x] + [0.0] * (3 - m['dim']) for x in m['X']])
        expect(df['NODE'].tolist() == list(range(1, m['n'] + 1)), f'{where}: nodes')
        for cols, want, what in ((HEAD[1:4], X, 'coordinates'), (HEAD[4:7], np.array(st['U']) / S, 'displacements'),
                                 (HEAD[7:10], np.array(st['R']) / S, 'reactions')):
            expect(np.array_equal(df[cols].values, want), f'{where}: {what} differ from the simulation',
                   dict(got=df[cols].values.tolist(), spec=want.tolist()))

    def op_plain(self, h):
        d = links_node_output_to_csv(self.out)
        want = {f'{self.name}_tstep_{t}.csv' for t in range(h['T'])}
        expect(set(os.listdir(d)) == want, f'{self.where}: files differ', dict(got=sorted(os.listdir(d))))
        for t in range(h['T']):
            df = pandas.read_csv(os.path.join(d, f'{self.name}_tstep_{t}.csv'))
            expect(list(df.columns) == HEAD, f'{self.where}: columns {list(df.columns)}')
            self.frame(df, h['steps'][t], f'{self.where}: step {t}')
        shutil.rmtree(d)

    def op_dat2inp(self, h):
        path = links_dat_to_abaqus_inp(self.dat)
        expect(os.path.abspath(path) == os.path.join(self.sims, self.name + '.inp'), f'{self.where}: path {path}')
        self.mesh(path, h['mesh'], self.where)
        os.remove(path)

    def op_inp2dat(self, h):
        abaqus_inp_to_links_dat(self.inp, n_dim=h['mesh']['dim'])
        path = os.path.join(self.data, self.name + '_links.dat')
        expect(os.path.isfile(path), f'{self.where}: no file')
        m = h['mesh']
        X = conv.extract_mesh_coordinates_from_links_data(path)
        expect(np.array_equal(X, np.array(m['X']) / S), f'{self.where}: coordinates differ',
               dict(got=X.tolist(), spec=m['X']))
        C = conv.extract_mesh_connectivities_from_links_data(path)
        expect(C.tolist() == m['conn'], f'{self.where}: connectivities differ', dict(got=C.tolist(), spec=m['conn']))
        bc = conv.extract_mesh_dirichlet_from_links_data(path)
        got = {(int(v), int(i), u) for v, d in bc.items() for i, u in d.items()}
        want = {(b['v'], b['i'], b['u'] / S) for b in m['bc']}
        expect(got == want, f'{self.where}: prescribed displacements differ', dict(got=sorted(got), spec=sorted(want)))
        os.remove(path)

    def mesh(self, path, m, where):
        X, types, C, bc = get_specimen_mesh_from_inp_file(path, m['dim'])
        self.mesh_parts(X, types, C, bc, m, where)

    def mesh_parts(self, X, types, C, bc, m, where):
        cls, G, _ = TYPES[m['type']]
        expect(torch.equal(X, torch.tensor(m['X']) / S), f'{where}: coordinates of the mesh differ',
               dict(got=X.tolist(), spec=m['X']))
        want = {str(e + 1): tuple(c) for e, c in enumerate(m['conn'])}
        expect({k: tuple(v) for k, v in C.items()} == want, f'{where}: connectivities differ', dict(got=C, spec=want))
        expect(set(types) == set(want) and all(type(t) is cls and t.get_n_gauss() == G for t in types.values()),
               f'{where}: element types differ', dict(got={k: str(v) for k, v in types.items()}, spec=m['type']))
        B = torch.zeros(m['n'], m['dim'])
        for b in m['bc']:
            B[b['v'] - 1, b['i'] - 1] = 1
        expect(torch.equal(bc.to(B), B), f'{where}: constrained degrees of freedom differ',
               dict(got=bc.tolist(), spec=B.tolist()))

    # --------------------------------------------------------------- labels
    def paths(self):
        return get_specimen_history_paths(self.hdir, self.name)

    def op_relabel(self, h):
        conv.update_adimu_mesh_hist_data_files_dirichlet(self.paths(), np.array(h['L']))

    def op_copy(self, h):
        src = os.path.join(self.root, 'src')
        os.makedirs(src)
        base = pandas.read_csv(self.paths()[0])
        for t, L in enumerate(h['labels']):
            df = base.copy()
            df[HEAD[4:10]] = -77.0
            df[DBC] = np.array(L)
            df.to_csv(os.path.join(src, f'{self.name}_tstep_{t}.csv'), index=False)
        try:
            if h['ok']:
                copy_dbc_labels(self.name, src, self.hdir)
            else:
                expect_raises(lambda: copy_dbc_labels(self.name, src, self.hdir),
                              f'{self.where}: histories of different lengths accepted', RuntimeError)
        finally:
            shutil.rmtree(src)

    def op_foreign(self, h):
        n = self.name
        f = {'bak': f'{n}_tstep_1.csv.bak', 'tilde': f'{n}_tstep_0.csv~', 'other': f'other{n}_tstep_0.csv',
             'txt': f'{n}_tstep_0.txt', 'prefix': f'old_{n}_tstep_0.csv', 'suffix': f'{n}_tstep_0_old.csv'}[h['kind']]
        shutil.copyfile(self.paths()[0], os.path.join(self.hdir, f))

    # -------------------------------------------------------------- loading
    def fields(self, U, R, L, t, steps, where):
        for got, want, what in ((U, torch.tensor([s['U'] for s in steps]) / S, 'displacements'),
                                (R, torch.tensor([s['R'] for s in steps]) / S, 'reactions'),
                                (L, torch.tensor([s['L'] for s in steps]), 'labels')):
            want = want.permute(1, 2, 0)
            expect(got.shape == want.shape and torch.equal(got.to(want.dtype), want), f'{where}: {what} differ',
                   dict(shape=list(got.shape), got=got.tolist(), spec=want.tolist()))
        expect(t.tolist() == [float(k) for k in range(len(steps))], f'{where}: times {t.tolist()}')

    def op_load(self, h):
        m = h['mesh']
        self.mesh(self.inp, m, self.where)
        U, R, L, t = get_specimen_numerical_data(self.paths(), m['dim'], m['n'])
        self.fields(U, R, L, t, h['steps'], self.where)
        sp = SpecimenNumericalData()
        sp.set_specimen_mesh(*get_specimen_mesh_from_inp_file(self.inp, m['dim']))
        sp.set_specimen_data(U, R, L, t)
        for kind, ok in (('pointwise', h['point']), ('dirichlet_sets', h['sets'])):
            if ok:
                sp.check_dirichlet_bc_mesh_hist(kind)
            else:
                expect_raises(lambda: sp.check_dirichlet_bc_mesh_hist(kind),
                              f'{self.where}: inadmissible labels accepted for {kind}', RuntimeError)

    def op_react(self, h):
        n_dim = len(h['dims'])
        R, labels, U, nodes = build_dirichlet_sets_reaction_history(self.name, self.hdir, n_dim)
        want = {f'dim_{i + 1}_label_{g["l"]}': g for i, d in enumerate(h['dims']) for g in d}
        expect(sorted(labels) == sorted(want) and len(nodes) == len(labels) == R.shape[0],
               f'{self.where}: sets differ', dict(got=labels, spec=sorted(want)))
        for k, l in enumerate(labels):
            expect(sorted(nodes[k]) == sorted(want[l]['nodes']), f'{self.where}: nodes of set {l} differ',
                   dict(got=nodes[k], spec=sorted(want[l]['nodes'])))
            f = [a / S for a in want[l]['f']]
            expect(R[k].ravel().tolist() == f, f'{self.where}: force of set {l} differs',
                   dict(got=R[k].ravel().tolist(), spec=f))

    def op_dataset(self, h):
        m = h['mesh']
        cls, G, _ = TYPES[m['type']]
        d = os.path.join(self.root, 'set')
        os.makedirs(d)
        nf = 3 if m['dim'] == 2 else 6
        kw = dict(n_features_in=nf, n_features_out=nf, learnable_parameters={}, strain_formulation='infinitesimal',
                  problem_type=1 if m['dim'] == 2 else 4, material_model_name='elastic', material_model_parameters=dict(MAT),
                  state_features_out={}, model_directory=self.data, model_name='rc_elastic', is_auto_sync_parameters=True,
                  is_check_su_fail=False, is_normalized_parameters=False, is_model_in_normalized=False,
                  is_model_out_normalized=False, device_type='cpu')
        args = (self.name, self.data, self.inp, self.paths(), 'infinitesimal', 1 if m['dim'] == 2 else 4, m['dim'],
                'rc_elastic', dict(MAT), kw, d)
        try:
            p, q = gen_specimen_dataset(*args, is_save_specimen_data=h['data'], is_save_specimen_material_state=h['state'])
            want = ({'specimen_data.pt'} if h['data'] else set()) | ({'specimen_material_state.pt'} if h['state'] else set())
            expect(set(os.listdir(d)) == want, f'{self.where}: files {sorted(os.listdir(d))}, specified {sorted(want)}')
            if h['data']:
                sp = torch.load(p)
                ms = sp.specimen_mesh
                X, U0 = ms.get_mesh_configuration(time='init')
                self.mesh_parts(X, ms.get_elements_type(), ms.get_connectivities(), ms.get_dirichlet_bool_mesh(), m, self.where)
                expect(ms.get_n_elem() == len(m['conn']) and ms.get_n_node_mesh() == m['n'], f'{self.where}: mesh size')
                self.fields(sp.nodes_disps_mesh_hist, sp.reaction_forces_mesh_hist, sp.dirichlet_bc_mesh_hist,
                            sp.time_hist, h['steps'], self.where)
            if h['state']:
                st = torch.load(q)
                ids = {str(e + 1) for e in range(len(m['conn']))}
                expect({str(k) for k in st.get_elements_material()} == ids
                       and all(x is not None for x in st.get_elements_material().values()),
                       f'{self.where}: elements with a material differ')
                expect(st.get_n_element_material_type() == 1, f'{self.where}: material types')
        finally:
            shutil.rmtree(d)

    def op_abaqus(self, h):
        """A mesh file of another program: keywords in other case, element blocks, ranges of degrees of freedom."""
        L = ['*Heading', 'specimen', '*NODE' if self.k % 2 else '*Node, nset=all']
        L += [f'{v + 1}, ' + ', '.join(repr(a / S) for a in x[:h['dim'] if self.k % 3 else 3]) for v, x in enumerate(h['X'])]
        blocks = h['blocks'][::-1] if self.k % 2 else h['blocks']
        for b in blocks:
            L.append(('*ELEMENT, TYPE=' if self.k % 2 else '*Element, type=') + b['type'] + ('' if self.k % 3 else ', elset=bulk'))
            L += [f'{e["id"]}, ' + ', '.join(str(v) for v in e['nodes']) for e in b['el']]
            if self.k % 5 == 0:
                L.append('')
        L += ['*Nset, nset=left', '1, 2', '*BOUNDARY' if self.k % 2 else '*Boundary']
        L += [f'{r["v"]}, {r["i"]}, {r["j"]}, 0.5' for r in h['ranges'][:2]]
        L += ['*Step', '*Static', '*Boundary']
        L += [f'{r["v"]}, {r["i"]}, {r["j"]}, 0.25' for r in h['ranges'][2:]]
        L += ['*End Step', '']
        path = os.path.join(self.root, 'abaqus.inp')
        with open(path, 'w') as f:
            f.write('\n'.join(L))
        X, types, C, bc = get_specimen_mesh_from_inp_file(path, h['dim'])
        want = torch.tensor(h['X'])[:, :h['dim']] / S
        expect(torch.equal(X, want), f'{self.where}: coordinates of the mesh differ', dict(got=X.tolist(), spec=want.tolist()))
        els = {str(e['id']): (b['type'], tuple(e['nodes'])) for b in h['blocks'] for e in b['el']}
        got = {k: (ABQ.get((type(types[k]).__name__, types[k].get_n_gauss())), tuple(C[k])) for k in C}
        expect(got == els and set(types) == set(els), f'{self.where}: elements differ', dict(got=got, spec=els))
        B = torch.zeros(h['n'], h['dim'])
        for v, i in h['bc']:
            B[v - 1, i - 1] = 1
        expect(torch.equal(bc.to(B), B), f'{self.where}: constrained degrees of freedom differ',
               dict(got=bc.tolist(), spec=B.tolist()))
        os.remove(path)

    # -------------------------------------------------------------- refusals
    def op_damage(self, h):
        kind = h['kind']
        paths = self.paths()
        n = pandas.read_csv(paths[0]).shape[0]
        dim = 2 if 'CPE' in open(self.inp).read() else 3
        if kind in ('rows', 'columns'):
            victim = paths[-1]
            with open(victim) as f:
                keep = f.read()
            df = pandas.read_csv(victim)
            (df.iloc[:-1] if kind == 'rows' else df.drop(columns='DBC3')).to_csv(victim, index=False)
            expect_raises(lambda: get_specimen_numerical_data(paths, dim, n), f'{self.where}: damaged {kind} accepted',
                          RuntimeError)
            with open(victim, 'w') as f:
                f.write(keep)
            return
        with open(self.inp) as f:
            lines = f.read().split('\n')
        e = next(i for i, l in enumerate(lines) if l.startswith('*Element'))
        b = next(i for i, l in enumerate(lines) if l.startswith('*Node'))
        if kind == 'node':
            row = lines[e + 1].split(',')
            row[-1] = f' {n + 1}'
            lines[e + 1] = ','.join(row)
        elif kind == 'unused':
            lines.insert(b + 1 + n, f'{n + 1}, ' + ', '.join(['9.0'] * dim))
        elif kind == 'type':
            lines[e] = '*Element, type=C3D6'
        elif kind == 'nonode':
            del lines[b:b + 1 + n]
        else:
            raise Machinery(kind)
        bad = os.path.join(self.root, 'bad.inp')
        with open(bad, 'w') as f:
            f.write('\n'.join(lines))
        expect_raises(lambda: get_specimen_mesh_from_inp_file(bad, dim), f'{self.where}: damaged mesh accepted ({kind})',
                      RuntimeError)
        if kind != 'type':
            expect_raises(lambda: abaqus_inp_to_links_dat(bad, dim), f'{self.where}: damaged mesh converted ({kind})',
                          RuntimeError)


def run(ctx):
    N = 150 if ctx.quick else 1500
    inv = ['Paired', 'Meshes', 'Balance', 'Emit']
    runs = [(('Specimen', dict(MaxOps=4, Sim=False)),
             dict(spec='Spec', invariants=inv, workers=1, label='Specimen/all short histories')),
            (('Specimen', dict(MaxOps=16, Sim=True)),
             dict(spec='Spec', invariants=inv, simulate=N, depth=20, label='Specimen/random histories'))]
    res = ctx.tlc_many(runs)
    items = res[1].behaviours
    small = res[0].behaviours
    if len(small) > (400 if ctx.quick else 4000):
        step = len(small) // (400 if ctx.quick else 4000) + 1
        small = small[ctx.seed % step::step]
    ctx.preplay(list(enumerate(small + items)), lambda it: SpecimenRun(it[1], ctx, it[0]).run(), 'specimen files')
