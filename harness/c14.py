"""C14: histories of spec/Mesh.tla on the real StructureMesh."""
import numpy as np
import torch

from fw import expect, expect_raises
from material_model_finder.data.specimen_data import SpecimenNumericalData
from simulators.fetorch.element.type.hexa8 import FEHexa8
from simulators.fetorch.element.type.quad4 import FEQuad4
from simulators.fetorch.element.type.tetra4 import FETetra4
from simulators.fetorch.element.type.tri3 import FETri3
from simulators.fetorch.structure.structure_mesh import StructureMesh

TYPE = {(2, 3): FETri3, (2, 4): FEQuad4, (3, 4): FETetra4, (3, 8): FEHexa8}


def tens(x):
    return torch.tensor(x, dtype=torch.float)


def eq(got, want, clause):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    expect(got.shape == want.shape and bool((got == want).all()), clause, dict(got=got.tolist(), spec=want.tolist()))


def runner(ctx):
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item])
        conn, X0 = b['conn'], b['X0']
        nn, dim, ne = len(X0), len(X0[0]), len(conn)
        order = list(range(1, ne + 1))
        if rng.random() < 0.5:
            rng.shuffle(order)                         # dictionaries in any order
        types = {str(e): TYPE[dim, len(conn[e - 1])]() for e in order}
        connd = {str(e): tuple(conn[e - 1]) for e in order}
        bc = torch.tensor(rng.integers(0, 2, size=(nn, dim)), dtype=torch.int)
        bc0 = bc.clone()
        x0 = tens(X0)
        data = SpecimenNumericalData()
        none = tens(np.zeros((nn, dim, 3)))
        hist = tens(np.moveaxis(np.array(b['D']), 0, 2))
        expect_raises(lambda: data.set_specimen_data(hist, none, none, torch.arange(3)), 'specimen data without a mesh')
        data.set_specimen_mesh(x0, types, connd, bc)
        for bad in ((hist[:, :, :2], none, none), (hist, none[:-1], none), (hist, none, none[:, :1])):
            expect_raises(lambda: data.set_specimen_data(*bad, torch.arange(3)), 'specimen data of wrong shape accepted')
        data.set_specimen_data(hist, none, none, torch.arange(3))
        mesh = data.specimen_mesh
        expect(mesh.get_n_dim() == dim and mesh.get_n_node_mesh() == nn and mesh.get_n_elem() == ne, 'mesh sizes')
        expect(int(mesh.get_n_dirichlet_dof()) == int(bc.sum()), 'number of constrained degrees of freedom')
        expect(mesh.get_n_element_type() == len({len(c) for c in conn}), 'number of element types')
        bad = dict(connd)
        bad[str(order[0])] = bad[str(order[0])][:-1]
        expect_raises(lambda: StructureMesh(x0, types, bad, bc), 'element with a missing node accepted')
        gap = {str(int(k) + 1): v for k, v in connd.items()}
        expect_raises(lambda: StructureMesh(x0, types, gap, bc), 'badly labelled connectivities accepted')
        expect_raises(lambda: StructureMesh(x0, {k: None for k in types}, connd, bc), 'unknown element type accepted')
        for i, h in enumerate(b['ops']):
            where = f'step {i + 1} ({h["op"]})'
            if h['op'] == 'history':
                history(data, h, where, conn, X0, b['D'])
            else:
                getattr(Ops, h['op'])(mesh, h, where, rng, conn, nn)
            for tm, X, U in (('init', X0, np.zeros_like(X0)), ('last', h['Xold'], h['Uold']),
                             ('current', h['X'], h['U'])):
                c, d = mesh.get_mesh_configuration(time=tm)
                eq(c, X, f'{where}: {tm} coordinates')
                eq(d, U, f'{where}: {tm} displacements')
                c.fill_(99.0), d.fill_(99.0)           # own copies
                e = int(rng.integers(ne)) + 1
                key = e if rng.random() < 0.5 else str(e)
                c, d = mesh.get_element_configuration(key, time=tm)
                idx = [k - 1 for k in conn[e - 1]]
                eq(c, np.asarray(X)[idx], f'{where}: {tm} coordinates of element {e}')
                eq(d, np.asarray(U)[idx], f'{where}: {tm} displacements of element {e}')
                c.fill_(99.0), d.fill_(99.0)
            eq(x0, X0, f'{where}: the given initial coordinates changed')
            eq(mesh.get_dirichlet_bool_mesh(), bc0, f'{where}: constrained degrees of freedom')
            mesh.get_dirichlet_bool_mesh().fill_(7)
            mesh.get_connectivities()[str(order[0])] = ()
            expect(mesh.get_connectivities() == connd, f'{where}: connectivities')
        expect_raises(lambda: mesh.get_mesh_configuration(time='next'), 'unknown time accepted')
        expect_raises(lambda: mesh.get_element_configuration(1, time='next'), 'unknown time accepted')
        expect_raises(lambda: mesh.update_mesh_configuration(x0, time='init'), 'initial configuration written')
        return len(b['ops'])
    return run


def history(data, h, where, conn, X0, D):
    expect_raises(lambda: data.update_specimen_mesh_configuration(3), f'{where}: time beyond the history accepted')
    expect_raises(lambda: data.update_specimen_mesh_configuration(-1), f'{where}: negative time accepted')
    data.update_specimen_mesh_configuration(h['k'] - 1, is_update_coords=h['coords'])
    eq(data.nodes_disps_mesh_hist, np.moveaxis(np.array(D), 0, 2), f'{where}: displacement history changed')
    if len({len(c) for c in conn}) == 1:
        c, d = data.get_batched_mesh_configuration_hist(is_update_coords=h['coords'])
        idx = np.array(conn) - 1
        want = np.moveaxis(np.array(D)[:, idx], 0, 3)
        eq(d, want, f'{where}: displacement histories of the elements')
        eq(c, np.asarray(X0)[idx][..., None] + (want if h['coords'] else 0 * want),
           f'{where}: coordinate histories of the elements')


class Ops:
    def update(mesh, h, where, rng, conn, nn):
        d = tens(h['d'])
        kw = {} if h['coords'] else dict(is_update_coords=False)     # coordinates follow by default
        mesh.update_mesh_configuration(d, time=h['time'], **kw)
        d.fill_(-55.0)

    def advance(mesh, h, where, rng, conn, nn):
        _, now = mesh.get_mesh_configuration(time='current')
        eq(now, h['old'], f'{where}: displacements before the step')
        d = tens(h['d'])
        if rng.random() < 0.5:
            mesh.update_mesh_configuration(now, time='last', is_update_coords=h['coords'])
            mesh.update_mesh_configuration(d, time='current', is_update_coords=h['coords'])
        else:
            mesh.update_mesh_configuration(d, time='current', is_update_coords=h['coords'])
            mesh.update_mesh_configuration(now, time='last', is_update_coords=h['coords'])
        d.fill_(-55.0)

    def assemble(mesh, h, where, rng, conn, nn):
        es = sorted(h['es'])
        rng.shuffle(es)
        f = {str(e): tens(h['f'][e - 1]) for e in es}
        eq(mesh.element_assembler(f), h['v'], f'{where}: assembled array')
        for e in es:
            eq(f[str(e)], h['f'][e - 1], f'{where}: assembly modified the array of element {e}')
        expect_raises(lambda: mesh.element_assembler({str(es[0]): torch.zeros(2, 2)}), f'{where}: 2D array assembled')

    def extract(mesh, h, where, rng, conn, nn):
        g = tens(h['g'])
        got = mesh.element_extractor(g, h['e'] if rng.random() < 0.5 else str(h['e']))
        eq(got, h['v'], f'{where}: extracted array of element {h["e"]}')
        got.fill_(3.0)
        eq(g, h['g'], f'{where}: extraction shares storage with the mesh array')

    def index(mesh, h, where, rng, conn, nn):
        eq(mesh.get_connectivities_tensor(), conn, f'{where}: connectivities tensor')
        idx = mesh.build_elements_mesh_indexing(h['nd'])
        eq(idx, h['v'], f'{where}: element to mesh indexes')
        e = int(rng.integers(len(conn)))
        one = StructureMesh.build_element_mesh_indexing(torch.tensor(conn[e]), h['nd'])
        eq(one, h['v'][e], f'{where}: element to mesh indexes of one element')


def run(ctx):
    ctx.tlc('Mesh', dict(NNode=5, NElem=2, Dim=2, Uniform=False, MaxOps=1 if ctx.quick else 2, Sim=False), spec='Spec',
            invariants=['Adjoint', 'Consistent'], properties=['InitFixed'], label='design')
    sizes = [(7, 4, 2, False), (11, 12, 2, True), (9, 3, 3, False)] + \
        ([(10, 4, 3, True)] if ctx.quick else [(23, 6, 2, True), (15, 6, 3, True), (17, 13, 2, False)])
    n, ops = (120, 10) if ctx.quick else (600, 30)
    res = ctx.tlc_many([(('Mesh', dict(NNode=nn, NElem=ne, Dim=dim, Uniform=uni, MaxOps=ops, Sim=True)),
                         dict(spec='Spec', invariants=['Adjoint', 'Consistent', 'Emit'], properties=['InitFixed'],
                              simulate=n, depth=ops + 4, workers=2, label=f'{nn} nodes, {ne} elements, {dim}D'))
                        for nn, ne, dim, uni in sizes])
    torch.set_num_threads(1)
    ctx.preplays([(r.behaviours, runner(ctx), f'{s[2]}D mesh') for s, r in zip(sizes, res)])
