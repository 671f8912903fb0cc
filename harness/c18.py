"""C18: patches of spec/Patch.tla generated by the real patch generator, and the mesh written for the simulator."""
import copy
import os
from fractions import Fraction

import numpy as np

from fw import Machinery, Violation, close, expect, expect_raises
from data_generation.spdg.patch import FiniteElementPatch
from data_generation.spdg.patch_generator import FiniteElementPatchGenerator, rotation_tensor_from_euler_angles
from simulators.links.links import LinksSimulator

LINKS = {'SQUAD4': 'QUAD4', 'SQUAD8': 'QUAD8', 'SHEXA8': 'HEXA8', 'SHEXA20': 'HEXA20'}
DESIGN = ['Consecutive', 'Covered', 'DistinctNodes', 'Rigid']
CORNERS = np.array([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)], dtype=float)


def parse_dat(path):
    out = dict(elements=[], nodes=[], disps=[])
    rows = [ln.split() for ln in open(path).read().splitlines()]
    i = 0
    while i < len(rows):
        if rows[i] and rows[i][0] in ('ELEMENTS', 'NODE_COORDINATES', 'NODES_WITH_PRESCRIBED_DISPLACEMENTS'):
            key = {'E': 'elements', 'N': 'nodes'}[rows[i][0][0]] if rows[i][0] != 'NODES_WITH_PRESCRIBED_DISPLACEMENTS' else 'disps'
            n = int(rows[i][1])
            out[key] = rows[i + 1:i + 1 + n]
            expect(len(out[key]) == n and all(out[key]), 'simulator input file section is incomplete', key)
            i += n
        elif rows[i] and rows[i][0] == 'ELEMENT_TYPES':
            out['type'] = rows[i + 1][1]
        i += 1
    return out


class PatchRun:
    def __init__(self, b, tmp):
        self.b, self.tmp = b, tmp
        self.dim = len(b['ne'])
        self.f = (1.0, 0.25, 3.0)[(sum(b['ne']) + b['order']) % 3]       # length unit
        self.dims = tuple(self.f * x for x in b['size'])
        self.steps = 0

    def generate(self, seed=None, gen=None, **over):
        b = self.b
        ranges = {str(c + 1): tuple((self.f * d, self.f * d) for d in u) for c, u in enumerate(b['cd'])}
        kw = dict(corners_lab_disp_range=ranges, edges_lab_def_order=b['order'],
                  translation_range={str(a + 1): (self.f * t, self.f * t) for a, t in enumerate(b['shift'])},
                  rotation_angles_range={k: (90.0 * q, 90.0 * q) for k, q in zip(('alpha', 'beta', 'gamma'), b['turn'])})
        if b['kind'] == 'plain' and not any(b['shift']):
            kw.pop('translation_range')
        if b['kind'] == 'plain' and not any(b['turn'][:1 if self.dim == 2 else 3]):
            kw.pop('rotation_angles_range')
        if b['curves']:
            kw['edges_lab_disp_range'] = {str(e['lab']): (self.f * e['amp'], self.f * e['amp']) for e in b['curves']}
            if b['order'] == 3:
                kw['edges_lab_def_order'] = {str(e['lab']): 3 for e in b['curves']}
        kw.update(over)
        if seed is not None:
            np.random.seed(seed)
        gen = gen or FiniteElementPatchGenerator(self.dim, self.dims)
        return gen.generate_deformed_patch(b['type'], tuple(b['ne']), **kw)

    def run(self):
        b = self.b
        ok, patch = self.generate()
        expect(bool(ok) == b['admissible'], 'patch admissibility', (ok, b['admissible']))
        self.steps += 1
        if not b['admissible']:
            expect(patch is None, 'a patch was returned with an inadmissible deformation')
            return self.steps
        self.mesh(patch)
        self.displacements(patch)
        if b['type'] in LINKS:
            self.links(patch)
        self.random()
        return self.steps

    # mesh and boundary sets
    def mesh(self, patch):
        b, g = self.b, tuple(self.b['grid'])
        m = np.array(patch.get_mesh_nodes_matrix())
        want = np.array(b['labels']).reshape(g, order='F')
        expect(m.shape == g and (m == want).all(), 'node labels of the grid', (m.tolist(), want.tolist()))
        expect(tuple(patch.get_n_edge_nodes_per_dim()) == g and tuple(patch.get_n_elems_per_dim()) == tuple(b['ne'])
               and patch.get_elem_type() == b['type'] and patch.get_n_dim() == self.dim, 'attributes of the patch')
        expect(np.allclose(patch.get_elem_size_dims(), [d / n for d, n in zip(self.dims, b['ne'])]), 'element size')
        coords = patch.get_mesh_nodes_coords_ref()
        n = max(b['labels'])
        expect(set(coords) == {str(k) for k in range(1, n + 1)}, 'nodes of the patch', sorted(coords))
        self.ref = {}
        for ix in np.ndindex(*g):
            if want[ix]:
                x = np.array([i * d / (k - 1) for i, d, k in zip(ix, self.dims, g)])
                self.ref[int(want[ix])] = x
                expect(np.allclose(coords[str(want[ix])], x, rtol=0, atol=1e-10 * max(self.dims)), 'node coordinates', (ix, x))
        expect(sorted(int(x) for x in patch.get_boundary_nodes_labels()) == sorted(b['boundary']), 'boundary nodes')
        expect(sorted(int(x) for x in patch.get_boundary_edges_nodes_labels()) == sorted(b['edges']), 'boundary edge nodes')
        if self.dim == 2:
            got = sorted(tuple(sorted((int(p), int(q)))) for p, q in patch.get_mesh_connected_nodes())
            exp = sorted((int(want[i]), int(want[j])) for i in np.ndindex(*g) for j in ((i[0] + 1, i[1]), (i[0], i[1] + 1))
                         if j[0] < g[0] and j[1] < g[1] and want[i] and want[j])
            expect(got == exp, 'neighbouring nodes')
        att = patch.get_patch_attributes()
        expect(att['elem_type'] == b['type'] and tuple(att['n_elems_per_dim']) == tuple(b['ne'])
               and tuple(att['patch_dims']) == self.dims, 'attributes of the patch')
        # what is handed out is a copy
        patch.get_mesh_nodes_matrix()[:] = -1
        for v in patch.get_mesh_boundary_nodes_disps().values():
            v[:] = 1e9
        self.steps += 5

    def expected(self):
        b = self.b
        if not b['curves']:
            return {d['n']: np.array([float(Fraction(x, b['den'])) * self.f for x in d['d']]) for d in b['disps']}
        dim, f = self.dim, self.f
        ref = CORNERS[:2 ** dim, :dim] * np.array(self.dims)
        cor = ref + f * np.array(b['cd'], dtype=float)
        at = {tuple(d['at']): d['n'] for d in b['disps']}
        curves = {}
        for e in b['curves']:
            p, q, o = (cor[e[k] - 1] for k in ('from', 'to', 'opp'))
            L = np.linalg.norm(q - p)
            t = (q - p) / L
            out = -((o - p) - np.dot(o - p, t) * t)
            out /= np.linalg.norm(out)
            h = f * e['amp'] * (4.0 if b['order'] == 2 else 4.5)
            s = np.linspace(0.0, 1.0, 20001)
            y = h * s * (1.0 - s)
            arc = np.concatenate(([0.0], np.cumsum(np.hypot(np.diff(s) * L, np.diff(y)))))
            u = np.interp(np.linspace(0.0, arc[-1], e['n']), arc, s)
            pts = p + np.outer(u * L, t) + np.outer(h * u * (1.0 - u), out)
            curves.setdefault((e['from'], e['to']), []).append((e['along'], pts))
        pos, g = {}, b['grid']
        for (c, _), lst in curves.items():
            along, base = lst[0][0] - 1, CORNERS[c - 1]
            pts = np.mean([x for _, x in lst], axis=0)
            for k in range(g[along]):
                pos[at[tuple(k if a == along else int(base[a]) * (g[a] - 1) for a in range(dim))]] = pts[k]
        if dim == 2:
            ring = [at[i, 0] for i in range(g[0] - 1)] + [at[g[0] - 1, j] for j in range(g[1] - 1)] \
                + [at[i, g[1] - 1] for i in range(g[0] - 1, 0, -1)] + [at[0, j] for j in range(g[1] - 1, 0, -1)]
            P = np.array([pos[k] for k in ring])
            Q = np.roll(P, -1, axis=0)
            cr = P[:, 0] * Q[:, 1] - P[:, 1] * Q[:, 0]
            cen = ((P + Q) * cr[:, None]).sum(0) / (3.0 * cr.sum())
        else:
            cen = cor.mean(0)

        def rz(q):
            c, s = round(np.cos(np.pi / 2 * q)), round(np.sin(np.pi / 2 * q))
            return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])

        def rx(q):
            c, s = round(np.cos(np.pi / 2 * q)), round(np.sin(np.pi / 2 * q))
            return np.array([[1.0, 0, 0], [0, c, -s], [0, s, c]])
        R = rz(b['turn'][0]) @ rx(b['turn'][1]) @ rz(b['turn'][2]) if dim == 3 else rz(b['turn'][0])[:2, :2]
        disp = {k: cen + R @ (x - cen) + f * np.array(b['shift']) - self.ref[k] for k, x in pos.items()}
        for ix, k in at.items():
            if k in disp:
                continue
            ends = [a for a in range(3) if ix[a] in (0, g[a] - 1)]
            inner = [a for a in range(3) if a not in ends]
            parts = []
            for a in inner:
                lo, hi = list(ix), list(ix)
                lo[a], hi[a] = 0, g[a] - 1
                w = ix[a] / (g[a] - 1)
                parts.append((1 - w) * disp[at[tuple(lo)]] + w * disp[at[tuple(hi)]])
            disp[k] = np.mean(parts, axis=0)
        return disp

    def displacements(self, patch):
        want, got = self.expected(), patch.get_mesh_boundary_nodes_disps()
        expect(set(got) == {str(k) for k in want}, 'nodes with prescribed displacements', (sorted(got), sorted(want)))
        tol = (2e-5 if self.b['curves'] else 1e-8) * max(self.dims)
        for k, d in want.items():
            expect(np.allclose(got[str(k)], d, rtol=0, atol=tol), 'prescribed displacement of a boundary node',
                   (k, np.array(got[str(k)]).tolist(), d.tolist()))
        self.disp = {int(k): np.array(v) for k, v in got.items()}
        inner = next((k for k in self.ref if k not in want), None)
        if inner is not None:
            bad = dict(got, **{str(inner): np.zeros(self.dim)})
            expect_raises(lambda: FiniteElementPatch(self.dim, self.dims, self.b['type'], tuple(self.b['ne']),
                                                     patch.get_mesh_nodes_matrix(), patch.get_mesh_nodes_coords_ref(), bad),
                          'displacements prescribed on an interior node were accepted', RuntimeError)
        # a patch keeps what it was made of
        m, c, u = patch.get_mesh_nodes_matrix(), patch.get_mesh_nodes_coords_ref(), patch.get_mesh_boundary_nodes_disps()
        keep = copy.deepcopy((m, c, u))
        twin = FiniteElementPatch(self.dim, self.dims, self.b['type'], tuple(self.b['ne']), m, c, u)
        m[:] = 0
        for v in list(c.values()) + list(u.values()):
            v[:] = 1e9
        u.clear()
        now = twin.get_mesh_nodes_matrix(), twin.get_mesh_nodes_coords_ref(), twin.get_mesh_boundary_nodes_disps()
        expect(np.array_equal(now[0], keep[0]) and all(set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)
                                                       for a, b in zip(now[1:], keep[1:])),
               'a patch changed with the arguments it was made of')
        self.steps += len(want)

    # mesh handed to the simulator, possibly without some elements
    def links(self, patch):
        b = self.b
        sim = LinksSimulator('/nonexistent/links', 'infinitesimal', 'plane_strain' if self.dim == 2 else 'tridimensional')
        n = int(np.prod(b['ne']))
        phase = np.array([1 + (e * e + e // 3) % 2 for e in range(n)]).reshape(tuple(b['ne']), order='F')
        mat = dict(mesh_elem_material=phase,
                   mat_phases_descriptors={k: dict(name='ELASTIC', density=0.0, young=100.0 * int(k), poisson=0.3) for k in '12'})
        for gone in ([], b['gone']):
            kept = [e for e in range(1, n + 1) if e not in gone]
            if sorted(gone) == sorted(b['gone']) and kept != b['kept']:
                raise Machinery('inconsistent emission')
            d = self.tmp('links')
            kw = dict(remove_elements_labels=list(gone)) if gone else {}
            if gone and not b['removable']:
                expect_raises(lambda: sim.generate_input_data_file('p', d, patch, mat, **kw),
                              'elements holding boundary nodes were removed', RuntimeError)
                continue
            path = sim.generate_input_data_file('p', d, patch, mat, **kw)
            expect(os.path.isfile(path) and os.path.dirname(path) == d, 'simulator input file', path)
            data = parse_dat(path)
            nodes = sorted({k for e in kept for k in b['elements'][e - 1]})
            new = {k: i + 1 for i, k in enumerate(nodes)}
            expect(data.get('type') == LINKS[b['type']], 'element type in the simulator input file', data.get('type'))
            el = [[int(x) for x in r] for r in data['elements']]
            want = [[i + 1, int(phase.flatten(order='F')[e - 1])] + [new[k] for k in b['elements'][e - 1]] for i, e in enumerate(kept)]
            expect(el == want, 'elements in the simulator input file', (gone, el, want))
            expect([int(r[0]) for r in data['nodes']] == list(range(1, len(nodes) + 1)), 'nodes in the simulator input file', gone)
            for r, k in zip(data['nodes'], nodes):
                expect(np.allclose([float(x) for x in r[1:]], self.ref[k], rtol=1e-7, atol=1e-7), 'node coordinates in the simulator input file', (k, r))
            expect([int(r[0]) for r in data['disps']] == sorted(new[k] for k in self.disp), 'constrained nodes in the simulator input file', gone)
            old = {v: k for k, v in new.items()}
            for r in data['disps']:
                # the first value may be glued to the code of the constraints
                s = ' '.join(r[1:])
                expect(s[:3] == '111', 'constraint code', r)
                u = [float(x) for x in s[3:].split()]
                w = np.append(self.disp[old[int(r[0])]], [0.0] if self.dim == 2 else [])
                expect(len(u) == 3 and np.allclose(u, w, rtol=1e-7, atol=1e-7), 'prescribed displacement in the simulator input file', (r, w.tolist()))
            self.steps += len(el) + len(nodes)

    # random requests: reproducible, within the ranges, fixed corners stay
    def random(self):
        b, f = self.b, self.f
        if b['kind'] not in ('small', 'curved') or b['order'] == 0:
            return
        rng = {str(c + 1): tuple((f * (d - 1), f * (d + 1)) for d in u) for c, u in enumerate(b['cd'])}
        fixed = {str(1 + b['order'] % 4): (1,) * self.dim, str(1 + (b['order'] + 1) % 4): (0,) * (self.dim - 1) + (1,)}
        seed = 11 + b['order']
        kw = dict(corners_lab_disp_range=rng, corners_lab_bc=fixed, edges_lab_def_order=2,
                  edges_lab_disp_range={str(k): (-f, f) for k in (1, 3)}, translation_range=None, rotation_angles_range=None)
        kw['deformation_noise'] = 0.02 if b['kind'] == 'small' else 0.0
        gen = FiniteElementPatchGenerator(self.dim, self.dims)
        _, p1 = self.generate(seed, gen, **kw)
        _, p2 = self.generate(seed + 1, gen, **kw)
        _, p3 = self.generate(seed, gen, **kw)
        if any(p is None for p in (p1, p2, p3)):
            return
        d1, d2, d3 = (p.get_mesh_boundary_nodes_disps() for p in (p1, p2, p3))
        expect(all(np.array_equal(d1[k], d3[k]) for k in d1), 'the same seed gives another patch')
        expect(any(not np.allclose(d1[k], d2[k]) for k in d1), 'another seed gives the same patch')
        g, at = b['grid'], {tuple(d['at']): d['n'] for d in b['disps']}
        for c in range(2 ** self.dim):
            k = at[tuple(int(CORNERS[c, a]) * (g[a] - 1) for a in range(self.dim))]
            for a in range(self.dim):
                bc = str(c + 1) in fixed and fixed[str(c + 1)][a] == 1
                lo, hi = (0.0, 0.0) if bc else rng[str(c + 1)][a]
                expect(lo - 1e-9 * f <= d1[str(k)][a] <= hi + 1e-9 * f, 'corner displacement leaves its range or constraint',
                       (c + 1, a, d1[str(k)].tolist(), (lo, hi)))
        self.steps += 4


def run_case(ctx, b):
    dirs = []

    def tmp(name):
        dirs.append(ctx.tmpdir(name))
        return dirs[-1]
    try:
        return PatchRun(b, tmp).run()
    finally:
        for d in dirs:
            ctx.rmdir(d)


def run(ctx):
    num = 30 if ctx.quick else 160
    runs = []
    for t in ('SQUAD4', 'SQUAD8', 'LQUAD4', 'LQUAD9', 'LQUAD16', 'SHEXA8', 'SHEXA20'):
        three = t.startswith('SHEXA')
        if not ctx.quick or t in ('SQUAD8', 'LQUAD16', 'SHEXA20'):
            runs.append((('Patch', dict(Type=t, Sim=False, MaxElem=2)), dict(spec='Spec', invariants=DESIGN, label='Patch/design/' + t)))
        runs.append((('Patch', dict(Type=t, Sim=True, MaxElem=3 if three and ctx.quick else 4)),
                     dict(spec='Spec', invariants=DESIGN + ['Emit'], simulate=num if not three else num // 2, depth=4,
                          label='Patch/' + t)))
    items = [b for r in ctx.tlc_many(runs) for b in r.behaviours]
    ctx.preplay(items, lambda b: run_case(ctx, b), 'patches')
    ctx.extra['kinds'] = {k: sum(b['kind'] == k for b in items) for k in ('plain', 'small', 'large', 'curved')}
    ctx.extra['inadmissible'] = sum(not b['admissible'] for b in items)
    ctx.assumptions += ['no three deformed corners aligned and no deformed edge perpendicular to its reference direction',
                        'edge curves compared up to the polyline used by the generator (1000 chords)']
