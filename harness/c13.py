"""C13: behaviours of spec/Element.tla on the real finite element types, quadratures and gradients."""
import itertools

import numpy as np
import torch

from fw import Machinery, expect, expect_raises
from simulators.fetorch.element.derivatives.gradients import (
    build_discrete_gradient, build_discrete_sym_gradient, eval_shapefun_deriv, vbuild_discrete_gradient,
    vbuild_discrete_sym_gradient, vexpand_grad_operator_sym_2d_to_3d, vreduce_grad_operator_sym_3d_to_2d)
from simulators.fetorch.element.derivatives.jacobian import eval_jacobian
from simulators.fetorch.element.integrations.internal_forces import (
    compute_element_internal_forces, compute_infinitesimal_inc_strain, compute_infinitesimal_strain)
from simulators.fetorch.element.type.hexa20 import FEHexa20
from simulators.fetorch.element.type.hexa8 import FEHexa8
from simulators.fetorch.element.type.quad4 import FEQuad4
from simulators.fetorch.element.type.quad8 import FEQuad8
from simulators.fetorch.element.type.quadratures import gauss_quadrature
from simulators.fetorch.element.type.tetra10 import FETetra10
from simulators.fetorch.element.type.tetra4 import FETetra4
from simulators.fetorch.element.type.tri3 import FETri3
from simulators.fetorch.element.type.tri6 import FETri6
from simulators.fetorch.material.models.standard.elastic import Elastic
from simulators.fetorch.math.matrixops import get_problem_type_parameters

TYPES = {'quad4': FEQuad4, 'quad8': FEQuad8, 'tri3': FETri3, 'tri6': FETri6, 'hexa8': FEHexa8,
         'hexa20': FEHexa20, 'tetra4': FETetra4, 'tetra10': FETetra10}
DOMAIN = {'quad4': 'quadrilateral', 'quad8': 'quadrilateral', 'tri3': 'triangular', 'tri6': 'triangular',
          'hexa8': 'hexahedral', 'hexa20': 'hexahedral', 'tetra4': 'tetrahedral', 'tetra10': 'tetrahedral'}
RULES = {'quad4': (1, 4), 'quad8': (4, 9), 'tri3': (1,), 'tri6': (1, 3), 'hexa8': (1, 8), 'hexa20': (8, 27),
         'tetra4': (1, 4), 'tetra10': (4,)}
T = torch.float64


def near(got, want, clause, tol=2e-5, detail=None):
    got = np.asarray(got.detach() if isinstance(got, torch.Tensor) else got, dtype=float)
    want = np.asarray(want, dtype=float)
    expect(got.shape == want.shape, f'{clause}: shape {got.shape}, specified {want.shape}')
    scale = max(1.0, np.abs(want).max())
    expect(bool(np.isfinite(got).all()) and np.abs(got - want).max() <= tol * scale, clause,
           dict(got=got.tolist(), spec=want.tolist(), case=detail))


def sym(order, t):
    """Engineering strain components of a symmetric tensor."""
    return np.array([t[int(c[0]) - 1, int(c[1]) - 1] * (1 if c[0] == c[1] else 2) for c in order])


class Runner:
    def __init__(self, ctx, dtype):
        self.ctx, self.dtype = ctx, dtype

    def __call__(self, b):
        torch.set_default_dtype(self.dtype)
        try:
            name = b['type']
            for g in RULES[name]:
                el = TYPES[name](n_gauss=g)
                expect(el.get_n_gauss() == g, f'{name}: {g}-point rule gives {el.get_n_gauss()} points')
                el.check_shape_functions_properties()
            expect_raises(lambda: TYPES[name](n_gauss=5), f'{name}: unknown rule accepted')
            expect(TYPES[name]().get_n_gauss() in RULES[name], f'{name}: default rule')
            for h in b['ops']:
                getattr(self, h['op'])(name, h)
        finally:
            torch.set_default_dtype(torch.float32)
        return len(b['ops'])

    def shape(self, name, h):
        el = TYPES[name]()
        c = torch.tensor(h['c'], dtype=self.dtype) / 4
        c0 = c.clone()
        N, dN = el.eval_shapefun(c), el.eval_shapefun_local_deriv(c)
        expect(torch.equal(c, c0), f'{name}: evaluation modified the local coordinates')
        want = np.array(h['v']['N']) / h['den'], np.array(h['v']['dN']) / h['den']
        near(N, want[0], f'{name}: shape functions at {h["c"]}/4')
        near(dN, want[1], f'{name}: shape function derivatives at {h["c"]}/4')
        expect(el.get_n_node() == len(want[0]) and el.get_n_dof_node() == len(h['c']), f'{name}: size')
        # mapped over points
        pts = torch.stack([c, c * 0.5, c])
        near(torch.vmap(el.eval_shapefun)(pts)[2], want[0], f'{name}: shape functions, mapped')
        near(torch.vmap(el.eval_shapefun_local_deriv)(pts)[0], want[1], f'{name}: derivatives, mapped')

    def integral(self, name, h):
        el = TYPES[name](n_gauss=h['g'])
        co, w = el.get_gauss_integration_points()
        q, qw = gauss_quadrature(h['g'], domain=DOMAIN[name])
        bc, bw = el.get_batched_gauss_integration_points()
        keys = [str(i + 1) for i in range(h['g'])]
        expect(sorted(co) == sorted(keys) and sorted(w) == sorted(keys), f'{name}: integration points {list(co)}')
        for row in h['table']:
            want = row['v'][0] / row['v'][1]
            al = np.array(row['al'])
            mono = lambda x: float(np.prod(np.asarray(x, dtype=float) ** al))
            got = sum(float(w[k]) * mono(co[k]) for k in keys)
            got2 = sum(float(qw[k]) * mono(q[k]) for k in keys)
            got3 = sum(float(bw[i]) * mono(bc[i]) for i in range(h['g']))
            for g, what in ((got, 'points'), (got2, 'rule'), (got3, 'batched points')):
                expect(abs(g - want) <= 2e-5, f'{name}: {h["g"]}-point {what} integrate monomial {row["al"]} '
                       f'to {g}, exactly {want}')
        for k in keys:
            expect(bool(torch.equal(bc[int(k) - 1], co[k])), f'{name}: batched point {k} differs')
            # inside the element
            x = np.asarray(co[k], dtype=float)
            inside = (np.abs(x) <= 1).all() if name[0] in 'qh' else (x >= 0).all() and x.sum() <= 1
            expect(bool(inside), f'{name}: integration point {k} outside the element')

    def geometry(self, name, h):
        n = len(h['c'])
        el = TYPES[name](n_gauss=h['g'])
        X = torch.tensor(h['X'], dtype=self.dtype) / 2
        c = torch.tensor(h['c'], dtype=self.dtype) / 4
        J = np.array(h['J']) / h['den'] / 2
        tol = 2e-4 if self.dtype == torch.float32 else 1e-9
        jac, det, dloc = eval_jacobian(el, X, c, is_check_det=bool(np.linalg.det(J) > 1e-6))
        near(jac, J, f'{name}: jacobian', tol)
        near(det, np.linalg.det(J), f'{name}: jacobian determinant', tol * 10)
        if not h['bent']:
            near(det, h['det'], f'{name}: determinant of an affine element', tol * 10)
        flip = X.clone()
        flip[:, 0] *= -1
        if np.linalg.det(J) > 1e-6:
            expect_raises(lambda: eval_jacobian(el, flip, c, is_check_det=True),
                          f'{name}: inverted element passes the determinant check')
        co, w = el.get_gauss_integration_points()
        dets = [float(eval_jacobian(el, X, co[str(i + 1)])[1]) for i in range(h['g'])]
        if min(dets + [np.linalg.det(J)]) <= 1e-3 * max(dets):
            return
        vol = sum(d * float(w[str(i + 1)]) for i, d in enumerate(dets))
        if not h['bent']:
            near(vol, h['det'] * h['ref'][0] / h['ref'][1], f'{name}: volume of an affine element', tol * 10)
        # gradient of a linear displacement field u = H x
        H = np.array(h['H'], dtype=float)
        u = torch.tensor(np.asarray(X, dtype=float) @ H.T, dtype=self.dtype)
        pt = 1 if n == 2 else 4
        _, osym, onsym = get_problem_type_parameters(pt)
        ders, j2, d2 = eval_shapefun_deriv(el, X, c)
        near(d2, np.linalg.det(J), f'{name}: determinant returned with the gradients', tol * 10)
        near(ders.T @ u, H.T, f'{name}: gradient of a linear field', tol * 10)
        B, vB = build_discrete_sym_gradient(ders, osym), vbuild_discrete_sym_gradient(ders, osym)
        near(vB, np.asarray(B, dtype=float), f'{name}: vectorized symmetric gradient operator', 1e-6)
        eps = sym(osym, (H + H.T) / 2)
        near(compute_infinitesimal_inc_strain(vB, u), eps, f'{name}: strain increment of a linear field', tol * 10)
        near(compute_infinitesimal_strain(B, u), eps, f'{name}: strain of a linear field', tol * 10)
        for order in (onsym, None, tuple(reversed(onsym))):
            K = build_discrete_gradient(ders, order)
            o = order or (('11', '21', '12', '22') if n == 2 else
                          ('11', '21', '31', '12', '22', '32', '13', '23', '33'))
            want = np.array([H[int(q[0]) - 1, int(q[1]) - 1] for q in o])
            near(K @ u.flatten(), want, f'{name}: displacement gradient, order {o}', tol * 10)
            near(vbuild_discrete_gradient(ders, order), np.asarray(K, dtype=float), f'{name}: vectorized gradient', 1e-6)
        if n == 2:
            B3 = vexpand_grad_operator_sym_2d_to_3d(vB)
            u3 = torch.cat([u, torch.full((u.shape[0], 1), 3.0)], dim=1)
            H3 = np.zeros((3, 3))
            H3[:2, :2] = H
            o3 = get_problem_type_parameters(4)[1]
            near(B3 @ u3.flatten(), sym(o3, (H3 + H3.T) / 2), f'{name}: 3D gradient operator', tol * 10)
            near(vreduce_grad_operator_sym_3d_to_2d(B3), np.asarray(vB, dtype=float), f'{name}: reduced operator', 1e-6)
        # internal forces of a constant stress: sum f = 0, sum f x = V stress
        E, v = 100.0, 0.25
        mat = Elastic('infinitesimal', pt, {'elastic_symmetry': 'isotropic', 'E': E, 'v': v})
        small = 1e-3
        state = {str(i + 1): mat.state_init() for i in range(h['g'])}
        f, new = compute_element_internal_forces('infinitesimal', pt, el, mat, state, X, small * u, small * u)
        e = small * (H + H.T) / 2
        lam, mu = E * v / ((1 + v) * (1 - 2 * v)), E / (2 * (1 + v))
        s = lam * np.trace(e) * np.eye(n) + 2 * mu * e
        f = np.asarray(f, dtype=float).reshape(-1, n)
        Xn = np.asarray(X, dtype=float)
        size = np.abs(Xn - Xn.mean(0)).max() + 1
        ftol = max(np.abs(s).max(), 1e-3) * vol * 2e-3
        near(f.sum(0) / max(ftol, 1e-12) / 100, np.zeros(n), f'{name}: forces of a constant stress do not balance', 1e-2)
        near(f.T @ (Xn - Xn.mean(0)) / max(ftol, 1e-12) / 1000, vol * s / max(ftol, 1e-12) / 1000,
             f'{name}: forces of a constant stress do the wrong work', 1e-3 * size)
        want = set(str(i + 1) for i in range(h['g']))
        expect(set(new) == want, f'{name}: states of integration points {sorted(new)}')


def linear_rule(k):
    """The 1D rule with k points is exact to degree 2k - 1."""
    co, w = gauss_quadrature(k, domain='linear')
    for p in range(2 * k):
        got = sum(float(w[str(i + 1)]) * float(co[str(i + 1)][0]) ** p for i in range(k))
        want = 0 if p % 2 else 2 / (p + 1)
        expect(abs(got - want) < 1e-5, f'1D {k}-point rule integrates x^{p} to {got}, exactly {want}')
    return 2 * k


def run(ctx):
    n, ops = (60, 8) if ctx.quick else (600, 20)
    design = [t for t in TYPES if not (ctx.quick and t == 'hexa20')]
    res = ctx.tlc_many(
        [(('Element', dict(Type=t, MaxOps=0, Sim=False)),
          dict(init='Init', invariants=['Delta', 'Reproduce', 'DerivSum'], workers=2, label=f'design {t}')) for t in design] +
        [(('Element', dict(Type=t, MaxOps=ops, Sim=True)),
          dict(spec='Spec', invariants=['Emit'], simulate=n if t != 'hexa20' else n // 2, depth=ops + 4, workers=2, label=t))
         for t in TYPES])[len(design):]
    torch.set_num_threads(1)
    plays = []
    for t, r in zip(TYPES, res):
        if not r.behaviours:
            raise Machinery('no behaviours')
        plays.append((r.behaviours[::2], Runner(ctx, torch.float64), f'{t} double'))
        plays.append((r.behaviours[1::2], Runner(ctx, torch.float32), f'{t} single'))
    ctx.preplays(plays + [([1, 2, 3], linear_rule, '1D rules')])
