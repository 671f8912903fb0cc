"""C19: tensor storage and operators of spec/Tensors.tla compared with the real conversions."""
import math

import torch

from fw import Machinery, expect, expect_raises
from simulators.fetorch.math import matrixops as mo
from simulators.fetorch.math import tensorops as to
from simulators.fetorch.math import voigt_notation as vo

INV = ['Lossless', 'Lossless4', 'PreservesInner', 'PreservesProduct', 'PreservesApply', 'Work', 'Identities']


class TensorRun:
    def __init__(self, b, dtype):
        self.b, self.dtype, self.steps = b, dtype, 0
        self.tol = 1e-12 if dtype == torch.float64 else 1e-5
        self.n = b['n']
        self.ord = tuple('%d%d' % tuple(c) for c in b['ord'])

    def t(self, x):
        return torch.tensor(x, dtype=self.dtype)

    def same(self, got, want, clause):
        if not isinstance(want, torch.Tensor):
            want = self.t(want)
        scale = 1.0 + float(want.abs().max()) if want.numel() else 1.0
        expect(isinstance(got, torch.Tensor) and tuple(got.shape) == tuple(want.shape), clause + ': shape', (getattr(got, 'shape', got), want.shape))
        expect(bool(((got.to(torch.float64) - want.to(torch.float64)).abs() <= self.tol * scale).all()), clause,
               dict(got=got.tolist(), want=want.tolist(), comps=self.ord, kelvin=self.b['kelvin']))
        self.steps += 1

    def val(self, mf):
        if isinstance(mf[0], int):
            return mf[0] * math.sqrt(2.0) ** mf[1]
        return [self.val(x) for x in mf]

    def run(self):
        b, n, od = self.b, self.n, self.ord
        a, c, A, B = (self.t(b[k]) for k in ('a', 'b', 'A', 'B'))
        keep = [x.clone() for x in (a, c, A, B)]
        kw = dict(is_kelvin_notation=b['kelvin'])
        forms = {}
        for name, x, want in (('a', a, b['mfa']), ('b', c, b['mfb']), ('A', A, b['mfA'])):
            want = self.t(self.val(want))
            forms[name] = want
            for fn in (mo.get_tensor_mf, mo.vget_tensor_mf):
                self.same(fn(x, n, od, **kw), want, 'matricial form of a tensor')
            for fn in (mo.get_tensor_from_mf, mo.vget_tensor_from_mf):
                self.same(fn(want, n, od, **kw), x, 'tensor from its matricial form')
                self.same(fn(mo.vget_tensor_mf(x, n, od, **kw), n, od, **kw), x, 'round trip through the matricial form')
        if b['kelvin']:
            self.same(mo.get_tensor_mf(a, n, od), forms['a'], 'matricial form of a tensor (default notation)')
        # batches
        ab = torch.stack([a, c])
        self.same(torch.vmap(lambda x: mo.vget_tensor_mf(x, n, od, **kw))(ab), torch.stack([forms['a'], forms['b']]), 'matricial form of a batch')
        self.same(torch.vmap(lambda x: mo.vget_tensor_from_mf(x, n, od, **kw))(torch.stack([forms['a'], forms['b']])), ab, 'batch from its matricial form')
        self.same(torch.vmap(lambda x: mo.vget_tensor_from_mf(x, n, od, **kw))(torch.stack([forms['A'], 2.0 * forms['A']])),
                  torch.stack([A, 2.0 * A]), 'batch of fourth-order tensors from its matricial form')
        # products of matricial forms
        if b['kelvin']:
            ma, mb, mA, mB = (mo.vget_tensor_mf(x, n, od) for x in (a, c, A, B))
            self.same(torch.dot(ma, mb), self.t(float(b['ddot22'])), 'double contraction of matricial forms')
            self.same(mo.vget_tensor_from_mf(torch.matmul(mA, mb), n, od), b['ddot42'], 'fourth-order tensor applied in matricial form')
            self.same(mo.get_tensor_from_mf(torch.matmul(mA, mB), n, od), b['ddot44'], 'product of fourth-order tensors in matricial form')
            for i, comp in enumerate(od):
                f = b['mfa'][i][1]
                expect(abs(mo.kelvin_factor(i, od) - math.sqrt(2.0) ** f) < 1e-12, 'Kelvin factor', (comp, mo.kelvin_factor(i, od)))
                expect(abs(mo.kelvin_factor([i, 0], od) - math.sqrt(2.0) ** b['mfA'][i][0][1]) < 1e-12, 'Kelvin factor of a pair', comp)
        self.operators(a, c, A, B)
        if b['symm']:
            self.voigt(a, c)
        if b['standard']:
            self.planes(forms)
        self.rejected(a, forms)
        for x, k in zip((a, c, A, B), keep):
            expect(torch.equal(x, k), 'a conversion changed its argument')
        return self.steps

    def operators(self, a, c, A, B):
        b, n = self.b, self.n
        for fn, x, y, key in ((to.dyad22_1, a, c, 'dyad1'), (to.dyad22_2, a, c, 'dyad2'), (to.dyad22_3, a, c, 'dyad3'),
                              (to.ddot22_1, a, c, 'ddot22'), (to.ddot42_1, A, c, 'ddot42'), (to.ddot24_1, c, A, 'ddot24'),
                              (to.ddot44_1, A, B, 'ddot44')):
            self.same(fn(x, y), self.t(b[key]) if not isinstance(b[key], int) else self.t(float(b[key])), 'tensor operator ' + key)
        v = a[0]
        self.same(to.dyad11(v, c[0]), torch.outer(v, c[0]), 'tensor operator dyad11')
        self.same(to.dot21_1(a, v), (a * v).sum(1), 'tensor operator dot21_1')
        self.same(to.dot12_1(v, a), (v[:, None] * a).sum(0), 'tensor operator dot12_1')
        L = lambda s: torch.zeros(4 * (n,), dtype=self.dtype)   # noqa: E731
        rng = range(n)
        for fn, args, el in ((to.dot42_1, (A, c), lambda i, j, k, l: sum(A[i, j, k, m] * c[l, m] for m in rng)),
                             (to.dot42_2, (A, c), lambda i, j, k, l: sum(A[i, m, k, l] * c[j, m] for m in rng)),
                             (to.dot42_3, (A, c), lambda i, j, k, l: sum(A[i, j, k, m] * c[m, l] for m in rng)),
                             (to.dot24_1, (c, A), lambda i, j, k, l: sum(c[i, m] * A[m, j, k, l] for m in rng)),
                             (to.dot24_2, (c, A), lambda i, j, k, l: sum(c[j, m] * A[i, m, k, l] for m in rng)),
                             (to.dot24_3, (c, A), lambda i, j, k, l: sum(c[k, m] * A[i, j, m, l] for m in rng)),
                             (to.dot24_4, (c, A), lambda i, j, k, l: sum(c[l, m] * A[i, j, k, m] for m in rng))):
            got = fn(*args)
            for ix in ((0, 0, 0, 1), (1, 0, 1, 1), (n - 1, 0, 1, n - 1), (0, n - 1, n - 1, 1)):
                self.same(got[ix], el(*ix), 'tensor operator of mixed order')
        soid, foid, fotr, fosym, fotrace, devp, devs = to.get_id_operators(n)
        tr = float(b['trace'])
        self.same(soid, torch.eye(n), 'second-order identity')
        self.same(to.ddot42_1(foid, a), a, 'fourth-order identity')
        self.same(to.ddot42_1(fotr, a), a.T, 'transposition')
        self.same(to.ddot42_1(fosym, a), 0.5 * (a + a.T), 'symmetric projection')
        self.same(to.ddot42_1(fotrace, a), tr * torch.eye(n), 'trace operator')
        self.same(to.ddot42_1(devp, a), a - tr / 3.0 * torch.eye(n), 'deviatoric projection')
        self.same(to.ddot42_1(devs, a), 0.5 * (a + a.T) - tr / 3.0 * torch.eye(n), 'symmetric deviatoric projection')
        if b['symm']:
            self.same(to.ddot42_1(to.fo_dinv_sym(a), c), -self.t(b['aba']), 'derivative of the inverse')
        expect(to.dd(1, 1) == 1 and to.dd(0, 2) == 0, 'Kronecker delta')

    def voigt(self, a, c):
        b, n, od = self.b, self.n, self.ord
        strain, stress = self.t([float(x) for x in b['strain']]), self.t([float(x) for x in b['stress']])
        for fn in (vo.get_strain_from_vmf, vo.vget_strain_from_vmf):
            self.same(fn(strain, n, od), a, 'strain tensor from its engineering form')
        for fn in (vo.get_stress_vmf, vo.vget_stress_vmf):
            self.same(fn(c, n, od), stress, 'stress tensor in engineering form')
        self.same(torch.vmap(lambda x: vo.vget_strain_from_vmf(x, n, od))(torch.stack([strain, 3.0 * strain])), torch.stack([a, 3.0 * a]),
                  'batch of strain tensors from the engineering form')
        self.same(torch.vmap(lambda x: vo.vget_stress_vmf(x, n, od))(torch.stack([c, a])), torch.stack([stress, vo.get_stress_vmf(a, n, od)]),
                  'batch of stress tensors in engineering form')
        vol, dev = vo.get_projection_tensors_vmf(n, od)
        mean = sum(float(s) * v for s, v in zip(b['stress'], b['vol'])) / n
        want = self.t([mean * v for v in b['vol']])
        self.same(torch.matmul(vol, stress), want, 'volumetric part in engineering form')
        self.same(torch.matmul(dev, stress), stress - want, 'deviatoric part in engineering form')

    def planes(self, forms):
        b = self.b
        pl = [i - 1 for i in b['plane']]
        if self.n == 2:
            for comp33 in (0.0, 2.5):
                for mf in (forms['a'], forms['b']):
                    want = torch.zeros(b['size3'], dtype=self.dtype)
                    want[pl] = mf
                    want[b['out'] - 1] = comp33
                    self.same(mo.get_state_3Dmf_from_2Dmf(1, mf, comp33), want, 'spatial form of a plane tensor')
                    self.same(mo.vget_state_3Dmf_from_2Dmf(mf, comp33), want, 'spatial form of a plane tensor (vectorized)')
                    self.same(mo.get_state_2Dmf_from_3Dmf(1, want), mf, 'plane part of its spatial form')
                    self.same(mo.vget_state_2Dmf_from_3Dmf(want), mf, 'plane part of its spatial form (vectorized)')
        else:
            for mf in (forms['a'], forms['b']):
                self.same(mo.get_state_2Dmf_from_3Dmf(1, mf), mf[pl], 'plane part of a spatial tensor')
                self.same(mo.vget_state_2Dmf_from_3Dmf(mf), mf[pl], 'plane part of a spatial tensor (vectorized)')
            mA = forms['A'] + torch.arange(forms['A'].numel(), dtype=self.dtype).view(forms['A'].shape)
            want = mA[pl][:, pl]
            self.same(mo.get_state_2Dmf_from_3Dmf(1, mA), want, 'plane part of a fourth-order spatial tensor')
            self.same(mo.vget_state_2Dmf_from_3Dmf(mA), want, 'plane part of a fourth-order spatial tensor (vectorized)')

    def rejected(self, a, forms):
        n, od = self.n, self.ord
        dup = (od[1],) + od[1:]
        for bad in (dup, od[2:], ('4' + od[0][1],) + od[1:]):
            expect_raises(lambda: mo.get_tensor_mf(a, n, bad), 'an invalid component order was accepted', Exception)
            expect_raises(lambda: mo.get_tensor_from_mf(forms['a'], n, bad), 'an invalid component order was accepted', Exception)
        expect_raises(lambda: mo.get_tensor_mf(a[:, :-1], n, od), 'a tensor of other dimensions was accepted', Exception)
        expect_raises(lambda: mo.get_tensor_from_mf(forms['a'][:-1], n, od), 'a matricial form of another size was accepted', Exception)


def complexes(k):
    """Tensors of complex numbers keep both parts."""
    g = torch.Generator().manual_seed(k)
    n = 2 + k % 2
    od = mo.get_problem_type_parameters(1 if n == 2 else 4)[1 + k // 2 % 2]
    for order in (2, 4):
        a = torch.randn(order * (n,), generator=g) + 1j * torch.randn(order * (n,), generator=g)
        a = a.to(torch.cfloat)
        if len(od) < n * n:
            a = (a + a.transpose(0, 1)) / 2
            a = (a + a.transpose(2, 3)) / 2 if order == 4 else a
        for kelvin in (True, False):
            mf = mo.get_tensor_mf(a, n, od, is_kelvin_notation=kelvin)
            expect(mf.is_complex(), 'matricial form of complex numbers')
            b = mo.get_tensor_from_mf(mf, n, od, is_kelvin_notation=kelvin)
            expect(b.is_complex() and torch.allclose(a, b, atol=1e-5), 'a tensor of complex numbers is not restored', dict(a=str(a), b=str(b)))
            if kelvin and order == 2:
                expect(abs(float((mf.abs() ** 2).sum()) - float((a.abs() ** 2).sum())) < 1e-3, 'norm of the matricial form of complex numbers')
    return 4


def case(b):
    if sorted({c for c in map(tuple, b['ord'])}) != sorted(map(tuple, b['ord'])):
        raise Machinery('not a component order')
    steps = 0
    for dtype in (torch.float64, torch.float32):
        torch.set_default_dtype(dtype)
        try:
            steps += TensorRun(b, dtype).run()
        finally:
            torch.set_default_dtype(torch.float32)
    return steps


def run(ctx):
    runs = []
    for n in (2, 3):
        for sy in (True, False):
            runs.append((('Tensors', dict(Sim=False, N=n, Symm=sy)),
                         dict(spec='Spec', invariants=INV + ['Emit'], workers=1, label=f'Tensors/basis/{n}{sy}')))
            runs.append((('Tensors', dict(Sim=True, N=n, Symm=sy)),
                         dict(spec='Spec', invariants=INV + ['Emit'], simulate=40 if ctx.quick else 600, depth=6, label=f'Tensors/random/{n}{sy}')))
    res = ctx.tlc_many(runs)
    items = []
    for (args, kw), r in zip(runs, res):
        bs = r.behaviours
        if ctx.quick and not args[1]['Sim'] and args[1]['N'] == 3:
            bs = bs[ctx.seed % 3::3]           # every third pair of basis tensors
        items += bs
    ctx.replay(items, case, 'tensors')
    ctx.replay(list(range(8)), complexes, 'complex tensors')
    for pt, n, ns, nn in ((1, 2, 3, 4), (4, 3, 6, 9)):
        d, s, f = mo.get_problem_type_parameters(pt)
        expect((d, len(s), len(f)) == (n, ns, nn), 'components of a problem type', (pt, d, s, f))
    ctx.assumptions += ['conversions are made with the default floating point type of the arguments']
