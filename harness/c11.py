"""C11: consistent tangent moduli at the states of spec/Plast.tla and spec/Cone.tla behaviours."""
import numpy as np
import torch

import cone_drv as C
import plast_drv as D
from c10 import ConeCase, PlastCase
from fw import expect

F64 = torch.float64
# symmetric strain directions of the Kelvin components
COMP = {3: ('11', '22', '33', '12', '23', '13'), 2: ('11', '22', '12')}


def unit(c, n):
    e = torch.zeros(n, n, dtype=F64)
    i, j = int(c[0]) - 1, int(c[1]) - 1
    e[i, j] = e[j, i] = 1.0 if i == j else 1 / D.R2
    return e


def runner(ctx, case, version, kinks=()):
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item, 3])
        torch.set_default_dtype(F64)
        n = 0
        try:
            f = case.frame(rng, b)
            m = case.build(b, f, version)
            s = m.state_init()
            for i, h in enumerate(b['hist']):
                inc = case.inc(f, h)
                new, tan = m.state_update(inc, s)
                where = f'{case.kind} {version} {f.n_dim}D, step {i + 1} ({h["kind"]})'
                comps = COMP[f.n_dim]
                expect(tuple(tan.shape) == (len(comps), len(comps)), f'{where}: tangent shape {tuple(tan.shape)}')
                if h.get('P', h.get('A')) not in kinks or h['kind'] == 'elastic':
                    # central difference of the real stress response
                    d = 3e-4 * f.u
                    num = np.zeros((len(comps), len(comps)))
                    for j, c in enumerate(comps):
                        hi = m.state_update(inc + d * unit(c, f.n_dim), s)[0]['stress_mf']
                        lo = m.state_update(inc - d * unit(c, f.n_dim), s)[0]['stress_mf']
                        num[:, j] = ((hi - lo) / (2 * d)).numpy()
                    got = tan.detach().numpy()
                    scale = f.K + 2 * f.G
                    err = np.abs(got - num).max() / scale
                    expect(err < 2e-3, f'{where}: tangent differs from the stress derivative by {err:.1e} of the elastic modulus',
                           dict(got=(got / scale).round(5).tolist(), derivative=(num / scale).round(5).tolist()))
                    n += 1
                s = new
        finally:
            torch.set_default_dtype(torch.float32)
        return n
    return run


def run(ctx):
    n, ops = (90, 5) if ctx.quick else (400, 8)
    plast = [('linear', 3, 'none', ()), ('soft', 12, 'linear', ()), ('sqrt', 6, 'none', ()), ('piecewise', 5, 'none', (0, 4, 10)),
             ('linear', 3, 'linear', ()), ('piecewise', 5, 'piecewise', (0, 4, 6, 10)), ('square', 2, 'linear', ())]
    cone = [('full', 'linear', ()), ('flat', 'linear', ()), ('full', 'sqrt', ()), ('full', 'piecewise', (0, 16))]
    res = ctx.tlc_many(
        [(('Plast', dict(Law=law, KLaw=kl, MaxOps=ops, MaxInc=inc, Small=False, Sim=True, Pick=0)),
          dict(invariants=['Emit'], simulate=n, depth=ops + 5, workers=1, label=f'{law}, {kl} kinematic')) for law, inc, kl, _ in plast] +
        [(('Cone', dict(Law=law, Mode=mode, Assoc=False, MaxOps=ops, MaxInc=3, Small=False, Sim=True, Pick=0)),
          dict(invariants=['Emit'], simulate=n, depth=ops + 5, workers=1, label=f'dp {law} {mode}')) for mode, law, _ in cone])
    plays = []
    for (law, _, kl, kinks), r in zip(plast, res):
        kind, bs = 'vm' if kl == 'none' else 'mixed', r.behaviours
        plays.append((bs, runner(ctx, PlastCase(kind), 'standard', kinks), f'{kind} standard'))
        plays.append((bs[:len(bs) // 2], runner(ctx, PlastCase(kind), 'vmap', kinks), f'{kind} vectorized'))
        if law == 'linear':
            plays.append((bs[::3], runner(ctx, PlastCase('elastic'), 'standard'), 'elastic'))
    for (mode, _, kinks), r in zip(cone, res[len(plast):]):
        bs = r.behaviours
        plays.append((bs, runner(ctx, ConeCase('dp', mode), 'standard', kinks), 'dp standard'))
        plays.append((bs[:len(bs) // 2], runner(ctx, ConeCase('dp', mode), 'vmap', kinks), 'dp vectorized'))
    torch.set_num_threads(1)
    ctx.preplays(plays)
