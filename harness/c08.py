"""C08: behaviours of spec/Plast.tla replayed on the elastic and von Mises material models."""
import numpy as np
import torch

import plast_drv as D
from fw import expect, expect_raises


def replayer(ctx, kind, n_dim, dtype):
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item, n_dim])
        torch.set_default_dtype(dtype)
        try:
            f = D.Frame(rng, n_dim)
            m = D.build(b, f, kind)
            s = m.state_init()
            for i, h in enumerate(b['hist']):
                s, _ = D.update(m, D.inc_tensor(f, h), s, f'{kind} {n_dim}D, step {i + 1}')
                D.check_state(s, D.want_state(f, h, kind),
                              h['kind'] == 'plastic' if kind != 'elastic' else None,
                              f'{kind} {n_dim}D, step {i + 1} ({h["kind"]})',
                              2e-5 if dtype == torch.float64 else 2e-3)
        finally:
            torch.set_default_dtype(torch.float32)
        return len(b['hist'])
    return run


def stuck(ctx, kind):
    """An increment for which no state is found is reported; a state is never made up."""
    def run(b):
        torch.set_default_dtype(torch.float64)
        try:
            f = D.Frame(np.random.default_rng([ctx.seed, len(b['hist'])]), 3)
            m, s, n = D.stuck_build(b, f, kind), None, 0
            s = m.state_init()
            for i, h in enumerate(b['hist']):
                s, tan = D.update(m, D.inc_tensor(f, h), s, f'{kind}, step {i + 1}')
                n += 1
                if h['kind'] == 'plastic' and bool(torch.as_tensor(s['is_su_fail'])):
                    expect(not bool(torch.isfinite(s['stress_mf']).any()) and not bool(torch.isfinite(tan).any()),
                           f'{kind}: a failed state update returned a stress or tangent')
                    ctx.extra['failed_updates'] = ctx.extra.get('failed_updates', 0) + 1
                    return n
                D.check_state(s, D.want_state(f, h, kind), h['kind'] == 'plastic', f'{kind} without convergence, step {i + 1}')
        finally:
            torch.set_default_dtype(torch.float32)
        return n
    return run


LAWS = [('linear', 3), ('soft', 12), ('piecewise', 5), ('sqrt', 6), ('square', 2)]


def behaviours(n, klaws, ops=10):
    return [(('Plast', dict(Law=law, KLaw=kl, MaxOps=ops, MaxInc=inc, Small=False, Sim=True, Pick=0)),
             dict(invariants=['Emit'], simulate=n, depth=ops + 5, workers=1, label=f'{law} isotropic, {kl} kinematic')) for law, inc in LAWS for kl in klaws]


def design(ctx):
    for law, kl in [('linear', 'linear'), ('piecewise', 'piecewise')] + (
            [] if ctx.quick else [('sqrt', 'none'), ('square', 'linear'), ('soft', 'piecewise')]):
        ctx.tlc('Plast', dict(Law=law, KLaw=kl, MaxOps=2, MaxInc=2, Small=True, Sim=False, Pick=0),
                invariants=['Admissible'], properties=['Irreversible', 'Consistent', 'Outside'],
                view='View', label='exhaustive design', spec='Spec')


def elasticity(ctx):
    from simulators.fetorch.material.models.standard.elastic import Elastic
    order = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
    kel = lambda x: np.array([(1.0 if i == j else D.R2) * x[i][j] for i, j in order])   # noqa: E731

    def run(b):
        props = {r['n']: float(r['v']) for r in b['moduli']}
        for dtype, tol in ((torch.float64, 1e-12), (torch.float32, 1e-5)):
            torch.set_default_dtype(dtype)
            try:
                got = Elastic.elastic_tangent_modulus(dict(props), elastic_symmetry=b['cls'])
                s, want = got.double().numpy() @ kel(b['strain']), kel(b['stress'])
                expect(tuple(got.shape) == (6, 6) and np.abs(s - want).max() <= tol * 1e4, f"stiffness of {b['cls']} elasticity",
                       dict(moduli=props, stress=s.tolist(), want=want.tolist()))
                if b['cls'] == 'isotropic':
                    m = Elastic('infinitesimal', 4, dict(props, elastic_symmetry='isotropic'))
                    st, _ = m.state_update(torch.tensor(np.array(b['strain'], dtype=float) * 1.0).to(dtype), m.state_init())
                    expect(np.abs(st['stress_mf'].double().numpy() - want).max() <= tol * 1e4, 'stress of the isotropic elastic model')
            finally:
                torch.set_default_dtype(torch.float32)
        short = {k: v for k, v in props.items() if k != b['drop']}
        expect_raises(lambda: Elastic.elastic_tangent_modulus(short, elastic_symmetry=b['cls']),
                      f"{b['cls']} elasticity without {b['drop']} was accepted", Exception)
        return 3

    basis = ctx.tlc('Elasticity', dict(Sim=False), spec='Spec', invariants=['Invariance', 'Symmetric', 'Emit'], label='elastic symmetries, basis')
    rand = ctx.tlc('Elasticity', dict(Sim=True), spec='Spec', invariants=['Invariance', 'Symmetric', 'Emit'], simulate=60 if ctx.quick else 2000, depth=4,
                   label='elastic symmetries, random')
    ctx.replay(basis.behaviours[::1 if not ctx.quick else 3] + rand.behaviours, run, 'elastic symmetries')


def run(ctx):
    elasticity(ctx)
    design(ctx)
    n = 200 if ctx.quick else 1000
    vm, mixed = behaviours(n, ['none']), behaviours(n, ['linear', 'piecewise'])
    stop = [(('Plast', dict(Law='linear', KLaw=kl, MaxOps=4, MaxInc=3, Small=False, Sim=True, Pick=0)),
             dict(invariants=['Emit'], simulate=n, depth=9, workers=1, label=f'no convergence, {kind}')) for kind, kl in (('vm', 'none'), ('mixed', 'linear'))]
    res = ctx.tlc_many(vm + mixed + stop)
    plays = []
    variants = [(3, torch.float64), (2, torch.float64), (3, torch.float32)]
    for r in res[:len(vm)]:
        bs = r.behaviours
        for i, (nd, dt) in enumerate(variants):
            plays.append((bs[i::3], replayer(ctx, 'vm', nd, dt), f'von Mises {nd}D {dt}'))
        plays.append((bs[::6], replayer(ctx, 'elastic', 3, torch.float64), 'elastic 3D'))
        plays.append((bs[1::6], replayer(ctx, 'elastic', 2, torch.float64), 'elastic 2D'))
        plays.append((bs[::8], replayer(ctx, 'mixed', 3, torch.float64), 'mixed, no kinematic hardening'))
    for r in res[len(vm):len(vm) + len(mixed)]:
        for i, (nd, dt) in enumerate(variants):
            plays.append((r.behaviours[i::3], replayer(ctx, 'mixed', nd, dt), f'mixed {nd}D {dt}'))
    for r, kind in zip(res[-2:], ('vm', 'mixed')):
        plays.append((r.behaviours, stuck(ctx, kind), f'no convergence, {kind}'))
    torch.set_num_threads(1)
    ctx.preplays(plays)
