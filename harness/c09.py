"""C09: behaviours of spec/Cone.tla (and spec/Plast.tla) on the pressure-dependent models."""
import math

import numpy as np
import torch

import cone_drv as C
import plast_drv as D
from fw import expect

F64, F32 = torch.float64, torch.float32


def with_dtype(dtype, fn):
    def run(*a):
        torch.set_default_dtype(dtype)
        try:
            return fn(*a)
        finally:
            torch.set_default_dtype(F32)
    return run


def cone_replayer(ctx, kind, mode, dtype, version='standard', cd=False):
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item, len(mode)])
        kw, axial = {}, None
        if kind == 'lou' and cd:
            sgn = float(rng.choice([-1, 1]))
            axial = sgn * C.AXIAL[rng.integers(3)]
            c, d = float(rng.uniform(-1.5, 1.5)), float(rng.uniform(-0.7, 0.7))
            # axial states: J3 = sgn 2 / sqrt(27) J2^(3/2)
            k = (math.sqrt(1 - 4 * c / 27) - d * sgn * 2 / math.sqrt(27)) ** (1 / 3)
            kw = dict(k=k, c=c, d=d)
        f = C.Frame(rng, b, mode, axial)
        m = C.build(b, f, kind, version, **kw)
        s = m.state_init()
        for i, h in enumerate(b['hist']):
            s, _ = D.update(m, C.inc_tensor(f, h), s, f'step {i + 1}')
            C.check_state(s, f, h, kind, f'{kind} {mode}, step {i + 1} ({h["kind"]})',
                          3e-5 if dtype == F64 else 3e-3)
        return len(b['hist'])
    return with_dtype(dtype, run)


def lou_effective(s, a, b, c, d):
    """Effective stress of a 3x3 stress tensor (specified yield function)."""
    p = torch.trace(s) / 3
    dev = s - p * torch.eye(3, dtype=s.dtype)
    j2, j3 = 0.5 * torch.sum(dev * dev), torch.det(dev)
    return a * (3 * b * p + (torch.sqrt(j2 ** 3 - c * j3 ** 2) - d * j3) ** (1 / 3))


def full(state, n_dim):
    """3D Kelvin stress and elastic strain of a state."""
    out = []
    for k in ('stress', 'e_strain'):
        v = np.asarray(state[k + '_mf'], dtype=float)
        out.append(v if n_dim == 3 else
                   np.array([v[0], v[1], float(state[k + '_33']), v[2], 0.0, 0.0]))
    return out


def lou_relations(ctx, n_dim, version='standard'):
    """General parameters: recorded states satisfy the relations of the return mapping."""
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item, 77])
        f = C.Frame(rng, b)
        assoc = bool(rng.integers(2))
        c, d = float(rng.uniform(-1.0, 1.0)), float(rng.uniform(-0.5, 0.5))
        par = C.parameters(b, f, 'lou', c=c, d=d, assoc=assoc)
        fixed = version == 'vmap' and ctx.item % 2 == 0
        lin = {}
        for k in 'abcd':                               # evolving yield parameters
            v0 = par[f'{k}_hardening_parameters']['s0']
            lin[k] = (v0, 0.0 if fixed else float(rng.uniform(-0.1, 0.1)) * v0 / (100 * f.u))
            par[f'{k}_hardening_parameters'] = {'s0': v0, 'a': lin[k][1]}
        if version == 'vmap':
            m = C.CLASSES['lou', 'vmap']('infinitesimal', 4 if n_dim == 3 else 1, par, is_fixed_yield_parameters=fixed)
        else:
            m = C.LouZhangYoon('infinitesimal', 4 if n_dim == 3 else 1, par)
        hl, hp = par['hardening_law'], par['hardening_parameters']
        s = m.state_init()
        tot = np.zeros(6)
        n = 0
        for i, h in enumerate(b['hist']):
            inc = f.strain(h['inc'], h['dv'])
            if n_dim == 2:
                inc = inc * np.array([1, 1, 0, 1, 0, 0])
            tot = tot + inc
            old_s, old_e = full(s, n_dim)
            acc0 = float(s['acc_p_strain'])
            s, _ = D.update(m, D.tens(D.tensor3(inc)[:n_dim, :n_dim]), s, f'Lou {n_dim}D, step {i + 1}')
            if bool(s['is_su_fail']):
                ctx.extra['lou_failed'] = ctx.extra.get('lou_failed', 0) + 1
                break
            n += 1
            w = f'Lou general {n_dim}D, step {i + 1}'
            acc = float(s['acc_p_strain'])
            st, e = full(s, n_dim)
            val = lambda k, z: lin[k][0] + lin[k][1] * z
            x = torch.tensor(D.tensor3(st), requires_grad=True)
            eff = lou_effective(x, *(val(k, acc) for k in 'abcd'))
            sy = float(hl(hp, torch.tensor(acc))[0])
            phi = float(eff.detach()) / sy - 1
            expect(phi < 2e-5, f'{w}: stress is outside the yield surface by {phi:.2e}')
            dev = e - e[:3].sum() / 3 * D.ID
            el = 2 * f.G * dev + f.K * e[:3].sum() * D.ID
            expect(np.abs(el - st).max() < 1e-6 * (f.sig + np.abs(st).max()),
                   f'{w}: stress is not the elastic stress of the elastic strain')
            expect(np.abs(np.asarray(s['strain_mf'], dtype=float) - (tot if n_dim == 3 else tot[[0, 1, 3]])).max()
                   < 1e-6 * (f.u + np.abs(tot).max()), f'{w}: total strain')
            dp = (old_e + inc) - e                     # plastic strain increment
            trial = torch.tensor(D.tensor3(2 * f.G * ((old_e + inc) - (old_e + inc)[:3].sum() / 3 * D.ID)
                                           + f.K * (old_e + inc)[:3].sum() * D.ID))
            ft = float(lou_effective(trial, *(val(k, acc0) for k in 'abcd'))) / float(
                hl(hp, torch.tensor(acc0))[0]) - 1
            if abs(ft) > 1e-4:
                expect(bool(s['is_plast']) == (ft > 0), f'{w}: plastic flag {bool(s["is_plast"])}, trial {ft:.2e}')
            if not bool(s['is_plast']):
                expect(acc == acc0 and np.abs(dp).max() < 1e-9 * (1 + f.u) * max(1, np.abs(tot).max() / f.u) * f.u + 1e-15,
                       f'{w}: plastic strain changed on an elastic step')
                continue
            expect(abs(phi) < 2e-5, f'{w}: stress is off the yield surface by {phi:.2e}')
            expect(acc > acc0, f'{w}: accumulated plastic strain did not grow')
            sdev = st - st[:3].sum() / 3 * D.ID
            if np.abs(sdev).max() < 1e-9 * f.sig:      # apex
                continue
            eff.backward()
            g = x.grad.numpy()
            g = np.array([g[0, 0], g[1, 1], g[2, 2], D.R2 * g[0, 1], D.R2 * g[1, 2], D.R2 * g[0, 2]])
            gam = float(dp @ g / (g @ g))
            err = np.abs(dp - gam * g).max()
            expect(err < 3e-5 * (f.u + np.abs(old_e + inc).max()) and gam > 0,
                   f'{w}: plastic strain increment is not along the flow vector ({err / f.u:.1e})')
            want = gam if assoc else gam * math.sqrt(2 / 3) * np.linalg.norm(g)
            expect(abs(acc - acc0 - want) < 3e-5 * (f.u + abs(want) + acc0), f'{w}: hardening rule',
                   dict(got=acc - acc0, want=want))
        return n
    return with_dtype(F64, run)


def plane_strain(ctx, kind):
    """Plane strain is the three-dimensional response with no out-of-plane strain; permuting the
    axes permutes the response."""
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item, 5])
        f = C.Frame(rng, b)
        kw = dict(c=0.4, d=0.2) if kind == 'lou' else {}
        m2, m3, m4 = (C.build(b, f, kind, n_dim=n, **kw) for n in (2, 3, 3))
        s2, s3, s4 = m2.state_init(), m3.state_init(), m4.state_init()
        perm = rng.permutation(3)
        ok = 0
        for i, h in enumerate(b['hist']):
            inc = D.tensor3(f.strain(h['inc'], h['dv']))
            inc[2, :] = inc[:, 2] = 0
            s2, _ = m2.state_update(D.tens(inc[:2, :2]), s2)
            s3, _ = m3.state_update(D.tens(inc), s3)
            s4, _ = m4.state_update(D.tens(inc[perm][:, perm]), s4)
            w = f'{kind} plane strain, step {i + 1}'
            fails = [bool(x['is_su_fail']) for x in (s2, s3, s4)]
            expect(len(set(fails)) == 1, f'{w}: only some of plane strain, 3D and permuted updates fail')
            if fails[0]:
                break
            ok += 1
            for k, x, y in (('2D', s2, 2), ('permuted', s4, 3)):
                sa, ea = full(x, y)
                sb, eb = full(s3, 3)
                if k == 'permuted':
                    t = lambda z: (lambda q: np.array([q[0, 0], q[1, 1], q[2, 2], D.R2 * q[0, 1],
                                                       D.R2 * q[1, 2], D.R2 * q[0, 2]]))(
                        D.tensor3(z)[perm][:, perm])
                    sb, eb = t(sb), t(eb)
                expect(np.abs(sa - sb).max() < 2e-5 * (f.sig + np.abs(sb).max()), f'{w}: {k} stress differs',
                       dict(a=sa.tolist(), b=sb.tolist()))
                expect(np.abs(ea - eb).max() < 2e-5 * (f.u + np.abs(eb).max()), f'{w}: {k} elastic strain differs')
                expect(abs(float(x['acc_p_strain']) - float(s3['acc_p_strain'])) <
                       2e-5 * (f.u + float(s3['acc_p_strain'])), f'{w}: {k} accumulated plastic strain')
                expect(bool(x['is_plast']) == bool(s3['is_plast']), f'{w}: {k} plastic flag')
        return ok
    return with_dtype(F64, run)


def lou_mises(ctx):
    """No pressure and third-invariant terms: the von Mises behaviours of spec/Plast.tla."""
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item, 9])
        f = D.Frame(rng, 2 + ctx.item % 2)
        p = D.parameters(b, f, 'vm')
        for k, v in dict(a=math.sqrt(3), b=0.0, c=0.0, d=0.0).items():
            p[f'{k}_hardening_law'], p[f'{k}_hardening_parameters'] = C.constant(v)
        p['is_associative_hardening'] = bool(ctx.item % 3)
        m = C.LouZhangYoon('infinitesimal', 4 if f.n_dim == 3 else 1, p)
        s = m.state_init()
        for i, h in enumerate(b['hist']):
            s, _ = m.state_update(D.inc_tensor(f, h), s)
            D.check_state(s, D.want_state(f, h, 'vm'), h['kind'] == 'plastic',
                          f'Lou as von Mises {f.n_dim}D, step {i + 1} ({h["kind"]})', 3e-5)
        return len(b['hist'])
    return with_dtype(F64, run)


def behaviours(n, mode, assoc, ops=8, laws=('linear', 'piecewise', 'sqrt', 'square')):
    out = []
    for law in laws:
        o = min(ops, 3) if law == 'square' else ops
        out.append((('Cone', dict(Law=law, Mode=mode, Assoc=assoc, MaxOps=o, MaxInc=3, Small=False, Sim=True, Pick=0)),
                    dict(invariants=['Emit'], simulate=n, depth=o + 5, workers=1, label=f'{law} {mode}')))
    return out


def design(ctx):
    for law in ('linear',) if ctx.quick else ('linear', 'piecewise', 'sqrt', 'square'):
        ctx.tlc('Cone', dict(Law=law, Mode='full', Assoc=False, MaxOps=2, MaxInc=2, Small=True,
                             Sim=False, Pick=0),
                invariants=['Admissible', 'Dilatancy'],
                properties=['ElasticIff', 'OnSurface', 'ApexIff', 'Irreversible'], view='View',
                label='exhaustive design')


def run(ctx):
    design(ctx)
    n = 200 if ctx.quick else 1000
    full_, flat, away = behaviours(n, 'full', False), behaviours(n // 2, 'flat', False, laws=('linear', 'sqrt')), behaviours(n // 2, 'away', True, ops=6)
    axial, plane = (behaviours(n // 2, m, True, ops=6, laws=('linear', 'sqrt')) for m in ('axial', 'flat'))
    general = behaviours(n, 'full', True, ops=5, laws=('linear',))
    mises = [(('Plast', dict(Law=law, KLaw='none', MaxOps=5, MaxInc=3, Small=False, Sim=True, Pick=0)),
              dict(invariants=['Emit'], simulate=n // 2, depth=10, workers=1, label=f'{law} von Mises')) for law in ('linear', 'soft')]
    sets = [full_, flat, away, axial, plane, general, mises]
    res = ctx.tlc_many([r for s in sets for r in s])
    out = []
    for s in sets:
        out.append([b for r in res[:len(s)] for b in r.behaviours])
        res = res[len(s):]
    full_, flat, away, axial, plane, general, mises = out
    torch.set_num_threads(1)
    ctx.preplays([
        (full_[::4], cone_replayer(ctx, 'dp', 'full', F32), 'Drucker-Prager 3D float32'),
        ([b for i, b in enumerate(full_) if i % 4], cone_replayer(ctx, 'dp', 'full', F64), 'Drucker-Prager 3D'),
        (flat, cone_replayer(ctx, 'dp', 'flat', F64), 'Drucker-Prager plane strain'),
        (away, cone_replayer(ctx, 'lou', 'away', F64), 'Lou, conical'),
        (axial, cone_replayer(ctx, 'lou', 'axial', F64, cd=True), 'Lou, axial paths'),
        (plane, cone_replayer(ctx, 'lou', 'flat', F64), 'Lou, plane strain'),
        (general[::2], lou_relations(ctx, 3), 'Lou general 3D'),
        (general[1::2], lou_relations(ctx, 2), 'Lou general plane strain'),
        (general[::3], plane_strain(ctx, 'dp'), 'Drucker-Prager plane strain and permutations'),
        (general[1::3], plane_strain(ctx, 'lou'), 'Lou plane strain and permutations'),
        (mises, lou_mises(ctx), 'Lou as von Mises')])
    ctx.extra['kinds'] = {x: sum(h['kind'] == x for bs in out for b in bs for h in b['hist']) for x in ('elastic', 'plastic', 'cone', 'apex')}
