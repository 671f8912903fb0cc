"""C10: behaviours of spec/Plast.tla and spec/Cone.tla on the vectorized material models, alone and
mapped over batches of points."""
import json

import numpy as np
import torch

import cone_drv as C
import plast_drv as D
from fw import expect

F64, F32 = torch.float64, torch.float32


class PlastCase:
    def __init__(self, kind):
        self.kind = kind

    def frame(self, rng, b):
        return D.Frame(rng, int(rng.integers(2, 4)))

    def build(self, b, f, version):
        return D.build(b, f, self.kind, version)

    def inc(self, f, h):
        return D.inc_tensor(f, h)

    def check(self, s, f, h, where, rtol):
        D.check_state(s, D.want_state(f, h, self.kind), h['kind'] == 'plastic', where, rtol)


class ConeCase:
    def __init__(self, kind, mode):
        self.kind, self.mode = kind, mode

    def frame(self, rng, b):
        return C.Frame(rng, b, self.mode)

    def build(self, b, f, version):
        return C.build(b, f, self.kind, version)

    def inc(self, f, h):
        return C.inc_tensor(f, h)

    def check(self, s, f, h, where, rtol):
        C.check_state(s, f, h, self.kind, where, rtol)


def stack(states):
    return {k: torch.stack([torch.as_tensor(s[k]) for s in states]) for k in states[0]}


def batch_runner(ctx, case, dtype):
    """One item = points of one material: each alone, then all mapped together."""
    def run(item):
        idx, bs = item
        rng = np.random.default_rng([ctx.seed, idx, len(bs)])
        torch.set_default_dtype(dtype)
        rtol = 5e-5 if dtype == F64 else 5e-3
        try:
            f = case.frame(rng, bs[0])
            m = case.build(bs[0], f, 'vmap')
            solo = int(rng.integers(len(bs)))
            s = m.state_init()
            for i, h in enumerate(bs[solo]['hist']):
                s, _ = D.update(m, case.inc(f, h), s, f"{case.kind} vectorized, step {i + 1}")
                case.check(s, f, h, f'{case.kind} vectorized, single point, step {i + 1} ({h["kind"]})', rtol)
            # the standard version agrees with the same specification
            ms = case.build(bs[0], f, 'standard')
            s = ms.state_init()
            for i, h in enumerate(bs[(solo + 1) % len(bs)]['hist']):
                s, _ = D.update(ms, case.inc(f, h), s, f"{case.kind} standard, step {i + 1}")
                case.check(s, f, h, f'{case.kind} standard, step {i + 1} ({h["kind"]})', rtol)
            upd = torch.vmap(m.state_update, in_dims=(0, 0))
            if type(m).__name__.startswith('Lou'):     # no tangent
                upd = torch.vmap(lambda e, s: m.state_update(e, s)[0], in_dims=(0, 0))
            st = stack([m.state_init() for _ in bs])
            # points advance through their paths at their own pace: some repeat (zero increment)
            at = [0] * len(bs)
            last = [None] * len(bs)
            while any(a < len(b['hist']) for a, b in zip(at, bs)):
                incs, now = [], []
                for j, b in enumerate(bs):
                    go = at[j] < len(b['hist']) and rng.random() < 0.85
                    h = b['hist'][at[j]] if go else None
                    incs.append(case.inc(f, h) if go else torch.zeros(f.n_dim, f.n_dim))
                    now.append(h)
                    at[j] += go
                out = upd(torch.stack(incs), st)
                st = out if isinstance(out, dict) else out[0]
                for j, h in enumerate(now):
                    p = {k: v[j] for k, v in st.items()}
                    where = f'{case.kind} vectorized, point {j} of {len(bs)}, step {at[j]}'
                    if h is None:
                        # a zero increment is elastic and changes nothing
                        if last[j] is not None:
                            z = dict(last[j], kind='elastic')
                            if last[j]['kind'] != 'elastic' and dtype == F32:
                                # on the yield surface up to rounding: the same state, whatever its flags
                                p = dict(p, is_plast=torch.tensor(False), is_apex_return=torch.tensor(False))
                            case.check(p, f, z, where + ' (zero increment)', rtol)
                    else:
                        case.check(p, f, h, where + f' ({h["kind"]})', rtol)
                        last[j] = h
        finally:
            torch.set_default_dtype(F32)
        return sum(len(b['hist']) for b in bs)
    return run


def groups(bs, size):
    """Batches of points of the same material."""
    mats = {}
    for b in bs:
        mats.setdefault(json.dumps({k: v for k, v in b.items() if k != 'hist'}, sort_keys=True), []).append(b)
    return list(enumerate(g[i:i + size] for g in mats.values() for i in range(0, len(g), size)))


def run(ctx):
    n, ops = (240, 6) if ctx.quick else (400, 10)
    k, runs, cases = ctx.seed * 31, [], []
    plast = [('linear', 3, 'none'), ('piecewise', 5, 'linear'), ('sqrt', 6, 'none'), ('soft', 12, 'piecewise'), ('square', 2, 'linear'),
             ('piecewise', 5, 'none'), ('linear', 3, 'linear')]
    if not ctx.quick:
        plast = [(l, i, q) for l, i in (('linear', 3), ('soft', 12), ('piecewise', 5), ('sqrt', 6), ('square', 2)) for q in ('none', 'linear', 'piecewise')]
    for law, inc, kl in plast:
        k += 1
        runs.append((('Plast', dict(Law=law, KLaw=kl, MaxOps=ops, MaxInc=inc, Small=False, Sim=True, Pick=k)),
                     dict(invariants=['Emit'], simulate=n, depth=ops + 5, workers=1, label=f'{law}, {kl} kinematic')))
        cases.append((PlastCase('vm' if kl == 'none' else 'mixed'), F32 if k % 3 == 2 else F64))
    for kind, mode, law in [('dp', 'full', 'linear'), ('dp', 'full', 'piecewise'), ('dp', 'flat', 'sqrt'), ('dp', 'full', 'sqrt'), ('dp', 'full', 'square'),
                            ('lou', 'away', 'linear'), ('lou', 'flat', 'linear')]:
        k += 1
        o = 4 if kind == 'lou' else ops
        runs.append((('Cone', dict(Law=law, Mode=mode, Assoc=kind == 'lou', MaxOps=o, MaxInc=3, Small=False, Sim=True, Pick=k)),
                     dict(invariants=['Emit'], simulate=n if kind == 'dp' else n // 2, depth=o + 5, workers=1, label=f'{kind} {law} {mode}')))
        cases.append((ConeCase(kind, mode), F32 if kind == 'dp' and k % 3 == 2 else F64))
    # general yield surface, with fixed and evolving parameters
    for n_dim in (3, 2):
        runs.append((('Cone', dict(Law='linear', Mode='full', Assoc=False, MaxOps=5, MaxInc=3, Small=False, Sim=True, Pick=0)),
                     dict(invariants=['Emit'], simulate=40 if ctx.quick else 400, depth=10, workers=1, label=f'Lou general {n_dim}D')))
    res = ctx.tlc_many(runs)
    torch.set_num_threads(1)
    from c09 import lou_relations
    ctx.preplays([(groups(r.behaviours, 4), batch_runner(ctx, case, dtype), case.kind) for r, (case, dtype) in zip(res, cases)] +
                 [(r.behaviours, lou_relations(ctx, n_dim, 'vmap'), f'Lou general {n_dim}D, vectorized') for n_dim, r in zip((3, 2), res[len(cases):])] +
                 [(r.behaviours[:16], lou_relations(ctx, n_dim), f'Lou general {n_dim}D, standard') for n_dim, r in zip((3, 2), res[len(cases):])])
    ctx.extra['kinds'] = {x: sum(h['kind'] == x for r in res for b in r.behaviours for h in b['hist']) for x in ('elastic', 'plastic', 'cone', 'apex')}
