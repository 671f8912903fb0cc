"""C12: histories of spec/State.tla on the real StructureMaterialState, and purity of every material
model's state update along the behaviours of spec/Plast.tla and spec/Cone.tla."""
import copy
import math

import numpy as np
import torch

import plast_drv as D
from c10 import ConeCase, PlastCase
from fw import Machinery, expect, expect_raises
from simulators.fetorch.element.integrations.internal_forces import compute_element_internal_forces
from simulators.fetorch.element.type.hexa8 import FEHexa8
from simulators.fetorch.element.type.quad4 import FEQuad4
from simulators.fetorch.element.type.tri3 import FETri3
from simulators.fetorch.material.models.standard.hardening import get_hardening_law
from simulators.fetorch.structure.structure_state import StructureMaterialState

KINDS = ['elastic', 'von_mises', 'von_mises_mixed', 'von_mises', 'recurrent']
YIELD = [None, 2, 3, 5, None]
SIG = 7.0                                              # stress of one level
NODES = {'quad4': [[0, 0], [2, 0], [2, 1], [0, 1]], 'tri3': [[0, 0], [2, 0], [0, 1]],
         'hexa8': [[0, 0, 0], [1, 0, 0], [1, 2, 0], [0, 2, 0], [0, 0, 1], [1, 0, 1], [1, 2, 1], [0, 2, 1]]}


def same(a, b):
    """Exact equality of states (nested dictionaries of tensors)."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.shape == b.shape and \
            bool(torch.equal(torch.nan_to_num(a.detach().double()), torch.nan_to_num(b.detach().double())))
    return type(a) is type(b) and a == b


def scramble(s):
    """Destroy an own copy of a state in place."""
    for k in list(s):
        if isinstance(s[k], dict):
            scramble(s[k])
        elif isinstance(s[k], torch.Tensor) and s[k].dtype.is_floating_point:
            with torch.no_grad():
                s[k].fill_(-77.0)
        else:
            s[k] = 'scrambled'
    s['extra'] = 1


class Structure:
    def __init__(self, rng, n_elem, ctx):
        self.rng, self.ctx, self.n_elem = rng, ctx, n_elem
        self.n_dim = int(rng.choice([2, 2, 2, 3]))
        self.pt = {2: 1, 3: 4}[self.n_dim]
        self.sm = StructureMaterialState('infinitesimal', self.pt, n_elem)
        self.mixed = any(isinstance(m, torch.nn.ModuleDict) for m in self.sm._modules.values())
        if self.mixed:                                 # documented hotfix: plain dictionary of models
            for k in [k for k, m in self.sm._modules.items() if isinstance(m, torch.nn.ModuleDict)]:
                delattr(self.sm, k)
                setattr(self.sm, k, {})
        kinds = {2: ['quad4', 'tri3'], 3: ['hexa8']}[self.n_dim]
        make = {'quad4': lambda: FEQuad4(n_gauss=4), 'tri3': lambda: FETri3(n_gauss=1),
                'hexa8': lambda: FEHexa8(n_gauss=8)}
        self.kind = {e: str(rng.choice(kinds)) for e in range(1, n_elem + 1)}
        self.types = {str(e): make[k]() for e, k in self.kind.items()}
        if self.n_dim == 2:
            self.N = np.array([[0, 1], [1, 0]]) / math.sqrt(2)
        else:
            q = rng.normal(size=(3, 3))
            q = q + q.T - 2 / 3 * np.trace(q) * np.eye(3)
            self.N = q / np.linalg.norm(q)
        self.G = {}                                    # element -> shear modulus of its model

    def assign(self, m, es):
        v, G = 0.25, float(self.rng.choice([400.0, 1000.0, 2500.0]))
        E = 2 * G * (1 + v)
        kind = KINDS[m - 1]
        kw, params = {}, {'elastic_symmetry': 'isotropic', 'E': E, 'v': v}
        if kind in ('von_mises', 'von_mises_mixed'):
            params.update(hardening_law=get_hardening_law('linear'),
                          hardening_parameters={'s0': YIELD[m - 1] * SIG, 'a': 0.0})
        if kind == 'von_mises_mixed':
            params.update(kinematic_hardening_law=get_hardening_law('linear'),
                          kinematic_hardening_parameters={'s0': 0.0, 'a': 0.0})
        name = kind
        if kind == 'recurrent':
            name = 'rc_elastic'
            nf = {2: 3, 3: 6}[self.n_dim]
            params = {'elastic_symmetry': 'isotropic', 'E': E, 'v': v, 'euler_angles': (0.0, 0.0, 0.0)}
            kw = dict(n_features_in=nf, n_features_out=nf, learnable_parameters={},
                      material_model_name='elastic', state_features_out={},
                      is_auto_sync_parameters=True, is_check_su_fail=False,
                      model_directory=self.ctx.tmpdir('rc'), is_normalized_parameters=False,
                      is_model_in_normalized=False, is_model_out_normalized=False, device_type='cpu')
        self.sm.init_elements_model(name, params, [int(e) for e in es], self.types, model_kwargs=kw)
        for e in es:
            self.G[e] = G

    def values(self, e, v):
        """Gauss point state (stress, strain, plastic strain) specified for element e."""
        G = self.G[e]
        s = math.sqrt(2 / 3) * SIG * v['q'] * self.N
        t = math.sqrt(1.5) * SIG / (3 * G) * v['t'] * self.N
        return s, t, v['p'] * SIG / (3 * G)

    def mf(self, t):
        k = [(0, 0), (1, 1), (0, 1)] if self.n_dim == 2 else [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
        return np.array([t[i, j] * (1 if i == j else math.sqrt(2)) for i, j in k])

    def check(self, h, where):
        for tm, key in (('last', 'last'), ('current', 'cur')):
            for e in range(1, self.n_elem + 1):
                v = h[key][e - 1]
                m = h['mat'][e - 1]
                if m == 0:
                    continue
                got = self.sm.get_element_state(e, time=tm, is_copy=bool(self.rng.integers(2)))
                rec = KINDS[m - 1] == 'recurrent'
                expect(self.sm.get_element_model_recurrency(e) == rec, f'{where}: recurrency of element {e}')
                if not v['on']:
                    expect(got is None, f'{where}: recurrent element {e} has a {tm} state')
                    continue
                want = {str(i) for i in range(1, self.types[str(e)].get_n_gauss() + 1)}
                expect(set(got) == want, f'{where}: integration points of element {e}', sorted(got))
                s, t, p = self.values(e, v)
                u = SIG / (3 * self.G[e])
                for g, st in got.items():
                    err = np.abs(self.mf(s) - np.asarray(st['stress_mf'], dtype=float)).max() / SIG
                    err = max(err, np.abs(self.mf(t) - np.asarray(st['strain_mf'], dtype=float)).max() / u)
                    if KINDS[m - 1] != 'elastic':
                        err = max(err, abs(p - float(st['acc_p_strain'])) / u)
                    expect(err < 2e-3, f'{where}: {tm} state of element {e} (integration point {g}) is not the '
                           f'specified one (off by {err:.2g} levels)', dict(spec=v, got={k: str(x) for k, x in st.items()}))

    def trial(self, h):
        e = h['e']
        old = self.sm.get_element_state(e, time=h['from'], is_copy=h['copy'])
        keep = copy.deepcopy(old)
        G = self.G[e]
        eps = math.sqrt(1.5) * SIG / (3 * G) * h['d'] * self.N
        xyz = torch.tensor(NODES[self.kind[e]], dtype=torch.float)
        inc = xyz @ torch.tensor(eps, dtype=torch.float)
        model = self.sm.get_elements_material()[str(e)]
        args = ('infinitesimal', self.pt, self.types[str(e)], model, old, xyz, inc, inc)
        f1, new = compute_element_internal_forces(*args)
        expect(same(old, keep), f'update of element {e} modified the state it started from')
        f2, again = compute_element_internal_forces(*args)
        expect(same(new, again) and same(f1, f2), f'repeated update of element {e} differs')
        self.sm.update_element_state(e, new, time='current', is_copy=h['copy'])
        if h['copy']:
            scramble(new)
            scramble(old)

    def put(self, h):
        e, m = h['e'], h['mat'][h['e'] - 1]
        model = self.sm.get_elements_material()[str(e)]
        s, t, p = self.values(e, h['v'])
        state = {}
        for g in range(1, self.types[str(e)].get_n_gauss() + 1):
            st = copy.deepcopy(model.state_init())
            st['stress_mf'] = torch.tensor(self.mf(s), dtype=torch.float)
            st['strain_mf'] = torch.tensor(self.mf(t), dtype=torch.float)
            st['e_strain_mf'] = torch.tensor(self.mf(s / (2 * self.G[e])), dtype=torch.float)
            if 'acc_p_strain' in st:
                st['acc_p_strain'] = torch.tensor(p, dtype=torch.float)
            state[str(g)] = st
        self.sm.update_element_state(e, state, time=h['time'], is_copy=h['copy'])
        if h['copy']:
            scramble(state)


    def edit(self, h):
        """The live state of an element is changed in place, integration point by integration point."""
        e = h['e']
        live = self.sm.get_element_state(e, time=h['time'], is_copy=False)
        s, t, p = self.values(e, h['v'])
        new = dict(stress_mf=self.mf(s), strain_mf=self.mf(t), e_strain_mf=self.mf(s / (2 * self.G[e])), acc_p_strain=p)
        keep = copy.deepcopy(live)
        for g in list(live):
            expect(same(live[g], keep[g]), f'integration points of element {e} share one state')
            ts = [x for x in live[g].values() if isinstance(x, torch.Tensor)]
            deep = h['deep'] and len({x.data_ptr() for x in ts}) == len(ts)
            for k, x in new.items():
                if k in live[g]:
                    x = torch.tensor(x, dtype=torch.float)
                    if deep and isinstance(live[g][k], torch.Tensor):
                        live[g][k].copy_(x)
                    else:
                        live[g][k] = x


def structure_runner(ctx, n_elem):
    def run(b):
        s = Structure(np.random.default_rng([ctx.seed, ctx.item]), n_elem, ctx)
        for i, h in enumerate(b['ops']):
            where = f'step {i + 1} ({h["op"]})'
            if h['op'] == 'assign':
                s.assign(h['m'], sorted(h['es']))
            elif h['op'] == 'trial':
                s.trial(h)
            elif h['op'] == 'put':
                s.put(h)
            elif h['op'] == 'edit':
                s.edit(h)
            elif h['op'] == 'commit':
                s.sm.update_converged_elements_state(is_copy=h['copy'])
            elif h['what'] == 'get':
                expect_raises(lambda: s.sm.get_element_state(h['e'], time='initial'), f'{where}: unknown time accepted')
            elif h['what'] == 'put':
                expect_raises(lambda: s.sm.update_element_state(h['e'], None, time='initial'),
                              f'{where}: unknown time accepted')
            else:
                expect_raises(lambda: s.sm.init_elements_model('no_model', {}, [h['e']], s.types),
                              f'{where}: unknown model accepted')
            s.check(h, where)
        return len(b['ops'])
    return run


def purity_runner(ctx, case, version):
    """The state update is a function: it changes neither its arguments nor the model."""
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item, 5])
        torch.set_default_dtype(torch.float64)
        try:
            f = case.frame(rng, b)
            m = case.build(b, f, version)
            incs = [case.inc(f, h) for h in b['hist']]
            s = m.state_init()
            expect(same(s, m.state_init()), 'two virgin states differ')
            expect(all(float(torch.as_tensor(v).abs().sum() if torch.as_tensor(v).dtype != torch.bool else
                             torch.as_tensor(v).sum()) == 0 for v in s.values()), 'a virgin state is not unloaded', s)
            for i, inc in enumerate(incs):
                where = f'{case.kind} {version}, step {i + 1}'
                s0, inc0 = copy.deepcopy(s), inc.clone()
                new, tan = m.state_update(inc, s)
                expect(same(s, s0), f'{where}: the update modified the state it started from')
                expect(torch.equal(inc, inc0), f'{where}: the update modified the strain increment')
                kept = copy.deepcopy(new)
                # rejected trial from the same state with another increment, then repeat
                j = int(rng.integers(len(incs)))
                m.state_update(1.7 * incs[j], s)
                m.state_update(0.3 * incs[j], m.state_init())
                expect(same(s, s0), f'{where}: a rejected trial modified the state it started from')
                expect(same(new, kept), f'{where}: a later update modified an earlier result')
                again, tan2 = m.state_update(inc, s)
                expect(same(again, new), f'{where}: the repeated update differs')
                expect(tan is None or same(tan, tan2), f'{where}: the repeated tangent differs')
                s = new
        finally:
            torch.set_default_dtype(torch.float32)
        return len(b['hist'])
    return run


def run(ctx):
    ctx.tlc('State', dict(NEl=2, MaxOps=2, Sim=False), spec='Spec', view='View', invariants=['Admissible'],
            properties=['TrialLeavesConverged', 'CommitExact', 'Local'], label='design')
    sizes = ((2, 40), (3, 150), (5, 60)) if ctx.quick else ((2, 400), (3, 600), (5, 600), (8, 300))
    ops, (n, po) = 14 if ctx.quick else 30, (40, 6) if ctx.quick else (120, 10)
    plast = (('linear', 'none', 3), ('piecewise', 'linear', 5), ('sqrt', 'none', 6))
    cone = (('dp', 'full'), ('dp', 'flat'), ('lou', 'away'))
    res = ctx.tlc_many(
        [(('State', dict(NEl=ne, MaxOps=ops, Sim=True)),
          dict(spec='Spec', invariants=['Emit', 'Admissible'], simulate=k, depth=ops + 4, workers=2,
               label=f'{ne} elements')) for ne, k in sizes] +
        [(('Plast', dict(Law=law, KLaw=kl, MaxOps=po, MaxInc=inc, Small=False, Sim=True, Pick=0)),
          dict(invariants=['Emit'], simulate=n, depth=po + 5, workers=1, label=f'purity {law} {kl}'))
         for law, kl, inc in plast] +
        [(('Cone', dict(Law='linear', Mode=mode, Assoc=kind == 'lou', MaxOps=4 if kind == 'lou' else po, MaxInc=3,
                        Small=False, Sim=True, Pick=0)),
          dict(invariants=['Emit'], simulate=n // 2, depth=po + 5, workers=1, label=f'purity {kind} {mode}'))
         for kind, mode in cone])
    plays = []
    for (ne, _), r in zip(sizes, res):
        plays.append((r.behaviours, structure_runner(ctx, ne), f'structure of {ne} elements'))
    for (_, kl, _), r in zip(plast, res[len(sizes):]):
        kind = 'vm' if kl == 'none' else 'mixed'
        for version in ('standard', 'vmap'):
            plays.append((r.behaviours, purity_runner(ctx, PlastCase(kind), version), f'pure {kind} {version}'))
        if kl == 'none':
            plays.append((r.behaviours[::2], purity_runner(ctx, PlastCase('elastic'), 'standard'), 'pure elastic'))
    for (kind, mode), r in zip(cone, res[len(sizes) + len(plast):]):
        bs = r.behaviours[:6] if kind == 'lou' and ctx.quick else r.behaviours
        for version in ('standard', 'vmap'):
            plays.append((bs, purity_runner(ctx, ConeCase(kind, mode), version), f'pure {kind} {version}'))
    if not all(r.behaviours for r in res):
        raise Machinery('no behaviours')
    torch.set_num_threads(1)
    ctx.preplays(plays)
