"""Behaviours of spec/Cone.tla on the real Drucker-Prager and Lou-Zhang-Yoon models."""
import math

import numpy as np
import torch

import plast_drv as D
from simulators.fetorch.material.models.standard.drucker_prager import DruckerPrager
from simulators.fetorch.material.models.standard.lou import LouZhangYoon
from simulators.fetorch.material.models.standard.hardening import get_hardening_law
from simulators.fetorch.material.models.vmap.drucker_prager import DruckerPragerVMAP
from simulators.fetorch.material.models.vmap.lou import LouZhangYoonVMAP

CLASSES = {('dp', 'standard'): DruckerPrager, ('dp', 'vmap'): DruckerPragerVMAP,
           ('lou', 'standard'): LouZhangYoon, ('lou', 'vmap'): LouZhangYoonVMAP}
V_OF = {1: 0.125, 2: 2 / 7, 3: 0.35}                  # Poisson ratio of K/G
# unit axial deviatoric Kelvin vectors
AXIAL = [np.array(v, dtype=float) / math.sqrt(6) for v in
         ([2, -1, -1, 0, 0, 0], [-1, 2, -1, 0, 0, 0], [-1, -1, 2, 0, 0, 0])]


class Frame:
    """Embedding of the specification's deviatoric space, elastic constants and scale."""

    def __init__(self, rng, b, mode='full', axial=None):
        self.ka = b['ka']
        self.v = V_OF[self.ka]
        self.E = float(10.0 ** rng.uniform(2, 5))
        self.G = self.E / (2 * (1 + self.v))
        self.K = self.E / (3 * (1 - 2 * self.v))
        self.sig = float(self.G * 10.0 ** rng.uniform(-5, -3))
        self.u = self.sig / self.G
        self.n_dim = 2 if mode == 'flat' else 3
        if axial is not None:
            self.basis = np.stack([axial, axial * 0, axial * 0])
        elif mode == 'flat':                          # strains with no 33 component, no volume
            t = rng.uniform(0, 2 * math.pi)
            c, s = math.cos(t), math.sin(t)
            self.basis = np.stack([c * D.DEV[0] + s * D.DEV[1], -s * D.DEV[0] + c * D.DEV[1],
                                   D.DEV[2]])
        else:
            q, _ = np.linalg.qr(rng.normal(size=(5, 5)))
            if rng.random() < 0.2:
                q = np.eye(5)
            self.basis = q[:3] @ D.DEV

    def vec(self, q):
        return np.asarray(q, dtype=float) / D.U / 4 @ self.basis

    def dev_stress(self, q):
        return math.sqrt(2) * self.sig * self.vec(q)

    def strain(self, t, vol):
        return self.u / math.sqrt(2) * self.vec(t) + vol * self.sig / self.K / 3 * D.ID

    def mf(self, k):
        return k if self.n_dim == 3 else k[[0, 1, 3]]


def inc_tensor(f, h):
    k = f.strain(h['inc'], h['dv'])
    return D.tens(D.tensor3(k)[:f.n_dim, :f.n_dim])


def law_parameters(b, f):
    s, u, c0, h = f.sig, f.u, b['c0'], b['hs']
    if b['law'] == 'linear':
        return 'linear', {'s0': c0 * s, 'a': h * s / u}
    if b['law'] == 'piecewise':
        return 'piecewise_linear', {'hardening_points': D.tens(
            [[0.0, c0 * s], [16 * u, (c0 + 16 * h) * s], [9000 * u, (c0 + 16 * h) * s]])}
    if b['law'] == 'sqrt':
        return 'nadai_ludwik', {'s0': c0 * s, 'a': h * s / math.sqrt(u), 'b': 0.5, 'ep0': 4 * u}
    return 'nadai_ludwik', {'s0': c0 * s, 'a': h * s / u ** 2, 'b': 2.0, 'ep0': u}


def constant(v):
    return get_hardening_law('linear'), {'s0': float(v), 'a': 0.0}


def parameters(b, f, kind, k=1.0, c=0.0, d=0.0, assoc=True):
    """Real parameters; for the Lou-Zhang-Yoon model k is the value of its deviatoric shape
    function on the (axial) path for its parameters c and d."""
    law, par = law_parameters(b, f)
    p = {**D.elastic_constants(f), 'hardening_law': get_hardening_law(law),
         'hardening_parameters': par}
    if kind == 'dp':
        p.update(yield_cohesion_parameter=b['x'] / 4, yield_pressure_parameter=b['a'] / 4,
                 flow_pressure_parameter=b['f'] / 4)
        return p
    # a (b I1 + k sqrt(J2)) = sig_y  <=>  sqrt(J2) + 3 b / k p = sig_y / (a k)
    vals = {'a': 4 / b['x'] / k, 'b': b['a'] / 12 * k, 'c': c, 'd': d}
    for n, v in vals.items():
        p[f'{n}_hardening_law'], p[f'{n}_hardening_parameters'] = constant(v)
    p['is_associative_hardening'] = assoc
    return p


def build(b, f, kind, version='standard', n_dim=None, **kw):
    n_dim = n_dim or f.n_dim
    return CLASSES[kind, version]('infinitesimal', 4 if n_dim == 3 else 1,
                                  parameters(b, f, kind, **kw))


def want_state(f, h, kind):
    dev = f.dev_stress(h['T'])
    p = h['p'] * f.sig
    s = dev + p * D.ID
    e = dev / (2 * f.G) + p / (3 * f.K) * D.ID
    w = {'stress_mf': (f.mf(s), f.sig), 'e_strain_mf': (f.mf(e), f.u),
         'strain_mf': (f.mf(f.strain(h['tot'], h['V'])), f.u), 'acc_p_strain': (h['A'] * f.u, f.u)}
    if f.n_dim == 2:
        w['stress_33'] = (s[2], f.sig)
        w['e_strain_33'] = (e[2], f.u)
    return w


def check_state(state, f, h, kind, where, rtol):
    D.check_state(state, want_state(f, h, kind), h['kind'] != 'elastic', where, rtol)
    if kind == 'dp':
        from fw import expect
        expect(bool(state['is_apex_return']) == (h['kind'] == 'apex'),
               f'{where}: is_apex_return is {bool(state["is_apex_return"])}')
