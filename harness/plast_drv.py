"""Shared driver: behaviours of spec/Plast.tla (and spec/Cone.tla) on the real material models."""
import math

import numpy as np
import torch

from fw import expect
from simulators.fetorch.material.models.standard.elastic import Elastic
from simulators.fetorch.material.models.standard.von_mises import VonMises
from simulators.fetorch.material.models.standard.von_mises_mixed import VonMisesMixed
from simulators.fetorch.material.models.standard.hardening import get_hardening_law
from simulators.fetorch.material.models.vmap.von_mises import VonMisesVMAP
from simulators.fetorch.material.models.vmap.von_mises_mixed import VonMisesMixedVMAP

R2 = math.sqrt(2.0)
ORD3 = ('11', '22', '33', '12', '23', '13')
# orthonormal basis of the deviatoric Kelvin vectors (component order ORD3)
DEV = np.array([[1, -1, 0, 0, 0, 0], [0, 0, 0, R2, 0, 0], [1, 1, -2, 0, 0, 0],
                [0, 0, 0, 0, 1, 0], [0, 0, 0, 0, 0, 1]], dtype=float)
DEV /= np.linalg.norm(DEV, axis=1)[:, None]
ID = np.array([1, 1, 1, 0, 0, 0], dtype=float)
U = 315.0


def tensor3(k):
    """Kelvin vector -> symmetric 3x3."""
    m = np.zeros((3, 3))
    for c, x in zip(ORD3, k):
        i, j = int(c[0]) - 1, int(c[1]) - 1
        m[i, j] = m[j, i] = x if i == j else x / R2
    return m


class Frame:
    """Embedding of the specification's 3-dim deviatoric space, material constants and scale."""

    def __init__(self, rng, n_dim, v=None, sig=None):
        self.n_dim = n_dim
        self.v = float(rng.choice([0.0, 0.2, 0.3, 0.45])) if v is None else v
        self.E = float(10.0 ** rng.uniform(2, 5))
        # one stress level: yield strains between 1e-4 and 1e-2
        self.sig = float(self.E * 10.0 ** rng.uniform(-4.5, -2.5)) if sig is None else sig
        self.G = self.E / (2 * (1 + self.v))
        self.K = self.E / (3 * (1 - 2 * self.v))
        self.g3 = 3 * self.G
        self.u = self.sig / self.g3                   # strain of one level
        if n_dim == 3:
            q, _ = np.linalg.qr(rng.normal(size=(5, 5)))
            if rng.random() < 0.2:
                q = np.eye(5)
            self.basis = q[:3] @ DEV
        else:
            a = rng.uniform(0, 2 * math.pi) if rng.random() < 0.7 else 0.0
            c, s = math.cos(a), math.sin(a)
            self.basis = np.stack([c * DEV[0] + s * DEV[1], -s * DEV[0] + c * DEV[1], DEV[2]])

    def vec(self, q):
        return np.asarray(q, dtype=float) / U @ self.basis

    def dev_stress(self, q):                          # Kelvin deviatoric stress
        return math.sqrt(2 / 3) * self.sig * self.vec(q)

    def strain(self, t, vol):
        """Kelvin strain of total deviatoric vector t and volume change (levels / 10)."""
        d = math.sqrt(1.5) * self.u * self.vec(t)
        ev = self.vol(t, vol)
        return d + ev / 3 * ID

    def vol(self, t, vol):
        if self.n_dim == 3:
            return vol * self.u
        d = math.sqrt(1.5) * self.u * self.vec(t)     # plane strain: strain 33 is zero
        return -3 * d[2]

    def pressure(self, t, vol):
        return self.K * self.vol(t, vol)

    def mf(self, k):
        return k if self.n_dim == 3 else k[[0, 1, 3]]


def tens(x):
    return torch.tensor(x, dtype=torch.get_default_dtype())


def law_parameters(b, f):
    """Real hardening law of a behaviour of spec/Plast.tla."""
    s, u, s0, h = f.sig, f.u, b['s0'], b['hs']
    if b['law'] == 'linear':
        return 'linear', {'s0': s0 * s, 'a': h * s / u}
    if b['law'] == 'soft':
        return 'linear', {'s0': s0 * s, 'a': h * s / u / 4}
    if b['law'] == 'piecewise':
        pts = [[0.0, s0], [4 * u, s0 + 4 * h], [10 * u, s0 + 4 * h + 6], [1000 * u, s0 + 4 * h + 6]]
        return 'piecewise_linear', {'hardening_points': tens([[x, y * s] for x, y in pts])}
    if b['law'] == 'sqrt':
        return 'nadai_ludwik', {'s0': s0 * s, 'a': h * s / math.sqrt(u), 'b': 0.5, 'ep0': 4 * u}
    return 'nadai_ludwik', {'s0': s0 * s, 'a': h * s / u ** 2, 'b': 2.0, 'ep0': u}


def kin_parameters(b, f):
    k = b['ks']
    if b['klaw'] == 'piecewise':
        pts = [[0.0, 0.0], [6 * f.u, 6 * k], [1000 * f.u, 6 * k]]
        return 'piecewise_linear', {'hardening_points': tens([[x, y * f.sig] for x, y in pts])}
    return 'linear', {'s0': 3.0 * f.sig, 'a': k * f.sig / f.u}


CLASSES = {('vm', 'standard'): VonMises, ('vm', 'vmap'): VonMisesVMAP,
           ('mixed', 'standard'): VonMisesMixed, ('mixed', 'vmap'): VonMisesMixedVMAP}


def parameters(b, f, kind):
    law, par = law_parameters(b, f)
    p = {**elastic_constants(f), 'hardening_law': get_hardening_law(law), 'hardening_parameters': par}
    if kind == 'mixed':
        law, par = kin_parameters(b, f)
        p.update(kinematic_hardening_law=get_hardening_law(law),
                 kinematic_hardening_parameters=par)
    return p


def elastic_constants(f):
    """Young modulus and Poisson ratio, or elastic moduli (every other material)."""
    f.flip = not getattr(f, 'flip', int(f.E) % 2)
    if f.flip:
        lam = f.K - 2 / 3 * f.G
        return {'elastic_symmetry': 'isotropic', 'E1111': lam + 2 * f.G, 'E1122': lam}
    return {'elastic_symmetry': 'isotropic', 'E': f.E, 'v': f.v}


def build(b, f, kind, version='standard'):
    pt = 4 if f.n_dim == 3 else 1
    if kind == 'elastic':
        return Elastic('infinitesimal', pt, elastic_constants(f))
    return CLASSES[kind, version]('infinitesimal', pt, parameters(b, f, kind))


def snapshot(d):
    """Values and precision of nested parameters."""
    return {k: snapshot(v) if isinstance(v, dict) else
            (str(v.dtype), v.detach().tolist()) if isinstance(v, torch.Tensor) else v for k, v in d.items()}


def update(m, inc, s, where):
    """State update; the last converged state that it was given stays as it was."""
    old = {k: (v.clone() if isinstance(v, torch.Tensor) else v) for k, v in s.items()}
    inc0 = inc.clone()
    par0 = snapshot(m.get_model_parameters())
    out = m.state_update(inc, s)
    expect(snapshot(m.get_model_parameters()) == par0, f'{where}: the state update modified the material parameters')
    for k, v in old.items():
        w = s.get(k)
        same = (isinstance(w, torch.Tensor) and w.dtype == v.dtype and w.shape == v.shape and bool(((w == v) | (v != v)).all())
                if isinstance(v, torch.Tensor) else type(w) is type(v) and w == v)
        expect(same, f'{where}: the state update modified the previous state ({k})', (v, w))
    expect(set(s) == set(old) and torch.equal(inc, inc0), f'{where}: the state update modified its input')
    return out


def stuck_build(b, f, kind):
    """Linear hardening that reports a slope with which Newton iterations cycle: no state can be found."""
    p = parameters(b, f, kind)
    law, par = p['hardening_law'], p['hardening_parameters']
    k = kin_parameters(b, f)[1]['a'] if kind == 'mixed' else 0.0
    p['hardening_law'] = lambda q, x: (law(q, x)[0], par['a'] / 2 - 1.5 * f.G - k / 2 + 0.0 * x)
    return CLASSES[kind, 'standard']('infinitesimal', 4 if f.n_dim == 3 else 1, p)


def inc_tensor(f, h):
    prev = [a - d for a, d in zip(h['tot'], h['inc'])]
    k = f.strain(h['tot'], h['vol']) - f.strain(prev, h['vol'] - h['dv'])
    return tens(tensor3(k)[:f.n_dim, :f.n_dim])


def want_state(f, h, kind):
    """State variables specified after step h: name -> value."""
    e_of = lambda s, p: s / (2 * f.G) + p / (3 * f.K) * ID
    p = f.pressure(h['tot'], h['vol'])
    dev = f.dev_stress(h['tot'] if kind == 'elastic' else h['Q'])
    s = dev + p * ID
    e = e_of(dev, p)
    w = {'stress_mf': (f.mf(s), f.sig), 'e_strain_mf': (f.mf(e), f.u),
         'strain_mf': (f.mf(f.strain(h['tot'], h['vol'])), f.u)}
    if kind != 'elastic':
        w['acc_p_strain'] = (h['P'] * f.u, f.u)
    if kind == 'mixed':
        w['back_stress_mf'] = (f.mf(f.dev_stress(h['B'])), f.sig)
    if f.n_dim == 2:
        w['stress_33'] = (s[2], f.sig)
        w['e_strain_33'] = (e[2], f.u)
        if kind == 'mixed':
            w['back_stress_33'] = (f.dev_stress(h['B'])[2], f.sig)
    return w


def check_state(state, want, plast, where, rtol=2e-5):
    expect(not bool(torch.as_tensor(state['is_su_fail']).any()), f'{where}: state update failed')
    for k, (v, unit) in want.items():
        got = np.asarray(torch.as_tensor(state[k]).detach().cpu(), dtype=float)
        v = np.asarray(v, dtype=float)
        expect(got.shape == v.shape or got.size == v.size,
               f'{where}: {k} has shape {got.shape}, specified {v.shape}')
        tol = rtol * (unit + np.abs(v).max())
        err = np.abs(got.reshape(v.shape) - v).max()
        expect(err <= tol, f'{where}: {k} differs from the specification by {err / unit:.2e} levels',
               dict(got=(got / unit).tolist(), spec=(v / unit).tolist()))
    if plast is not None:
        expect(bool(state['is_plast']) == plast, f'{where}: is_plast {bool(state["is_plast"])}')
