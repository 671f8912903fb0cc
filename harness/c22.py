"""C22: histories of spec/Recurrent.tla on the real recurrent models."""
import os
import math
import zlib

import numpy as np
import torch

from c16 import CLS, constants, UNIT
from model_architectures.procedures.model_state_files import load_model_state, save_model_state
from fw import Machinery, expect
from model_architectures.rc_base_model.model.recurrent_model import RecurrentConstitutiveModel
from model_architectures.rnn_base_model.custom.gru_vmap import GRU, GRUCell
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from simulators.fetorch.math.matrixops import get_problem_type_parameters

SIG = lambda x: 1.0 / (1.0 + np.exp(-x))   # noqa: E731


def rng_of(*key):
    return np.random.default_rng(zlib.crc32(repr(key).encode()))


def gru_step(w, x, h):
    """Gated recurrent unit: (w_ih, w_hh, b_ih, b_hh), gates stacked as reset, update, new."""
    gi, gh = w[0] @ x + w[2], w[1] @ h + w[3]
    k = len(h)
    r, z = SIG(gi[:k] + gh[:k]), SIG(gi[k:2 * k] + gh[k:2 * k])
    nw = np.tanh(gi[2 * k:] + r * gh[2 * k:])
    return (1.0 - z) * nw + z * h


class GruRun:
    def __init__(self, b, dtype):
        self.b, self.c, self.dtype, self.steps = b, b['cfg'], dtype, 0
        self.tol = 1e-9 if dtype == torch.float64 else 2e-5
        c = self.c
        self.models = {im: GRURNNModel(c['nin'], c['nout'], c['hid'], None, n_recurrent_layers=c['layers'], gru_model_source=im,
                                       is_save_model_init_file=False) for im in ('torch', 'custom')}
        self.models['cell'] = GRU(c['nin'], c['hid'], num_layers=c['layers'], bias=c['bias'])
        self.retrain(dict(weights=c['weights']))

    def retrain(self, op):
        c, g = self.c, rng_of(op['weights'], 'w')
        self.w, flat = [], []
        for k in range(c['layers']):
            ni = c['nin'] if k == 0 else c['hid']
            w = [g.normal(size=(3 * c['hid'], ni)), g.normal(size=(3 * c['hid'], c['hid'])), g.normal(size=3 * c['hid']), g.normal(size=3 * c['hid'])]
            if not c['bias']:
                w[2:] = [0 * w[2], 0 * w[3]]
            self.w.append(w)
            flat += w
        self.lin = [g.normal(size=(c['nout'], c['hid'])), g.normal(size=c['nout'])]
        for im, m in self.models.items():
            vals = flat + self.lin if im != 'cell' else [v for i, v in enumerate(flat) if c['bias'] or i % 4 < 2]
            ps = list(m.parameters())
            expect(sorted(tuple(p.shape) for p in ps) == sorted(v.shape for v in vals),
                   f'parameters of the {im} model', [tuple(p.shape) for p in ps])
            ps = [ps.pop(next(i for i, p in enumerate(ps) if tuple(p.shape) == v.shape)) for v in vals]
            with torch.no_grad():
                for p, v in zip(ps, vals):
                    p.copy_(torch.tensor(v))
        self.h0 = [np.zeros((c['layers'], c['hid'])), g.normal(size=(c['layers'], c['hid'])), g.uniform(-1, 1, size=(c['layers'], c['hid']))]
        self.store = [torch.tensor(h, dtype=self.dtype) for h in self.h0]     # hidden states as returned by the code
        self.sym = {k: rng_of(op['weights'], 'x', k).normal(size=c['nin']) * (3.0 if k == 1 else 1.0) for k in range(1, 10)}
        self.memo = {}

    def ref(self, init, hist):
        """Hidden states of all layers after a history."""
        key = (init, tuple(hist))
        if key not in self.memo:
            if not hist:
                self.memo[key] = self.h0[init].copy()
            else:
                h = self.ref(init, hist[:-1]).copy()
                x = self.sym[hist[-1]]
                for k in range(len(h)):
                    h[k] = gru_step(self.w[k], x, h[k])
                    x = h[k]
                self.memo[key] = h
        return self.memo[key]

    def near(self, got, want, clause, op):
        got = got.detach().numpy().astype(float)
        expect(got.shape == want.shape, clause + ': shape', (got.shape, want.shape, op))
        expect(bool((np.abs(got - want) <= self.tol * (1 + np.abs(want).max())).all()), clause,
               dict(got=got.tolist(), want=want.tolist(), op={k: v for k, v in op.items() if k not in ('outs', 'mem')}, cfg=self.c))

    def run(self):
        for op in self.b['log']:
            self.retrain(op) if op['op'] == 'retrain' else self.feed(op)
            self.steps += 1
        return self.steps

    def feed(self, op):
        m, rows, plain = self.models[op['impl']], op['rows'], op['op'] == 'plain'
        x = torch.tensor(np.array([[self.sym[s] for s in r['xs']] for r in rows]), dtype=self.dtype).permute(1, 0, 2)
        h = torch.stack([self.store[r['from'] - 1] for r in rows], dim=1)
        how = op['how']
        if how == 'vmap' and op['impl'] == 'torch':
            how = 'batch'                        # the library unit has no batching rule
        if how != 'strided':
            x = x.contiguous()
        kx, kh = x.clone(), h.clone()
        if how == 'single':
            res = [m(x[:, i].clone()) if plain else m(x[:, i].clone(), h[:, i].clone()) for i in range(len(rows))]
            for y, hn in res:
                expect(y.dim() == 2 and hn.dim() == 2, 'an unbatched sequence gives unbatched outputs', (y.shape, hn.shape))
            y, hn = torch.stack([r[0] for r in res], dim=1), torch.stack([r[1] for r in res], dim=1)
        elif how == 'vmap':
            y, hn = torch.vmap(m, in_dims=(1, 1), out_dims=(1, 1))(x, h)
        else:
            y, hn = m(x) if plain else m(x, h)
        expect(torch.equal(x, kx) and torch.equal(h, kh), 'the evaluation changed its inputs', op['impl'])
        for i, (outs, mem) in enumerate(zip(op['outs'], op['mem'])):
            want = np.array([self.ref(o['init'], o['hist'])[-1] for o in outs])
            if op['impl'] != 'cell':
                want = want @ self.lin[0].T + self.lin[1]
            self.near(y[:, i], want, 'outputs do not follow from the inputs of the sample up to each time', op)
            self.near(hn[:, i], self.ref(mem['init'], mem['hist']), 'hidden state after the sequence', op)
            self.store.append(hn[:, i].detach().clone())
            self.single_cell(outs, mem)
        if len(self.store) != op['keep'] + len(rows):
            raise Machinery('handles out of step')

    def single_cell(self, outs, mem):
        """One step of the cell itself: first layer, last input."""
        cell = GRUCell(self.c['nin'], self.c['hid'], bias=self.c['bias'])
        with torch.no_grad():
            for p, v in zip(cell.parameters(), self.w[0]):
                p.copy_(torch.tensor(v))
        x = torch.tensor(self.sym[mem['hist'][-1]], dtype=self.dtype)
        h = torch.tensor(self.ref(mem['init'], mem['hist'][:-1])[0], dtype=self.dtype)
        want = self.ref(mem['init'], mem['hist'])[0]
        self.near(cell(x, h), want, 'cell, one sample', {})
        self.near(cell(torch.stack([x, 2 * x]), torch.stack([h, h]))[0], want, 'cell, batch', {})


# --------------------------------------------------------------------------- constitutive
BASE = dict(E=1000.0, v=0.3, s0=4.0, a=30.0, b=0.3, kin_s0=1.0, kin_a=15.0, kin_b=0.3, yield_cohesion_parameter=1.0,
            yield_pressure_parameter=0.3, flow_pressure_parameter=0.1)


class RcRun:
    def __init__(self, b, ctx):
        self.b, self.ctx, self.c, self.steps = b, ctx, b['cfg'], 0
        c = self.c
        self.law, self.dim = c['law'], c['dim']
        self.mode = 'standard' if self.law == 'elastic' else c['mode']
        self.nf = 6 if self.dim == 3 else 3
        self.order = [(int(x[0]) - 1, int(x[1]) - 1) for x in get_problem_type_parameters(4 if self.dim == 3 else 1)[1]]
        self.states = [s for s in c['states'] if not (s == 'acc_p_strain' and self.law == 'elastic')]
        self.values = dict(BASE)
        sizes = {s: 1 if s == 'acc_p_strain' else self.nf for s in self.states}
        self.model = RecurrentConstitutiveModel(
            self.nf, self.nf + sum(sizes.values()), {'E': dict(initial_value=BASE['E'], bounds=(100.0, 5000.0))},
            strain_formulation='infinitesimal', problem_type=4 if self.dim == 3 else 1,
            material_model_name=self.law + ('_vmap' if self.mode == 'vmap' else ''),
            material_model_parameters=constants(self.law, self.values), state_features_out=sizes, model_directory=None,
            is_save_model_init_file=False)
        g = rng_of(c['weights'], 's')
        self.sym = {k: g.normal(size=self.nf) * (4e-3 if k > 1 else 0.0) for k in range(1, 10)}

    def retrain(self, op):
        self.values['E'] = 800.0 + 7.0 * op['weights'] % 900
        with torch.no_grad():
            for p in self.model.parameters():
                p.fill_(self.values['E'])

    def ref(self, path):
        m = CLS[self.law]('infinitesimal', 4 if self.dim == 3 else 1, constants(self.law, self.values))
        s, prev, rows = m.state_init(), None, []
        for x in path:
            e = np.zeros((self.dim, self.dim))
            for v, (i, j) in zip(self.sym[x], self.order):
                e[i, j] = e[j, i] = v
            if prev is not None:
                s, _ = m.state_update(torch.tensor(e - prev), s)
                if bool(s['is_su_fail']) or not bool(torch.isfinite(s['stress_mf']).all()):
                    return None
            prev = e
            row = []
            for key in ['stress_mf'] + self.states:
                v = np.asarray(s[key].detach(), dtype=float).reshape(-1)
                row += list(v) if key == 'acc_p_strain' else [q / (1 if i == j else math.sqrt(2)) for q, (i, j) in zip(v, self.order)]
            rows.append(row)
        return np.array(rows)

    def run(self):
        for op in self.b['log']:
            self.steps += 0 if (self.retrain(op) if op['op'] == 'retrain' else self.respond(op)) else 1
        return self.steps

    def respond(self, op):
        want = [self.ref(p) for p in op['paths']]
        if any(w is None for w in want):
            return True                          # not counted
        x = torch.tensor(np.array([[self.sym[s] for s in p] for p in op['paths']])).permute(1, 0, 2)
        keep = x.clone()
        with torch.no_grad():
            if op['how'] == 'single':
                ys = [self.model(x[:, i]) for i in range(len(want))]
                expect(all(y.dim() == 2 for y in ys), 'a single path gives a single response')
                y = torch.stack(ys, dim=1)
            else:
                y = self.model(x)
        expect(torch.equal(x, keep), 'the evaluation changed the strain paths')
        expect(tuple(y.shape) == (x.shape[0], len(want), want[0].shape[1]), 'shape of the response', y.shape)
        for i, w in enumerate(want):
            d = np.abs(y[:, i].numpy() - w)
            expect(bool((d <= 1e-6 * (1 + np.abs(w).max())).all()), 'the response is not that of the material from its virgin state',
                   dict(law=self.law, mode=self.mode, dim=self.dim, path=op['paths'][i], states=self.states, got=y[:, i].tolist(), want=w.tolist()))


def case(b, ctx):
    dtype = torch.float32 if b['kind'] == 'gru' and b['cfg']['weights'] % 4 == 0 else torch.float64
    torch.set_default_dtype(dtype)
    torch.set_num_threads(1)
    try:
        return (GruRun(b, dtype) if b['kind'] == 'gru' else RcRun(b, ctx)).run()
    finally:
        torch.set_default_dtype(torch.float32)


def rebuilt(ctx):
    """A model rebuilt from its initialization file and stored state computes the same, also in training mode."""
    def one(k):
        g = rng_of(k, 'rebuild')
        d = ctx.tmpdir('init')
        if k % 3 < 2:
            nin, nout, layers = (int(v) for v in g.integers(1, 4, size=3))
            m = GRURNNModel(nin, nout, int(g.integers(1, 5)), d, model_name=f'net_{k}', n_recurrent_layers=layers, dropout=0.5 if layers > 1 and k % 2 else 0,
                            gru_model_source='torch' if k % 3 == 0 else 'custom', is_model_in_normalized=bool(g.integers(2)), is_model_out_normalized=bool(g.integers(2)))
            x = torch.tensor(g.normal(size=(6, 3, nin)), dtype=torch.float32)
        else:
            sizes = [{}, {'acc_p_strain': 1}, {'e_strain_mf': 6}, {'e_strain_mf': 6, 'acc_p_strain': 1}][int(g.integers(4))]
            m = RecurrentConstitutiveModel(6, 6 + sum(sizes.values()), {'E': dict(initial_value=900.0, bounds=(100.0, 5000.0))},
                                           strain_formulation='infinitesimal', problem_type=4, material_model_name='von_mises',
                                           material_model_parameters=constants('von_mises', dict(BASE)), state_features_out=sizes, model_directory=d,
                                           model_name=f'rc_{k}', is_normalized_parameters=bool(g.integers(2)))
            x = torch.tensor(np.cumsum(g.normal(size=(5, 2, 6)) * 2e-3, axis=0), dtype=torch.float32)
        with torch.no_grad():
            for q in m.parameters():
                q.add_(torch.rand(q.shape) * 0.1)
        save_model_state(m, epoch=4, state_type='epoch')
        new = (type(m).init_model_from_file(model_directory=d) if k % 2 else
               type(m).init_model_from_file(model_init_file_path=os.path.join(d, 'model_init_file.pkl')))
        expect(os.path.realpath(new.model_directory) == os.path.realpath(d) and new.model_name == m.model_name and
               (new.is_model_in_normalized, new.is_model_out_normalized) == (m.is_model_in_normalized, m.is_model_out_normalized), 'description of the rebuilt model')
        expect(load_model_state(new, model_load_state=4) == 4, 'epoch of the rebuilt model')
        ys = []
        for model in (m, new):
            for mode in (True, False):
                model.train(mode)
                torch.manual_seed(k)
                y = model(x)
                ys.append((y[0] if isinstance(y, tuple) else y).detach())
        expect(torch.allclose(ys[0], ys[2], atol=1e-6) and torch.allclose(ys[1], ys[3], atol=1e-6), 'the rebuilt model computes something else',
               dict(training=[ys[0].tolist(), ys[2].tolist()], evaluation=[ys[1].tolist(), ys[3].tolist()]))
        ctx.rmdir(d)
        return 2
    ctx.replay(list(range(18 if ctx.quick else 120)), one, 'rebuilt models')


def run(ctx):
    rebuilt(ctx)
    inv = ['Resumable', 'Causal', 'Kept']
    runs = [(('Recurrent', dict(Sim=False, MaxOps=2, MaxLen=2, MaxRows=1, Symbols=2)), dict(spec='Spec', invariants=inv, label='Recurrent/design')),
            (('Recurrent', dict(Sim=True, MaxOps=6, MaxLen=4, MaxRows=3, Symbols=5)),
             dict(spec='Spec', invariants=inv + ['Emit'], simulate=400 if ctx.quick else 4000, depth=14, label='Recurrent/histories')),
            (('Recurrent', dict(Sim=True, MaxOps=4, MaxLen=9, MaxRows=2, Symbols=9)),
             dict(spec='Spec', invariants=inv + ['Emit'], simulate=150 if ctx.quick else 2000, depth=14, label='Recurrent/long'))]
    if not ctx.quick:
        runs[0] = (('Recurrent', dict(Sim=False, MaxOps=2, MaxLen=2, MaxRows=2, Symbols=2)), dict(spec='Spec', invariants=inv, label='Recurrent/design'))
        runs.append((('Recurrent', dict(Sim=False, MaxOps=3, MaxLen=2, MaxRows=1, Symbols=2)), dict(spec='Spec', invariants=inv, label='Recurrent/design3')))
    res = ctx.tlc_many(runs)
    items = res[1].behaviours + res[2].behaviours
    ctx.preplay(items, lambda b: case(b, ctx), 'recurrent')
    ctx.assumptions += ['paths whose reference state update does not converge are skipped',
                        'the weights of the recurrent units are stacked as reset, update and new gates, as in the library']
