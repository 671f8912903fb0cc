"""C07: scaling histories of spec/Scaling.tla replayed on the scalers and on models."""
import math

import numpy as np
import torch

from fw import expect, expect_raises
import time_series_data.time_dataset as td
from utilities.data_scalers import TorchMinMaxScaler, TorchStandardScaler
from model_architectures.procedures.model_data_scaling import (
    fit_data_scalers, set_fitted_data_scalers, data_scaler_transform,
    load_model_data_scalers_from_file, set_data_scalers)
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from train_drv import Family

SHIFT = {'in': 0.0, 'out': 64.0}        # the output features are the input features + 64
NF = 2


def gru(d):
    return GRURNNModel(NF, NF, 2, d, is_model_in_normalized=True, is_model_out_normalized=True)


def fwd(s):
    if s['var'] == 0 and s['den'] == 1 and 'root' not in s:
        return float(s['num'])
    return s['num'] / (math.sqrt(s['var']) if s['var'] else s['den'])


def bwd(s, n):
    return s['num'] / s['den'] + s['root'] * math.sqrt(s['var']) / n


def shape(x, dim):
    """rows -> (n, f), or (2, n, f) with the rows repeated"""
    t = torch.tensor(x, dtype=torch.float64)
    return t if dim == 2 else torch.stack([t, t])


def compare(got, want, where):
    want = torch.tensor(want, dtype=torch.float64)
    g = got if got.dim() == 2 else got[0]
    expect(got.dim() == 2 or torch.equal(torch.nan_to_num(got[0]), torch.nan_to_num(got[1])),
           f'{where}: equal rows are scaled differently')
    expect(g.shape == want.shape and bool(torch.isfinite(g).all())
           and torch.allclose(g.double(), want, rtol=1e-9, atol=1e-9),
           f'{where}: scaled values differ', dict(got=g.tolist(), spec=want.tolist()))


class ModelSystem:
    """Scalers of a recurrent network (files, data sets, reload)."""

    def __init__(self, ctx, u=1.0):
        self.u = u                      # unit of the data: all values are multiples of it
        self.d = ctx.tmpdir('scale')
        self.m = gru(self.d)
        self.reloaded = False

    def _set(self, h):
        par = {}
        for side in ('in', 'out'):
            st, sh = h['st'], SHIFT[side]
            if h['kind'] == 'min-max':
                par['features_' + side] = dict(
                    minimum=self.u * torch.tensor([x['min'] + sh for x in st], dtype=torch.float64),
                    maximum=self.u * torch.tensor([x['max'] + sh for x in st], dtype=torch.float64),
                    norm_minimum=h['lo'], norm_maximum=h['hi'])
            else:
                par['features_' + side] = dict(
                    mean=self.u * torch.tensor([x['s'] / x['n'] + sh for x in st],
                                                dtype=torch.float64),
                    std=self.u * torch.tensor([math.sqrt(x['n'] * x['q'] - x['s'] ** 2) / x['n']
                                               for x in st], dtype=torch.float64))
        set_fitted_data_scalers(self.m, h['kind'], par)

    def _fit(self, h):
        ss = [{'features_' + s: self.u * (torch.tensor(x, dtype=torch.float64) + SHIFT[s])
               for s in ('in', 'out')} for x in h['data']]
        keep = [{k: v.clone() for k, v in s.items()} for s in ss]
        par = {}
        if h['kind'] == 'min-max':
            par = {'features_' + s: dict(norm_minimum=h['lo'], norm_maximum=h['hi'])
                   for s in ('in', 'out')}
        fit_data_scalers(self.m, td.TimeSeriesDatasetInMemory(ss), scaling_type=h['kind'],
                         scaling_parameters=par)
        expect(all(torch.equal(a[k], b[k]) for a, b in zip(ss, keep) for k in a),
               'fitting modified the data set')

    def apply(self, x, side, mode):
        return data_scaler_transform(self.m, x, 'features_' + side, mode)

    def reload(self, how):
        self.reloaded = True
        if how == 'init':
            self.m = GRURNNModel.init_model_from_file(self.d)
        else:
            self.m = GRURNNModel(NF, NF, 2, self.d, is_model_in_normalized=True,
                                 is_model_out_normalized=True, is_save_model_init_file=False)
            load_model_data_scalers_from_file(self.m)

    def refused(self):
        expect_raises(lambda: self.apply(torch.zeros(1, NF), 'in', 'normalize'),
                      'transform without fitted scalers is not refused', RuntimeError)


class DirectSystem(ModelSystem):
    """Scaler objects fitted on one tensor, handed to a model."""

    def _fit(self, h):
        sc = {}
        for side in ('in', 'out'):
            rows = [r for s in h['data'] for r in s]
            if len(rows) % 2 == 0 and len(rows) > 0:      # as sequence data (2, n, f)
                x = torch.tensor(rows, dtype=torch.float64).reshape(2, -1, NF) + SHIFT[side]
            else:
                x = torch.tensor(rows, dtype=torch.float64) + SHIFT[side]
            x = self.u * x
            keep = x.clone()
            sc[side] = TorchMinMaxScaler(NF, norm_minimum=h['lo'], norm_maximum=h['hi']) \
                if h['kind'] == 'min-max' else TorchStandardScaler(NF)
            sc[side].fit(x)
            expect(torch.equal(x, keep), 'fitting modified the data')
            y = sc[side].transform(x, is_check_data=True).reshape(-1, NF)
            for j, st in enumerate(h['st']):
                v = y[:, j]
                if h['kind'] == 'min-max':
                    ok = (abs(float(v.min()) - h['lo']) < 1e-9
                          and (st['min'] == st['max'] or abs(float(v.max()) - h['hi']) < 1e-9))
                else:
                    ok = (abs(float(v.mean())) < 1e-9 and
                          (st['min'] == st['max'] or abs(float(v.std(correction=0)) - 1) < 1e-9))
                expect(ok, f'fitted data is not scaled as prescribed (feature {j})', v.tolist())
        self.m = gru(self.d)
        set_data_scalers(self.m, sc['in'], sc['out'])


def replayer(ctx, system):
    def run(case):
        u, hist = case
        s = system(ctx, u)
        st = fit = None
        for i, h in enumerate(hist):
            where = f'step {i + 1} ({h["op"]})'
            if h['op'] in ('fit', 'set'):
                (s._fit if h['op'] == 'fit' else s._set)(h)
                st, fit = h['st'], h
                if s.reloaded:           # a re-initialized model does not save by itself
                    s.m.save_model_init_file()
            elif h['op'] == 'reload':
                s.reload(h['how'])
            elif h['op'] == 'refused':
                s.refused()
            elif h['op'] == 'transform':
                x = u * (shape(h['x'], h['dim']) + SHIFT[h['side']])
                keep = x.clone()
                y = s.apply(x, h['side'], 'normalize')
                expect(torch.equal(x, keep), f'{where}: transform modified its input')
                base = fit['lo'] if fit['kind'] == 'min-max' else 0.0
                # a constant feature is only shifted: its scaled values keep the unit of the data
                compare(y, [[base + u * (fwd(v) - base) if q['min'] == q['max'] else fwd(v)
                             for v, q in zip(r, st)] for r in h['out']], where)
                back = s.apply(y, h['side'], 'denormalize')
                expect(torch.allclose(back / u, x / u, rtol=1e-9, atol=1e-9),
                       f'{where}: inverse transform does not undo transform',
                       dict(x=x.tolist(), back=back.tolist()))
                yf = s.apply(x.float(), h['side'], 'normalize')
                expect(yf.dtype == torch.float32 and torch.allclose(yf.double(), y, rtol=1e-4,
                                                                    atol=1e-4),
                       f'{where}: single precision tensor')
            else:
                x = shape(h['x'], h['dim'])
                keep = x.clone()
                y = s.apply(x, h['side'], 'denormalize')
                expect(torch.equal(x, keep), f'{where}: inverse transform modified its input')
                compare(y / u, [[bwd(v, st[j]['n']) + SHIFT[h['side']] for j, v in enumerate(r)]
                            for r in h['out']], where)
                if not any(q['min'] == q['max'] for q in st):
                    fwd_ = s.apply(y, h['side'], 'normalize')
                    expect(torch.allclose(fwd_, x, rtol=1e-9, atol=1e-9),
                           f'{where}: transform does not undo inverse transform')
        ctx.rmdir(s.d)
        return len(hist)
    return run


def scaled(h, x):
    """Rows scaled with the specified statistics."""
    out = []
    for j, st in enumerate(h['st']):
        c = x[:, j]
        if h['kind'] == 'min-max':
            d = st['max'] - st['min']
            out.append(torch.full_like(c, float(h['lo'])) if d == 0 else
                       h['lo'] + (h['hi'] - h['lo']) * (c - st['min']) / d)
        else:
            v = math.sqrt(st['n'] * st['q'] - st['s'] ** 2) / st['n']
            out.append(torch.zeros_like(c) if v == 0 else (c - st['s'] / st['n']) / v)
    return torch.stack(out, 1)


def trained(ctx):
    """Training scales with the statistics of its training data, where it is asked to."""
    mean_std = dict(kind='mean-std')

    def stats(rows):
        return [dict(n=len(rows), s=float(c.sum()), q=float((c * c).sum())) for c in rows.T]

    def run(case):
        i, h = case
        kind = ('rnn', 'hybrid', 'rc')[i % 3]
        n_in, n_out = bool((i // 3) & 1), bool((i // 6) & 1)
        n_loss = kind == 'rc' and bool((i // 12) & 1)
        fam = Family(kind)
        xs = [torch.tensor(x, dtype=torch.float64) for x in h['data']]
        if kind == 'rc':
            lam, mu = 100 * 0.3 / (1.3 * 0.4), 100 / 2.6
            pad = []
            for x in xs:                    # normal strains 11 and 22, from a virgin state
                e = torch.zeros(len(x) + 1, 6, dtype=torch.float64)
                e[1:, 0], e[1:, 1] = x[:, 0] / 100, x[:, 1] / 100
                pad.append(e)
            xs = pad
            resp = []
            for e in xs:
                r = 2 * mu * e
                for k in (0, 1, 2):
                    r[:, k] += lam * (e[:, 0] + e[:, 1])
                resp.append(r)
            ys = [2 * r for r in resp]
        else:
            ys = [x[:, :1] + SHIFT['out'] for x in xs]
        samples = [{'features_in': x.float(), 'features_out': y.float()} for x, y in zip(xs, ys)]
        d = ctx.tmpdir('tr')
        args = dict(fam.init_args(d), is_model_in_normalized=n_in, is_model_out_normalized=n_out)
        kw = dict(n_max_epochs=0, dataset=td.TimeSeriesDatasetInMemory(samples), lr_init=0.0,
                  model_init_args=args)
        hin, hout = dict(mean_std), dict(mean_std)
        if kind == 'rnn':
            hin, hout = dict(h), dict(h)
            kw['data_scaling_type'] = h['kind']
            if h['kind'] == 'min-max':
                kw['data_scaling_parameters'] = {
                    'features_' + k: dict(norm_minimum=h['lo'], norm_maximum=h['hi'])
                    for k in ('in', 'out')}
            hout['st'] = [dict(st, s=st['s'] + SHIFT['out'] * st['n'], q=st['q'] + 2 * SHIFT['out']
                               * st['s'] + SHIFT['out'] ** 2 * st['n'], min=st['min']
                               + SHIFT['out'], max=st['max'] + SHIFT['out'])
                          for st in h['st'][:1]]
        elif kind == 'hybrid':
            hin['st'], hout['st'] = stats(torch.cat(xs)), stats(torch.cat(ys))
        else:
            kw['is_normalized_loss'], kw['is_params_stopping'] = n_loss, False
            hin['st'], hout['st'] = stats(torch.cat(xs)), stats(torch.cat(ys))
            ok = [all(float(c.max() - c.min()) > 1e-3 for c in torch.cat(v)[:, k].T)
                  for v, k in ((xs, [0, 1]), (ys, [0, 1, 2]))]
            if not all(ok):
                ctx.rmdir(d)
                return 0
        model, loss, epoch = fam.mod.train_model(**kw)
        model.eval()
        want = []
        for x, y in zip(xs, ys):
            xin = scaled(hin, x) if n_in else x
            norm = n_out or n_loss
            yt = scaled(hout, y) if norm else y
            with torch.no_grad():
                p = model(xin.float().unsqueeze(1))
            p = (p[0] if isinstance(p, tuple) else p)[:, 0].double()
            if n_loss and not n_out:
                p = scaled(hout, p)
            want.append(float(((p - yt) ** 2).mean()))
        expect(abs(loss - np.mean(want)) <= 1e-4 * max(1e-2, abs(np.mean(want))),
               f'{kind} training (inputs normalized: {n_in}, outputs: {n_out}, loss: {n_loss}): '
               f'first epoch loss {loss}, specified {np.mean(want)}')
        ctx.rmdir(d)
        return 1
    return run


def run(ctx):
    inv = ['InRange', 'ZeroMean', 'RoundTrip', 'Emit']
    r = ctx.tlc('Scaling', dict(Values={0, 1, 2, 5, 8}, MaxSamples=4, MaxRows=3, MaxOps=12, NF=2,
                                Sim=True), spec='Spec', invariants=inv,
                simulate=160 if ctx.quick else 2500, depth=30, label='random histories')
    units = (1.0, 2.0 ** -14, 2.0 ** 12, 2.0 ** -20)     # exact: powers of two
    cases = [(units[(k // 2) % 4], b) for k, b in enumerate(r.behaviours)]
    ctx.replay(cases[::2], replayer(ctx, ModelSystem), 'model scalers')
    ctx.replay(cases[1::2], replayer(ctx, DirectSystem), 'scaler objects')
    fits = [h for b in r.behaviours for h in b if h['op'] == 'fit']
    ctx.preplay(list(enumerate(fits[:96 if ctx.quick else 960])), trained(ctx),
                'training scales with its data')
