"""C06: prediction histories of spec/Predict.tla replayed on the three real predict functions."""
import hashlib
import os
import shutil

import numpy as np
import torch

from fw import expect, expect_raises
import time_series_data.time_dataset as td
from model_architectures.hybrid_base_model.model.hybrid_model import HybridModel
from model_architectures.hybrid_base_model.model.hybridized_model import set_hybridized_model
from model_architectures.hybrid_base_model.predict.prediction import predict as hyb_predict
from model_architectures.procedures.model_data_scaling import set_data_scalers
from model_architectures.procedures.model_prediction import load_sample_predictions
from model_architectures.procedures.model_state_files import save_model_state
from model_architectures.rc_base_model.model.recurrent_model import RecurrentConstitutiveModel
from model_architectures.rc_base_model.predict.prediction import predict as rc_predict
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from model_architectures.rnn_base_model.predict.prediction import predict as rnn_predict
from utilities.data_scalers import TorchMinMaxScaler, TorchStandardScaler

N_TIME = 4


class Fam:
    """A model family: build a model, set the parameters of a version, the reference output."""

    def __init__(self, kind, norm):
        self.kind, self.norm = kind, norm
        self.predict = dict(rnn=rnn_predict, rc=rc_predict, hybrid=hyb_predict)[kind]
        self.n_in = 6 if kind == 'rc' else 2
        self.n_out = 6 if kind == 'rc' else 2

    def build(self, d):
        nrm = dict(is_model_in_normalized=self.norm, is_model_out_normalized=self.norm)
        if self.kind == 'rnn':
            m = GRURNNModel(2, 2, 3, d, n_recurrent_layers=2, dropout=0.4, **nrm)
        elif self.kind == 'rc':
            m = RecurrentConstitutiveModel(
                6, 6, {'E': dict(initial_value=100.0, bounds=(50.0, 150.0)),
                       'v': dict(initial_value=0.3, bounds=(0.1, 0.45))},
                strain_formulation='infinitesimal', problem_type=4, material_model_name='elastic',
                material_model_parameters={'elastic_symmetry': 'isotropic', 'E': 100.0, 'v': 0.3},
                model_directory=d, **nrm)
        else:
            gru = set_hybridized_model(GRURNNModel, (0, 0), model_init_args=dict(
                n_features_in=2, n_features_out=2, hidden_layer_size=3, n_recurrent_layers=2,
                dropout=0.4, model_directory=None))
            m = HybridModel(2, 2, {'gru': gru}, model_directory=d, **nrm)
        if self.norm:
            one = torch.ones
            set_data_scalers(
                m, TorchMinMaxScaler(self.n_in, minimum=-one(self.n_in), maximum=3 * one(self.n_in)),
                TorchStandardScaler(self.n_out, mean=torch.arange(self.n_out) + 5.0,
                                    std=4.0 * one(self.n_out)))
        return m

    def set_version(self, m, v):
        g = torch.Generator().manual_seed(v)
        with torch.no_grad():
            for k, p in sorted(m.named_parameters()):
                if self.kind == 'rc':
                    p.fill_((60.0 + v) if 'E' in k else 0.2 + 0.005 * v)
                else:
                    p.copy_(torch.randn(p.shape, generator=g) * 0.6)

    def reference(self, m, x, hidden=None):
        """Model output of one sample in physical units (scaling computed here)."""
        with torch.no_grad():
            xi = (x + 1.0) / 2.0 - 1.0 if self.norm else x
            y = m(xi.unsqueeze(1), *([hidden.unsqueeze(1)] if hidden is not None else []))
            y = (y[0] if isinstance(y, tuple) else y)[:, 0, :]
            return y * 4.0 + torch.arange(self.n_out) + 5.0 if self.norm else y


def samples(fam, n, truth, hidden):
    out = []
    for i in range(n):
        g = torch.Generator().manual_seed(1000 + i)
        s = {'features_in': torch.randn(N_TIME, fam.n_in, generator=g) * 0.05}
        if truth:
            s['features_out'] = torch.randn(N_TIME, fam.n_out, generator=g) * 3.0
        if hidden and fam.kind == 'rnn':
            s['hidden_features_in'] = torch.randn(2, 3, generator=g)
        out.append(s)
    return out


def digest(root):
    out = {}
    for base, _, files in os.walk(root):
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = hashlib.sha1(fh.read()).hexdigest()
    return out


def load_arg(h):
    return {'init': 'init', 'def': 'default', 'ep': h['e'], 'last': 'last', 'best': 'best',
            'mem': None}[h['use']]


def replayer(ctx, kind, norm, hidden=False):
    fam = Fam(kind, norm)

    def run(hist):
        d, pd = ctx.tmpdir('model'), ctx.tmpdir('pred')
        try:
            m = fam.build(d)
            fam.set_version(m, 1)
            save_model_state(m, state_type='init')
            ref = fam.build(ctx.tmpdir('ref'))
            for i, h in enumerate(hist):
                step(fam, d, pd, m, ref, h, f'step {i + 1} ({h["op"]})', hidden)
                got = sorted(os.listdir(pd))
                want = sorted(f'prediction_set_{x["k"]}' for x in h['dirs'])
                expect(got == want, f'step {i + 1}: results folders {got}, specified {want}')
        finally:
            ctx.rmdir(d)
            ctx.rmdir(pd)
        return len(hist)
    return run


def step(fam, d, pd, m, ref, h, where, hidden):
    if h['op'] == 'save':
        fam.set_version(m, h['v'])
        if h['k'] == 'best':
            save_model_state(m, epoch=h['e'], state_type='best', is_remove_posterior=False)
        else:
            save_model_state(m, epoch=None if h['e'] == -1 else h['e'], state_type='epoch'
                             if h['k'] == 'epoch' else None, is_remove_posterior=False)
        return
    if h['op'] == 'delete':
        shutil.rmtree(os.path.join(pd, f'prediction_set_{h["k"]}'))
        return
    before, old = digest(d), digest(pd)
    ss = samples(fam, h['ns'], h['truth'], hidden)
    ds = td.TimeSeriesDatasetInMemory(ss)
    nl = h['nl'] and fam.norm
    kw = dict(predict_directory=pd if h['write'] else None, batch_size=h['bs'],
              is_normalized_loss=nl)
    if h['use'] == 'mem':
        kw['model'] = m
    else:
        kw['model_load_state'] = load_arg(h)
    if not h['ok']:
        expect_raises(lambda: fam.predict(ds, d, **kw), f'{where}: prediction with a missing state')
        expect(digest(d) == before and digest(pd) == old, f'{where}: refused prediction left files')
        return
    sub, loss = fam.predict(ds, d, **kw)
    expect(digest(d) == before, f'{where}: prediction changed the model directory')
    new = digest(pd)
    expect(all(new.get(k) == v for k, v in old.items()), f'{where}: earlier results were changed')
    fam.set_version(ref, h['v'])
    ref.eval()
    ys = [fam.reference(ref, s['features_in'], s.get('hidden_features_in')) for s in ss]
    sc = 16.0 if nl else 1.0               # normalized loss: output deviation 4
    want = [float(torch.mean((y - s['features_out']) ** 2)) / sc for y, s in zip(ys, ss)] \
        if h['truth'] else []
    if h['truth'] and h['ns']:
        expect(loss is not None and np.isclose(float(loss), np.mean(want), rtol=2e-4),
               f'{where}: average loss {loss}, specified {np.mean(want)}')
    elif h['ns']:
        expect(loss is None, f'{where}: average loss {loss} without ground truth')
    if not h['write']:
        expect(sub is None and new == old, f'{where}: results written without a results folder')
        return
    expect(os.path.basename(sub) == f'prediction_set_{h["k"]}', f'{where}: results in {sub}')
    got = sorted(f for f in os.listdir(sub) if f.startswith('prediction_sample_'))
    expect(got == sorted(f'prediction_sample_{i}.pkl' for i in range(h['ns'])),
           f'{where}: result files {got}')
    for i, (s, y) in enumerate(zip(ss, ys)):
        r = load_sample_predictions(os.path.join(sub, f'prediction_sample_{i}.pkl'))
        expect(torch.allclose(r['features_out'], y, rtol=1e-4, atol=2e-4),
               f'{where}: result {i} is not the output of sample {i}',
               dict(got=r['features_out'].tolist(), spec=y.tolist()))
        if h['truth']:
            expect(torch.equal(r['targets'], s['features_out']), f'{where}: ground truth {i}')
            nature, ltype, l, isn = r['prediction_loss_data']
            expect(np.isclose(float(l), want[i], rtol=2e-4) and bool(isn) == bool(nl)
                   and ltype == 'mse' and nature == 'features_out',
                   f'{where}: loss of sample {i}', dict(got=float(l), spec=want[i]))
        else:
            expect(r['targets'] is None and r['prediction_loss_data'][2] is None,
                   f'{where}: result {i} has a ground truth')


def partial(ctx):
    """A data set in which only some samples have a ground truth has no average loss."""
    def run(case):
        kind, have = case
        fam = Fam(kind, False)
        d, pd = ctx.tmpdir('model'), ctx.tmpdir('pred')
        m = fam.build(d)
        fam.set_version(m, 3)
        ss = samples(fam, len(have), True, False)
        for s, ok in zip(ss, have):
            if not ok:
                s.pop('features_out')
        sub, loss = fam.predict(td.TimeSeriesDatasetInMemory(ss), d, model=m, predict_directory=pd)
        expect((loss is None) == (not all(have)), f'average loss {loss}, ground truths {have}')
        for i, ok in enumerate(have):
            r = load_sample_predictions(os.path.join(sub, f'prediction_sample_{i}.pkl'))
            expect((r['targets'] is not None) == ok and
                   (r['prediction_loss_data'][2] is not None) == ok, f'ground truth of sample {i}')
        ctx.rmdir(d)
        ctx.rmdir(pd)
        return len(have)
    return run


def run(ctx):
    inv = ['DistinctDirs']
    base = dict(Ns={1, 2, 5, 7}, BatchSizes={1, 2, 3, 4, 50}, Epochs={0, 1, 4, 10})
    ctx.tlc('Predict', dict(Ns={1}, BatchSizes={1}, Epochs={0, 2}, MaxOps=3 if ctx.quick else 4,
                            Sim=False),
            spec='Spec', invariants=inv, properties=['NeverOverwritten'], view='View',
            label='exhaustive design')
    n = 40 if ctx.quick else 220
    r = ctx.tlc('Predict', dict(base, MaxOps=10, Sim=True), spec='Spec', invariants=inv + ['Emit'],
                simulate=6 * n, depth=40, label='random histories')
    kinds = [(kind, norm) for kind in ('rnn', 'rc', 'hybrid') for norm in (False, True)]
    torch.set_num_threads(1)
    ctx.preplays([(r.behaviours[k::6], replayer(ctx, kind, norm, hidden=norm),
                   f'{kind}{", normalized" if norm else ""}') for k, (kind, norm) in enumerate(kinds)])
    ctx.replay([(k, h) for k in ('rnn', 'rc', 'hybrid') for h in
                ((True, False), (False, True), (True, True, False, True), (True, True))],
               partial(ctx), 'partial ground truth')
