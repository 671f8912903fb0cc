"""C03: early stopping (spec/Training.tla) and parameter convergence (spec/ParamConv.tla)."""
import torch

import time_series_data.time_dataset as td
from fw import expect
from model_architectures.procedures.model_training import read_loss_history_from_file
from train_drv import Family, replayer
from c02 import INV


def convergence(case):
    check = Family('rc').mod.check_model_parameters_convergence
    c = case['cfg']
    for n, d in enumerate(case['dec'], 1):
        hist = {'a': [float(x[0]) for x in case['hist'][:n]],
                'b': [float(x[1]) for x in case['hist'][:n]]}
        keep = {k: list(v) for k, v in hist.items()}
        conv, status = check(hist, convergence_tolerance=c['tol'] / 1000,
                             trigger_tolerance=c['trig'], min_hist_length=c['minlen'])
        expect(bool(conv) == d['conv'],
               f'convergence decision {bool(conv)} after {n} entries, specified {d["conv"]}')
        expect(bool(status['a']['is_converged']) == d['c1']
               and bool(status['b']['is_converged']) == d['c2'],
               f'convergence status of a parameter differs after {n} entries')
        expect(hist == keep, 'the parameter history was modified')
    return len(case['dec'])


def modes(ctx):
    """Validating between epochs does not change how the model is trained: a network with
    dropout (and frozen parameters, learning rate zero) is validated without and trained with it."""
    def run(case):
        layers, seed = case
        g = torch.Generator().manual_seed(seed)
        ds = td.TimeSeriesDatasetInMemory([
            {'features_in': torch.rand(5, 2, generator=g),
             'features_out': torch.rand(5, 1, generator=g)} for _ in range(3)])
        d = ctx.tmpdir('modes')
        fam = Family('rnn')
        args = dict(fam.init_args(d), hidden_layer_size=16, n_recurrent_layers=layers,
                    dropout=0.5)
        model, _, _ = fam.mod.train_model(
            4, ds, args, 0.0, is_early_stopping=True, seed=seed,
            early_stopping_kwargs=dict(validation_dataset=ds, validation_frequency=1,
                                       trigger_tolerance=50))
        _, _, train, val = read_loss_history_from_file(d + '/loss_history_record.pkl')
        model.eval()
        with torch.no_grad():
            want = sum(float(((model(s['features_in'].unsqueeze(1))[0][:, 0]
                               - s['features_out']) ** 2).mean()) for s in ds) / 3
        expect(all(abs(float(v) - want) < 1e-6 for v in val),
               f'validation losses {val} of a fixed network, specified {want}')
        t = [float(x) for x in train]
        expect(len(set(t)) == len(t) and all(abs(x - want) > 1e-9 for x in t),
               f'training losses {t}: the network was not trained in training mode after a '
               'validation')
        ctx.rmdir(d)
        return 5
    return run


def run(ctx):
    base = dict(Early={True}, ParamStop={False}, Resumes={'init', 'ep'}, Sim=False)
    # exhaustive: every validation sequence of a six-epoch run
    r = ctx.tlc('Training', dict(base, MaxRuns=1, NMax={5}, Batches={1}, Every={0, 2},
                                 Scheds={'none'}, Levels={1}, VLevels={5, 6, 7}, Freqs={1, 2},
                                 Trigs={1, 2}), spec='Spec', invariants=INV + ['Emit'],
                label='all validation orders')
    b = r.behaviours
    step = 11 if ctx.quick else 3
    for i, k in enumerate(('rnn', 'rc', 'hybrid', 'hybridrc')):
        ctx.replay(b[i::step], replayer(ctx, k, 1), f'{k}: validation orders')
    n = 25 if ctx.quick else 300
    r = ctx.tlc('Training', dict(base, MaxRuns=2, NMax={0, 3, 5, 8}, Batches={1, 2},
                                 Every={0, 1, 2, 3}, Scheds={'none', 'steplr'}, Levels={1, 2, 3, 4},
                                 VLevels={3, 4, 5, 6, 7, 8, 9}, Freqs={1, 2, 3}, Trigs={1, 2, 3},
                                 Sim=True),
                spec='Spec', invariants=INV + ['Emit'], simulate=3 * n, depth=300,
                label='random early stopping runs')
    for i, k in enumerate(('rnn', 'rc', 'hybrid', 'hybridrc')):
        ctx.replay(r.behaviours[i::4], replayer(ctx, k, 1 + i % 2), f'{k}: early stopping')
    # parameter convergence, with and without early stopping
    r = ctx.tlc('Training', dict(base, Early={True, False}, ParamStop={True, False}, MaxRuns=1,
                                 NMax={2, 4, 6}, Batches={1, 2}, Every={0, 2}, Scheds={'none'},
                                 Levels={1, 2}, VLevels={1, 2, 3}, Freqs={1, 2}, Trigs={1, 2, 3},
                                 Sim=True),
                spec='Spec', invariants=INV + ['Emit'], simulate=40 if ctx.quick else 400,
                depth=300, label='random convergence stopping runs')
    ctx.replay(r.behaviours, replayer(ctx, 'rc', 1), 'rc: parameters convergence stopping')
    r = ctx.tlc('ParamConv', dict(Values={0, 10, 20}, MaxLen=2, Trigs={1, 2}, Tols={105, 500},
                                  MinLens={0, 2}, Sim=False),
                spec='Spec', invariants=['NotTooEarly', 'Constant', 'Emit'],
                label='exhaustive histories')
    ctx.replay(r.behaviours, convergence, 'convergence criterion: all short histories')
    r = ctx.tlc('ParamConv', dict(Values={0, 10, 11, 20}, MaxLen=8, Trigs={1, 2, 3},
                                  Tols={105, 500, 1100}, MinLens={0, 2, 5}, Sim=True),
                spec='Spec', invariants=['NotTooEarly', 'Constant', 'Emit'],
                simulate=400 if ctx.quick else 4000, depth=30, label='random histories')
    ctx.replay(r.behaviours, convergence, 'convergence criterion: random histories')
    ctx.replay([(2, 0), (3, 1), (4, 2)], modes(ctx), 'validation and training modes')
