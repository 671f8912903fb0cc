"""C02: training runs of spec/Training.tla replayed on the real training loops."""
import torch
from torch.optim.optimizer import register_optimizer_step_pre_hook

from fw import expect
import time_series_data.time_dataset as td
from model_architectures.procedures.model_data_scaling import data_scaler_transform
from model_architectures.procedures.model_training import read_loss_history_from_file
from train_drv import Family, Recorder, Scripted, replayer, LR0

INV = ['UniqueBest', 'BestIsMinimum', 'EarlyRestoresBest', 'AllEpochs', 'Bounded',
       'FirstRunNumbered', 'ValidationHistoryLength', 'NoEarlyStopBeforeTrigger']


def determinism(ctx):
    """Equal seeds give equal runs (shuffled batches, random initial parameters)."""
    def run(case):
        kind, bs, seed = case
        fam = Family(kind)
        out = []
        for s in (seed, seed, seed + 1):
            d = ctx.tmpdir('seed')
            orders = []
            ds = Scripted(7, fam.n_in, fam.n_out, lambda k, i: 1 + (i * 7 + k) % 5)
            ds_ = _Logged(ds, orders)
            torch.manual_seed(len(out))
            torch.rand(3 + len(out))
            with Recorder() as rec:
                fam.mod.train_model(2, ds_, fam.init_args(d) if kind[:3] != 'hyb'
                                    else _seeded(fam, d), LR0, batch_size=bs,
                                    is_sampler_shuffle=True, seed=s)
            out.append((orders, rec.post))
            ctx.rmdir(d)
        expect(out[0][0] == out[1][0], 'equal seeds read the samples in different orders',
               out[0][0] + out[1][0])
        expect(all(torch.equal(a, b) for a, b in zip(out[0][1], out[1][1])),
               'equal seeds give different parameters')
        expect(out[0][0] != out[2][0], 'different seeds read the samples in the same order')
        for e in range(3):
            expect(sorted(out[0][0][7 * e:7 * e + 7]) == list(range(7)),
                   'a shuffled epoch does not use every sample once')
        return 3
    return run


class _Grads:
    """Parameters and gradients seen by every optimizer step."""

    def __enter__(self):
        self.steps = []
        self.h = register_optimizer_step_pre_hook(self._pre)
        return self

    def __exit__(self, *a):
        self.h.remove()

    def _pre(self, opt, *a):
        ps = [p for g in opt.param_groups for p in g['params']]
        self.steps.append([(p.detach().clone(), None if p.grad is None else p.grad.clone())
                           for p in ps])


def gradients(ctx):
    """Real data: every update uses the gradient of the (declared, scaled if so declared) loss of
    its own batch at the parameters left by the update before, and the recorded loss of an
    epoch is the mean of the losses of its batches."""
    def run(case):
        kind, r, norm, shuffle = case
        c = r['cfg']
        fam = Family(kind)
        g = torch.Generator().manual_seed(7 + c['nb'])
        bs, n = 2, 2 * c['nb'] - (1 if c['nb'] > 1 else 0)
        scale = 0.01 if 'rc' in kind else 1.0
        data = [{'features_in': scale * torch.rand(4, fam.n_in, generator=g),
                 'features_out': torch.rand(4, fam.n_out, generator=g) + i}
                for i in range(n)]
        orders = []
        ds = _Logged(td.TimeSeriesDatasetInMemory(data), orders)
        d = ctx.tmpdir('grad')
        args = _seeded(fam, d)
        kw = {}
        if kind == 'rnn':
            args.update(is_model_in_normalized=norm, is_model_out_normalized=norm)
        elif kind == 'rc':
            kw = dict(is_params_stopping=False, is_normalized_loss=norm)
        with _Grads() as rec:
            model, best, _ = fam.mod.train_model(
                c['nmax'], ds, args, LR0, batch_size=bs, is_sampler_shuffle=shuffle, seed=5, **kw)
        orders = orders[-n * (c['nmax'] + 1):]       # after those read to fit the scalers
        ps = list(model.parameters(recurse=True))
        losses = []
        for k, step in enumerate(rec.steps):
            e, b = divmod(k, c['nb'])
            ids = orders[e * n:(e + 1) * n][b * bs:(b + 1) * bs]
            x = torch.stack([data[i]['features_in'] for i in ids], 1)
            y = torch.stack([data[i]['features_out'] for i in ids], 1)
            with torch.no_grad():
                for p, (v, _) in zip(ps, step):
                    p.copy_(v)
                    p.grad = None
            if norm and kind == 'rnn':
                x = data_scaler_transform(model, x, 'features_in', mode='normalize')
            if norm and kind[:3] != 'hyb':
                y = data_scaler_transform(model, y, 'features_out', mode='normalize')
            z = model(x)
            z = z[0] if isinstance(z, tuple) else z
            if norm and kind == 'rc':
                z = data_scaler_transform(model, z, 'features_out', mode='normalize')
            loss = ((z - y) ** 2).mean()
            loss.backward()
            losses.append(float(loss))
            for p, (_, w) in zip(ps, step):
                m = max(1.0, float(p.grad.abs().max()))
                expect(w is not None and bool(((p.grad - w).abs() <= 1e-4 * m).all()),
                       f'update {k} does not use the gradient of the loss of its own batch',
                       dict(used=None if w is None else w.tolist(), specified=p.grad.tolist()))
        _, _, hist, _ = read_loss_history_from_file(d + '/loss_history_record.pkl')
        nb = c['nb']
        want = [sum(losses[e * nb:(e + 1) * nb]) / nb for e in range(c['nmax'] + 1)]
        expect(len(hist) == len(want) and all(abs(float(a) - b) <= 1e-4 * abs(b)
                                              for a, b in zip(hist, want)),
               'recorded losses are not the means over the batches', dict(got=hist, spec=want))
        ctx.rmdir(d)
        return len(rec.steps)
    return run


def _seeded(fam, d):
    torch.manual_seed(0)
    return fam.init_args(d)


class _Logged(torch.utils.data.Dataset):
    def __init__(self, ds, log):
        self.ds, self.log = ds, log

    def __len__(self):
        return len(self.ds)

    def __getitem__(self, i):
        x = self.ds[i]
        self.log.append(int(i))
        return x


def run(ctx):
    base = dict(Early={False}, Freqs={1}, Trigs={1}, VLevels={1}, ParamStop={False},
                Resumes={'init', 'best', 'last', 'ep'}, Sim=False)
    # exhaustive design check
    ctx.tlc('Training', dict(base, MaxRuns=2, NMax={0, 2} if ctx.quick else {0, 1, 3},
                             Batches={1, 2}, Every={0, 2}, Scheds={'none'}, Levels={1, 2}),
            spec='Spec', invariants=INV, label='exhaustive design')
    # all loss orders of a three-epoch run (ties included)
    r = ctx.tlc('Training', dict(base, MaxRuns=1, NMax={2}, Batches={1}, Every={0, 1, 2},
                                 Scheds={'none'}, Levels={1, 2, 3}),
                spec='Spec', invariants=INV + ['Emit'], label='all loss orders')
    for i, k in enumerate(('rnn', 'rc', 'hybrid', 'hybridrc')):
        ctx.replay(r.behaviours if not ctx.quick else r.behaviours[i::4],
                   replayer(ctx, k, 1), f'{k}: all loss orders')
    n = 40 if ctx.quick else 400
    r = ctx.tlc('Training', dict(base, MaxRuns=3, NMax={0, 1, 2, 3, 5}, Batches={1, 2, 3},
                                 Every={0, 1, 2, 3}, Scheds={'none', 'steplr', 'explr', 'linlr'},
                                 Levels={1, 2, 3, 4}, Sim=True),
                spec='Spec', invariants=INV + ['Emit'], simulate=n * 3, depth=300,
                label='random runs with resume')
    for i, k in enumerate(('rnn', 'rc', 'hybrid', 'hybridrc')):
        b = r.behaviours[i::4]
        ctx.replay(b[::2], replayer(ctx, k, 1), f'{k}: random runs, batch size 1')
        ctx.replay(b[1::2], replayer(ctx, k, 2, seed=3), f'{k}: random runs, batch size 2, seeded')
    first = [x[0] for x in r.behaviours if x[0]['cfg']['nmax'] > 0 and x[0]['cfg']['nb'] > 1]
    m = 4 if ctx.quick else 40
    ctx.replay([(k, first[(3 * j + i) % len(first)], j % 2 == 0, j % 4 >= 2) for i, k in
                enumerate(('rnn', 'rc', 'hybrid', 'hybridrc')) for j in range(m)], gradients(ctx),
               'gradient of each update')
    ctx.replay([(k, bs, ctx.seed + 10) for k in ('rnn', 'rc', 'hybrid', 'hybridrc') for bs in (1, 3)],
               determinism(ctx), 'seeded determinism')
