"""Drive the real training loops with scripted losses and observe them (C02, C03)."""
import os
import pickle

import numpy as np
import torch
from torch.optim.optimizer import (register_optimizer_step_post_hook,
                                   register_optimizer_step_pre_hook)

from fw import Violation, expect
import model_architectures.rnn_base_model.train.training as rnn_tr
import model_architectures.rc_base_model.train.training as rc_tr
import model_architectures.hybrid_base_model.train.training as hyb_tr
from model_architectures.hybrid_base_model.model.hybridized_model import set_hybridized_model
from model_architectures.rc_base_model.model.recurrent_model import RecurrentConstitutiveModel
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from model_architectures.procedures.model_training import (read_loss_history_from_file,
                                                           read_lr_history_from_file)

BIG = 2.0 ** 40     # targets so large that the model output is lost in rounding:
UNIT = BIG * BIG    # the mse loss of a sample of level l is exactly l**2 * UNIT
N_TIME = 3
LR0 = 2.0 ** -10


class Scripted(torch.utils.data.Dataset):
    """Sample i, read for the k-th time, has the level script(k, i) (so loss level**2)."""

    def __init__(self, n, n_in, n_out, script, on_first=None):
        self.n, self.n_in, self.n_out, self.script = n, n_in, n_out, script
        self.count = [0] * n
        self.on_first = on_first

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i >= self.n:
            raise IndexError
        k = self.count[i]
        self.count[i] += 1
        if i == 0 and self.on_first is not None:
            self.on_first(k)
        x = torch.zeros(N_TIME, self.n_in)
        x[1:, 0] = torch.tensor([0.01, 0.02]) * (1 + i)
        return {'features_in': x,
                'features_out': torch.full((N_TIME, self.n_out), BIG * self.script(k, i))}


class Recorder:
    """Parameters and learning rate at every optimizer step (global optimizer hooks)."""

    def __enter__(self):
        self.pre, self.post, self.lr = [], [], []
        h1 = register_optimizer_step_pre_hook(self._pre)
        h2 = register_optimizer_step_post_hook(self._post)
        self.h = (h1, h2)
        return self

    def __exit__(self, *a):
        for h in self.h:
            h.remove()

    @staticmethod
    def flat(params):
        return torch.sort(torch.cat([p.detach().reshape(-1).double() for p in params])).values

    def _params(self, opt):
        return self.flat([p for g in opt.param_groups for p in g['params']])

    def _pre(self, opt, *a):
        self.pre.append(self._params(opt))
        self.lr.append(opt.param_groups[0]['lr'])

    def _post(self, opt, *a):
        self.post.append(self._params(opt))


class Family:
    """One kind of trainable model."""

    def __init__(self, kind):
        self.kind = kind
        self.mod = dict(rnn=rnn_tr, rc=rc_tr, hybrid=hyb_tr, hybridrc=hyb_tr)[kind]
        self.n_in, self.n_out = dict(rnn=(2, 1), rc=(6, 6), hybrid=(2, 1), hybridrc=(6, 6))[kind]
        self.name = dict(rnn='gru_material_model', rc='wrapper_recurrent_model',
                         hybrid='hybrid_model', hybridrc='hybrid_model')[kind]
        self.prefix = 'mat_' if kind == 'hybridrc' else ''      # labels of recorded parameters

    def init_args(self, d, e_bounds=(50.0, 150.0)):
        if self.kind == 'rnn':
            return dict(n_features_in=2, n_features_out=1, hidden_layer_size=2,
                        model_directory=d)
        if self.kind == 'rc':
            return dict(n_features_in=6, n_features_out=6,
                        learnable_parameters={
                            'E': dict(initial_value=100.0, bounds=e_bounds),
                            'v': dict(initial_value=0.3, bounds=(0.1, 0.45))},
                        strain_formulation='infinitesimal', problem_type=4,
                        material_model_name='elastic',
                        material_model_parameters={'elastic_symmetry': 'isotropic',
                                                   'E': 100.0, 'v': 0.3},
                        model_directory=d)
        if self.kind == 'hybridrc':
            args = Family('rc').init_args(None, e_bounds)
            return dict(n_features_in=6, n_features_out=6, model_directory=d, hyb_models_dict={
                'mat': set_hybridized_model(RecurrentConstitutiveModel, (0, 0), model_init_args=args)})
        gru = set_hybridized_model(GRURNNModel, (0, 0),
                                   model_init_args=dict(n_features_in=2, n_features_out=1,
                                                        hidden_layer_size=2,
                                                        model_directory=None))
        return dict(n_features_in=2, n_features_out=1, hyb_models_dict={'gru': gru},
                    model_directory=d)


def fname(name, f, optim=False):
    base = name + ('_optim' if optim else '')
    if f['kind'] == 'init':
        return base + '-init.pt'
    if f['kind'] == 'ep':
        return f'{base}-{f["e"]}.pt'
    return f'{base}-{f["e"]}-best.pt'


def states(d):
    return sorted(f for f in os.listdir(d) if f.endswith('.pt'))


def replayer(ctx, kind, bs, seed=None):
    fam = Family(kind)

    def run(runs):
        d = ctx.tmpdir('train')
        versions = {}
        try:
            for ir, r in enumerate(runs):
                one_run(fam, d, r, bs, versions, f'run {ir + 1}', seed)
        finally:
            ctx.rmdir(d)
        return sum(r['epochs'] for r in runs)
    return run


def check_files(fam, d, files, optim, where, versions=None):
    want = sorted([fname(fam.name, f) for f in files] + [fname(fam.name, f, True) for f in optim])
    got = states(d)
    expect(got == want, f'{where}: stored states differ',
           dict(missing=sorted(set(want) - set(got)), unexpected=sorted(set(got) - set(want))))
    if versions is None:
        return
    for f in files:
        sd = torch.load(os.path.join(d, fname(fam.name, f)))
        v = Recorder.flat(sd.values())
        if not torch.equal(v, versions[f['v']]):
            who = [k for k, x in versions.items() if torch.equal(v, x)]
            raise Violation(f'{where}: state {fname(fam.name, f)} holds parameter version {who}, '
                            f'specified {f["v"]}')
    for f in optim:
        s = torch.load(os.path.join(d, fname(fam.name, f, True)))
        steps = {int(x['step']) for x in s['state']['state'].values()}
        expect(s['epoch'] == f['e'] and steps == {f['v']},
               f'{where}: optimizer state {fname(fam.name, f, True)} after {steps} steps '
               f'(epoch {s["epoch"]}), specified {f["v"]}')


def one_run(fam, d, r, bs, versions, where, seed):
    c = r['cfg']
    nb = c['nb']
    n = nb * bs - (1 if bs > 1 and nb > 1 else 0)    # a partial last batch
    level = [[int(round(x ** 0.5)) for x in e] for e in r['losses']]
    seen = []

    def script(k, i):
        if k >= len(level):
            raise Violation(f'{where}: epoch {k} trained, specified last epoch {len(level) - 1}')
        return level[k][i // bs]

    ds = Scripted(n, fam.n_in, fam.n_out, script,
                  on_first=lambda k: seen.append(states(d)))
    pstop = c['pstop']
    kw = dict(n_max_epochs=c['nmax'], dataset=ds, lr_init=LR0, batch_size=bs,
              save_every=c['every'] or None, seed=seed,
              model_init_args=fam.init_args(d, (99.0, 101.0) if pstop else (50.0, 150.0)))
    if pstop:
        kw['lr_init'] = 64.0                         # parameters saturate in the first step
    lr0 = kw['lr_init']
    if fam.kind == 'rc':
        kw['is_params_stopping'] = pstop
        if pstop:
            kw['params_stopping_kwargs'] = dict(convergence_tolerance=1e-4,
                                                trigger_tolerance=c['trig'])
    if c['sched'] != 'none':
        kw['lr_scheduler_type'] = c['sched']
        kw['lr_scheduler_kwargs'] = dict(steplr=dict(step_size=2, gamma=0.5),
                                         explr=dict(gamma=0.5),
                                         linlr=dict(start_factor=0.5, end_factor=1.0,
                                                    total_iters=4))[c['sched']]
    if c['load'] != 'new':
        kw['model_load_state'] = c['ep'] if c['load'] == 'ep' else c['load']
    if c['early']:
        def vscript(k, i):
            if k >= len(r['vals']):
                raise Violation(f'{where}: {k + 1} validations, specified {len(r["vals"])}')
            return r['vals'][k]
        vds = Scripted(3, fam.n_in, fam.n_out, vscript)
        kw['is_early_stopping'] = True
        kw['early_stopping_kwargs'] = dict(validation_dataset=vds, validation_frequency=c['freq'],
                                           trigger_tolerance=c['trig'], improvement_tolerance=0.4)
    with Recorder() as rec:
        model, best_loss, best_epoch = fam.mod.train_model(**kw)
    # epochs and batches
    ne = r['epochs']
    expect(ds.count == [ne] * n, f'{where}: each sample used {ds.count} times, specified {ne}')
    expect(len(rec.post) == ne * nb, f'{where}: {len(rec.post)} updates, specified {ne * nb}')
    if c['early']:
        expect(vds.count == [len(r['vals'])] * 3,
               f'{where}: {vds.count} validations, specified {len(r["vals"])}')
    # learning rate in use
    want = [lr0 * x / 4096 for x in r['lr'] for _ in range(nb)]
    expect(np.allclose(rec.lr, want, rtol=1e-9), f'{where}: learning rates differ',
           dict(used=rec.lr, specified=want))
    # parameter versions
    track = not pstop
    if track:
        top0 = r['top'] - ne * nb
        if c['start'] in versions:
            expect(torch.equal(versions[c['start']], rec.pre[0]),
                   f'{where}: training did not start from the loaded state')
        versions[c['start']] = rec.pre[0]
        for k, v in enumerate(rec.post):
            versions[top0 + 1 + k] = v
    # what is stored when each epoch starts: as left by the beginning or the previous epoch
    for e, lg in enumerate([dict(files=c['f0'], optim=c['o0'])] + r['log'][:-1]):
        want = sorted([fname(fam.name, f) for f in lg['files']]
                      + [fname(fam.name, f, True) for f in lg['optim']])
        expect(seen[e] == want, f'{where}: states stored before epoch {e} differ',
               dict(stored=seen[e], specified=want))
    check_files(fam, d, r['files'], r['optim'], where, versions if track else None)
    if track:
        got = Recorder.flat(model.state_dict().values())
        expect(torch.equal(got, versions[r['final']]),
               f'{where}: the returned model does not hold parameter version {r["final"]}')
    # histories
    rec_path = os.path.join(d, 'loss_history_record.pkl')
    _, ltype, train_hist, val_hist = read_loss_history_from_file(rec_path)
    want = [UNIT * sum(e) / nb for e in r['losses']]
    expect(len(train_hist) == ne and np.allclose([float(x) for x in train_hist], want, rtol=1e-6),
           f'{where}: training loss history differs', dict(recorded=train_hist, specified=want))
    if c['early']:
        want = [UNIT * x for x in r['vhist']]
        expect(val_hist is not None and len(val_hist) == len(want)
               and np.allclose([float(x) for x in val_hist], want, rtol=1e-6),
               f'{where}: validation loss history differs',
               dict(recorded=val_hist, specified=want))
    else:
        expect(val_hist is None, f'{where}: unexpected validation loss history')
    ltyp, lrs = read_lr_history_from_file(rec_path)
    want = [lr0 * x / 4096 for x in (r['lrh'] if c['sched'] != 'none' else r['lr'])]
    lrs = [float(np.asarray(x).reshape(-1)[0]) for x in lrs]
    expect(len(lrs) == ne and np.allclose(lrs, want, rtol=1e-9),
           f'{where}: learning rate history differs', dict(recorded=lrs, specified=want))
    expect(ltyp == kw.get('lr_scheduler_type'), f'{where}: scheduler type {ltyp} recorded')
    with open(rec_path, 'rb') as fh:
        expect(pickle.load(fh)['n_max_epochs'] == c['nmax'], f'{where}: recorded n_max_epochs')
    # returned best loss and epoch
    expect(np.isclose(best_loss, UNIT * r['best'] / nb, rtol=1e-6) and
           best_epoch == r['bestepoch'],
           f'{where}: returned best loss {best_loss / UNIT} at epoch {best_epoch}, specified '
           f'{r["best"] / nb} at {r["bestepoch"]}')
    if fam.kind in ('rc', 'hybridrc'):
        check_parameter_records(fam, d, rec, r, nb, where, track, versions, model)


def check_parameter_records(fam, d, rec, r, nb, where, track, versions, model):
    """Per-epoch parameter history (mean over the steps of the epoch) and best parameters."""
    hist, bounds = fam.mod.read_parameters_history_from_file(
        os.path.join(d, 'parameters_history_record.pkl'))
    best, _ = fam.mod.read_best_parameters_from_file(os.path.join(d, 'parameters_best.pkl'))
    expect(set(hist) == {fam.prefix + 'E', fam.prefix + 'v'} == set(best) and all(len(h) == r['epochs'] + 1 for h in hist.values()),
           f'{where}: parameter history length differs')
    expect({k: tuple(v) for k, v in bounds.items()} == {fam.prefix + 'E': (50.0, 150.0) if track else (99.0, 101.0),
                                                        fam.prefix + 'v': (0.1, 0.45)},
           f'{where}: recorded bounds {bounds}')
    if not track:
        return
    # sorted flat vectors: v (< 1) first, E second
    for k, name in ((0, fam.prefix + 'v'), (1, fam.prefix + 'E')):
        want = [float(rec.pre[0][k])] + [float(np.mean([float(x[k]) for x in
                                         rec.post[e * nb:(e + 1) * nb]]))
                                         for e in range(r['epochs'])]
        expect(np.allclose(hist[name], want, rtol=1e-7),
               f'{where}: recorded history of parameter {name} differs',
               dict(recorded=hist[name], specified=want))
        bv = [f['v'] for f in r['files'] if f['kind'] == 'best'][0]
        expect(np.isclose(best[name], float(versions[bv][k]), rtol=1e-9),
               f'{where}: stored best parameter {name} is {best[name]}, '
               f'specified {float(versions[bv][k])}')
