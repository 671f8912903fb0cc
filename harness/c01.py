"""C01: replay checkpoint-store behaviours of spec/Checkpoint.tla on the real save/load code."""
import os

import torch

from fw import expect
from model_architectures.procedures.model_state_files import save_model_state, load_model_state
from model_architectures.procedures.model_training import save_training_state

# names of the models sharing a directory: prefixes, digits, regular expression characters
NAMES = [('net', 'net5'), ('gru_material_model', 'gru_material_model_2'), ('a.b', 'axb'),
         ('net', 'net_old'), ('m(1)+', 'm1')]
BYSTANDERS = ['{0}-7.pt.bak', '{0}-1-best.pt.tmp', 'loss_history_record.pkl', 'x{0}-9.pt',
              '{0}_optim-9.pt.old', '{0}-best', '{0}.txt']


class Model(torch.nn.Module):
    def __init__(self, directory, name):
        super().__init__()
        self.model_directory = directory
        self.model_name = name
        self.layer = torch.nn.Linear(2, 1)
        self.p = torch.nn.Parameter(torch.zeros(3))
        self.register_buffer('buf', torch.zeros(1))
        self.set(0)

    def set(self, v):
        with torch.no_grad():
            for i, (_, t) in enumerate(sorted(self.state_dict().items())):
                t.fill_(v + 1000 * i)

    @staticmethod
    def version(sd):
        vals = [t.reshape(-1) for _, t in sorted(sd.items())]
        v = {float(x) - 1000 * i for i, t in enumerate(vals) for x in t}
        return int(v.pop()) if len(v) == 1 else tuple(sorted(v))


def fname(name, f, optim=False):
    base = name + ('_optim' if optim else '')
    if f['kind'] == 'init':
        return base + '-init.pt'
    if f['kind'] == 'def':
        return base + '.pt'
    if f['kind'] == 'ep':
        return f'{base}-{f["e"]}.pt'
    return base + (f'-{f["e"]}' if f['e'] != -1 else '') + '-best.pt'


def replayer(ctx, names):
    def run(hist):
        d = ctx.tmpdir('m')
        models = {'A': Model(d, names[0]), 'B': Model(d, names[1])}
        nm = dict(A=names[0], B=names[1])
        opts = {k: torch.optim.SGD(m.parameters(), lr=1.0) for k, m in models.items()}
        by = sorted({b.format(names[0]) for b in BYSTANDERS})
        for b in by:
            with open(os.path.join(d, b), 'w') as fh:
                fh.write(b)
        try:
            for i, h in enumerate(hist):
                o = h['o']
                m = models[o['m']]
                ep = None if o['e'] == -1 else o['e']
                err, ret = False, None
                # discarding later epochs is the default
                rm = {} if o['rm'] else dict(is_remove_posterior=False)
                if o['op'] == 'load':
                    what = dict(init='init', best='best', last='last', ep=ep)
                    what['def'] = None
                    try:
                        ret = load_model_state(m, what[o['kind']], **rm)
                    except RuntimeError:
                        err = True
                else:
                    m.set(o['v'])
                    opts[o['m']].param_groups[0]['lr'] = float(o['v'])
                    if o['op'] == 'save':
                        save_model_state(m, state_type=o['kind'], epoch=ep, **rm)
                    else:
                        save_training_state(m, opts[o['m']], o['kind'], epoch=ep, **rm)
                where = f'step {i + 1} {o}'
                if o['op'] == 'load':
                    expect(err == h['err'], f'{where}: load error {err}, specified {h["err"]}')
                    want = None if h['ret'] == -1 else h['ret']
                    expect(err or ret == want, f'{where}: epoch {ret}, specified {want}')
                for k in h['cur']:
                    got = Model.version(models[k].state_dict())
                    expect(got == h['cur'][k],
                           f'{where}: parameters of {k} are {got}, specified {h["cur"][k]}')
                want = sorted([fname(nm[f['m']], f) for f in h['files']]
                              + [fname(nm[f['m']], f, True) for f in h['optim']] + by)
                got = sorted(os.listdir(d))
                expect(got == want, f'{where}: stored files differ',
                       dict(missing=sorted(set(want) - set(got)),
                            unexpected=sorted(set(got) - set(want))))
                for f in h['files']:
                    v = Model.version(torch.load(os.path.join(d, fname(nm[f['m']], f))))
                    expect(v == f['v'], f'{where}: file {fname(nm[f["m"]], f)} holds {v}, '
                                        f'specified {f["v"]}')
                for f in h['optim']:
                    s = torch.load(os.path.join(d, fname(nm[f['m']], f, True)))
                    want = None if f['e'] == -1 else f['e']
                    expect(s['epoch'] == want and s['state']['param_groups'][0]['lr'] == f['v'],
                           f'{where}: optimizer state {fname(nm[f["m"]], f, True)} is not the '
                           'one last saved')
            for b in by:
                with open(os.path.join(d, b)) as fh:
                    expect(fh.read() == b, f'unrelated file {b} was modified')
        finally:
            ctx.rmdir(d)
        return len(hist)
    return run


INV = ['UniqueBest', 'BestIsLastSaved', 'BestSurvives', 'KeysUnique']
PROPS = ['OnlyNumberedLost', 'FailedLoadInert', 'OneModelAtATime']


def run(ctx):
    m = {'A'} if ctx.quick else {'A', 'B'}
    ctx.tlc('Checkpoint', dict(Models=m, Epochs={0, 2}, MaxLen=3, Sim=False),
            spec='Spec', invariants=INV, properties=PROPS, view='View', label='exhaustive design')
    # every pair of operations, then random long histories
    r2 = ctx.tlc('Checkpoint', dict(Models={'A'}, Epochs={0, 1, 10}, MaxLen=2, Sim=False), spec='Spec',
                 invariants=INV + ['Emit'], label='all pairs')
    ctx.replay(r2.behaviours, replayer(ctx, NAMES[0]), 'pairs')
    n = 60 if ctx.quick else 1500
    r = ctx.tlc('Checkpoint', dict(Models={'A', 'B'}, Epochs={0, 1, 2, 10}, MaxLen=14, Sim=True),
                spec='Spec', invariants=INV + ['Emit'], simulate=n * len(NAMES), depth=16,
                label='random histories')
    for i, names in enumerate(NAMES):
        ctx.replay(r.behaviours[i::len(NAMES)], replayer(ctx, names), f'names={names}')
