"""C05: splits, folds and batches; recorded executions are judged by TLC (spec/Split.tla)."""
import math
import os
import pickle
import random

import torch

from fw import Violation, expect, expect_raises
import time_series_data.time_dataset as td
from model_architectures.rnn_base_model.train.cross_validation import kfold_cross_validation

CONST = dict(Ns={0}, Eighths={0}, MaxSubsets=0, BatchSizes={1})


def make(n, kind, root):
    """Data set of n samples; sample i holds the value i."""
    ss = [{'features_in': torch.full((2, 1), float(i)), 'features_out': torch.full((2, 1), 1.0 + i),
           'label': f's{i}', 'flat': torch.tensor([float(i)])} for i in range(n)]
    if kind == 'M':
        return td.TimeSeriesDatasetInMemory(ss)
    d = os.path.join(root, f'd{len(os.listdir(root))}')
    os.makedirs(d)
    fs = []
    for i, s in enumerate(ss):
        fs.append(os.path.join(d, f's_{i}.pt'))
        torch.save(s, fs[-1])
    return td.TimeSeriesDataset(d, fs)


def ids(ds):
    return [int(ds[i]['features_in'][0, 0]) for i in range(len(ds))]


def judge(ctx, records, name):
    """TLC decides every recorded execution."""
    if not records:
        return
    r = ctx.tlc('Split', dict(CONST, Mode='check'), spec='Spec', invariants=['Emit'],
                files={'records.json': [x for x, _ in records]}, label='judge ' + name)
    bad = sorted(b['i'] for b in r.behaviours if not b['good'])
    ctx.extra.setdefault('records_judged', {})[name] = len(records)

    def one(i):
        rec, why = records[i - 1]
        raise Violation(why, rec)
    ctx.replay(bad, one, name)


def run(ctx):
    root = ctx.tmpdir('c05')
    r = ctx.tlc('Split', dict(Ns=set(range(0, 14 if ctx.quick else 26)) | {40},
                              Eighths={0, 1, 2, 3, 4, 6, 8, 9}, MaxSubsets=3,
                              BatchSizes={1, 2, 3, 5, 8, 50}, Mode='cases'),
                spec='Spec', invariants=['SizesAddUp', 'BatchesCover', 'Emit'],
                label='requests')
    rng = random.Random(ctx.seed)
    splits = [b for b in r.behaviours if b['kind'] == 'split']
    valid = [b for b in splits if b['out']['ok']]
    bad = [b for b in splits if not b['out']['ok']]
    rng.shuffle(bad)
    records = []
    cache = {n: make(n, 'M', root) for n in {b['n'] for b in splits}}

    def do_split(b):
        names = [f'set{i}' for i in range(len(b['f']))]
        req = dict(zip(names, [x / 8 for x in b['f']]))
        ds = cache[b['n']]
        if not b['out']['ok']:
            expect_raises(lambda: td.split_dataset(ds, req, seed=3),
                          'inadmissible split request is not refused', Exception)
            return 1
        seed = rng.randrange(1000)
        out = td.split_dataset(ds, req, seed=seed)
        expect(list(out) == names, 'names of the subsets')
        expect([len(out[k]) for k in names] == b['out']['sizes'],
               f'subset sizes {[len(out[k]) for k in names]}, specified {b["out"]["sizes"]}')
        parts = [ids(out[k]) for k in names]
        records.append((dict(kind='split', n=b['n'], parts=parts), 'subsets are not a partition'))
        torch.manual_seed(rng.randrange(1000))
        again = td.split_dataset(ds, req, seed=seed)
        records.append((dict(kind='same', a=parts, b=[ids(again[k]) for k in names]),
                        'the same seed gives another split'))
        for k in names:
            sub = out[k]
            sel = [i for i in range(len(sub)) if i % 2 == 0]
            got = td.get_parent_dataset_indices(sub, sel)
            expect([int(x) for x in got] == [ids(sub)[i] for i in sel],
                   'parent indices are not those of the subset samples')
        expect(ids(ds) == list(range(b['n'])), 'splitting altered the data set')
        return 3

    ctx.replay(valid, do_split, 'splits')
    ctx.replay(bad[:400 if ctx.quick else 4000], do_split, 'refused splits')

    def do_unseeded(n):
        ds = cache[n]
        seen = set()
        for s in range(8):
            out = td.split_dataset(ds, {'a': 0.7, 'b': 0.2, 'c': 0.1},
                                   seed=None if s % 2 else s)
            for k, f in (('a', 0.7), ('b', 0.2), ('c', 0.1)):
                expect(math.floor(n * f) - 1 <= len(out[k]) <= math.floor(n * f) + 1,
                       f'subset {k} of {n} samples has {len(out[k])}')
            parts = [ids(out[k]) for k in 'abc']
            seen.add(str(parts))
            records.append((dict(kind='split', n=n, parts=parts), 'subsets are not a partition'))
        expect(len(seen) > 1, 'different seeds always give the same split')
        expect_raises(lambda: td.split_dataset(ds, {'a': 0.7, 'b': 0.2}),
                      'fractions that do not add up are not refused', Exception)
        expect_raises(lambda: td.split_dataset(ds, {'a': 1.25, 'b': -0.25}),
                      'fractions beyond [0, 1] are not refused', Exception)
        return 8
    ctx.replay([n for n in (10, 11, 12, 13)], do_unseeded, 'unseeded and seeded splits')

    def do_saved(case):
        n, kind, copy = case
        ds = make(n, kind, root)
        d = ctx.tmpdir('subsets')
        out = td.split_dataset(ds, {'training': 0.5, 'validation': 0.25, 'testing': 0.25},
                               is_copy_dataset=copy, is_save_subsets=True, subsets_directory=d,
                               subsets_basename='base', seed=n)
        parts = {k: ids(v) for k, v in out.items()}
        expect(sorted(os.listdir(d)) == sorted(f'base_{k}_n{len(v)}.pkl'
                                               for k, v in parts.items()), 'files of the subsets',
               os.listdir(d))
        for k, v in parts.items():
            got = td.load_dataset(os.path.join(d, f'base_{k}_n{len(v)}.pkl'))
            expect(ids(got) == v, f'saved subset {k} differs')
        records.append((dict(kind='split', n=n, parts=list(parts.values())),
                        'saved subsets are not a partition'))
        if copy and kind == 'M':
            for s in ds:
                s['features_in'] = torch.full((2, 1), -5.0)
            ds.remove_dataset_samples([0])
            expect({k: ids(v) for k, v in out.items()} == parts,
                   'the copied subsets follow changes of the source')
        ctx.rmdir(d)
        return 2
    ctx.replay([(n, k, c) for n in (4, 7, 9) for k in 'MD' for c in (False, True)], do_saved,
               'saved subsets')

    def do_batch(b):
        ds = cache[b['n']] if b['n'] in cache else make(b['n'], 'M', root)
        if b['n'] == 0:
            return 0
        got = list(td.get_time_series_data_loader(ds, batch_size=b['b']))
        order = []
        for x in got:
            expect(set(x) == {'features_in', 'features_out'}, 'features of a batch', list(x))
            expect(tuple(x['features_in'].shape[::2]) == (2, 1), 'shape of a batch')
            a, y = x['features_in'], x['features_out']
            order.append([int(v) for v in a[0, :, 0]])
            expect(torch.equal(a + 1.0, y) and torch.equal(a[0], a[1]),
                   'features of different samples mixed in a batch')
        expect(order == b['batches'], 'batches differ', dict(got=order, spec=b['batches']))
        g = torch.Generator().manual_seed(b['b'])
        order = [int(v) for x in td.get_time_series_data_loader(
            ds, batch_size=b['b'], is_shuffle=True, generator=g) for v in x['features_in'][0, :, 0]]
        records.append((dict(kind='pass', n=b['n'], order=order), 'a shuffled pass is not one'))
        return 2
    ctx.replay([b for b in r.behaviours if b['kind'] == 'batch'], do_batch, 'batches')

    def do_folds(case):
        n, k, epochs, bs = case
        d = ctx.tmpdir('cv')

        class Logged(torch.utils.data.Dataset):
            folds = {}

            def __len__(self):
                return n

            def __getitem__(self, i):
                i = int(i)
                if i >= n:
                    raise IndexError
                now = max(int(x[5:]) for x in os.listdir(d) if x.startswith('fold_'))
                test = bool(os.listdir(os.path.join(d, f'fold_{now}', 'validation')))
                f = self.folds.setdefault(now, {'train': [], 'test': []})
                f['test' if test else 'train'].append(i)
                return {'features_in': torch.full((2, 1), 0.1 * i),
                        'features_out': torch.full((2, 1), 100.0 + i)}
        ds = Logged()
        ds.folds = {}
        losses = kfold_cross_validation(
            d, k, epochs, ds, dict(n_features_in=1, n_features_out=1, hidden_layer_size=2,
                                   model_directory=d), 1e-3, lr_scheduler_type=None,
            loss_nature='features_out', batch_size=bs)
        expect(losses.shape == (k, 2), f'shape of the fold losses {losses.shape}')
        expect(sorted(ds.folds) == list(range(1, k + 1)), 'folds evaluated', sorted(ds.folds))
        rec = []
        for f in sorted(ds.folds):
            tr, te = ds.folds[f]['train'], ds.folds[f]['test']
            m = n - len(te)
            expect(len(tr) == m * (epochs + 1), 'training reads of a fold')
            vd = os.path.join(d, f'fold_{f}', 'validation')
            md = os.path.join(d, f'fold_{f}', 'model')
            expect(sum(x.endswith('-best.pt') and '_optim' not in x for x in os.listdir(md)) == 1
                   and not any(x.endswith('.pt') for x in os.listdir(d)),
                   'the model of every fold is kept in its own folder', os.listdir(md))
            sub = os.path.join(vd, os.listdir(vd)[0])
            stored, loss = [], []
            for j in range(len(te)):
                with open(os.path.join(sub, f'prediction_sample_{j}.pkl'), 'rb') as fh:
                    x = pickle.load(fh)
                stored.append(int(round(float(x['targets'][0, 0]) - 100)))
                loss.append(float(torch.mean((torch.as_tensor(x['features_out'])
                                              - torch.as_tensor(x['targets'])) ** 2)))
            expect(stored == te, 'stored predictions are not those of the fold', (stored, te))
            expect(abs(losses[f - 1, 1] - sum(loss) / len(loss)) <= 1e-5 * losses[f - 1, 1],
                   'validation loss of a fold is not the mean over its samples')
            rec.append(dict(train=sorted(set(tr)), test=te))
        records.append((dict(kind='folds', n=n, folds=rec), 'the folds are not a cross-validation'))
        ctx.rmdir(d)
        return k
    ctx.replay([(5, 5, 0, 1), (7, 3, 1, 2), (6, 2, 0, 4)] + ([] if ctx.quick else
               [(n, k, 1, b) for n in (4, 9, 10) for k in (2, 3, 4) for b in (1, 3)]),
               do_folds, 'cross-validation')
    judge(ctx, records, 'recorded splits, folds and passes')
