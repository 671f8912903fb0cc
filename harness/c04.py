"""C04: operation histories of spec/Dataset.tla replayed on the real data set classes."""
import os
import shutil

import torch

from fw import expect, expect_raises
import time_series_data.time_dataset as td

T = torch.tensor([[1.0], [3.0], [-1.0]])      # column c is the series c * T
LABEL = {'a': 'strain_path', 'b': 'stress_path', 'c': 'features_in', 'missing': 'absent'}


def col(v):
    return torch.cat([T * c for c in v], dim=1)


def sample(f):
    return {LABEL[l]: col(v) for l, v in f.items()}


def same(real, spec, optional, where, ctx):
    want = {LABEL[l] for l in spec}
    extra = set(real) - want
    expect(want <= set(real) and extra <= {LABEL[l] for l in optional},
           f'{where}: features {sorted(real)}, specified {sorted(want)}')
    if extra:
        ctx.known('is_remove_features=True keeps the features of an on-disk TimeSeriesDataset '
                  '(time_dataset.py: concatenate_dataset_features, sum_dataset_features)')
    for l, v in spec.items():
        x = real[LABEL[l]]
        expect(tuple(x.shape) == (3, len(v)) and torch.equal(x, col(v)),
               f'{where}: feature {LABEL[l]} differs', dict(got=x.tolist(), spec=v))


def write_disk(root, k, samples):
    d = os.path.join(root, f'disk{k}')
    os.makedirs(d)
    files = []
    for i, s in enumerate(samples):
        p = os.path.join(d, f'sample_{i}.pt')
        torch.save(s, p)
        files.append(p)
    return td.TimeSeriesDataset(d, files, dataset_basename='base')


def replayer(ctx, init):
    def run(hist):
        root = ctx.tmpdir('ds')
        out = os.path.join(root, 'out')
        os.makedirs(out)
        try:
            given = [sample(f) for f in init]
            # 'given': the caller's own lists, which no data set operation may change
            state = {'M': td.TimeSeriesDatasetInMemory(given), 'given': [(given, list(given))],
                     'D': write_disk(root, 0, [sample(f) for f in init]), 'k': 0}
            for i, h in enumerate(hist):
                step(h, state, root, out)
                check(ctx, h, state, f'step {i + 1} ({h["op"]} on {h["d"]})')
        finally:
            ctx.rmdir(root)
        return len(hist)
    return run


def check(ctx, h, state, where):
    for d in ('M', 'D'):
        ds, spec = state[d], h[d]
        expect(len(ds) == len(spec), f'{where}: {d} has {len(ds)} samples, specified {len(spec)}')
        for i, f in enumerate(spec):
            same(ds[i], f, h['gone'] if d == 'D' else [], f'{where}: {d}[{i}]', ctx)
        expect(len([x for x in ds]) == len(spec), f'{where}: iteration length of {d}')
    dd = state['D']
    files = dd.get_dataset_sample_files()
    expect(len(files) == len(dd) == len(set(files)), f'{where}: sample files')
    expect(all(os.path.dirname(f) == dd.get_dataset_directory() for f in files)
           and sorted(os.path.basename(f) for f in files) == sorted(
               f for f in os.listdir(dd.get_dataset_directory()) if f.endswith('.pt')),
           f'{where}: the sample files on disk are not those of the data set')
    expect(dd.get_dataset_basename() == 'base', f'{where}: basename')
    for now, then in state['given']:
        expect(len(now) == len(then) and all(x is y for x, y in zip(now, then)),
               f'{where}: the list of samples a data set was given has changed')


def step(h, state, root, out):
    op, d = h['op'], h['d']
    ds = state[d]
    if op == 'add':
        new = [sample(f) for f in h['new']]
        ds.add_dataset_samples(new)
        expect(len(new) == len(h['new']), 'adding samples changed the given list')
        state['given'].append((new, list(new)))
    elif op == 'remove':
        ds.remove_dataset_samples(tuple(h['idx']))
    elif op == 'init':
        state[d] = td.add_dataset_feature_init(ds, LABEL[h['l']], col([h['v']]))
    elif op == 'concat':
        state[d] = td.concatenate_dataset_features(
            ds, LABEL[h['new']], tuple(LABEL[x] for x in h['ls']), is_remove_features=h['rem'])
    elif op == 'sum':
        ls = [LABEL[x] for x in h['ls']]
        w = None if h['dflt'] else {l: x for l, x in zip(ls, h['w']) if x != 1}
        state[d] = td.sum_dataset_features(ds, LABEL[h['new']], tuple(ls), features_weights=w,
                                           is_remove_features=h['rem'])
    elif op == 'rename':
        state[d] = td.change_dataset_features_labels(ds, {LABEL[h['old']]: LABEL[h['new']]})
    elif op == 'refused':
        fn = td.concatenate_dataset_features if h['k'] == 'concat' else td.sum_dataset_features
        expect_raises(lambda: fn(ds, LABEL[h['new']], tuple(LABEL[x] for x in h['ls'])),
                      f'{h["k"]} of a missing feature is not refused', RuntimeError)
    elif op == 'saveload':
        before = set(os.listdir(out))
        p = td.save_dataset(ds, 'set' + d, out, is_append_n_sample=h['app'])
        expect(os.path.basename(p) == 'set' + d + (f'_n{h["len"]}' if h['app'] else '') + '.pkl',
               f'data set saved as {p}')
        expect(set(os.listdir(out)) - before <= {os.path.basename(p)}, 'unexpected files written')
        state[d] = td.load_dataset(p)
        expect(type(state[d]) is type(ds), 'type of the loaded data set')
    elif op == 'move':
        p = td.save_dataset(ds, 'moved', out)
        state['k'] += 1
        new = os.path.join(root, f'disk{state["k"]}')
        empty = os.path.join(root, f'empty{state["k"]}')
        os.makedirs(empty)
        if len(ds):
            expect_raises(lambda: td.TimeSeriesDataset.update_dataset_file_internal_directory(
                p, empty), 'data set relocated to a folder without its samples', RuntimeError)
        shutil.move(ds.get_dataset_directory(), new)
        td.TimeSeriesDataset.update_dataset_file_internal_directory(p, new)
        state[d] = td.load_dataset(p)
        expect(state[d].get_dataset_directory() == new, 'relocated data set directory')
        # a second update to the same directory is harmless
        td.TimeSeriesDataset.update_dataset_file_internal_directory(p, new)
        expect(state[d].get_dataset_sample_files()
               == td.load_dataset(p).get_dataset_sample_files(), 'repeated relocation')
    elif op == 'snapshot':
        got = ds.get_dataset_samples()
        expect(len(got) == len(ds), 'snapshot length')
        for s in got:
            for x in s.values():
                x.zero_()
            s.clear()
        got.clear()
    elif op == 'rewrite':
        ds.update_dataset_sample(h['i'], sample(h['f']))
    elif op == 'tomem':
        state['M'] = td.TimeSeriesDatasetInMemory.from_dataset(state['D'])
        # a copy (in memory) of the data set in memory grows on its own
        twin = td.TimeSeriesDatasetInMemory.from_dataset(state['M'])
        n = len(state['M'])
        twin.add_dataset_samples([sample({'a': [1]})])
        expect(len(twin) == n + 1 and len(state['M']) == n, 'copied data set shares its samples list')
        twin.remove_dataset_samples(tuple(range(n + 1)))
        expect(len(twin) == 0 and len(state['M']) == n, 'copied data set shares its samples list')
    elif op == 'todisk':
        state['k'] += 1
        state['D'] = write_disk(root, state['k'], state['M'].get_dataset_samples())
    else:
        raise AssertionError(op)


def loader_errors(ctx):
    def run(_):
        d = ctx.tmpdir('err')
        expect_raises(lambda: td.load_dataset(os.path.join(d, 'none.pkl')),
                      'loading a missing data set is not refused', RuntimeError)
        expect_raises(lambda: td.save_dataset(td.TimeSeriesDatasetInMemory([]), 'x',
                                              os.path.join(d, 'none')),
                      'saving to a missing folder is not refused', RuntimeError)
        expect_raises(lambda: td.TimeSeriesDataset(d, [os.path.join(d, 'a.pt')]),
                      'missing sample file is not refused', RuntimeError)
        o = ctx.tmpdir('err')
        torch.save({}, os.path.join(o, 'a.pt'))
        expect_raises(lambda: td.TimeSeriesDataset(d, [os.path.join(o, 'a.pt')]),
                      'sample file of another folder is not refused', RuntimeError)
        return 4
    return run


def samples0(n):
    return [{'a': [20 * i + 1], 'b': [20 * i + 7]} for i in range(1, n + 1)]


def run(ctx):
    inv = ['Uniform']
    # exhaustive: every pair (thorough: triple) of operations, design properties
    ctx.tlc('Dataset', dict(Labels={'a', 'b', 'c'}, N0=2, MaxLen=4, MaxOps=2, MaxWidth=4,
                            Sim=False),
            spec='Spec', invariants=inv, properties=['Isolated', 'LengthKept'],
            label='exhaustive design')
    r = ctx.tlc('Dataset', dict(Labels={'a', 'b', 'c'}, N0=2, MaxLen=4, MaxOps=1, MaxWidth=4,
                                Sim=False), spec='Spec', invariants=inv + ['Emit'],
                label='every operation')
    ctx.replay(r.behaviours, replayer(ctx, samples0(2)),
               'every operation')
    for n0, num in ((3, 120), (0, 20), (1, 30)):
        r = ctx.tlc('Dataset', dict(Labels={'a', 'b', 'c'}, N0=n0, MaxLen=6, MaxOps=14,
                                    MaxWidth=6, Sim=True), spec='Spec', invariants=inv + ['Emit'],
                    simulate=num if ctx.quick else num * 12, depth=40,
                    label=f'random histories, {n0} samples')
        ctx.replay(r.behaviours,
                   replayer(ctx, samples0(n0)),
                   f'random histories, {n0} samples')
    ctx.replay([0], loader_errors(ctx), 'refused constructions')
