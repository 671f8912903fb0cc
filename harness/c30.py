"""C30: noise on measured displacements, histories of spec/Measure.tla on directories of csv files."""
import os

import numpy as np
import pandas
import torch

from fw import expect, expect_raises
from miscellaneous.noisy_data.denoise_disp_noise_csv import denoise_displacements_noise
from miscellaneous.noisy_data.inject_disp_noise_csv import inject_displacements_noise
from utilities.data_denoisers import Denoiser

COLS = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3']


def params(f, T):
    if f['m'] == 'moving_average':
        return dict(window_size=f['w'])
    if f['m'] == 'savitzky_golay':
        return dict(window_size=f['w'], poly_order=f['p'])
    return dict(cutoff_frequency=[0.5 / T, 0.5 - 0.25 / T, 0.5][f['p']])


def content(d):
    out = {}
    for f in os.listdir(d):
        if os.path.isfile(os.path.join(d, f)):
            with open(os.path.join(d, f), 'rb') as fh:
                out[f] = fh.read()
    return out


def table(d, names):
    return np.stack([pandas.read_csv(os.path.join(d, f)).values.astype(float) for f in names])


def source(root, T, n, rng):
    """A measured specimen: names of its files in the order of their steps, and their tables."""
    d = os.path.join(root, 'specimen_history_data')
    os.makedirs(d)
    gaps = [1] * T if rng.random() < 0.4 else [int(rng.choice([1, 4, 9, 90])) for _ in range(T)]
    steps = [0 if rng.random() < 0.7 else int(rng.integers(8, 11))]
    while len(steps) < T:
        steps.append(steps[-1] + gaps[len(steps)])
    base = str(rng.choice(['specimen', 'a_tstep_7', 'x.1']))
    names = [f'{base}_tstep_{s}.csv' for s in steps]
    tab = rng.normal(size=(T, n, 10))
    tab[:, :, 0] = np.arange(1, n + 1)
    tab[:, :, 1:4] = tab[0, :, 1:4]
    tab[:, :, 4:7] = np.cumsum(tab[:, :, 4:7], axis=0)
    if rng.random() < 0.3:
        tab[:, :, 4:7] = np.round(4 * tab[:, :, 4:7])
    tab[0, :, 4:7] = 0
    order = list(range(T))
    rng.shuffle(order)
    whole = rng.random() < 0.5                         # whole numbers written as such, as a spreadsheet would
    for t in order:
        df = pandas.DataFrame(tab[t], columns=COLS)
        df['NODE'] = df['NODE'].astype(int)
        if whole:
            for c in COLS[4:7]:
                if (df[c] == df[c].round()).all():
                    df[c] = df[c].astype(int)
        df.to_csv(os.path.join(d, names[t]), encoding='utf-8', index=False)
    for f in ('notes.txt', f'{base}_tstep_3.csv.bak', 'summary.csv', f'{base}_tstep_.csv'):
        if rng.random() < 0.3:
            with open(os.path.join(d, f), 'w') as fh:
                fh.write('NODE,X1\n1,2\n')
    return d, names, table(d, names)


def judge_noise(noise, kind, p, where):
    """noise: (T - 1, n, 3) values added after the first step."""
    size = noise.size
    if kind == 'uniform':
        expect(np.abs(noise).max() <= 0.5 * p['amp'] * (1 + 1e-9), f'{where}: noise exceeds its amplitude: {np.abs(noise).max():g}')
        std = p['amp'] / np.sqrt(12)
    else:
        std = p['std']
        spike = np.abs(noise) > 7 * std
        if kind == 'gaussian':
            expect(not spike.any(), f'{where}: noise of {np.abs(noise).max() / std:.1f} standard deviations')
        else:
            noise = np.where(spike, noise - p['spike'], noise)
            expect(np.abs(noise).max() <= 7 * std, f'{where}: noise that is neither Gaussian nor a spike')
            rate, tol = p['p_spike'], 6 * np.sqrt(p['p_spike'] * (1 - p['p_spike']) / size) + 1 / size
            expect(abs(spike.mean() - rate) <= tol, f'{where}: {spike.mean():.3f} of the values are spikes, specified {rate}')
    if size >= 30:
        expect(abs(noise.mean()) <= 6 * std / np.sqrt(size), f'{where}: mean {noise.mean():g} of the noise')
        expect(abs(noise.std() / std - 1) <= 6 / np.sqrt(size), f'{where}: standard deviation {noise.std():g}, specified {std:g}')
    expect(len(np.unique(noise)) == size, f'{where}: noise repeats itself')


def runner(ctx):
    def run(b):
        rng = np.random.default_rng([ctx.seed, ctx.item])
        np.random.seed(int(rng.integers(1 << 30)))
        T, n = b['T'], int(rng.choice([1, 2, 7, 11]))
        root = ctx.tmpdir('c30')
        d0, names, t0 = source(root, T, n, rng)
        dirs, tabs, done = [d0], [t0], {}
        torch.set_default_dtype(torch.float64 if rng.random() < 0.5 else torch.float32)
        for k, o in enumerate(b['ops']):
            src = dirs[o['src']]
            before = {d: content(d) for d in dirs}
            name = f'{o["op"]}_{k}'
            new = os.path.join(src, name)
            if rng.random() < 0.3:                      # an older copy of the same name
                os.makedirs(new)
                for f in (names[-1], 'x_tstep_99999.csv'):
                    with open(os.path.join(new, f), 'w') as fh:
                        fh.write('old')
            where = f'{o["op"]} {o["f"]} of {os.path.basename(src)}, {T} steps'
            old = tabs[o['src']]
            if o['op'] == 'inject':
                p = dict(distribution=o['f']['m'], dirname=name)
                sz = 10.0 ** rng.uniform(-3, 0)
                p.update(dict(amp=sz) if o['f']['m'] == 'uniform' else dict(std=sz))
                if o['f']['m'] == 'spiked_gaussian':
                    p.update(spike=30 * sz * float(rng.choice([-1, 1])), p_spike=float(rng.choice([0.0, 0.1, 0.4])))
                inject_displacements_noise(src, dict(p))
            else:
                denoise_displacements_noise(src, denoise_parameters=dict(
                    denoise_dirname=name, denoise_method=o['f']['m'], denoiser_parameters=params(o['f'], T),
                    n_denoise_cycle=o['f']['c']))
            for d in dirs:
                expect(content(d) == before[d], f'{where}: files of {os.path.basename(d)} were changed')
            expect(sorted(os.listdir(new)) == sorted(names), f'{where}: files {sorted(os.listdir(new))}')
            for f in names:
                expect(list(pandas.read_csv(os.path.join(new, f)).columns) == COLS, f'{where}: columns of {f}')
            got = table(new, names)
            expect(got.shape == old.shape, f'{where}: shape {got.shape}')
            other = [0, 1, 2, 3, 7, 8, 9]
            expect(np.allclose(got[:, :, other], old[:, :, other], rtol=1e-13, atol=0), f'{where}: something else than displacements changed')
            u, v = old[:, :, 4:7], got[:, :, 4:7]
            if o['op'] == 'inject':
                expect(np.allclose(u[0], v[0], rtol=1e-13, atol=0), f'{where}: the first step is noisy')
                judge_noise(v[1:] - u[1:], o['f']['m'], p, where)
            else:
                want = np.einsum('ts,snc->tnc', np.array(o['A'], dtype=float) / o['den'], u)
                dt = Denoiser().denoise(torch.tensor(u[:, 0, :]), o['f']['m'], denoise_parameters=params(o['f'], T),
                                        n_denoise_cycle=o['f']['c'])
                tol = 1e-9 * (1 + np.abs(u).max())
                expect(dt.shape == (T, 3) and np.abs(dt.numpy() - want[:, 0, :]).max() <= tol,
                       f'{where}: denoised history of a tensor differs')
                one = torch.tensor(u[:, 0, :2], dtype=torch.float32)
                keep = one.clone()
                dt = Denoiser().denoise(one, o['f']['m'], denoise_parameters=params(o['f'], T), n_denoise_cycle=o['f']['c'])
                expect(dt.dtype == torch.float32 and float((dt - torch.tensor(want[:, 0, :2]).float()).abs().max())
                       <= 1e-4 * (1 + np.abs(u).max()) and torch.equal(one, keep), f'{where}: single precision')
                want[0] = 0
                err = np.abs(v - want)
                expect(err.max() <= tol, f'{where}: displacement at (step, node, component) '
                       f'{np.unravel_index(err.argmax(), err.shape)} differs by {err.max():g}')
            dirs.append(new)
            tabs.append(got)
        torch.set_default_dtype(torch.float32)
        if rng.random() < 0.1:
            faults(root, d0, names)
        ctx.rmdir(root)
        return len(b['ops'])
    return run


def faults(root, d, names):
    den = dict(denoise_dirname='q', denoise_method='moving_average', denoiser_parameters=dict(window_size=3), n_denoise_cycle=1)
    noi = dict(distribution='uniform', amp=1.0, dirname='q')
    expect_raises(lambda: inject_displacements_noise(os.path.join(root, 'none'), noi), 'missing directory', RuntimeError)
    expect_raises(lambda: denoise_displacements_noise(os.path.join(root, 'none'), den), 'missing directory', RuntimeError)
    expect_raises(lambda: inject_displacements_noise(d, dict(noi, distribution='cauchy')), 'unknown noise', RuntimeError)
    expect_raises(lambda: inject_displacements_noise(d, dict(noi, distribution='gaussian')), 'noise without parameter', RuntimeError)
    expect_raises(lambda: denoise_displacements_noise(d, dict(den, denoise_method='wish')), 'unknown method', RuntimeError)
    df = pandas.read_csv(os.path.join(d, names[-1]))
    df.drop(columns='RF3').to_csv(os.path.join(d, names[-1]), index=False)
    expect_raises(lambda: denoise_displacements_noise(d, den), 'nine columns', RuntimeError)
    expect_raises(lambda: inject_displacements_noise(d, noi), 'nine columns', RuntimeError)


def run(ctx):
    torch.set_num_threads(1)
    inv = ['Constants', 'NoShift', 'Positive', 'Emit']
    runs = ctx.tlc_many([
        (('Measure',), dict(constants=dict(Sim=False, Times={2, 5, 6}, Windows={1, 2, 3, 5}, Cycles={0, 1, 2}, MaxOps=1),
                            spec='Spec', invariants=inv, label='single', workers=2)),
        (('Measure',), dict(constants=dict(Sim=True, Times={2, 3, 4, 7, 9, 12, 13}, Windows={1, 2, 3, 4, 5, 7}, Cycles={1, 2, 3}, MaxOps=4),
                            spec='Spec', invariants=inv, label='histories', simulate=400 if ctx.quick else 1500, depth=12))])
    ctx.preplays([(r.behaviours, runner(ctx), name) for r, name in zip(runs, ('single', 'histories'))])
