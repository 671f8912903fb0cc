"""C17: strain paths and noise asked for by spec/StrainPath.tla; the recorded answers are judged by TLC."""
import numpy as np

from fw import Machinery, Violation, expect
from data_generation.strain_paths.interface import StrainPathGenerator
from data_generation.strain_paths.noise_generator import NoiseGenerator
from data_generation.strain_paths.proportional_path import ProportionalStrainPathGenerator
from data_generation.strain_paths.random_path import RandomStrainPathGenerator


def micro(a):
    a = np.asarray(a, dtype=float)
    if not np.isfinite(a).all():
        raise Violation('values are not finite', a.tolist())
    return np.rint(np.clip(a, -0.9, 0.9) * 1e6).astype(int).tolist()


SEEDS = {0: 0, 1: 4096 * 1000, 2: 987654321}             # seeds of the specification, far apart


class Client:
    def __init__(self):
        self.gens, self.seen, self.asked = {}, [], []

    def generator(self, r):
        key = (r['gen'] == 'prop', r['form'], r['dim'])
        if key not in self.gens:
            cls = ProportionalStrainPathGenerator if key[0] else RandomStrainPathGenerator
            self.gens[key] = cls(r['form'], r['dim'])
        return self.gens[key]

    def request(self, r, **more):
        order = {('infinitesimal', 2): '11 22 12', ('infinitesimal', 3): '11 22 33 12 23 13',
                 ('finite', 2): '11 21 12 22', ('finite', 3): '11 21 31 12 22 32 13 23 33'}[(r['form'], r['dim'])].split()
        bounds = {c: (b[0] * 1e-3, b[1] * 1e-3) for c, b in zip(order, r['bounds'])}
        if r['seed'] == 1:                               # the order of the entries is not significant
            bounds = dict(reversed(list(bounds.items())))
        kw = dict(n_time=r['n'], time_init=r['span'][0], time_end=r['span'][1], random_seed=SEEDS[r['seed']])
        if r['gen'] != 'prop':
            kw.update(n_control=(r['nc'], r['nc']) if r['seed'] == 2 else r['nc'],
                      generative_type='polynomial' if r['gen'] == 'poly' else 'gaussian_process')
        if r['c']:
            kw['n_cycle'] = r['c']
        if r['norm']:
            kw['inc_strain_norm'] = r['norm'] * 1e-6
        kw.update(more)
        if r['bad'] == 'order':
            bounds[order[-1]] = (1e-3, -1e-3)
        if r['bad'] == 'missing':
            del bounds[order[0]]
        if r['bad'] == 'norm':
            kw['inc_strain_norm'] = -1e-3
        if r['bad'] == 'noise':
            kw['strain_noise_std'] = -1e-3
        before = dict(bounds)
        comps, time, path = self.generator(r).generate_strain_path(strain_bounds=bounds, **kw)
        expect(bounds == before, 'the bounds of the request were changed')
        return tuple(comps), np.array(time, dtype=float), np.array(path)

    def identify(self, path, r):
        for k, p in enumerate(self.seen):
            if np.array_equal(p, path) or (r['gen'] == 'gp' and p.shape == path.shape
                                           and np.allclose(p, path, rtol=0, atol=1e-7)):
                return k + 1
        return 0

    @staticmethod
    def row_ids(path):
        seen = {}
        return [seen.setdefault(row.tobytes(), len(seen) + 1) for row in path + 0.0]

    def do(self, r):
        if r['op'] == 'noise':
            return self.noise(r)
        try:
            comps, time, path = self.request(r)
        except RuntimeError:
            return dict(ok=False)
        pid = self.identify(path, r)
        if r['gen'] == 'gp' and not pid:
            # the hyperparameter optimizer of the library is reproducible up to rounding only: ask again
            for _ in range(2 if r in self.asked else 0):
                comps, time, path = self.request(r)
                pid = pid or self.identify(path, r)
        self.asked.append(r)
        if not pid:
            self.seen.append(path.copy())
            pid = len(self.seen)
        expect(path.ndim == 2 and time.ndim == 1, f'shapes {path.shape}, {time.shape}')
        out = dict(ok=True, order=list(comps), time=np.rint(time * 1000).astype(int).tolist(), rows=micro(path),
                   ids=self.row_ids(path), pid=pid)
        if r['op'] == 'noisy':
            _, _, noisy = self.request(r, strain_noise_std=r['std'] * 1e-6)
            out.update(noisy=micro(noisy), nids=self.row_ids(noisy))
        else:
            for row in path[:3]:
                t = StrainPathGenerator.build_strain_tensor(r['dim'], row, comps, r['form'] == 'infinitesimal')
                for v, c in zip(row, comps):
                    expect(t[int(c[0]) - 1, int(c[1]) - 1] == v, f'component {c} of the strain tensor')
                    if r['form'] == 'infinitesimal':
                        expect(t[int(c[1]) - 1, int(c[0]) - 1] == v, f'component {c} of the strain tensor')
        return out

    @staticmethod
    def noise(r):
        g = NoiseGenerator()
        g.set_noise_distribution(r['dist'])
        par = {'amp': r['amp'] * 1e-6} if r['dist'] == 'uniform' else {'std': r['amp'] * 1e-6}
        if r['dist'] == 'spiked_gaussian':
            par.update(spike=r['spike'] * 1e-6, p_spike=r['p'] / 8)
        g.set_noise_parameters(par)
        base = np.linspace(-1, 1, 3 * 1200).reshape(3, 1200)
        path = base.copy()
        kw = dict(noise_variability=r['var'])
        if r['w']:
            kw['heteroscedastic_weights'] = np.array(r['w'], dtype=float)
        noise = g.generate_noise_path(path, **kw)
        expect(noise.shape == path.shape, f'noise of shape {noise.shape}')
        return dict(ok=True, kept=bool(np.array_equal(base, path)), noise=micro(noise))


def run(ctx):
    ctx.tlc('StrainPath', dict(Gens={'prop'}, MaxOps=0, Sim=False, Mode='ask'), spec='Spec', invariants=['Design'],
            label='cycle layout for all lengths')
    plan = [('prop, polynomial', {'prop', 'poly'}, (60, 12) if ctx.quick else (400, 16)),
            ('gaussian process', {'gp'}, (1, 6) if ctx.quick else (12, 8))]
    for name, gens, (num, ops) in plan:
        r = ctx.tlc('StrainPath', dict(Gens=gens, MaxOps=ops, Sim=True, Mode='ask'), spec='Spec', invariants=['Emit'],
                    simulate=num, depth=ops + 4, label='requests ' + name)
        if not r.behaviours:
            raise Machinery('no behaviours')
        records = []

        def perform(b):
            np.random.seed(1000 + len(records))
            c = Client()
            records.append([dict(req=h, out=c.do(h)) for h in b['ops']])
            return len(b['ops'])
        ctx.replay(r.behaviours, perform, name)
        if not records:
            continue
        j = ctx.tlc('StrainPath', dict(Gens={'prop'}, MaxOps=0, Sim=False, Mode='check'), spec='Spec',
                    invariants=['Emit'], files={'records.json': records}, label='judge ' + name)
        if len(j.behaviours) != len(records):
            raise Machinery('records not judged')
        bad = [b for b in j.behaviours if not b['v']['seeds'] or any(b['v']['steps'])]

        def report(b):
            rec = records[b['i'] - 1]
            for q, v in zip(rec, b['v']['steps']):
                expect(not v, f'{q["req"]["op"]} {q["req"].get("gen", "")}: {sorted(v)}', q)
            expect(b['v']['seeds'], 'the paths of equal requests do not follow the seed',
                   [(q['req'], q['out'].get('pid')) for q in rec])
        ctx.replay(bad, report, name + ' judged')
        ctx.extra.setdefault('records_judged', {})[name] = sum(len(x) for x in records)
