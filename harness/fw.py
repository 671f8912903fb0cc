"""Verification framework: TLC runner, replay verdicts, evidence.

Exit codes: 0 property held, 1 violation (VIOLATION line printed), 2 machinery error.
"""
import contextlib
import importlib
import io
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HOOKEAI_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Machinery(Exception):
    """The verification machinery itself failed (never blamed on the code)."""


class Violation(Exception):
    """A clause of the property was violated."""

    def __init__(self, clause, detail=None):
        super().__init__(clause)
        self.clause = clause
        self.detail = detail


class TLCResult:
    def __init__(self):
        self.behaviours = []
        self.states = 0
        self.transitions = 0
        self.output = ''
        self.coverage = {}


_PAR = None


def _par_call(i):
    return _PAR(i)


class Ctx:
    def __init__(self, pid, tier, seed, level='model_checking'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'verif_{pid}_')
        self.states = 0
        self.transitions = 0
        self.replayed = 0
        self.item = 0          # number of the replayed item (a seed for its random embedding)
        self.steps = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.violations = []
        self.known_hits = []
        self.models = {}
        self.max_violations = 3
        self.quick = tier == 'quick'
        self._n = 0

    # ------------------------------------------------------------------ files
    def tmpdir(self, name='d'):
        self._n += 1
        return tempfile.mkdtemp(prefix=f'{name}{self._n}_', dir=self.scratch)

    def rmdir(self, path):
        assert os.path.abspath(path).startswith(self.scratch + os.sep)
        shutil.rmtree(path, ignore_errors=True)

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, constants=None, init='Init', next='Next', spec=None,
            invariants=(), properties=(), constraint=None,
            action_constraint=None, view=None, postcondition=None,
            simulate=None, depth=None, workers=None, files=None, timeout=600,
            label=None, heap='4g', count=True, alias=None, symmetry=None):
        """Run TLC on spec/<module>.tla and collect the '@@' JSON lines it prints.

        simulate: number of random behaviours (None: exhaustive BFS).
        files: {name: object} written as JSON next to the spec.
        """
        work = self.tmpdir('tlc')
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), work)
        for name, obj in (files or {}).items():
            with open(os.path.join(work, name), 'w') as fh:
                json.dump(obj, fh)
        cfg = []
        if spec:
            cfg.append(f'SPECIFICATION {spec}')
        else:
            cfg += [f'INIT {init}', f'NEXT {next}']
        cfg.append('CHECK_DEADLOCK FALSE')
        if constants:
            cfg.append('CONSTANTS')
            for k, v in constants.items():
                cfg.append(f'  {k} = {tla(v)}' if not (isinstance(v, str) and v.startswith('<-'))
                           else f'  {k} {v}')
        for i in invariants:
            cfg.append(f'INVARIANT {i}')
        for p in properties:
            cfg.append(f'PROPERTY {p}')
        if constraint:
            cfg.append(f'CONSTRAINT {constraint}')
        if action_constraint:
            cfg.append(f'ACTION_CONSTRAINT {action_constraint}')
        if view:
            cfg.append(f'VIEW {view}')
        if postcondition:
            cfg.append(f'POSTCONDITION {postcondition}')
        with open(os.path.join(work, 'MC.cfg'), 'w') as fh:
            fh.write('\n'.join(cfg) + '\n')
        cmd = ['timeout', str(timeout), 'java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m',
               f'-Djava.io.tmpdir={work}', '-cp', JAR, 'tlc2.TLC', '-config', 'MC.cfg',
               '-metadir', os.path.join(work, 'meta'), '-noGenerateSpecTE',
               '-workers', str(workers or (1 if simulate else 4))]
        if simulate:
            cmd += ['-simulate', f'num={simulate}', '-depth', str(depth or 100)]
        cmd += ['-seed', str(self.seed * 1000003 + zlib.crc32(repr((module, label, sorted((constants or {}).items(), key=str))).encode()))]
        cmd += ['-fp', '1', module + '.tla']
        outp = os.path.join(work, 'out.txt')
        with open(outp, 'w') as fh:
            rc = subprocess.call(cmd, cwd=work, stdout=fh, stderr=subprocess.STDOUT)
        res = TLCResult()
        other = []
        with open(outp) as fh:
            for line in fh:
                if line.startswith('"@@'):
                    res.behaviours.append(json.loads(json.loads(line)[2:]))
                else:
                    other.append(line)
        if simulate and (workers or 1) > 1:           # several workers print in any order
            res.behaviours.sort(key=lambda b: (zlib.crc32(json.dumps(b, sort_keys=True).encode()), json.dumps(b, sort_keys=True)))
        res.output = ''.join(other)
        if rc != 0:
            raise Machinery(f'TLC failed on {module} (rc={rc}):\n' + res.output[-6000:])
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', res.output)
        if m:
            res.transitions = int(m[-1][0].replace(',', ''))
            res.states = int(m[-1][1].replace(',', ''))
        else:
            m = re.findall(r'The number of states generated: ([\d,]+)', res.output)
            if m:
                res.transitions = res.states = int(m[-1].replace(',', ''))
        if count:
            self.states += res.states
            self.transitions += res.transitions
        self.models[label or module] = dict(
            states=res.states, transitions=res.transitions,
            mode='simulate' if simulate else 'exhaustive', behaviours=len(res.behaviours),
            distinct=len({json.dumps(b, sort_keys=True) for b in res.behaviours}))
        self.rmdir(work)
        return res

    # ----------------------------------------------------------------- replay
    def replay(self, items, fn, name, sample=1, keep=None):
        """Run fn(item) for each item; any exception is a violation of the property."""
        n = 0
        for item in items:
            if len(self.violations) >= self.max_violations:
                break
            n += 1
            self.item += 1
            try:
                with quiet(), limit():
                    steps = fn(item)
                self.steps += steps if isinstance(steps, int) else 1
            except Machinery:
                raise
            except Violation as v:
                self._violate(name, v.clause, v.detail, item)
            except Stuck:
                self._violate(name, f'the code under test did not come back within {LIMIT} s', None, item)
            except Exception as e:  # raised by (or because of) the code under test
                self._violate(name, f'unexpected {type(e).__name__}: {e}',
                              traceback.format_exc()[-3000:], item)
            else:
                self.replayed += 1
                if len([s for s in self.samples if s.get('replay') == name]) < sample:
                    self.samples.append({'replay': name, 'case': trunc(item)})
        self.extra.setdefault('replays', {})[name] = \
            self.extra.get('replays', {}).get(name, 0) + n
        return n

    def preplay(self, items, fn, name, jobs=6, sample=1):
        """replay() with the items spread over forked processes (for code that does not use torch threads)."""
        import multiprocessing as mp
        global _PAR
        items = list(items)

        base = self.item
        self.item += len(items)

        def one(i):
            self.item = base + 1 + i
            try:
                with quiet(), limit():
                    steps = fn(items[i])
                return 'ok', steps if isinstance(steps, int) else 1, None
            except Machinery as e:
                return 'machinery', str(e), None
            except Violation as v:
                return 'violation', v.clause, str(trunc(v.detail, 4000)) if v.detail is not None else None
            except Stuck:
                return 'violation', f'the code under test did not come back within {LIMIT} s', None
            except Exception as e:
                return 'violation', f'unexpected {type(e).__name__}: {e}', traceback.format_exc()[-3000:]
        _PAR = one
        counts = {}
        with mp.get_context('fork').Pool(jobs) as pool:
            for i, (kind, a, b) in enumerate(pool.imap(_par_call, range(len(items)), chunksize=1)):
                who = name if isinstance(name, str) else name[i]
                counts[who] = counts.get(who, 0) + 1
                if kind == 'machinery':
                    raise Machinery(a)
                if kind == 'violation':
                    self._violate(who, a, b, items[i] if isinstance(name, str) else items[i][1])
                    if len(self.violations) >= self.max_violations:
                        pool.terminate()
                        break
                else:
                    self.steps += a
                    self.replayed += 1
                    if len([s for s in self.samples if s.get('replay') == who]) < sample:
                        self.samples.append({'replay': who, 'case': trunc(items[i] if isinstance(name, str) else items[i][1])})
        for who, n in counts.items():
            self.extra.setdefault('replays', {})[who] = self.extra.get('replays', {}).get(who, 0) + n
        return sum(counts.values())

    def preplays(self, plays, jobs=6, sample=1):
        """Several preplay()s [(items, fn, name), ...] in one pool."""
        items = [(fn, it) for its, fn, _ in plays for it in its]
        return self.preplay(items, lambda x: x[0](x[1]), [name for its, _, name in plays for _ in its], jobs, sample)

    def tlc_many(self, runs, jobs=4):
        """Several TLC runs at once; runs are (args, kwargs) of tlc; the results keep their order."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(lambda r: self.tlc(*r[0], **r[1]), runs))

    def _violate(self, name, clause, detail, item):
        self._n += 1
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{self.pid}-{self._n}.json')
        with open(path, 'w') as fh:
            json.dump({'property': self.pid, 'replay': name, 'clause': clause,
                       'detail': trunc(detail, 4000), 'case': trunc(item, 20000)}, fh,
                      indent=1, default=str)
        self.violations.append((clause, path))
        print(f'VIOLATION property={self.pid} replay={path}')
        print(f'  [{name}] {clause}')
        if detail is not None:
            print('  ' + str(trunc(detail, 1500)).replace('\n', '\n  '))
        sys.stdout.flush()

    def known(self, text):
        """A listed known finding was observed (never suppresses anything else)."""
        if text not in self.known_hits:
            line = f'KNOWN-FINDING: property={self.pid} {text}'
            with open(os.path.join(VERIF, 'known_findings.txt')) as fh:
                if line not in [x.strip() for x in fh]:
                    raise Violation(text)
            self.known_hits.append(text)
            print(line, file=sys.__stdout__, flush=True)

    # --------------------------------------------------------------- evidence
    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.replayed,
                   implementation_steps=self.steps,
                   samples=self.samples[:12] or [{'note': 'no sample'}], models=self.models)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if self.violations else 0


def tla(v):
    """Python value -> TLA+ constant expression for a .cfg file."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v)) + '}'
    raise Machinery(f'cannot write {v!r} in a cfg')


def trunc(x, n=1500):
    if x is None:
        return None
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    if len(s) <= n:
        return x if not isinstance(x, str) else s
    return s[:n] + '...'


@contextlib.contextmanager
def quiet():
    """Swallow prints of the code under test."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield buf


class Stuck(BaseException):
    """The code under test did not come back."""


LIMIT = 240


@contextlib.contextmanager
def limit(seconds=LIMIT):
    """One item that takes minutes (normally well below seconds) is stuck in the code under test."""
    def stop(*_):
        raise Stuck()
    try:
        old = signal.signal(signal.SIGALRM, stop)
    except ValueError:      # not in the main thread
        yield
        return
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def expect(cond, clause, detail=None):
    if not cond:
        raise Violation(clause, detail)


def expect_raises(fn, clause, exc=Exception):
    try:
        fn()
    except (Violation, Machinery):
        raise
    except exc:
        return
    raise Violation(clause)


def close(a, b, tol=1e-9, scale=1.0):
    import math
    a, b = float(a), float(b)
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol * max(scale, abs(b))


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    ctx = Ctx(pid, tier, seed)
    os.environ['MPLCONFIGDIR'] = ctx.tmpdir('mpl')
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.path[:0] = [os.path.join(REPO, 'src', 'hookeai'), os.path.join(REPO, 'src'), REPO,
                    os.path.join(VERIF, 'harness')]
    cwd = ctx.tmpdir('cwd')
    os.chdir(cwd)
    try:
        try:
            mod = importlib.import_module(pid.lower())
        except Exception:
            tb = traceback.format_exc()
            if REPO + os.sep in tb and 'harness/' in tb:
                # the code under test cannot even be imported
                ctx._violate('import', 'code under test cannot be imported', tb, None)
                return ctx.finish()
            raise
        import warnings
        warnings.simplefilter('ignore')
        try:
            mod.run(ctx)
        except Machinery:
            if not ctx.violations:
                raise
        except Exception as e:
            if not any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)
                       for f in traceback.extract_tb(e.__traceback__)):
                raise
            ctx._violate('preparation', 'the code under test raised ' + repr(e)[:200], traceback.format_exc(), None)
        rc = ctx.finish()
        print(f'{pid} {tier}: states={ctx.states} transitions={ctx.transitions} '
              f'replayed={ctx.replayed} steps={ctx.steps} violations={len(ctx.violations)} '
              f'wall={time.time() - ctx.t0:.1f}s')
        return rc
    except Exception:
        traceback.print_exc()
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2


if __name__ == '__main__':
    # run under the importable module name, so that Violation etc. exist only once
    import fw
    sys.exit(fw.main(sys.argv))
