"""C20: histories of spec/Files.tla replayed on the real output folder / file name procedures."""
import os
import re
import shutil

from fw import expect, expect_raises
from ioput.iostandard import find_unique_file_with_regex, make_directory, new_file_path_with_int

# base number -> path below the scratch directory (one flat, one with a numeric tail, one dotted)
BASES = {1: 'out', 2: 'set_7', 3: 'v1_0'}
EXTS = {0: '', 1: '.dat', 2: '.pkl'}


def name(b, s, x):
    return BASES[b] + ''.join(f'_{i}' for i in s) + EXTS[x]


def regex(p, rel=''):
    base = '(' + '|'.join(BASES.values()) + ')' if p['b'] == 0 else BASES[p['b']]
    # the numeric tail of a base is part of it: patterns are anchored on the whole name
    suf = r'(_\d+)*' if p['d'] == 9 else r'(_\d+){%d}' % p['d']
    ext = r'(\.dat|\.pkl)?' if p['x'] == 9 else re.escape(EXTS[p['x']])
    return f'^{base}{suf}{ext}$'


def snapshot(d):
    out = {}
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isdir(p):
            out[f] = ('dir', tuple(sorted(os.listdir(p))))
        else:
            with open(p) as fh:
                out[f] = ('file', fh.read())
    return out


def spec_snapshot(tree):
    return {name(e['b'], e['s'], e['x']):
            (('dir', (f'content{e["v"]}',)) if e['k'] == 'dir' else ('file', str(e['v'])))
            for e in tree}


def replayer(ctx, nested):
    def run(hist):
        root = ctx.tmpdir('files')
        d = os.path.join(root, 'a', 'b') if nested else root
        try:
            for i, h in enumerate(hist):
                step(d, h, f'step {i + 1} ({h["op"]})')
                got = snapshot(d) if os.path.isdir(d) else {}
                want = spec_snapshot(h['tree'])
                expect(got == want, f'step {i + 1} ({h["op"]}): directory contents differ',
                       dict(op=h, got=got, spec=want))
        finally:
            ctx.rmdir(root)
        return len(hist)
    return run


def step(d, h, where):
    if h['op'] == 'find':
        if not os.path.isdir(d):
            return
        ps = [regex(p) for p in h['ps']]
        found, path = find_unique_file_with_regex(d, ps[0] if len(ps) == 1 else tuple(ps))
        hits = {name(e['b'], e['s'], e['x']) for e in h['hits']}
        expect(found == bool(hits), f'{where}: found {found}, specified {sorted(hits)}',
               dict(patterns=ps, files=sorted(os.listdir(d))))
        if hits:
            expect(os.path.dirname(path) == d and os.path.basename(path) in hits,
                   f'{where}: returned {path}, specified one of {sorted(hits)}', dict(patterns=ps))
        else:
            expect(path is None, f'{where}: a path without a file')
        return
    p = os.path.join(d, name(h['b'], h['s'], h['x']))
    if h['op'] == 'delete':
        if os.path.isdir(p):
            shutil.rmtree(p)
        else:
            os.remove(p)
    elif h['op'] == 'mkdir':
        if h['err']:
            expect_raises(lambda: make_directory(p, is_overwrite=h['ow']),
                          f'{where}: folder with the name of a file')
            return
        # nothing is overwritten unless asked for
        r = make_directory(p, is_overwrite=True) if h['ow'] else make_directory(p) if h['v'] % 2 else make_directory(p, is_overwrite=False)
        want = want_path(d, h)
        expect(r == want, f'{where}: folder {r}, specified {want}')
        expect(os.path.isdir(r) and not os.listdir(r), f'{where}: new folder missing or not empty')
        with open(os.path.join(r, f'content{h["v"]}'), 'w'):
            pass
    else:
        os.makedirs(d, exist_ok=True)
        r = new_file_path_with_int(p)
        want = want_path(d, h)
        expect(r == want, f'{where}: file {r}, specified {want}')
        expect(not os.path.exists(r), f'{where}: the new file name {r} is taken')
        with open(r, 'w') as fh:
            fh.write(str(h['v']))


def want_path(d, h):
    return os.path.join(d, name(h['b'], h['r'], h['x']))


def run(ctx):
    inv = ['Unique']
    ctx.tlc('Files', dict(Bases={1}, Exts={0}, MaxOps=3 if ctx.quick else 5, Sim=False),
            invariants=inv, properties=['Kept', 'Fresh'], view='View', label='exhaustive design')
    r = ctx.tlc('Files', dict(Bases={1}, Exts={0}, MaxOps=2, Sim=False),
                invariants=inv + ['Emit'], label='every pair of operations')
    ctx.replay(r.behaviours[ctx.seed % 40::40] if ctx.quick else r.behaviours,
               replayer(ctx, False), 'every pair')
    n = 300 if ctx.quick else 4000
    for nested in (False, True):
        r = ctx.tlc('Files', dict(Bases={1, 2, 3}, Exts={0, 1, 2}, MaxOps=30, Sim=True),
                    invariants=inv + ['Emit'], simulate=n, depth=80, label='random histories')
        ctx.replay(r.behaviours, replayer(ctx, nested), 'nested' if nested else 'flat')
    r = ctx.tlc('Files', dict(Bases={1}, Exts={0}, MaxOps=30, Sim=True),
                invariants=inv + ['Emit'], simulate=n, depth=80, label='random histories, one name')
    ctx.replay(r.behaviours, replayer(ctx, False), 'one name')
