"""Create a planted bug: plant.plant(id, property, [(file, old, new)], demo, needs, breaks)
in a scratch copy of /repo, and confirm that the demonstration separates the two trees."""
import json, os, shutil, subprocess
WT = '/tmp/bugwt'
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
SH = '''#!/bin/bash
# cwd: the repository. Exits 0 iff the demonstrated behaviour is right.
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= PYTHONPATH="$PWD/src/hookeai" PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def scratch():
    shutil.rmtree(WT, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', WT], check=True)


def plant(bid, prop, edits, demo, needs, breaks):
    if not os.path.isdir(WT):
        scratch()
    git = lambda *a: subprocess.run(['git', '-C', WT, *a], check=True, capture_output=True, text=True).stdout
    git('checkout', '-q', '--', '.')
    git('pull', '-q')
    d = os.path.join(SEED, bid)
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f:
        f.write(demo)
    with open(d + '/demo.sh', 'w') as f:
        f.write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/meta.json', 'w') as f:
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), f, indent=1)
    demo_sh = lambda: subprocess.run(['bash', d + '/demo.sh'], cwd=WT, capture_output=True, text=True)
    a = demo_sh()
    for path, old, new in edits:
        p = os.path.join(WT, 'src/hookeai', path)
        s = open(p).read()
        assert s.count(old) == 1, (bid, path, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = git('diff')
    with open(d + '/patch.diff', 'w') as f:
        f.write(diff)
    b = demo_sh()
    git('checkout', '-q', '--', '.')
    ok = a.returncode == 0 and b.returncode != 0
    print(bid, 'OK' if ok else 'BAD', a.returncode, b.returncode)
    if not ok:
        print(a.stdout[-300:], a.stderr[-700:], '-----', b.stdout[-300:], b.stderr[-300:])
    else:
        print('   ', b.stderr.strip().splitlines()[-1][:150] if b.stderr.strip() else '')
