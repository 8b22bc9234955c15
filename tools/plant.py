"""Plants one bug: plant.py SPEC.py   (SPEC defines id, property, file(s),
edits, needs, breaks, demo).  Verifies build, stable tests, demo on the
unchanged tree and with the change, writes /verif/seeded/<id>, and reports
which registered checks of given properties catch it.

Everything happens in a private mount namespace with a copy of /repo bound
over /repo, so the real tree is never edited."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.environ.get('MC_VERIF', '/verif')
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def stable_missing():
    out = '/tmp/plant.%d.json' % os.getpid()
    sh('bash /opt/vp/test.sh ' + out)
    b = json.load(open('/opt/vp/BASELINE.json'))
    o = json.load(open(out))
    os.remove(out)

    def names(d):
        for k in ('passed', 'stable', 'tests', 'pass'):
            if k in d:
                return set(d[k])
    return names(b) - names(o)


def plant(id, property, edits, needs, breaks, demo, checks=None, files=()):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'dirty'
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' +
                demo.strip() + '\n')
    for name in files:
        shutil.copy(os.path.join(V, name), d)
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/'
                'demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': property, 'needs': needs,
                   'what_it_breaks': breaks}, f, indent=1)
        f.write('\n')
    ok = True
    r = sh('sh %s/demo.sh' % d, cwd='/repo')
    if r.returncode != 0:
        print(id, 'DEMO FAILS ON CLEAN TREE', r.stdout[-1500:])
        ok = False
    try:
        for path, old, new in edits:
            p = os.path.join('/repo/task_models', path)
            s = open(p).read()
            assert s.count(old) == 1, '%s: %d matches of %r' % (
                path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        with open(os.path.join(d, 'patch.diff'), 'w') as f:
            f.write(diff)
        miss = stable_missing()
        if miss:
            print(id, 'BREAKS TESTS', sorted(miss)[:5])
            ok = False
        r = sh('timeout 300 sh %s/demo.sh' % d, cwd='/repo')
        if r.returncode == 0:
            print(id, 'DEMO PASSES WITH BUG')
            ok = False
        caught = []
        for c in checks or [property]:
            r = sh('%s check.py %s' % (PY, c), cwd=V)
            hit = r.returncode == 1 and ('VIOLATION property=' + c) in r.stdout
            caught.append('%s:%s' % (c, 'caught' if hit else 'MISSED'))
            if hit:
                print('   ', r.stdout.split('\n')[0][:200])
        print(id, 'ok' if ok else 'INVALID', ' '.join(caught))
    finally:
        sh('git -C /repo checkout -- .')
    return ok


def inside(paths):
    only = os.environ.get('ONLY')

    def one(id, *a, **k):
        if not only or id in only.split(','):
            plant(id, *a, **k)
    for path in paths:
        exec(compile(open(path).read(), path, 'exec'), {'plant': one})


def main():
    if os.environ.get('PLANT_INSIDE'):
        return inside(sys.argv[1:])
    copy = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    try:
        sh('cp -a /repo %s/repo' % copy)
        env = dict(os.environ, PLANT_INSIDE='1')
        script = ('mount --bind %s/repo /repo && '
                  'mount -t tmpfs none /opt/vp/reports && '
                  'mount -t tmpfs none /verif/evidence && exec "$@"') % copy
        subprocess.run(['unshare', '-Urm', 'sh', '-ec', script, 'sh', PY,
                        '-B', os.path.abspath(__file__)] + sys.argv[1:],
                       env=env)
    finally:
        shutil.rmtree(copy)


if __name__ == '__main__':
    main()
