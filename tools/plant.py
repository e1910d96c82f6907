"""plant.py [ID...]: writes /verif/seeded/ID from the table in tools/bugs.py and
confirms it (builds, stable tests pass, demo 0 on clean / nonzero on patched)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from bugs import BUGS
R = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def clean():
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty repo'


def tests_ok():
    base = json.load(open('/opt/vp/BASELINE.json'))
    b = sh('bash /opt/vp/build.sh')
    if b.returncode:
        return False, b.stdout.decode()[-500:]
    sh('bash /opt/vp/test.sh /tmp/w/out.json')
    out = json.load(open('/tmp/w/out.json'))
    return base, out


def stable_pass():
    base, out = tests_ok()
    if base is False:
        return out
    want = base.get('stable') or base.get('passed') or base
    want = set(want if isinstance(want, list) else want.keys())
    got = set(out.get('passed') or [])
    miss = want - got
    return None if not miss else 'tests fail: %s' % sorted(miss)[:5]


def main():
    ids = sys.argv[1:] or list(BUGS)
    for i in ids:
        b = BUGS[i]
        clean()
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        for f, old, new in b['edits']:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, (i, f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        if 'demo' in b:
            open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/sh\n# exit 0: the property holds on this input\n'
                'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        bad = stable_pass()
        p = sh('sh %s/demo.sh' % d, cwd=R)
        chk = None
        if '--nocheck' not in os.environ.get('PLANT', ''):
            chk = sh('VERIF_SEED=1 ./check ' + b['property'], cwd=V)
        sh('git -C /repo checkout -- .')
        c = sh('sh %s/demo.sh' % d, cwd=R)
        print(i, 'tests:', bad or 'ok', '| demo patched', p.returncode, 'clean', c.returncode,
              '| check', chk.returncode if chk else '-', (chk.stdout.decode().strip().splitlines() or [''])[-1] if chk else '')
        if c.returncode:
            print(c.stdout.decode()[-800:])
        if not p.returncode:
            print(p.stdout.decode()[-800:])
        sys.stdout.flush()
        clean()


main()
