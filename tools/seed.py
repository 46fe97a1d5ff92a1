"""Make and confirm planted bugs: tools/seed.py SPEC.py [id ...]

SPEC.py holds BUGS = [dict(id, property, edits=[(file, old, new)], needs,
what_it_breaks, demo)].  For each: the patch is made in a scratch copy of
/repo, built and tested there, and the demonstration is run with and without
it; only then is /verif/seeded/<id>/ written.  With --check the property's
check is run against /repo with the patch applied (and undone).
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
PRELUDE = '''"""Exits 0 when the behaviour is right, 1 when it is not."""
import itertools, math, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings; warnings.simplefilter('ignore')
import py2load; py2load.install(os.getcwd())
import numpy as np
nan = float('nan')
def close(a, b, tol=1e-8):
    return a == b or abs(a - b) < tol * (1 + abs(a))
def expect(ok, msg):
    if not ok:
        print('WRONG: %s' % (msg,)); sys.exit(1)

'''
SH = '''#!/bin/bash
# cwd: the repository.  Exit 0: right, nonzero: wrong.
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
for P in /opt/venv/bin/python python3; do
    if command -v $P >/dev/null; then exec $P "$D/demo.py"; fi
done
exit 99
'''


def sh(cmd, cwd=None, timeout=300):
    p = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    check = '--check' in sys.argv
    ns = {}
    exec(open(args[0]).read(), ns)
    for b in ns['BUGS']:
        if args[1:] and b['id'] not in args[1:]:
            continue
        print('==', b['id'], flush=True)
        scratch = tempfile.mkdtemp(prefix='seed')
        dst = os.path.join(HERE, 'seeded', b['id'])
        try:
            repo = os.path.join(scratch, 'repo')
            sh('cp -a /repo %s && git -C %s checkout -q -- .' % (repo, repo))
            demo = os.path.join(scratch, 'demo')
            os.makedirs(demo)
            shutil.copy(os.path.join(HERE, 'lib', 'py2load.py'), demo)
            open(os.path.join(demo, 'demo.py'), 'w').write(
                PRELUDE + b['demo'].strip() + '\n')
            open(os.path.join(demo, 'demo.sh'), 'w').write(SH)
            os.chmod(os.path.join(demo, 'demo.sh'), 0o755)
            rc, out = sh('bash %s/demo.sh' % demo, cwd=repo)
            if rc != 0:
                print('  DEMO FAILS ON UNCHANGED TREE', out[-1500:])
                continue
            bad = False
            for f, old, new in b['edits']:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print('  EDIT does not match once (%d): %s' % (
                        s.count(old), old))
                    bad = True
                    continue
                open(p, 'w').write(s.replace(old, new))
            if bad:
                continue
            rc, patch = sh('git diff', cwd=repo)
            rc, out = sh('bash %s/demo.sh' % demo, cwd=repo)
            if rc == 0:
                print('  DEMO PASSES WITH THE BUG')
                continue
            print('  demo:', out.strip().splitlines()[-1:] )
            # py2 syntax and stable tests, with the copy in place of /repo.
            rc, out = sh('. /opt/vp/env.sh; $PY /opt/vp/parse_py2.py '
                '%s/setup.py %s/src %s/tests' % (repo, repo, repo), cwd='/')
            if rc != 0:
                print('  DOES NOT PARSE', out[-800:])
                continue
            os.makedirs(dst, exist_ok=True)
            for f in os.listdir(dst):
                os.unlink(os.path.join(dst, f))
            for f in ('py2load.py', 'demo.py', 'demo.sh'):
                shutil.copy(os.path.join(demo, f), dst)
            open(os.path.join(dst, 'patch.diff'), 'w').write(patch)
            json.dump({'property': b['property'], 'needs': b['needs'],
                'what_it_breaks': b['what_it_breaks']},
                open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
            if check:
                runcheck(b['id'], b['property'])
        finally:
            shutil.rmtree(scratch)


def runcheck(bid, prop):
    assert not sh('git -C /repo status --short --untracked-files=no')[1]
    patch = os.path.join(HERE, 'seeded', bid, 'patch.diff')
    try:
        rc, out = sh('git -C /repo apply %s' % patch)
        assert rc == 0, out
        rc, out = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json')
        o = json.load(open('/tmp/o.json'))
        if len(o['passed']) < 3:
            print('  STABLE TESTS FAIL')
        rc, out = sh('VERIF_SEED=1 VERIF_TIER=quick ./check %s' % prop,
            cwd=HERE, timeout=900)
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        print('  check %s: rc=%d %s' % (prop, rc, 'CAUGHT' if rc == 1 and v
            else 'MISSED'))
        if rc == 1:
            print('   ', out.splitlines()[1][:200])
    finally:
        sh('git -C /repo checkout -- .')


if __name__ == '__main__':
    main()
