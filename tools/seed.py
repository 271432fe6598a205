#!/usr/bin/env python3
"""Plant bugs: seed.py FILE.py ... ; each file defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)].
For each: scratch copy, edit, build, demo fails / passes on the clean copy, stable tests pass, then the check of the
property.  Writes /verif/seeded/<id>/ when confirmed."""
import json, os, shutil, subprocess, sys, textwrap
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/build/lib" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec timeout 250 /opt/venv/bin/python "$d/demo.py"
'''
ENV = dict(os.environ, LC_ALL='C.UTF-8', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def mkcopy(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ('src', 'tests', 'setup.py', 'README.md', 'magics', 'examples', 'requirements.sh', 'check.sh'):
        s = os.path.join('/repo', x)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(d, x), ignore=shutil.ignore_patterns('__pycache__'))
        elif os.path.exists(s):
            shutil.copy(s, d)


def build(d):
    shutil.rmtree(d + '/build', ignore_errors=True)
    return sh([PY, 'setup.py', '-q', 'build'], d)


def tests(d):
    base = json.load(open('/opt/vp/BASELINE.json'))
    files = sorted(f for f in os.listdir(d + '/build/lib/sppl/tests') if f.startswith('test_') and f.endswith('.py'))
    files.sort(key=lambda f: f != 'test_poly.py')
    env = dict(ENV, PYTHONPATH=d + '/build/lib')
    bad = []
    def one(f):
        r = sh(['timeout', '-k', '5', '200', PY, '-m', 'pytest', '-q', '-rfE', '--assert=plain', '-p', 'no:cacheprovider', '--timeout=90', 'build/lib/sppl/tests/' + f], d, env)
        if r.returncode not in (0, 5):
            return f + ': ' + ' | '.join(l for l in r.stdout.splitlines() if l.startswith(('FAILED', 'ERROR')))[:400]
    with ThreadPoolExecutor(4) as ex:
        bad = [x for x in ex.map(one, files) if x]
    return bad


def do(s, keep_tests=True):
    d = '/tmp/seedwork/' + s['id']
    mkcopy(d)
    sh(['git', 'init', '-q'], d); sh(['git', 'add', 'src'], d)
    sh(['git', '-c', 'user.name=a', '-c', 'user.email=a@b', 'commit', '-qm', 'x'], d)
    out = '/tmp/seedout/' + s['id']
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.py', 'w').write(textwrap.dedent(s['demo']).lstrip())
    json.dump({'property': s['prop'], 'needs': ' '.join(s['needs'].split()), 'what_it_breaks': ' '.join(s['breaks'].split())}, open(out + '/meta.json', 'w'), indent=1)
    r = build(d)
    if r.returncode:
        return s['id'], 'BUILD(clean) ' + r.stdout[-300:]
    r = sh(['bash', out + '/demo.sh'], d)
    if r.returncode:
        return s['id'], 'DEMO FAILS ON CLEAN ' + r.stdout[-600:]
    for f, old, new in s['edits']:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) != 1:
            return s['id'], 'EDIT matches %d times: %r' % (t.count(old), old[:60])
        open(p, 'w').write(t.replace(old, new))
    diff = sh(['git', 'diff', '--', 'src'], d).stdout
    open(out + '/patch.diff', 'w').write(diff)
    # lines changed must be lines of the original repository
    r = build(d)
    if r.returncode:
        return s['id'], 'BUILD ' + r.stdout[-300:]
    r = sh(['bash', out + '/demo.sh'], d)
    if r.returncode == 0:
        return s['id'], 'DEMO PASSES WITH THE BUG'
    demo_tail = r.stdout.strip().splitlines()[-1:] 
    if keep_tests:
        bad = tests(d)
        if not any(f.endswith(('poly.py', 'timeout.py')) for f, _, _ in s['edits']):
            bad = [b for b in bad if not b.startswith('test_poly.py')]     # time limits, under load
        if bad:
            return s['id'], 'TESTS ' + ' ;; '.join(bad)
    r = sh([sys.executable, 'check.py', s['prop']], VERIF, dict(os.environ, SPPL_REPO=d, VERIF_TIER='quick'))
    got = {0: 'MISSED', 1: 'CAUGHT'}.get(r.returncode, 'rc=%d' % r.returncode)
    dst = VERIF + '/seeded/' + s['id']
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    shutil.rmtree(d)
    return s['id'], '%s %s demo:%s' % (got, '' if got == 'CAUGHT' else r.stdout[-300:], demo_tail)


if __name__ == '__main__':
    todo = []
    only = [a for a in sys.argv[1:] if not a.endswith('.py')]
    for f in sys.argv[1:]:
        if f.endswith('.py'):
            ns = {}
            exec(open(f).read(), ns)
            todo += ns['SEEDS']
    if only:
        todo = [s for s in todo if s['id'] in only]
    with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for i, m in ex.map(do, todo):
            print(i, m, flush=True)
