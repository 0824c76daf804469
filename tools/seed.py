"""Development tool for planted bugs (not used by any check).

  seed.py verify ID...   applies in a scratch copy: tests, demo, changed lines
  seed.py catch ID...    runs the property's check on the patched scratch copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
BASE = 'e51dbb6'


def run(cmd, cwd, timeout=900, **env):
    e = {**os.environ, **env}
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)


def mk(name, pid, changes, demo, needs, breaks):
    """write seeded/NAME from textual replacements on /repo's HEAD"""
    d = os.path.join(SEEDED, name)
    os.makedirs(d, exist_ok=True)
    t = scratch()
    try:
        for f, old, new in changes:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (name, f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], t).stdout
        assert diff, name
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    with open(os.path.join(d, 'demo.sh'), 'w') as w:
        w.write('#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1\n'
                'export PYTHONPATH="$PWD"\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=pid, needs=needs, what_it_breaks=breaks),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def scratch():
    t = tempfile.mkdtemp(prefix='seed')
    shutil.rmtree(t)
    shutil.copytree(os.environ.get('SEED_REPO', '/repo'), t, symlinks=True)
    return t


def apply(t, name):
    r = run(['git', 'apply', os.path.join(SEEDED, name, 'patch.diff')], t)
    assert r.returncode == 0, r.stderr


def tests(t):
    out = os.path.join(t, '.junit.xml')
    run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '--rootdir=' + t, '-p', 'no:cacheprovider', '--timeout=300',
         '--continue-on-collection-errors', '--tb=short', '-o', 'junit_family=xunit2', '--junitxml=' + out], t,
        PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0')
    res = os.path.join(t, '.res.json')
    run(['/usr/bin/python3', '/opt/vp/results.py', res, 'junit:' + out], t)
    base = json.load(open('/opt/vp/BASELINE.json'))
    got = json.load(open(res))
    os.unlink(out)
    os.unlink(res)
    return sorted(set(base['stable']) - set(got['passed']))


def original_lines(t):
    """removed lines of the patch that come from the original repository"""
    diff = run(['git', 'diff', '-U0'], t).stdout
    ok = bad = 0
    f = None
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            f = line[6:]
        if line.startswith('@@'):
            old = line.split()[1][1:].split(',')
            n = int(old[1]) if len(old) > 1 else 1
            if n == 0:
                continue
            b = run(['git', 'blame', '-s', '-L%s,+%d' % (old[0], n), 'HEAD', '--', f], t).stdout
            for x in b.strip().split('\n'):
                if x.lstrip('^').startswith(BASE[:7]) or x.startswith('^'):
                    ok += 1
                else:
                    bad += 1
    return ok, bad


def demo(t, name):
    d = tempfile.mkdtemp(prefix='demo')
    for f in os.listdir(os.path.join(SEEDED, name)):
        if f not in ('patch.diff', 'meta.json'):
            shutil.copy(os.path.join(SEEDED, name, f), d)
    try:
        return run(['bash', os.path.join(d, 'demo.sh')], t, timeout=300)
    finally:
        shutil.rmtree(d)


def verify(name):
    t = scratch()
    try:
        c = demo(t, name)
        apply(t, name)
        p = demo(t, name)
        lines = original_lines(t)
        miss = tests(t)
        good = c.returncode == 0 and p.returncode != 0 and not miss and lines[0] > 0
        print('%s %s clean=%d patched=%d missing=%s original/own lines=%s' % (
            'ok ' if good else 'BAD', name, c.returncode, p.returncode, miss[:3], lines), flush=True)
        if c.returncode:
            print(c.stdout[-500:], c.stderr[-1500:])
        if not p.returncode:
            print(p.stdout[-500:])
    finally:
        shutil.rmtree(t)


def catch(name):
    pid = json.load(open(os.path.join(SEEDED, name, 'meta.json')))['property']
    t = scratch()
    try:
        apply(t, name)
        r = run(['python3', 'check.py', pid], ROOT, SX_REPO=t)
        v = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION')]
        print('%s %s rc=%d %s' % ('caught' if r.returncode == 1 and v else 'MISSED', name, r.returncode,
                                  r.stdout.strip().split('\n')[0][:150]), flush=True)
        for x in r.stdout.split('\n')[1:3]:
            print('     ', x[:250])
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    names = sys.argv[2:] or sorted(os.listdir(SEEDED))
    for n in names:
        {'verify': verify, 'catch': catch}[sys.argv[1]](n)
