"""Seeded changes: make (from edits), validate, and match with the checks. Not part of any check.

  seedtool.py make SPEC.py      SPEC defines SEEDS = [dict(id, property, file or edits, needs, breaks, demo)]
  seedtool.py valid [ID...]     builds, tests pass, demo ok without and failing with the change
  seedtool.py run [-a] [ID...]  which checks catch it (own property's check, -a: all of them)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, 'seeded')
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/sh
# exit 0: as it should be
exec %s -B "$(dirname "$0")/demo.py"
''' % PY
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
sys.stdout = open(os.devnull, 'w')
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def copy(name):
    d = tempfile.mkdtemp(prefix='seed-%s-' % name)
    r = os.path.join(d, 'repo')
    sh(['cp', '-a', '/repo', r])
    return d, r


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        d, r = copy(s['id'])
        try:
            for file, old, new in s['edits']:
                p = os.path.join(r, file)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], file, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            diff = sh(['git', 'diff'], cwd=r).stdout
        finally:
            shutil.rmtree(d)
        out = os.path.join(SEEDED, s['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(HEAD + s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        print('made', s['id'])


def demo(r, sid):
    """the demo runs away from /verif"""
    d = tempfile.mkdtemp(prefix='demo-')
    try:
        w = os.path.join(d, 'x')
        shutil.copytree(os.path.join(SEEDED, sid), w, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        return sh(['sh', os.path.join(w, 'demo.sh')], cwd=r, timeout=300)
    finally:
        shutil.rmtree(d)


def patched(sid):
    d, r = copy(sid)
    p = sh(['git', 'apply', os.path.join(SEEDED, sid, 'patch.diff')], cwd=r)
    assert p.returncode == 0, p.stdout.decode()
    return d, r


def valid(sid):
    d, r = copy(sid)
    try:
        p = demo(r, sid)
        if p.returncode:
            return 'DEMO FAILS ON THE UNCHANGED TREE: ' + p.stdout.decode()[-600:]
    finally:
        shutil.rmtree(d)
    d, r = patched(sid)
    try:
        e = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        p = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8', '--timeout=300'], cwd=r, env=e)
        tail = p.stdout.decode().strip().splitlines()[-1]
        if '346 passed' not in tail or 'failed' in tail:
            return 'TESTS: ' + '\n'.join(p.stdout.decode().strip().splitlines()[-6:])
        p = demo(r, sid)
        if p.returncode == 0:
            return 'DEMO PASSES WITH THE CHANGE'
        return 'ok; demo: ' + ''.join(p.stdout.decode().strip().splitlines()[-1:])[:150]
    finally:
        shutil.rmtree(d)


def run(sid, every):
    d, r = patched(sid)
    hits = []
    try:
        own = json.load(open(os.path.join(SEEDED, sid, 'meta.json')))['property']
        ids = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']] if every else [own]
        e = dict(os.environ, GCS_REPO=r)
        for i in ids:
            p = sh(['python3', 'check.py', i], cwd=V, env=e)
            t = p.stdout.decode()
            if p.returncode == 1 and ('VIOLATION property=%s ' % i) in t:
                hits.append(i)
                if i == own:
                    print('  ', '\n   '.join(t.splitlines()[1:7])[:700])
            elif p.returncode:
                print('  ', i, 'ended with', p.returncode, t[-300:])
    finally:
        shutil.rmtree(d)
    return own, hits


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        return make(args[0])
    every = '-a' in args
    ids = [a for a in args if a != '-a'] or sorted(os.listdir(SEEDED))
    for sid in ids:
        if cmd == 'valid':
            print(sid, valid(sid), flush=True)
        else:
            own, hits = run(sid, every)
            path = os.path.join(V, 'tools', 'caught.json')
            c = json.load(open(path)) if os.path.exists(path) else {}
            c[sid] = hits if every else sorted(set(c.get(sid, [])) - {own} | set(hits))
            json.dump(c, open(path, 'w'), indent=1, sort_keys=True)
            print(sid, own, 'CAUGHT' if own in hits else 'MISSED', hits, flush=True)


main()
