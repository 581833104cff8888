#!/usr/bin/env python3
"""seed.py new ID PROP    : takes /repo's current diff as planted bug ID (demo.py must exist or be written afterwards), undoes it
seed.py test ID [PROP..] : demo on the clean tree, then with the patch: build, tests (unless -n), demo, and the checks
seed.py kit              : refreshes every demo's copy of the simulator"""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = f'{V}/seeded'
R = os.environ.get('VERIF_REPO', '/repo')      # a copy, while a vcheck is running: it looks at /repo as it is


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def kit(d):
    k = f'{d}/kit'
    if os.path.isdir(k):
        shutil.rmtree(k)
    os.makedirs(f'{k}/dl')
    open(f'{k}/dl/__init__.py', 'w').close()
    shutil.copytree(f'{V}/sim', f'{k}/sim')
    shutil.copy(f'{V}/tools/kit/demo_lib.py', k)
    for f in ('build.py', 'harness.py'):
        t = open(f'{V}/vlib/{f}').read().replace('/verif', '<verif>')
        open(f'{k}/dl/{f}', 'w').write(t)
    for r, _, fs in os.walk(f'{k}/sim'):
        for f in fs:
            t = open(f'{r}/{f}').read()
            if '/verif' in t:
                open(f'{r}/{f}', 'w').write(t.replace('/verif/', ''))
    with open(f'{d}/demo.sh', 'w') as f:
        f.write('#!/bin/bash\n# Runs with cwd /repo: judges the sources there.\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)


def main():
    c = sys.argv[1]
    if c == 'kit':
        for i in sorted(os.listdir(S)):
            kit(f'{S}/{i}')
        return 0
    i = sys.argv[2]
    d = f'{S}/{i}'
    if c == 'new':
        os.makedirs(d, exist_ok=True)
        p = sh(f'git -C {R} diff').stdout
        assert p.strip(), 'no diff'
        open(f'{d}/patch.diff', 'w').write(p)
        sh(f'git -C {R} checkout -- .')
        kit(d)
        print(p)
        return 0
    props = [a for a in sys.argv[3:] if a != '-n'] or [json.load(open(f'{d}/meta.json'))['property']]
    r = sh(f'bash {d}/demo.sh', cwd=R)
    print('clean demo:', r.returncode, r.stdout.strip()[-300:])
    ok = r.returncode == 0
    r = sh(f'git -C {R} apply {d}/patch.diff')
    if r.returncode:
        print(r.stdout); return 1
    try:
        r = sh('bash /opt/vp/build.sh') if R == '/repo' else sh('true')
        print('build:', r.returncode, r.stdout[-600:] if r.returncode else '')
        if '-n' not in sys.argv and R == '/repo':
            r = sh('bash /opt/vp/test.sh /tmp/t.json')
            print('tests:', open('/tmp/t.json').read()[:400])
        r = sh(f'bash {d}/demo.sh', cwd=R)
        print('patched demo:', r.returncode, r.stdout.strip()[-600:])
        for p in props:
            r = sh(f'python3 {V}/check.py {p}')
            print(f'check {p}:', r.returncode, r.stdout.strip()[-700:])
    finally:
        sh(f'git -C {R} checkout -- .')
    return 0


if __name__ == '__main__':
    sys.exit(main())
