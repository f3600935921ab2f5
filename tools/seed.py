"""Confirm a planted bug and file it under /verif/seeded/<id>.

usage: seed.py spec.py   where spec.py defines ID, PROP, NEEDS, WHAT, EDITS=[(file, old, new)], DEMO
The patch is applied to a scratch copy of /repo (bind-free: a copy under /tmp, tests run there).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

s = runpy.run_path(sys.argv[1])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', QT_QPA_PLATFORM='offscreen',
           XDG_RUNTIME_DIR='/root/.xdg-runtime')
os.makedirs('/root/.xdg-runtime', mode=0o700, exist_ok=True)
d = tempfile.mkdtemp(prefix='seed')
try:
    w = d + '/repo'
    subprocess.check_call(['cp', '-a', '/repo', w])
    out = '/verif/seeded/' + s['ID']
    os.makedirs(out, exist_ok=True)
    demo_sh = ('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 QT_QPA_PLATFORM=offscreen XDG_RUNTIME_DIR="${XDG_RUNTIME_DIR:-/tmp}" PYTHONPATH="$PWD"\n'
               'exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(out + '/demo.sh', 'w').write(demo_sh)
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.py', 'w').write(s['DEMO'].lstrip())

    def demo():
        for i in range(3):
            p = subprocess.run(['bash', out + '/demo.sh'], cwd=w, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            yield p.returncode, p.stdout.decode()[-400:]
    r0 = list(demo())
    print('unpatched', [r[0] for r in r0], r0[0][1] if r0[0][0] else '')
    for f, a, b in s['EDITS']:
        t = open(w + '/' + f).read()
        assert t.count(a) == 1, (f, a, t.count(a))
        open(w + '/' + f, 'w').write(t.replace(a, b))
    diff = subprocess.check_output(['git', '-C', w, 'diff'])
    open(out + '/patch.diff', 'wb').write(diff)
    # lines removed must be original ones
    base = subprocess.check_output(['git', '-C', w, 'rev-list', '--max-parents=0', 'HEAD']).decode().split()[0]
    for f, a, b in s['EDITS']:
        orig = subprocess.check_output(['git', '-C', w, 'show', base + ':' + f]).decode().splitlines()
        for l in diff.decode().splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
                print('NOT ORIGINAL LINE:', l)
    r1 = list(demo())
    print('patched', [r[0] for r in r1], r1[0][1][-300:])
    p = subprocess.run(['/usr/bin/tini', '-s', '--', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=120',
                        '--ignore=teleprox/tests/test_logging.py', '-o', 'junit_family=xunit2', '--junitxml=' + d + '/j.xml'],
                       cwd=w, env=dict(ENV, PYTHONPATH=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    subprocess.run(['/opt/venv/bin/python', '/opt/vp/results.py', d + '/o.json', 'junit:' + d + '/j.xml'])
    got = json.load(open(d + '/o.json'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss = [x for x in stable if x not in got['passed']]
    print('stable tests missing:', miss)
    ok = all(r[0] == 0 for r in r0) and all(r[0] != 0 for r in r1) and not miss
    json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['WHAT']}, open(out + '/meta.json', 'w'), indent=1)
    print(s['ID'], 'OK' if ok else 'REJECTED')
    if not ok:
        shutil.rmtree(out)
finally:
    shutil.rmtree(d)
