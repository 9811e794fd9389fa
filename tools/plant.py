#!/usr/bin/env python3
"""plant.py gen            write seeded/<id>/ from tools/bugs.py
plant.py confirm [ids]    build + stable tests + demo, with and without each change (in a scratch copy's place: /repo)
plant.py run [ids]        run the property's quick check on a scratch copy with the change; report what caught it"""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from bugs import BUGS
DEMO = '''#!/bin/bash
# exit 0: the behaviour is as it should be
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
g++ -std=c++17 -g -w -fopenmp %s -I"$R/_build/include" -I"$R/include" -I/usr/include/hdf5/serial "$D/demo.cpp" "$R/_build/src/libsoftlib.a" \\
    -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lgsl -lgslcblas -lpng -lm -o "$T/demo" || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 100 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def gen():
    for b in BUGS:
        d = V + '/seeded/' + b['id']
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp()
        diff = ''
        files = {}
        for f, old, new in b['edits']:
            s = files.get(f) or open('/repo/' + f).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            files[f] = s.replace(old, new)
        for f, s in files.items():
            os.makedirs(os.path.dirname(t + '/' + f), exist_ok=True)
            open(t + '/' + f, 'w').write(s)
            r = sh('diff -u --label a/%s --label b/%s /repo/%s %s/%s' % (f, f, f, t, f))
            diff += 'diff --git a/%s b/%s\n' % (f, f) + r.stdout
        shutil.rmtree(t)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(b['demo'].lstrip())
        open(d + '/demo.sh', 'w').write(DEMO % b.get('flags', ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)


def confirm(ids):
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', []) or [])
    sh('git -C /repo checkout -- .')
    assert sh('bash /opt/vp/build.sh').returncode == 0
    clean = {i: sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd='/repo') for i in ids}
    for i in ids:
        try:
            a = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (V, i))
            bl = sh('bash /opt/vp/test.sh /tmp/t.json') if a.returncode == 0 else None
            failed = [l for l in (bl.stdout.splitlines() if bl else []) if l.startswith('FAIL') and l.split()[1] not in ('distribution_analytical', 'distribution_code', 'distribution_soft')]
            d = sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd='/repo')
            ok = a.returncode == 0 and bl.returncode == 0 and not failed and clean[i].returncode == 0 and d.returncode not in (0, 2)
            print(i, 'OK' if ok else 'BAD', 'apply', a.returncode, a.stderr[-300:], 'tests', failed, bl and bl.returncode, 'clean', clean[i].returncode,
                  (clean[i].stdout + clean[i].stderr)[-600:] if clean[i].returncode else '', 'bug', d.returncode, (d.stdout + d.stderr)[-200:].strip(), flush=True)
        finally:
            sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')


def run1(i):
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    t = tempfile.mkdtemp(prefix='plant_')
    try:
        sh('cp -r /repo/include /repo/src %s/' % t)
        a = sh('cd %s && git apply --unsafe-paths --directory=%s %s/seeded/%s/patch.diff || patch -p1 < %s/seeded/%s/patch.diff' % (t, t, V, i, V, i))
        r = sh('python3-vt %s/check.py %s quick' % (V, m['property']), env=dict(os.environ, VERIF_REPO=t, VERIF_EVIDENCE=t))
        viol = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or l.startswith('  ')]
        print(i, m['property'], 'CAUGHT' if r.returncode == 1 and viol else 'MISSED rc=%d' % r.returncode, '\n'.join(viol[:3])[:300], '' if r.returncode < 2 else (r.stdout + r.stderr)[-500:], flush=True)
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    ids = sys.argv[2:] or [b['id'] for b in BUGS]
    if sys.argv[1] == 'gen':
        gen()
    elif sys.argv[1] == 'confirm':
        confirm(ids)
    else:
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(run1, ids))
