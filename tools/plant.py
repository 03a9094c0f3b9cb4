#!/usr/bin/env python3
"""Development tool: makes and confirms the planted bugs of seeded/ (never used by a check).

plant.py SPECFILE [name...]   SPECFILE is Python text defining PLANTS = [dict(name, property, edits=[(file, old, new)],
                              needs, breaks, demo=scheme text, or demo_sh=shell text, files={name: text})]
plant.py --check [name...]    runs each planted bug's check (quick tier) against /repo with the patch applied
"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
R = '/repo'
BASE = '38fe113'
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)

DEMO = '''#!/bin/bash
# runs demo.scm beside this file and compares its output with demo.out
d=$(cd "$(dirname "$0")" && pwd)
exe=$PWD/_build/pscm_cc
t=$(mktemp -d) || exit 2
trap 'find "$t" -mindepth 1 -delete; rmdir "$t"' EXIT
cd "$t" || exit 2
timeout 60 "$exe" --test "$d/demo.scm" > "$t/out" 2> /dev/null < /dev/null
cmp "$t/out" "$d/demo.out"
'''

def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, (r.stdout + r.stderr)[-1500:]

def tests():
    r = sh('bash /opt/vp/test.sh /tmp/plant.json')
    b = json.load(open('/opt/vp/BASELINE.json'))
    o = json.load(open('/tmp/plant.json'))
    bp = set(b['passed'] if 'passed' in b else b['stable'])
    return sorted(bp - set(o['passed']))

def revert():
    sh('git -C /repo checkout -- .')

def demo(d):
    return sh('bash %s/demo.sh' % d, cwd=R, timeout=400).returncode

def make(p):
    assert not sh('git -C /repo status --short').stdout.strip(), 'repo not clean'
    d = os.path.join(S, p['name'])
    os.makedirs(d, exist_ok=True)
    if 'demo_sh' in p:
        open(d + '/demo.sh', 'w').write(p['demo_sh'])
    else:
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.scm', 'w').write(p['demo'].strip() + '\n')
    for n, t in p.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    ok, msg = build()
    assert ok, msg
    if 'demo_sh' not in p:
        r = subprocess.run(['timeout', '60', R + '/_build/pscm_cc', '--test', d + '/demo.scm'], capture_output=True, cwd='/tmp', stdin=subprocess.DEVNULL)
        open(d + '/demo.out', 'wb').write(r.stdout)
    res = {}
    a = demo(d)
    try:
        for f, old, new in p['edits']:
            q = os.path.join(R, f)
            t = open(q).read()
            if t.count(old) != 1:
                return p['name'], 'edit matches %d times in %s' % (t.count(old), f)
            open(q, 'w').write(t.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        # removed lines must be original ones
        bad = []
        for f in {e[0] for e in p['edits']}:
            bl = sh('git -C /repo blame -s HEAD -- %s' % f).stdout.split('\n')
            cur = None
            for l in sh('git -C /repo diff -U0 -- %s' % f).stdout.split('\n'):
                if l.startswith('@@'):
                    cur = int(l.split()[1][1:].split(',')[0])
                elif l.startswith('-') and not l.startswith('---'):
                    if not bl[cur - 1].startswith('^' + BASE):
                        bad.append(l)
                    cur += 1
        ok, msg = build()
        if not ok:
            return p['name'], 'does not build: ' + msg
        miss = tests()
        b = demo(d)
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    finally:
        revert()
    build()
    good = a == 0 and b != 0 and not miss
    return p['name'], '%s demo clean=%d patched=%d missing tests=%s%s' % ('OK' if good else 'BAD', a, b, miss[:5], ' NOT ORIGINAL LINES %s' % bad if bad else '')

def check(name):
    d = os.path.join(S, name)
    pid = json.load(open(d + '/meta.json'))['property']
    assert not sh('git -C /repo status --short').stdout.strip(), 'repo not clean'
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode:
        return name, 'patch does not apply: ' + r.stderr
    try:
        r = sh('VERIF_NO_EVIDENCE=1 python3 run.py %s' % pid, cwd=V)
        out = r.stdout.strip().split('\n')
        viol = [l for l in out if l.startswith('VIOLATION')]
        return name, '%s rc=%d %s %s' % (pid, r.returncode, 'CAUGHT' if r.returncode == 1 and viol else 'MISSED', ' / '.join(out[1:4])[:300] if viol else out[-1][:200])
    finally:
        revert()
        sh('rm -f %s/replay/%s-*' % (V, pid))

if __name__ == '__main__':
    if sys.argv[1] == '--check':
        for n in sys.argv[2:] or sorted(os.listdir(S)):
            print(*check(n), flush=True)
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        for p in ns['PLANTS']:
            if not sys.argv[2:] or p['name'] in sys.argv[2:]:
                print(*make(p), flush=True)
