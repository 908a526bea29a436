#!/usr/bin/env python3
"""development helper: confirm planted bugs (seeded/<id>) and show which checks catch them.
  plant.py new ID PROPERTY FILE OLD NEW   : make patch.diff from a replacement (repeat FILE OLD NEW), demo.cpp/needs from stdin
  plant.py confirm ID...                  : demo passes on clean tree, patch applies/builds/passes tests, demo fails
  plant.py catch ID...                    : run the property's quick check on the patched tree
"""
import sys, os, json, subprocess, shutil
V = '/verif'; R = '/repo'
def sh(cmd, timeout=900, **k):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **k)
    return p.returncode, p.stdout.decode('latin1')
def clean(): sh(['git', '-C', R, 'checkout', '--', '.'])
def base():
    return json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
# compiles demo.cpp against the headers of the current directory and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
INC=$PWD/include
%s -I"$INC" "$D/demo.cpp" -o "$T/demo" || exit 3
cd "$T" && timeout 60 ./demo
'''
def run_tests():
    sh(['rm', '-f', '/tmp/plant_out.json'])
    rc, o = sh('bash /opt/vp/test.sh /tmp/plant_out.json')
    try: d = json.load(open('/tmp/plant_out.json'))
    except Exception: return False, o[-2000:]
    return (len(d['failed']) == 0 and len(d['passed']) >= 12), str(d)[-600:]
def demo(i):
    return sh(['bash', V + '/seeded/' + i + '/demo.sh'], cwd=R, timeout=300)
def confirm(i):
    clean(); ok = True
    rc, o = demo(i)
    if rc: print(i, 'demo FAILS on clean tree:', rc, o[-1500:]); ok = False
    rc, o = sh(['git', '-C', R, 'apply', V + '/seeded/' + i + '/patch.diff'])
    if rc: print(i, 'patch does not apply', o); clean(); return False
    try:
        t, o = run_tests()
        if not t: print(i, 'tests fail:', o[-1500:]); ok = False
        rc, o = demo(i)
        if rc == 0: print(i, 'demo PASSES with patch'); ok = False
        elif rc == 3: print(i, 'demo does not compile', o[-1500:]); ok = False
        else: print(i, 'demo rc', rc, o.strip()[-300:])
    finally: clean()
    print(i, 'CONFIRMED' if ok else 'NOT CONFIRMED')
    return ok
def catch(i, only=None):
    m = json.load(open(V + '/MANIFEST.json')); meta = json.load(open(V + '/seeded/' + i + '/meta.json'))
    W = '/tmp/plantrepo%d' % os.getpid()
    sh(['rm', '-rf', W]); sh(['cp', '-a', R, W]); sh(['git', '-C', W, 'checkout', '--', '.'])
    rc, o = sh(['git', '-C', W, 'apply', V + '/seeded/' + i + '/patch.diff'])
    if rc: print(i, 'patch does not apply', o)
    os.environ['VF_REPO'] = W
    try:
        for c in m['checks']:
            pid = c['property']
            if only == 'all' or pid == meta['property']:
                rc, o = sh(c['quick_cmd'], cwd=V)
                v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
                print(i, pid, 'rc', rc, v[:2], '' if rc == 1 else o[-300:])
    finally: sh(['rm', '-rf', W])
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'new':
        i, prop = a[1], a[2]; reps = a[3:]
        d = V + '/seeded/' + i; os.makedirs(d, exist_ok=True)
        clean()
        for k in range(0, len(reps), 3):
            f, old, new = reps[k:k+3]
            p = R + '/include/textwolf/' + f; s = open(p, encoding='latin1').read()
            if s.count(old) != 1: print('replacement text occurs', s.count(old), 'times in', f); sys.exit(1)
            open(p, 'w', encoding='latin1').write(s.replace(old, new))
        rc, o = sh(['git', '-C', R, 'diff'])
        open(d + '/patch.diff', 'w', encoding='latin1').write(o); clean()
        txt = sys.stdin.read()
        head, src = txt.split('\n----\n', 1)
        needs, breaks = head.strip().split('\n', 1)
        json.dump({'property': prop, 'needs': needs.strip(), 'what_it_breaks': breaks.strip()}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.cpp', 'w').write(src)
        comp = 'g++ -w -O1'
        if src.startswith('//CXX '): comp = src.split('\n')[0][6:]
        open(d + '/demo.sh', 'w').write(DEMO % comp); os.chmod(d + '/demo.sh', 0o755)
        sys.exit(0 if confirm(i) else 1)
    if a[0] == 'confirm': sys.exit(0 if all([confirm(i) for i in (a[1:] or sorted(os.listdir(V + '/seeded')))]) else 1)
    if a[0] == 'catch':
        for i in a[1:] or sorted(os.listdir(V + '/seeded')): catch(i)
    if a[0] == 'catchall':
        for i in a[1:] or sorted(os.listdir(V + '/seeded')): catch(i, 'all')
