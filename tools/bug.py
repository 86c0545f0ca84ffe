#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a description: bug.py SPEC.py ID [...]  (SPEC defines BUGS: id -> dict).

  edits: [(file, old, new)], demo: C++ text (or demo_sh: shell text), std, flags, needs, breaks, property
Applies the change to /repo, rebuilds and runs the stable tests, checks that the demonstration passes without it and
fails with it, and undoes it."""
import sys, os, json, subprocess, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
%s
'''
CXX = '''g++ -std=%s -O1 -g %s -I"$PWD/include" "$here/demo.cpp" -o "$d/demo" || exit 2
timeout 120 "$d/demo"'''
def demo(dst): 
    r = sh('bash %s/demo.sh' % dst, cwd=REPO); return r.returncode, r.stdout
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    names = sys.argv[2:] or list(bugs)
    for n in names:
        b = bugs[n]; dst = '/tmp/x/bugs/%s' % n
        shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
        assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo not clean'
        if 'demo' in b: open(dst + '/demo.cpp', 'w').write(b['demo'].lstrip('\n'))
        for f, t in b.get('files', {}).items(): open(os.path.join(dst, f), 'w').write(t.lstrip('\n'))
        open(dst + '/demo.sh', 'w').write(DEMO % (b.get('demo_sh') or CXX % (b.get('std', 'c++11'), b.get('flags', ''))))
        os.chmod(dst + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(dst + '/meta.json', 'w'), indent=1)
        rc0, o0 = demo(dst)
        try:
            for f, old, new in b['edits']:
                p = os.path.join(REPO, f); s = open(p).read()
                assert s.count(old) == 1, (n, f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            open(dst + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            rc1, o1 = demo(dst)
            if rc0 != 0 or rc1 == 0 or rc1 == 2:
                print(n, 'BAD DEMO', rc0, rc1, o0[-300:], o1[-600:]); continue
            t = sh('bash /opt/vp/test.sh /tmp/x/out.json')
            base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open('/tmp/x/out.json'))
            miss = sorted(set(base['stable']) - set(got['passed']))
            if miss: print(n, 'TESTS FAIL', len(miss), miss[:4], [l[:200] for l in t.stdout.split('\n') if 'error' in l][:4]); continue
            out = V + '/seeded/' + n
            shutil.rmtree(out, ignore_errors=True); shutil.copytree(dst, out)
            print(n, 'kept', 'demo:', rc0, rc1, (o1.strip().split('\n') or [''])[-1][:150])
        finally:
            sh('git -C /repo checkout -- .')
        sys.stdout.flush()
main()
