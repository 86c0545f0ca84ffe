#!/usr/bin/env python3
"""Runs checks on edits that keep the behaviour (tools/refactors.py), in scratch copies of /repo: each must stay quiet.
quiet.py [-j N] [--tests] [ID ...]"""
import sys, os, json, subprocess, shutil, tempfile, time, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = runpy.run_path(V + '/tools/refactors.py')['R']
a = sys.argv[1:]; j = 2; only = None
while a and a[0].startswith('-'):
    o = a.pop(0)
    if o == '-j': j = int(a.pop(0))
    elif o == '--props': only = a.pop(0).split(',')
def one(i):
    props, edits = R[i]
    d = tempfile.mkdtemp(prefix='vp_quiet_')
    try:
        subprocess.run(['git', '-C', '/repo', 'archive', '--format=tar', 'HEAD', '-o', d + '/h.tar']); subprocess.run(['tar', '-xf', d + '/h.tar', '-C', d])
        for f, old, new in edits:
            p = os.path.join(d, f); s = open(p).read()
            if callable(old): t = old(s)
            else:
                assert s.count(old) == 1, (i, f, s.count(old), old)
                t = s.replace(old, new)
            open(p, 'w').write(t)
        for p in only or props:
            t = time.time()
            r = subprocess.run(['python3-vt', V + '/engine/check.py', p, '--tier', 'quick'], capture_output=True, text=True,
                               env=dict(os.environ, VP_REPO=d, VP_JOBS=str(max(1, min(8, int(os.environ.get("VP_CORES", "8"))) // j)), VP_EVIDENCE=d))
            l = [x for x in r.stdout.split('\n') if x.startswith(('VIOLATION', 'KNOWN', '  failed'))]
            e = json.load(open('%s/%s.json' % (d, p))) if os.path.exists('%s/%s.json' % (d, p)) else {}
            print(i, p, 'QUIET' if r.returncode == 0 else 'ALARM rc %d' % r.returncode, '%.0fs' % (time.time() - t), [x[:250] for x in l[:3]], r.stdout.strip().split('\n')[-1][:200], r.stderr[-200:], flush=True)
    except AssertionError as x: print(i, 'SPEC', x, flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(j) as ex: list(ex.map(one, a or list(R)))
