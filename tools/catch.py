#!/usr/bin/env python3
"""Runs the check of its property (or of the properties given with --props) on each planted bug, in a scratch copy of /repo.
catch.py [-j N] [--tier T] [--props P01,P02] [ID ...]"""
import sys, os, json, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; j = 2; tier = 'quick'; props = None
while a and a[0].startswith('-'):
    o = a.pop(0); v = a.pop(0)
    if o == '-j': j = int(v)
    elif o == '--tier': tier = v
    elif o == '--props': props = v.split(',')
ids = a or sorted(os.listdir(V + '/seeded'))
def one(i):
    d = tempfile.mkdtemp(prefix='vp_catch_')
    try:
        subprocess.run(['cp', '-a', '/repo/include', '/repo/py', '/repo/test', d])
        subprocess.run(['git', '-C', '/repo', 'archive', '--format=tar', 'HEAD', '-o', d + '/h.tar']); subprocess.run(['tar', '-xf', d + '/h.tar', '-C', d])
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d, '%s/seeded/%s/patch.diff' % (V, i)], capture_output=True, text=True, cwd='/')
        if r.returncode: return print(i, 'PATCH', r.stderr[:200])
        meta = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
        for p in props or [meta['property']]:
            t = time.time()
            r = subprocess.run(['python3-vt', V + '/engine/check.py', p, '--tier', tier], capture_output=True, text=True,
                               env=dict(os.environ, VP_REPO=d, VP_JOBS=str(max(1, min(8, int(os.environ.get("VP_CORES", "8"))) // j)), VP_EVIDENCE=d))
            l = [x for x in r.stdout.split('\n') if x.startswith(('VIOLATION', 'KNOWN'))]
            f = [x.strip()[:150] for x in r.stdout.split('\n') if x.startswith('  failed')][:1]
            print(i, p, 'rc', r.returncode, '%.0fs' % (time.time() - t), 'CAUGHT' if r.returncode == 1 and l else 'MISSED' if r.returncode == 0 else 'ERROR ' + r.stderr[-200:],
                  'no-input' if l and 'no-failing' in l[0] else '', f, flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(j) as ex: list(ex.map(one, ids))
