#!/usr/bin/env python3
"""Plant a bug and keep it under seeded/ once it is confirmed.

usage: plant.py SPECDIR [--check] [--jobs N]
SPECDIR holds one folder per bug: edit.py (defines FILE, EDITS=[(old,new)...] or FILES={file:[(old,new)]},
PROPERTY, NEEDS, BREAKS), demo.cpp.  The bug is applied to a scratch copy of /repo which is bind-mounted over
/repo in a private mount namespace, so /repo itself is never touched.
"""
import sys, os, json, shutil, subprocess, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0: behaviour as documented; non-zero: broken.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
g++ -std=c++14 -w -O1 -Isrc -I/usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" && (cd "$t" && timeout 120 "$t/demo")
r=$?
rm -rf "$t"
exit $r
'''
from threading import Lock
HEAVY = Lock()
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
FIXES = run(['git', '-C', '/repo', 'rev-list', 'c56ed1b..HEAD']).stdout.split()
def one(spec, check):
    name = os.path.basename(spec.rstrip('/')); log = []
    g = runpy.run_path(spec + '/edit.py')
    files = g.get('FILES') or {g['FILE']: g['EDITS']}
    slot = tempfile.mkdtemp(prefix='plant_' + name + '_', dir='/tmp/w')
    try:
        rc = slot + '/repo'; run(['cp', '-a', '/repo', rc])
        for f, eds in files.items():
            s = open(rc + '/' + f).read()
            for e in eds:
                old, new = e[:2]
                if len(e) == 3:   # the n-th occurrence only
                    i = -1
                    for _ in range(e[2] + 1):
                        i = s.find(old, i + 1)
                        if i < 0: return name, 'EDIT old text has no occurrence %d: %s' % (e[2], old[:60])
                    s = s[:i] + new + s[i + len(old):]; continue
                if s.count(old) != 1: return name, 'EDIT old text occurs %d times: %s' % (s.count(old), old[:60])
                s = s.replace(old, new)
            open(rc + '/' + f, 'w').write(s)
        diff = subprocess.run(['git', '-C', rc, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        out = slot + '/out'
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO if not os.path.exists(spec + '/demo.sh') else open(spec + '/demo.sh').read()); os.chmod(out + '/demo.sh', 0o755)
        for f in os.listdir(spec):
            if f not in ('edit.py', '__pycache__', 'demo.sh'): shutil.copy(spec + '/' + f, out)
        json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        # original lines only: no removed line may come from a later commit
        base = run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).stdout.split()[0]
        base = 'c56ed1b'
        n_old = 0
        for f in files:
            bl = run(['git', '-C', '/repo', 'blame', '-s', '-l', f]).stdout.split('\n')
            d = run(['git', '-C', rc, 'diff', '-U0', '--', f]).stdout
            import re
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
                a, k = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + k):
                    mine = any(bl[i - 1].lstrip('^').startswith(x) for x in FIXES)
                    n_old += not mine
                    if mine: log.append('line %d of %s is from a fix commit' % (i, f))
        if not n_old: return name, 'no original line changed'
        r = run(['bash', out + '/demo.sh'], cwd='/repo')
        if r.returncode: return name, 'DEMO fails on the unchanged tree: ' + r.stdout[-1500:]
        r2 = run(['bash', out + '/demo.sh'], cwd=rc)
        if not r2.returncode: return name, 'DEMO passes with the patch: ' + r2.stdout[-500:]
        HEAVY.acquire()
        r = run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && bash /opt/vp/test.sh %s/o.json' % (rc, slot)])
        HEAVY.release()
        o = json.load(open(slot + '/o.json'))
        p, f = len(o['passed']), o['failed']
        base = json.load(open('/opt/vp/BASELINE.json'))
        want = base.get('stable') or base.get('passed') or base.get('tests')
        miss = [t for t in want if t not in o['passed']] if want else []
        if p < 44 or miss: return name, 'TESTS %d passed; failed: %s' % (p, str(f)[:300])
        res = ('NOTE ' + '; '.join(log) + '\n   ' if log else '') + 'OK (demo says: %s)' % r2.stdout.strip()[-150:]
        dst = V + '/seeded/' + name
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        if check:
            e = dict(os.environ, POLYMPC_REPO=rc, VERIF_BUILD=slot + '/vb', VERIF_SEED='1', VERIF_TIER='quick')
            HEAVY.acquire()
            r = run(['python3', V + '/tools/check.py', g['PROPERTY'], '--tier', 'quick'], env=e)
            HEAVY.release()
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION property=' + g['PROPERTY'])]
            res += '\n   check rc=%d %s' % (r.returncode, ('CAUGHT ' + v[0][:200]) if r.returncode == 1 and v else 'MISSED ' + r.stdout[-300:])
        return name, res
    finally:
        shutil.rmtree(slot, ignore_errors=True)
if __name__ == '__main__':
    a = sys.argv[1:]; check = '--check' in a
    jobs = int(a[a.index('--jobs') + 1]) if '--jobs' in a else 2
    specs = [x for x in a if os.path.isdir(x)]
    with ThreadPoolExecutor(jobs) as ex:
        for n, r in ex.map(lambda s: one(s, check), specs): print(n, r, flush=True)
