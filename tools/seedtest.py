#!/usr/bin/env python3
"""Qualify planted bugs: seedtest.py [-j N] [--nochecks] [--props C01,C02] ID...   (no ID: all)
Each bug is tried in a scratch copy of /repo bind-mounted over /repo in a private mount namespace."""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue
V = '/verif'
W = '/tmp/w'
SCR = r'''
mount --bind %(w)s /repo
cd /repo
git checkout -q -- . 
bash /opt/vp/build.sh >/tmp/w/log.%(id)s 2>&1 || { echo R build0-fail; exit; }
(cd /repo; timeout 300 bash %(d)s/demo.sh >>/tmp/w/log.%(id)s 2>&1); echo R demo0 $?
git apply %(s)s/patch.diff || { echo R apply-fail; exit; }
bash /opt/vp/build.sh >>/tmp/w/log.%(id)s 2>&1 || { echo R build1-fail; git checkout -q -- .; exit; }
(cd /repo; timeout 300 bash %(d)s/demo.sh >>/tmp/w/log.%(id)s 2>&1); echo R demo1 $?
if [ "%(t)s" = 1 ]; then bash /opt/vp/test.sh /tmp/w/res.%(id)s.json >>/tmp/w/log.%(id)s 2>&1; echo R test $?; fi
cd /verif
for p in %(props)s; do python3 analysis/run.py $p 2>/tmp/w/err.%(id)s >/tmp/w/chk.%(id)s.$p; echo R check $p $?; done
cd /repo; git checkout -q -- .
'''


def one(id, slot, props, tests):
    w = '%s/s%d' % (W, slot)
    s = '%s/seeded/%s' % (V, id)
    d = '%s/demo.%s' % (W, id)
    subprocess.run('rm -rf %s; mkdir -p %s; cp -r %s/. %s; rm -f %s/*.diff %s/meta.json' % (d, d, s, d, d, d), shell=True)
    p = props or [json.load(open(s + '/meta.json'))['property']]
    r = subprocess.run(['unshare', '-m', 'bash', '-c', SCR % dict(w=w, id=id, s=s, d=d, t=int(tests), props=' '.join(p))],
                       capture_output=True, text=True)
    out = [l[2:] for l in r.stdout.splitlines() if l.startswith('R ')]
    if tests and os.path.exists('/tmp/w/res.%s.json' % id):
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        try:
            res = json.load(open('/tmp/w/res.%s.json' % id))
            passed = set(res.get('passed', []))
            out.append('tests-missing %d' % len(base - passed) + (' ' + ','.join(sorted(base - passed))[:200] if base - passed else ''))
        except Exception as e:
            out.append('tests? %s' % e)
    return id, out, r.stderr[-300:]


def main():
    a = sys.argv[1:]
    j, props, tests = 3, None, True
    ids = []
    while a:
        x = a.pop(0)
        if x == '-j':
            j = int(a.pop(0))
        elif x == '--props':
            props = a.pop(0).split(',')
        elif x == '--notest':
            tests = False
        else:
            ids.append(x)
    ids = ids or sorted(os.listdir(V + '/seeded'))
    j = min(j, len(ids))
    q = queue.Queue()
    for i in range(j):
        w = '%s/s%d' % (W, i)
        if not os.path.exists(w + '/target'):
            subprocess.run(['cp', '-a', '/repo/.', w])
        else:
            subprocess.run('rsync -a --exclude target /repo/ %s/ 2>/dev/null || (rm -rf %s/src %s/.git; cp -a /repo/src /repo/.git %s/)' % (w, w, w, w), shell=True)
        q.put(i)

    def go(id):
        s = q.get()
        try:
            return one(id, s, props, tests)
        finally:
            q.put(s)
    with ThreadPoolExecutor(j) as ex:
        for id, out, err in ex.map(go, ids):
            print(id, ' | '.join(out), err if not out else '', flush=True)


main()
