#!/usr/bin/env python3
"""Confirms planted bugs in private copies: seedtest.py [-j N] ID...   (needs mount namespaces; development only)
For each /verif/seeded/ID: demo on the clean tree, apply, build, tests, demo, and the check of its property."""
import json, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
V = '/verif'
INNER = r'''
mount --bind %(w)s /repo || exit 9
cd /repo
git fetch -q %(head)s/.git HEAD 2>/dev/null; true
git checkout -q -- . ; git clean -qfd altro examples perf
%(pre)s
git apply %(s)s/patch.diff || { echo APPLY-FAILED; exit 0; }
bash /opt/vp/build.sh > %(w)s.build 2>&1 || { echo BUILD-FAILED; tail -5 %(w)s.build; git checkout -q -- .; exit 0; }
bash /opt/vp/test.sh %(w)s.json > %(w)s.test 2>&1
python3 -c "import json; b=set(json.load(open('/opt/vp/BASELINE.json')).get('passed',[]) or []); d=json.load(open('%(w)s.json')); print('TESTS', len(d['passed']), 'passed', len(d['failed']), 'failed', d['failed'][:4])"
timeout 300 bash %(s)s/demo.sh > %(w)s.demo 2>&1; echo "DEMO-PATCHED rc=$?"; tail -2 %(w)s.demo
cd %(v)s
for p in %(props)s; do VSTAT_CACHE=/tmp/cache timeout 900 python3 check.py $p > %(w)s.chk 2>&1; echo "CHECK $p rc=$?"; grep -m3 -E 'VIOLATION|violated' %(w)s.chk | cut -c1-300; [ $? = 0 ] || tail -3 %(w)s.chk | cut -c1-300; done
cd /repo; git checkout -q -- .
'''
def one(sid, w, props=None, clean=True):
    s = V + '/seeded/' + sid
    meta = json.load(open(s + '/meta.json'))
    pre = 'timeout 300 bash %s/demo.sh > %s.demo0 2>&1; echo "DEMO-CLEAN rc=$?"; tail -2 %s.demo0' % (s, w, w) if clean else ''
    sc = INNER % dict(w=w, s=s, v=V, head='/tmp/none', props=' '.join(props or [meta['property']]), pre=pre)
    r = subprocess.run(['unshare', '-m', 'bash', '-c', sc], capture_output=True, text=True)
    return sid, r.stdout + r.stderr
def main():
    a = sys.argv[1:]
    n = 4
    clean = True
    if '-j' in a:
        i = a.index('-j'); n = int(a[i + 1]); del a[i:i + 2]
    if '--noclean' in a:
        a.remove('--noclean'); clean = False
    q = Queue()
    for i in range(n):
        q.put('/tmp/w%d' % i)
    def go(sid):
        w = q.get()
        try:
            return one(sid, w, clean=clean)
        finally:
            q.put(w)
    with ThreadPoolExecutor(n) as ex:
        for sid, out in ex.map(go, a):
            flat = out.replace('\n', ' | ')
            ok = 'DEMO-CLEAN rc=0' in out or not clean
            okp = 'DEMO-PATCHED rc=' in out and 'DEMO-PATCHED rc=0' not in out
            tests = 'TESTS 160 passed 0' in out
            caught = 'CHECK' in out and 'rc=1' in out.split('CHECK')[-1]
            print(sid, 'VALID' if ok and okp and tests else 'INVALID', 'CAUGHT' if caught else 'MISSED')
            print('   ', flat[:900])
            sys.stdout.flush()
main()
