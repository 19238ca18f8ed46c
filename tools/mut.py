#!/usr/bin/env python3
"""Development aid: run a check against textual mutants of /repo in scratch copies.
usage: mut.py PROPERTY mutants.txt      mutants: blocks  'FILE\\n<<<<\\nold\\n====\\nnew\\n>>>>'"""
import sys, re, subprocess, os, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, fn = sys.argv[1:3]
ms = re.findall(r'^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>', open(fn).read(), re.S | re.M)
J = int(os.environ.get('J', '4'))
import queue
Q = queue.Queue()
base = '/tmp/mutw'
os.makedirs(base, exist_ok=True)
for k in range(J):
    d = '%s/%d' % (base, k)
    if not os.path.isdir(d):
        os.makedirs(d)
    subprocess.check_call(['rsync', '-a', '--delete', '--exclude', '.git', '/repo/', d + '/repo/'] if shutil.which('rsync') else ['sh', '-c', 'rm -rf %s/repo; cp -a /repo %s/repo' % (d, d)])
    if not os.path.isdir(d + '/verif'): os.makedirs(d + '/verif')
    subprocess.check_call(['sh', '-c', 'rm -rf %s/verif; mkdir %s/verif; cp -a %s/engine %s/rules %s/check.py %s/known-findings.txt %s/verif/' % (d, d, HERE, HERE, HERE, HERE, d)])
    if not os.path.isdir(d + '/build'): shutil.copytree(HERE + '/build', d + '/build')
    Q.put(d)


def go(m):
    n, (f, a, b) = m
    d = Q.get()
    try:
        p = d + '/repo/' + f
        s = open(p).read()
        if s.count(a) != 1: return n, f, 'BAD', 'pattern found %d times' % s.count(a)
        open(p, 'w').write(s.replace(a, b))
        e = dict(os.environ, RSA_REPO=d + '/repo', RSA_BUILD=d + '/build')
        r = subprocess.run([sys.executable, d + '/verif/check.py', '--property', prop], capture_output=True, text=True, env=e, cwd=d + '/verif')
        open(p, 'w').write(s)
        lines = [l for l in r.stdout.splitlines() if not l.startswith(('VIOLATION', '    '))]
        return n, f, {0: 'missed', 1: 'CAUGHT'}.get(r.returncode, 'BROKEN'), '; '.join(lines[:2])[:300] + (r.stderr[-300:] if r.returncode not in (0, 1) else '')
    finally: Q.put(d)


c = 0
with ThreadPoolExecutor(J) as ex:
    for n, f, v, t in ex.map(go, enumerate(ms)):
        print(n, v, f, t, flush=True)
        c += v == 'CAUGHT'
print('%d of %d caught' % (c, len(ms)))
