#!/usr/bin/env python3
"""development aid: mutate.py [-j N] FILE.py [prop...]: applies each mutation of the list M = [(prop, file, old, new)] to a scratch copy and runs the check"""
import sys, os, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor
import threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
J = 4
if a[0] == '-j': J = int(a[1]); a = a[2:]
ns = {}
exec(open(a[0]).read(), ns)
M = [m for m in ns['M'] if len(a) < 2 or m[0] in a[1:]]
pool = []; lk = threading.Lock()


def run(m):
    prop, fl, old, new = m
    with lk:
        d = pool.pop() if pool else '/tmp/mut/w%d' % len(os.listdir('/tmp/mut')) if os.path.isdir('/tmp/mut') else None
        if d is None:
            d = '/tmp/mut/w0'
        os.makedirs(d, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '/repo/src', '/repo/dbzero', d + '/'], check=True)
    p = d + '/' + fl
    s = open(p).read()
    if old not in s:
        r = 'NOPATTERN'
        out = ''
    else:
        open(p, 'w').write(s.replace(old, new, 1))
        x = subprocess.run(['python3', 'check.py', prop], cwd=V, env=dict(os.environ, SA_REPO=d, SA_NOREPLAY='1'), capture_output=True, text=True)
        out = x.stdout
        r = {0: 'MISSED', 1: 'caught', 2: 'BROKEN'}.get(x.returncode, 'rc%d' % x.returncode)
    with lk:
        pool.append(d)
    cl = sorted(set(re.findall(r'clause ([\w-]+),', out)))
    print('%-9s %s %s: %r -> %r %s' % (r, prop, os.path.basename(fl), old[:60], new[:60], cl[:4]) + (out[-300:] if r == 'BROKEN' else ''), flush=True)
    return r


with ThreadPoolExecutor(J) as ex:
    rs = list(ex.map(run, M))
print({k: rs.count(k) for k in set(rs)})
