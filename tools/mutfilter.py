#!/usr/bin/env python3
"""Keep the mutants of mutgen's list that compile and pass the repository's tests.
usage: mutfilter.py LIST OUT N SEED JOBS   (development tool)"""
import sys, json, random, os, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', HOME='/root')
lst, out, n, seed, jobs = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
ms = [json.loads(l) for l in open(lst)]
random.seed(seed)
by = {}
for m in ms: by.setdefault(m['file'], []).append(m)
pick = []
for f, l in by.items(): pick += random.sample(l, min(len(l), n))
random.shuffle(pick)
src = {f: open(f, 'rb').read() for f in by}
fh = open(out, 'w')
stat = {'killed': 0, 'nobuild': 0, 'survived': 0}
def one(m):
    d = tempfile.mkdtemp(prefix='mutf')
    try:
        s = src[m['file']]
        open(d + '/x.go', 'wb').write(s[:m['off']] + m['new'].encode() + s[m['end']:])
        json.dump({'Replace': {m['file']: d + '/x.go'}}, open(d + '/o.json', 'w'))
        pkg = os.path.dirname(m['file'])
        b = subprocess.run(['go', 'build', '-overlay', d + '/o.json', '.'], cwd=pkg, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if b.returncode:
            stat['nobuild'] += 1; return
        r = subprocess.run('ulimit -v 8000000; exec nice go test -vet=off -timeout 20s -overlay %s/o.json .' % d, shell=True, cwd=pkg, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode:
            stat['killed'] += 1; return
        stat['survived'] += 1
        fh.write(json.dumps(m) + '\n'); fh.flush()
    finally:
        subprocess.run(['rm', '-rf', d])
with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, pick))
print(stat)
