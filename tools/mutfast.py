#!/usr/bin/env python3
"""Quick screening of mutants: which ones pass the repository's tests, and do
scouts and sweeps see a difference? The ones they do not see are the
interesting ones (equivalent, or visible to other machinery only).
usage: mutfast.py LIST OUT N SEED JOBS   (development tool)"""
import sys, json, random, os, subprocess, tempfile, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', HOME='/root')
lst, out, n, seed, jobs = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
ms = [json.loads(l) for l in open(lst)]
random.seed(seed)
by = {}
for m in ms: by.setdefault(m['file'], []).append(m)
pick = []
for f, l in by.items(): pick += random.sample(l, min(len(l), n))
random.shuffle(pick)
src = {f: open(f, 'rb').read() for f in by}
fh = open(out, 'w')
stat = {}
def sh(cmd, cwd, t=60):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired:
        return None
def one(m):
    d = tempfile.mkdtemp(prefix='mutf')
    try:
        s = src[m['file']]
        open(d + '/x.go', 'wb').write(s[:m['off']] + m['new'].encode() + s[m['end']:])
        pkg = os.path.dirname(m['file'])
        rep = {m['file']: d + '/x.go'}
        json.dump({'Replace': rep}, open(d + '/o.json', 'w'))
        r = sh('ulimit -v 8000000; exec nice go test -vet=off -timeout 20s -overlay %s/o.json .' % d, pkg)
        if r is None or r.returncode:
            return 'killed'
        v = int(pkg[-1])
        core = VERIF + '/harness/core'
        for f in os.listdir(core):
            if f.endswith('.go'): rep[pkg + '/zz_verifdrv/' + f] = core + '/' + f
        rep[pkg + '/zz_verifdrv/bind.go'] = VERIF + '/harness/bind/bind_v%d.go' % v
        json.dump({'Replace': rep}, open(d + '/o.json', 'w'))
        r = sh('nice go build -overlay %s/o.json -o %s/drv ./zz_verifdrv' % (d, d), pkg)
        if r is None or r.returncode:
            return 'nodriver'
        kind = 'buffer' if m['func'].startswith('Buffer') or m['func'].endswith('NewBuffer') else 'mini' if 'Mini' in m['func'] else 'buffer,mini'
        for k in kind.split(','):
            for mode, prof, extra in (('scout', 'all', '-budget 2'), ('scout', 'C06', '-budget 1'), ('sweep', 'C01', ''), ('sweep', 'C02', ''), ('sweep', 'C05', ''),
                                      ('sweep', 'C06', ''), ('sweep', 'C03', ''), ('sweep', 'C04', ''), ('sweep', 'C08', ''), ('sweep', 'C18', ''),
                                      ('scout', 'all', '-budget 2 -variant large')):
                r = sh('ulimit -v 20000000; exec nice %s/drv -mode %s -profile %s -seed 3 -kinds %s -max 1 -out %s/out %s' % (d, mode, prof, k, d, extra), d)
                if r is None or r.returncode or os.path.getsize(d + '/out'):
                    return 'seen'
        fh.write(json.dumps(m) + '\n'); fh.flush()
        return 'unseen'
    finally:
        subprocess.run(['rm', '-rf', d])
def count(m):
    x = one(m)
    stat[x] = stat.get(x, 0) + 1
with ThreadPoolExecutor(jobs) as ex: list(ex.map(count, pick))
print(stat)
