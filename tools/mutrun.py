#!/usr/bin/env python3
"""Run the checks of the likely properties on mutants that pass the tests, until one catches it.
usage: mutrun.py SURVIVORS OUT N SEED   (development tool; run from a copy of /verif)"""
import sys, json, random, os, subprocess, tempfile, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', HOME='/root')
lst, out, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
ms = [json.loads(l) for l in open(lst)]
random.seed(seed)
random.shuffle(ms)
def props(m):
    f = m['func'].split('.')[-1]
    buf = m['func'].startswith('Buffer')
    l = []
    if m['what'].startswith('delete: defer') or 'Lock' in m['what']: l.append('C13')
    low = f.lower()
    if low.endswith('next'): l.append('C08')
    if 'allbits' in low: l.append('C18')
    elif 'bits' in low: l += ['C05']
    elif 'bit' in low and 'seek' not in low and 'align' not in low and 'capacity' not in low: l += ['C04']
    elif low.startswith('write'): l += ['C03'] if 'F' in f[5:6] else ['C01']
    elif low.startswith('read'): l += ['C03'] if 'F' in f[4:5] else ['C02']
    elif re.match('grow|trunc|reset', low): l += ['C10']
    elif re.match('seek|align|after', low): l += ['C08']
    elif re.match('refresh|.*capacity', low): l += ['C09']
    elif re.match('new', low): l += ['C11']
    elif re.match('bytes', low): l += ['C11']
    if buf: l += ['C06', 'C07']
    if 'C08' not in l: l.append('C08')
    return l
tree = tempfile.mkdtemp(prefix='mutr'); os.rmdir(tree)
subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '--detach', tree, 'HEAD'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
fh = open(out, 'w')
try:
    for m in ms[:n]:
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=tree)
        p = m['file'].replace('/repo', tree)
        s = open(p, 'rb').read()
        open(p, 'wb').write(s[:m['off']] + m['new'].encode() + s[m['end']:])
        res, hit = [], False
        for prop in props(m):
            r = subprocess.run(['./check.py', prop], cwd=VERIF, env=dict(ENV, VERIF_REPO=tree, VERIF_SEED='1', VERIF_TIER='quick'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            res.append('%s:%d' % (prop, r.returncode))
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                hit = True
                break
        print('CAUGHT' if hit else 'MISSED', ' '.join(res), m['file'][6:], m['func'], m['line'], m['what'].replace('\n', ' '), file=fh, flush=True)
finally:
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', tree])
