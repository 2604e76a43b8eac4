#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/bugs.py.

For every bug: apply the edit to a scratch worktree of /repo's HEAD, check that
it builds and passes the repository's tests, that the demonstration passes on
the unchanged tree and fails on the changed one, and write patch.diff, demo.sh,
main.go and meta.json.  `plant.py --try [ids]` also runs the property's check
(quick tier) on the changed tree and reports what it said.

This is a development tool: no check uses it or reads seeded/.
"""
import json, os, re, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs import BUGS
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', HOME='/root')
PKG = {'v1': 'crunch "github.com/superwhiskers/crunch/v1"',
       'v2': 'crunch "github.com/superwhiskers/crunch/v2"',
       'v3': 'crunch "github.com/superwhiskers/crunch/v3"'}
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after its build: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
printf '{"Replace":{"%s/@V@/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/o.json"
go build -C @V@ -overlay "$tmp/o.json" -o "$tmp/demo" ./zz_demo || exit 2
timeout 100 "$tmp/demo"
'''
MAIN = '''package main

import (
%s)

var _ = fmt.Sprint
var _ = crunch.%s

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("FAIL: "+format+"\\n", args...)
		os.Exit(1)
	}
}

// try runs f and returns what it panicked with, or nil
func try(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

var _ = try

func main() {
%s
	fmt.Println("ok")
}
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def edit(tree, e):
    path, old, new = e[0], e[1], e[2]
    where = e[3] if len(e) > 3 else None
    p = os.path.join(tree, path)
    s = open(p).read()
    lo = 0
    hi = len(s)
    if where:
        lo = s.index(where)
        m = re.search(r'^}\n', s[lo:], re.M)
        hi = lo + (m.end() if m else len(s))
    body = s[lo:hi]
    assert body.count(old) >= 1, (path, where, old)
    if body.count(old) != 1 and not (len(e) > 4 and e[4]):
        raise AssertionError('ambiguous %r in %s %s (%d)' % (old, path, where, body.count(old)))
    s = s[:lo] + body.replace(old, new) + s[hi:]
    open(p, 'w').write(s)

def demo_files(b, d):
    os.makedirs(d, exist_ok=True)
    if 'demo_sh' in b:
        open(d + '/demo.sh', 'w').write(b['demo_sh'])
        for n, t in b.get('files', {}).items():
            open(d + '/' + n, 'w').write(t)
    else:
        imports = ['fmt', 'os'] + b.get('imports', [])
        text = MAIN % (''.join('\t"%s"\n' % i for i in sorted(set(imports))) + '\t' + PKG[b['v']] + '\n',
                       'BufferOverreadError',
                       '\n'.join('\t' + l for l in b['demo'].strip('\n').split('\n')))
        open(d + '/main.go', 'w').write(text)
        subprocess.run(['gofmt', '-w', d + '/main.go'])
        open(d + '/demo.sh', 'w').write(DEMO_SH.replace('@V@', b['v']))
    os.chmod(d + '/demo.sh', 0o755)

def main():
    args = sys.argv[1:]
    tryit = '--try' in args
    force = '--force' in args
    ids = [a for a in args if not a.startswith('--')]
    tree = tempfile.mkdtemp(prefix='plant')
    os.rmdir(tree)
    r = sh('git worktree add --detach %s HEAD' % tree, '/repo')
    assert r.returncode == 0, r.stdout
    try:
        for b in BUGS:
            if ids and b['id'] not in ids:
                continue
            d = os.path.join(VERIF, 'seeded', b['id'])
            sh('git checkout -- .', tree)
            if os.path.isdir(d):
                shutil.rmtree(d)
            demo_files(b, d)
            clean = sh(d + '/demo.sh', tree)
            for e in b['edits']:
                edit(tree, e)
            sh('gofmt -l .', tree)
            diff = subprocess.run(['git', 'diff'], cwd=tree, stdout=subprocess.PIPE).stdout
            open(d + '/patch.diff', 'wb').write(diff)
            ok = True
            msgs = []
            if clean.returncode != 0:
                ok = False; msgs.append('demo on clean: ' + clean.stdout[-1500:])
            for m in ('v1', 'v2', 'v3'):
                r = sh('go test -vet=off -count=1 ./...', tree + '/' + m)
                if r.returncode != 0:
                    ok = False; msgs.append('tests %s: %s' % (m, r.stdout[-1500:]))
            r = sh('go build -o /dev/null .', tree + '/generation')
            if r.returncode != 0:
                ok = False; msgs.append('generator: ' + r.stdout[-1500:])
            patched = sh(d + '/demo.sh', tree)
            if patched.returncode in (0,) or 'FAIL' not in patched.stdout and 'panic' not in patched.stdout and 'fatal' not in patched.stdout and patched.returncode != 124:
                ok = False; msgs.append('demo on patched: rc %d %s' % (patched.returncode, patched.stdout[-1500:]))
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            print('%-32s %s %s' % (b['id'], 'ok' if ok else 'REJECTED', patched.stdout.strip().split('\n')[0][:100]), flush=True)
            for m in msgs:
                print('    ' + m.replace('\n', '\n    '), flush=True)
            if not ok:
                shutil.rmtree(d)
                continue
            if tryit:
                t = time.time()
                env = dict(ENV, VERIF_REPO=tree, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
                out = ''
                for prop in [b['property']] + b.get('also', []):
                    r = subprocess.run(['./check.py', prop], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, universal_newlines=True)
                    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                    out += ' %s:%s(%ds)' % (prop, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, time.time() - t)
                print('    ->' + out, flush=True)
    finally:
        sh('git worktree remove --force %s' % tree, '/repo')
main()
