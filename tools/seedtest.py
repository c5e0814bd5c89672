#!/usr/bin/env python3
"""seedtest.py SPEC.py [ID...]: turn planted-bug descriptions into /verif/seeded/<id>/ and confirm them.

SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], main=Go source, race=bool, env=dict)].
A seed is kept when it builds, passes the stable tests, and its demo is quiet without and loud with it.
"""
import json, os, shutil, subprocess, sys, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = os.environ.get('SW', '/tmp/sw')
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off',
           GOWORK='off', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod')
DEMO = '''#!/bin/bash
# Run in the repository. Exit 0: behaves as it should. Anything else: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset FROZEN_CONCURRENCY
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here/main.go" "$d/main.go" && cp "$repo/go.sum" "$d/go.sum" || exit 9
cat >"$d/go.mod" <<END
module demo

go 1.21

require (
	github.com/arr-ai/frozen v0.0.0
	github.com/arr-ai/hash v1.1.0
)

replace github.com/arr-ai/frozen => $repo
END
cd "$d" || exit 9
go build@RACE@ -o demo . || exit 9
@ENV@timeout 200 ./demo
'''


def sh(cmd, cwd, timeout=900, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def main():
    specs = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in specs:
        if want and s['id'] not in want:
            continue
        if os.path.exists(SW):
            shutil.rmtree(SW)
        shutil.copytree('/repo', SW, symlinks=True)
        d = '/tmp/seeds/' + s['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/main.go', 'w').write(s['main'].lstrip())
        env = ''.join('%s=%s ' % kv for kv in s.get('env', {}).items())
        open(d + '/demo.sh', 'w').write(DEMO.replace('@RACE@', ' -race' if s.get('race') else '').replace('@ENV@', env))
        os.chmod(d + '/demo.sh', 0o755)
        rc0, out0 = sh([d + '/demo.sh'], SW)
        bad = False
        for f, old, new in s['edits']:
            p = os.path.join(SW, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT', f, 'matches', t.count(old)); bad = True; break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            continue
        rcb, outb = sh(['go', 'build', './...'], SW)
        if rcb:
            print(s['id'], 'BUILD', outb[-800:]); continue
        _, diff = sh(['git', 'diff'], SW)
        rc1, out1 = sh([d + '/demo.sh'], SW)
        _, t = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '10m', './...'], SW)
        open('/tmp/seeds/%s.test' % s['id'], 'w').write(t)
        _, r = sh(['python3', '/opt/vp/results.py', '/tmp/seeds/%s.res' % s['id'], 'gojson:/tmp/seeds/%s.test' % s['id']], SW)
        failed = stable - set(json.load(open('/tmp/seeds/%s.res' % s['id']))['passed'])
        ok = rc0 == 0 and rc1 not in (0, 9) and not failed
        print(s['id'], s['property'], 'KEPT' if ok else 'NO', 'demo', rc0, rc1, 'failed', sorted(failed)[:6], '' if ok else (out0 if rc0 else out1)[-600:], flush=True)
        if ok:
            k = os.path.join(H, 'seeded', s['id'])
            shutil.rmtree(k, ignore_errors=True)
            shutil.copytree(d, k)
            open(k + '/patch.diff', 'w').write(diff)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(k + '/meta.json', 'w'), indent=1)
    shutil.rmtree(SW, ignore_errors=True)


main()
