#!/usr/bin/env python3
"""plant.py verify ID...  -- in a scratch copy of /repo: the patch applies, builds, passes the stable tests; the demo passes without and fails with it
plant.py catch [-secs N] ID...   -- runs the property's quick check against a patched scratch copy
plant.py new ID PROP  (used by the author: makes the directory with a demo.sh for a Go test)"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
DEMO = r"""#!/bin/bash
# Runs the Go test beside this file as a test of the package in %s of the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
export PATH=$GOROOT/bin:$PATH
[ -f go.mod ] || . /opt/vp/env.sh
# traceapp and cmd/appdash import a module of static assets which is not here: an empty one stands for it
mkdir "$T/data"
printf 'package data\n\nimport "net/http"\n\nvar Data http.FileSystem = http.Dir("/nonexistent")\n' >"$T/data/data.go"
printf 'module sourcegraph.com/sourcegraph/appdash-data\n\ngo 1.21\n' >"$T/data/go.mod"
{ cat go.mod; printf '\nrequire sourcegraph.com/sourcegraph/appdash-data v0.0.0\nreplace sourcegraph.com/sourcegraph/appdash-data => %%s\n' "$T/data"; } >"$T/go.mod"
cp go.sum "$T/go.sum"
echo "{\"Replace\": {\"$R/%szz_seeded_demo_test.go\": \"$D/demo_test.go\"}}" >"$T/overlay.json"
go test -modfile "$T/go.mod" -overlay "$T/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestSeededDemo$' %s ./%s
"""
def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout
def scratch(id):
    d = tempfile.mkdtemp(prefix='wt-', dir='/tmp')
    r = os.path.join(d, 'repo')
    sh(f'cp -a /repo {r}')
    return d, r
def vp(r, script, *a):
    # the project's own build and test scripts, for the copy
    d = os.path.dirname(r)
    for n in ('env.sh', 'build.sh', 'test.sh'):
        t = open('/opt/vp/' + n).read().replace('/repo', r).replace('/opt/vp/env.sh', d + '/env.sh')
        open(d + '/' + n, 'w').write(t)
    return sh(f'bash {d}/{script} ' + ' '.join(a), cwd=r)
def verify(id):
    p = os.path.join(S, id)
    d, r = scratch(id)
    try:
        c, o = sh(f'bash {p}/demo.sh', cwd=r, timeout=300)
        if c: return f'demo fails on the unchanged tree: {o[-1500:]}'
        c, o = sh(f'git apply {p}/patch.diff', cwd=r)
        if c: return 'patch: ' + o
        c, o = vp(r, 'build.sh')
        if c: return 'build: ' + o[-1500:]
        c, o = vp(r, 'test.sh', d + '/o.json')
        b = json.load(open('/opt/vp/BASELINE.json')); k = [x for x in b if isinstance(b[x], list)]
        base = set(b.get('passed') or b[k[0]])
        miss = base - set(json.load(open(d + '/o.json'))['passed'])
        if miss: return 'tests now failing: %s' % sorted(miss)
        c, o = sh(f'bash {p}/demo.sh', cwd=r, timeout=300)
        if not c: return 'demo passes with the patch'
        json.load(open(p + '/meta.json'))
        return 'ok   (demo: ' + ' | '.join(l.strip() for l in o.splitlines() if l.strip())[:160] + ')'
    finally:
        shutil.rmtree(d)
def catch(id, secs, tier='quick', extra=''):
    p = os.path.join(S, id)
    prop = json.load(open(p + '/meta.json'))['property']
    d, r = scratch(id)
    try:
        c, o = sh(f'git apply {p}/patch.diff', cwd=r)
        if c: return 'patch: ' + o
        env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=d + '/build', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        v = d + '/ev'; os.mkdir(v)
        s = f'-secs {secs}' if secs else ''
        c, o = sh(f'{V}/check.sh {prop} {tier} {s} -evidence {v}/e.json -replays {v} {extra}', env=env)
        hit = c == 1 and f'VIOLATION property={prop} ' in o
        return ('caught' if hit else f'MISSED (exit {c})') + '  ' + ' | '.join(l for l in o.splitlines() if l.strip())[-260:]
    finally:
        shutil.rmtree(d)
def new(id, prop, pkg='', race=''):
    p = os.path.join(S, id); os.makedirs(p, exist_ok=True)
    q = pkg.rstrip('/') + '/' if pkg else ''
    open(p + '/demo.sh', 'w').write(DEMO % (pkg or 'the root', q, race, pkg)); os.chmod(p + '/demo.sh', 0o755)
if __name__ == '__main__':
    a = sys.argv[1:]
    secs = 0
    if '-secs' in a:
        i = a.index('-secs'); secs = int(a[i+1]); del a[i:i+2]
    ids = a[1:]
    if a[0] == 'new': new(*ids)
    else:
        if ids == ['all']: ids = sorted(os.listdir(S))
        for id in ids:
            print(id, verify(id) if a[0] == 'verify' else catch(id, secs), flush=True)
