#!/usr/bin/env python3
"""Validates planted bugs and writes them to /verif/seeded.

usage: plant.py SPECS.py [ID...]      (SPECS.py defines SPECS, a list of dicts)

spec: id, property, needs, breaks, edits [(file, old, new)...], main (Go source of the demonstration) or sh (shell
lines run in the scratch directory with $MIDIASM the built command).
Everything is tried in a scratch copy of /repo; a spec is kept only if it builds, passes the tests and its demonstration
passes on the unchanged tree and fails on the changed one.
"""
import sys, os, json, subprocess, shutil, runpy, tempfile
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', HOME='/root')
LIB = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demolib.go.txt')).read()
HEAD = '''#!/bin/bash
# exits 0 if the behaviour is right, 1 otherwise. Run with the repository as the working directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
'''
GO = '''cp "$here"/*.go "$tmp"/ || exit 2
cat > "$tmp/go.mod" <<EOF
module demo

go 1.23

require github.com/transcriptaze/midiasm v0.0.0

replace github.com/transcriptaze/midiasm => $repo
EOF
cd "$tmp" && go build%s -o demo . || exit 2
timeout 120 ./demo || exit 1
exit 0
'''
SH = '''go build -o "$tmp/midiasm" ./cmd/midiasm || exit 2
export MIDIASM="$tmp/midiasm"
cd "$tmp" || exit 2
'''
def run(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def main():
    specs = runpy.run_path(sys.argv[1])['SPECS']
    ids = sys.argv[2:]
    wt = tempfile.mkdtemp(prefix='wt.', dir='/tmp') + '/repo'
    subprocess.check_call(['cp', '-a', '/repo', wt])
    base = {f: open(wt + '/' + f).read() for f in subprocess.check_output(['git', 'ls-files'], cwd=wt, text=True).split('\n') if f.endswith(('.go', 'template'))}
    orig = {}
    for s in specs:
        if ids and s['id'] not in ids: continue
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=wt)
        d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
        bad = None
        if 'main' in s:
            open(d + '/lib.go', 'w').write(LIB); open(d + '/main.go', 'w').write(s['main'])
            rc, out = run(['gofmt', '-l', d], d)
            open(d + '/demo.sh', 'w').write(HEAD + GO % (' -race' if s.get('race') else ''))
        else:
            open(d + '/demo.sh', 'w').write(HEAD + SH + s['sh'])
        rc0, out0 = run(['bash', d + '/demo.sh'], wt)
        if rc0 != 0: bad = 'demo fails on the unchanged tree: ' + out0[-1500:]
        if not bad:
            for f, old, new in s['edits']:
                t = open(wt + '/' + f).read()
                if t.count(old) != 1: bad = f'{f}: {t.count(old)} matches for {old!r}'; break
                open(wt + '/' + f, 'w').write(t.replace(old, new))
        if not bad:
            rc, out = run(['gofmt', '-l'] + [f for f, _, _ in s['edits'] if f.endswith('.go')], wt)
            if out.strip(): run(['gofmt', '-w'] + [f for f, _, _ in s['edits'] if f.endswith('.go')], wt)
            rc, out = run('go build ./...', wt)
            if rc: bad = 'build: ' + out[-1500:]
        if not bad:
            rc, out = run('go test -vet=off -count=1 ./...', wt)
            if rc: bad = 'tests: ' + out[-1500:]
        if not bad:
            # lines removed must be lines of the original repository
            patch = subprocess.check_output(['git', 'diff'], cwd=wt, text=True)
            f = None; hit = False; foreign = []
            for l in patch.split('\n'):
                if l.startswith('--- a/'): f = l[6:]
                elif l.startswith('-') and not l.startswith('---') and l[1:].strip():
                    o = subprocess.run(['git', 'show', '57015ff:' + f], cwd=wt, stdout=subprocess.PIPE, text=True).stdout
                    if l[1:] in o.split('\n'): hit = True
                    else: foreign.append(l)
            removed = [l for l in patch.split('\n') if l.startswith('-') and not l.startswith('---')]
            if removed and not hit: bad = 'changes no original line: ' + repr(foreign)
            rc1, out1 = run(['bash', d + '/demo.sh'], wt)
            if rc1 == 0: bad = 'demo passes with the change'
            elif rc1 != 1: bad = f'demo exits {rc1}: {out1[-800:]}'
        if bad:
            print(s['id'], 'REJECTED', bad)
        else:
            t = '/verif/seeded/' + s['id']
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(d, t)
            open(t + '/patch.diff', 'w').write(patch)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(t + '/meta.json', 'w'), indent=2)
            print(s['id'], 'kept:', out1.strip().split('\n')[0][:150])
        shutil.rmtree(d)
    shutil.rmtree(os.path.dirname(wt))
main()
