#!/usr/bin/env python3
"""mkbug.py DEFS.py [ID...]: make planted bugs of /verif/seeded from their definitions.

DEFS.py defines BUGS, a list of dicts: id, property, edits=[(file, old, new)], needs, breaks, demo (Go statements of main;
`fail(format, args...)` ends the demonstration), imports (extra imports of the demo). Each one is tried in a scratch copy:
only original lines change, it compiles, the 49 stable tests pass, the demo passes without and fails with it; then the property's
own check is run against the copy (reported, and kept either way).
"""
import json, os, re, subprocess, sys, tempfile, shutil, concurrent.futures as cf, runpy
BASE = 'b2c2abd'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOWORK='off')
DEMO_SH = '''#!/bin/bash
# run with cwd at the repository: exit 0 when the property holds, nonzero when it is broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp "$here/demo.go.txt" "$work/main.go"
cat > "$work/go.mod" <<EOF
module demo

go 1.21

require github.com/ecoshub/jin v0.0.0

replace github.com/ecoshub/jin => $repo
EOF
cd "$work"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
mkdir "$work/tmp"
go build %s-o demo .
TMPDIR="$work/tmp" timeout 120 ./demo
'''
def sh(cmd, cwd=None, timeout=900, env=ENV):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')

def originals(path):
    rc, out = sh(['git', 'blame', '-s', '-l', '--root', path], cwd='/repo')
    base = set(sh(['git', 'rev-list', BASE], cwd='/repo')[1].split())
    res = []
    for l in out.splitlines():
        res.append(l.split()[0].lstrip('^') in base or l.startswith('^'))
    return res

def make(bug):
    msgs = []
    w = tempfile.mkdtemp(prefix='mb', dir='/tmp')
    try:
        repo = w + '/repo'
        sh(['cp', '-a', '/repo', repo])
        sh('git checkout -q -- . && git clean -fdq', cwd=repo)
        for f, old, new in bug['edits']:
            p = repo + '/' + f
            s = open(p).read()
            n = bug.get('nth', {}).get(f)
            if s.count(old) != 1 and n is None:
                return bug['id'], 'BAD: %d matches in %s: %r' % (s.count(old), f, old[:60])
            if n is not None:
                i = -1
                for _ in range(n):
                    i = s.index(old, i + 1)
                s = s[:i] + new + s[i+len(old):]
            else:
                s = s.replace(old, new)
            open(p, 'w').write(s)
        sh(['gofmt', '-w'] + sorted({f for f, _, _ in bug['edits']}), cwd=repo)
        rc, diff = sh(['git', 'diff', '-U3'], cwd=repo)
        # removed lines have to be original ones
        rc, d0 = sh(['git', 'diff', '-U0'], cwd=repo)
        cur = None; removed = 0; bad = []
        for l in d0.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]; orig = originals(cur); src = open('/repo/' + cur).read().splitlines()
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                a = int(m[1]); c = int(m[2] or 1)
                for k in range(a, a + c):
                    removed += 1
                    if not orig[k-1]: bad.append('%s:%d %s' % (cur, k, src[k-1]))
        if bad or not removed:
            msgs.append('NOT-ORIGINAL ' + '; '.join(bad) if bad else 'NOTHING-REMOVED')
        out = '/verif/seeded/' + bug['id']
        tmp = w + '/out'; os.mkdir(tmp)
        open(tmp + '/patch.diff', 'w').write(diff)
        race = '-race ' if bug.get('race') else ''
        open(tmp + '/demo.sh', 'w').write(DEMO_SH % race); os.chmod(tmp + '/demo.sh', 0o755)
        imports = ['"fmt"', '"os"'] + ['"%s"' % i for i in bug.get('imports', [])] + ['"github.com/ecoshub/jin"']
        open(tmp + '/demo.go.txt', 'w').write('package main\n\nimport (\n\t' + '\n\t'.join(imports) + '\n)\n\nfunc fail(format string, args ...interface{}) {\n\tfmt.Printf(format+"\\n", args...)\n\tos.Exit(1)\n}\n\n' + bug.get('decls', '') + '\nfunc main() {\n' + bug['demo'].strip('\n') + '\n\tfmt.Println("ok")\n}\n')
        sh('cp demo.go.txt d.go && gofmt -w d.go && mv d.go demo.go.txt', cwd=tmp)
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
        rc, o = sh('go vet . && go build .', cwd=repo)
        if rc: return bug['id'], 'NOBUILD ' + o[:600]
        rc, o = sh(['bash', tmp + '/demo.sh'], cwd='/repo', timeout=300)
        if rc: msgs.append('DEMO FAILS ON HEAD ' + o[-500:])
        rc, o = sh(['bash', tmp + '/demo.sh'], cwd=repo, timeout=300)
        if rc == 0: msgs.append('DEMO PASSES WITH PATCH')
        else: msgs.append('demo: ' + o.strip().replace('\n', ' | ')[:120])
        if not any(m[:4] in ('DEMO', 'NOT-', 'NOTH') for m in msgs):
            rc, o = sh('go test -json -vet=off -count=1 ./...', cwd=repo)
            passed = set(); failed = set()
            for l in o.splitlines():
                try: e = json.loads(l)
                except Exception: continue
                if e.get('Test') and e.get('Action') in ('pass', 'fail'):
                    (passed if e['Action'] == 'pass' else failed).add(e['Package'] + '/' + e['Test'])
            need = json.load(open('/opt/vp/BASELINE.json'))['stable']
            miss = [t for t in need if t not in passed]
            if miss: msgs.append('TESTS FAIL ' + ' '.join(miss)[:300])
            else:
                shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
                msgs.append('KEPT')
        sh('git checkout -q -- .', cwd=repo) if False else None
        # the property's own check, against the copy
        h = w + '/harness'; sh(['cp', '-a', '/verif/harness', h])
        s = open(h + '/go.mod').read().replace('=> /repo', '=> ' + repo); open(h + '/go.mod', 'w').write(s)
        for prop in [bug['property']] + bug.get('also', []):
            rc, o = sh('go build %s -o %s/jc ./cmd/jincheck' % ('-race' if prop == 'C12' else '', w), cwd=h)
            if rc: msgs.append('HARNESS ' + o[:300]); break
            os.makedirs(w + '/root/evidence', exist_ok=True)
            try:
                rc, o = sh([w + '/jc', '-prop', prop, '-tier', 'quick', '-root', w + '/root'], timeout=600, env=dict(ENV, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), TMPDIR=w))
            except subprocess.TimeoutExpired:
                rc, o = 'timeout', ''
            v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            msgs.append('%s rc=%s %s' % (prop, rc, ('CAUGHT ' + os.path.basename(v[0].split('replay=')[-1])) if v and rc == 1 else 'MISSED ' + o[-200:].replace('\n', ' | ')))
        return bug['id'], ' ;; '.join(msgs)
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(make, [b for b in bugs if not want or b['id'] in want]):
            print(i, '::', m, flush=True)
