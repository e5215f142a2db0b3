#!/usr/bin/env python3
"""mutants.py OUT [--scale X] [--jobs N] [--seconds S] [--from FILE | --seed N --skip N]: runs the checks against small mutants of
/repo's sources (tools/mutate), in random order, and appends one line per mutant to OUT. Works on copies
(go build -overlay); /repo is not touched. --from: only the mutants that survived in an earlier OUT."""
import json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOWORK='off')
a = sys.argv[1:]
def opt(n, d): return a[a.index(n) + 1] if n in a else d
out, scale, jobs, secs = a[0], opt('--scale', '0.03'), int(opt('--jobs', '4')), float(opt('--seconds', '3600'))
W = tempfile.mkdtemp(prefix='mut', dir='/tmp')
ENV['GOMAXPROCS'] = str(max(1, 8 // jobs))
first = {'inter_core.go': 'C01 C02', 'inter_add.go': 'C05 C06', 'inter_set.go': 'C03 C04 C08', 'inter_delete.go': 'C07', 'inter_get.go': 'C14 C15 C17',
         'inter_iter.go': 'C16', 'inter_type.go': 'C18', 'make.go': 'C26 C27 C28', 'others.go': 'C17 C24 C25', 'walk.go': 'C19', 'errors.go': 'C02',
         'utils.go': 'C16 C22', 'sequence.go': 'C20'}
shutil.copytree('/verif/harness', W + '/h')
def sub(f, x, y):
    s = open(W + '/h/' + f).read(); assert x in s, (f, x); open(W + '/h/' + f, 'w').write(s.replace(x, y))
sub('engine/slots.go', 'CPULimit = 40', 'CPULimit = 4'); sub('engine/slots.go', 'WallLimit = 120', 'WallLimit = 20'); sub('engine/slots.go', '6 << 30', '1 << 30')
sub('engine/run.go', 'o.Scale > 0 && !part.Exhaustive', 'o.Scale > 0'); sub('engine/run.go', '40 * time.Second', '100 * time.Millisecond')
sub('cmd/jincheck/main.go', 'Fresh: fresh,', ''); sub('cmd/jincheck/main.go', 'fresh := func', '_ = func')
sub('cmd/jincheck/main.go', 'workers := runtime.NumCPU()', 'workers := runtime.GOMAXPROCS(0)')
if '--from' in a:
    muts = [json.loads(l)['m'] for l in open(opt('--from', '')) if json.loads(l)['by'] in ('', 'SURVIVED')]
else:
    files = [f for f in subprocess.check_output(['git', 'ls-files', '*.go'], cwd='/repo', text=True).split() if not f.endswith('_test.go') and f not in ('testing_utils.go', 'package_description.go')]
    subprocess.run(['go', 'build', '-o', W + '/mutate', '.'], cwd='/verif/tools/mutate', env=ENV, check=True)
    muts = [json.loads(l) for l in subprocess.check_output([W + '/mutate'] + files, cwd='/repo', text=True, stderr=subprocess.DEVNULL).splitlines()]
    random.Random(int(opt('--seed', '7'))).shuffle(muts)
    muts = muts[int(opt('--skip', '0')):]
props = opt('--props', ' '.join('C%02d' % i for i in range(1, 31) if i != 12)).split()
end = time.time() + secs
def run(im):
    i, m = im
    if time.time() > end: return
    d = '%s/m%d' % (W, i); os.makedirs(d + '/root/evidence'); t0 = time.time()
    try:
        s = open('/repo/' + m['file']).read().encode()
        open(d + '/x.go', 'wb').write(s[:m['from']] + m['text'].encode() + s[m['to']:])
        json.dump({'Replace': {'/repo/' + m['file']: d + '/x.go'}}, open(d + '/o.json', 'w'))
        r = subprocess.run(['go', 'build', '-overlay', d + '/o.json', '-o', d + '/jc', './cmd/jincheck'], cwd=W + '/h', env=ENV, capture_output=True)
        by = 'SURVIVED'
        if r.returncode: by = 'nobuild'
        else:
            f = props if '--props' in a else first.get(m['file'], 'C20 C21' if m['file'].startswith('parse') else 'C23')
            f = f if isinstance(f, list) else f.split()
            for p in f + [p for p in props if p not in f]:
                r = subprocess.run([d + '/jc', '-prop', p, '-tier', 'quick', '-root', d + '/root', '-scale', scale], env=dict(ENV, TMPDIR=d), capture_output=True)
                if r.returncode:
                    by = p if r.returncode == 1 else '%s:rc=%d' % (p, r.returncode); break
        with open(out, 'a') as o: o.write(json.dumps({'by': by, 's': round(time.time() - t0, 1), 'm': m}) + '\n')
    finally: shutil.rmtree(d, ignore_errors=True)
try:
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(run, enumerate(muts)))
finally: shutil.rmtree(W, ignore_errors=True)
