#!/usr/bin/env python3
"""matrix.py [--own] [--scale X] [ID...]: runs the checks against each planted bug in scratch copies of /repo
and prints which of them report it. --own: only the check of the bug's property."""
import json, os, re, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOWORK='off')
args = sys.argv[1:]
own = '--own' in args
scale = args[args.index('--scale') + 1] if '--scale' in args else '0'
ids = [a for a in args if re.match(r'c\d\d-', a)] or sorted(os.listdir('/verif/seeded'))
props = ['C%02d' % i for i in range(1, 31)]
for b in ids:
    w = tempfile.mkdtemp(prefix='mx', dir='/tmp')
    try:
        meta = json.load(open('/verif/seeded/%s/meta.json' % b))
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=w + '/repo', check=True)
        if subprocess.run(['git', 'apply', '/verif/seeded/%s/patch.diff' % b], cwd=w + '/repo').returncode:
            print(b, 'DOES NOT APPLY', flush=True); continue
        subprocess.run(['cp', '-a', '/verif/harness', w + '/harness'], check=True)
        s = open(w + '/harness/go.mod').read().replace('=> /repo', '=> ' + w + '/repo')
        open(w + '/harness/go.mod', 'w').write(s)
        caught = []
        for p in ([meta['property']] if own else props):
            exe = w + ('/jcr' if p == 'C12' else '/jc')
            if not os.path.exists(exe):
                subprocess.run(['go', 'build'] + (['-race'] if p == 'C12' else []) + ['-o', exe, './cmd/jincheck'], cwd=w + '/harness', env=ENV, check=True)
            os.makedirs(w + '/root/evidence', exist_ok=True)
            r = subprocess.run([exe, '-prop', p, '-tier', 'quick', '-root', w + '/root', '-scale', scale], env=dict(ENV, TMPDIR=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode('utf8', 'replace')
            if r.returncode == 1 and 'VIOLATION property=' + p in o:
                caught.append(p)
            elif r.returncode:
                caught.append('%s:rc=%d' % (p, r.returncode))
        print(b, meta['property'], 'caught' if meta['property'] in caught else 'MISSED', ' '.join(caught), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
