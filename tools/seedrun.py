#!/usr/bin/env python3
"""python3 tools/seedrun.py [-t TIER] [-p PROP] [ID...]: for every planted bug, in a scratch copy of /repo: does it apply, build,
pass the stable tests, does its demonstration tell it from the clean tree, and does the check of its property report it?"""
import os, sys, subprocess, json, shutil, tempfile, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = 'quick'; prop = None
while args and args[0] in ('-t', '-p'):
    if args[0] == '-t': tier = args[1]
    else: prop = args[1]
    args = args[2:]
ids = args or sorted(os.listdir(here + '/seeded'))
stable = json.load(open('/opt/vp/BASELINE.json'))
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOWORK='off', GOFLAGS='-buildvcs=false', VERIF_TIER=tier)

def tests(repo):
    p = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], cwd=repo, env=env, capture_output=True, text=True)
    ok = set()
    for l in p.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Test'])
    return ok

base = tempfile.mkdtemp(prefix='seedrun-', dir='/tmp')
try:
    clean = base + '/clean'
    subprocess.run(['git', 'clone', '-q', '/repo', clean], check=True)
    good = tests(clean)
    for i in ids:
        d = here + '/seeded/' + i
        meta = json.load(open(d + '/meta.json'))
        res = []
        demo = base + '/demo'
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        if not prop:
            if subprocess.run(['bash', demo + '/demo.sh'], cwd=clean, capture_output=True).returncode != 0: res.append('DEMO FAILS ON CLEAN')
        rp = base + '/repo'
        shutil.rmtree(rp, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', rp], check=True)
        if subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=rp).returncode: res.append('DOES NOT APPLY')
        b = subprocess.run(['go', 'build', './...'], cwd=rp, env=env, capture_output=True, text=True)
        if b.returncode: res.append('DOES NOT BUILD ' + b.stderr[:300])
        else:
            miss = good - tests(rp)
            if miss: res.append('TESTS FAIL %s' % sorted(miss)[:3])
            if not prop:
                p = subprocess.run(['bash', demo + '/demo.sh'], cwd=rp, capture_output=True, text=True)
                if p.returncode == 0: res.append('DEMO PASSES WITH THE BUG')
            v = base + '/verif'
            shutil.rmtree(v, ignore_errors=True)
            os.mkdir(v)
            shutil.copytree(here + '/harness', v + '/harness')
            for f in ('check.sh', 'KNOWN_FINDINGS'): shutil.copy(here + '/' + f, v)
            s = open(v + '/harness/go.mod').read()
            assert '=> /repo' in s
            open(v + '/harness/go.mod', 'w').write(s.replace('=> /repo', '=> ' + rp))
            t = time.time()
            p = subprocess.run(['bash', 'check.sh', prop or meta['property']], cwd=v, capture_output=True, text=True, env=dict(env))
            lines = p.stdout.splitlines()
            f = [l for l in lines if l.startswith('FAILED')]
            res.append('%s exit=%d %.0fs %s' % ('caught' if p.returncode == 1 else '*** MISSED' if p.returncode == 0 else '*** NO ANSWER', p.returncode, time.time() - t, (f or ['', ''])[0][:160] or p.stderr[-300:]))
        print(i, prop or meta['property'], '; '.join(res), flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
