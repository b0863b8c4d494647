#!/usr/bin/env python3
"""Confirm planted changes (authoring aid, not used by any check).

usage: plant.py make FILE.py   -- FILE.py defines SEEDS=[dict(id,prop,edits=[(file,old,new)],demo,needs,breaks[,extra flags])]
       plant.py check [ID...]  -- apply each change to /repo, build, run the stable tests, the demonstration and the property's check; undo
"""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(f):
    ns = {}; exec(open(f).read(), ns)
    for s in ns['SEEDS']:
        w = tempfile.mkdtemp(prefix='plant.')
        try:
            sh('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x' % (w, w))
            for (fn, old, new) in s['edits']:
                p = os.path.join(w, fn); t = open(p).read()
                if t.count(old) != 1: print(s['id'], fn, 'text occurs', t.count(old), 'times'); break
                l0=t[:t.index(old)].count('\n'); o=old.split('\n'); n=new.split('\n')
                for k,x in enumerate(o):
                    if x.strip() and x not in n:
                        b=sh('git -C /repo log -1 --format=%%s $(git -C /repo blame -s -l -L %d,%d HEAD -- %s | cut -c1-40 | tr -d ^)' % (l0+k+1,l0+k+1,fn)).stdout
                        if b.startswith('fix:'): print(s['id'],'changes a line of',b.strip(),':',x.strip())
                open(p, 'w').write(t.replace(old, new))
            else:
                d = os.path.join(S, s['id']); os.makedirs(d, exist_ok=True)
                open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % w).stdout)
                if 'demo' in s: open(d + '/demo.cc', 'w').write(s['demo'].lstrip('\n'))
                fl = s.get('flags', '-O1'); libs = s.get('libs', '')
                body = s.get('script') or 'g++ -std=c++17 -w %s -I. "$(dirname "$0")/demo.cc" -o "$d/demo" %s || exit 3\n"$d/demo"\n' % (fl, libs)
                open(d + '/demo.sh', 'w').write('#!/bin/sh\n# exit 0: behaves as documented; non-zero: it does not\nd=$(mktemp -d) || exit 2\ntrap \'rm -rf "$d"\' EXIT\n' + body)
                os.chmod(d + '/demo.sh', 0o755)
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                print('made', s['id'])
        finally: shutil.rmtree(w)
def stable():
    sh('bash /opt/vp/build.sh'); o = '/tmp/plant_out.json'
    sh('bash /opt/vp/test.sh ' + o)
    try: p = set(json.load(open(o))['passed'])
    except Exception: return ['no result']
    return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - p)
def check(ids, tests=True):
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
    for i in ids:
        d = os.path.join(S, i); prop = json.load(open(d + '/meta.json'))['property']
        c0 = sh('timeout 300 sh %s/demo.sh' % d, cwd=R).returncode
        try:
            a = sh('git -C /repo apply %s/patch.diff' % d)
            if a.returncode: print(i, 'DOES NOT APPLY', a.stderr[:200]); continue
            bad = stable() if tests else []
            c1 = sh('timeout 300 sh %s/demo.sh' % d, cwd=R).returncode
            k = sh('timeout 900 python3 %s/tools/check.py %s' % (V, prop), cwd=V)
            l = [x for x in k.stdout.splitlines() if x.startswith('VIOLATION')]
            print('%-28s %s demo clean=%d planted=%d tests_broken=%s check=%d %s' % (i, prop, c0, c1, bad or 'none', k.returncode, 'CAUGHT' if k.returncode == 1 and l else 'MISSED ' + k.stdout[-300:]), flush=True)
        finally: sh('git -C /repo checkout -- .')
    if tests: sh('bash /opt/vp/build.sh')
if sys.argv[1] == 'make': make(sys.argv[2])
else:
    t = '--no-tests' not in sys.argv; ids = [a for a in sys.argv[2:] if a[0] != '-'] or sorted(os.listdir(S))
    check(ids, t)
