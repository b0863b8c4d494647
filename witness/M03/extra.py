"""Effect query: no library function may write an object with static storage duration."""
import os, re, json, sys
from concurrent.futures import ThreadPoolExecutor
def run(c):
    m = sys.modules['__main__']; V, REPO = m.V, m.REPO
    tool = m.build_effects(); jobs = []
    w = os.path.join(V, 'witness')
    for d in sorted(os.listdir(w)):
        if not os.path.isdir(os.path.join(w, d)): continue
        for f in sorted(os.listdir(os.path.join(w, d))):
            if not f.endswith('.cc'): continue
            txt = open(os.path.join(w, d, f)).read(); fl = re.findall(r'^// FLAGS:(.*)$', txt, re.M) or ['']
            for k, x in enumerate(fl if c.tier == 'thorough' else fl[:2]): jobs.append((d + '/' + f[:-3] + ('#%d' % k if k else ''), os.path.join(w, d, f), x.split()))
    def one(j):
        name, p, fl = j; bc = os.path.join(c.tmp, name.replace('/', '_').replace('#', '_') + '.e.bc')
        rc, o, e = m.sh([m.CLANG] + m.BASE + ['-g'] + fl + ['-emit-llvm', '-c', p, '-o', bc])
        if rc: return name, None, e
        rc, o, e = m.sh([tool, '--root', REPO, bc]); os.unlink(bc)
        try: return name, json.loads(o), ''
        except Exception as x: return name, None, 'bad output %s %s' % (x, e[:200])
    with ThreadPoolExecutor(m.JOBS) as ex: res = list(ex.map(one, jobs))
    vs = set()
    for name, d, e in res:
        c.bump('translation_units')
        if d is None: c.unan.append((name, e[:300])); continue
        for k in ('functions', 'calls', 'globals'): c.bump('scanned_' + k, d[k])
        for f in d['library_functions']: c.fns.add(f); 
        for v in d['variables']:
            if not v.startswith('.str'): vs.add(v[v.rindex('(TooN/') :] if v.endswith('constant') else v)
        for f in d['findings']:
            k = (f['object'], f['how'], f['where'])
            if not any((g['instance'], g['kind'], g['where']) == (f['object'], 'writes-shared-state', f['where']) for g in c.find):
                c.violation(f['object'], 'writes-shared-state', f['where'], f['how'] + ' in ' + f['function'][:300])
    c.inst += sorted(c.fns); c.cov['library_functions'] = len(c.fns); c.cov['static_objects'] = sorted(vs)[:60]
