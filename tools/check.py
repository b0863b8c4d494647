#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property statically.

Engines: V (value flow over LLVM IR, engine/vf.cpp), W (compile-fail / compile-pass
witnesses), E (effect queries over IR).  Nothing from /repo is ever executed.
Exit 0 held, 1 violated (VIOLATION line), 2 the analysis itself is broken."""
import sys, os, json, time, subprocess, re, importlib.util, hashlib, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TOON_REPO', '/repo')
JOBS = 8
CLANG, GXX = 'clang++-18', 'g++'
if not shutil.which(CLANG): CLANG = 'clang++'

def sh(cmd, timeout=600):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout'

def build_tool(name, parts):
    src = [os.path.join(V, 'engine', f) for f in parts]
    h = hashlib.sha256(b''.join(open(s, 'rb').read() for s in src)).hexdigest()[:16]
    os.makedirs(os.path.join(V, 'build'), exist_ok=True)
    out = os.path.join(V, 'build', name + '-' + h)
    if os.path.exists(out): return out
    rc, inc, _ = sh(['llvm-config-18', '--includedir']); inc = inc.strip() or '/usr/lib/llvm-18/include'
    rc, ld, _ = sh(['llvm-config-18', '--ldflags'])
    tmp = out + '.%d' % os.getpid()
    rc, o, e = sh([GXX, '-O2', '-std=c++17', '-fno-rtti', '-w', '-I' + inc, src[0], '-o', tmp] + ld.split() + ['-lLLVM-18'])
    if rc: print(e[-3000:]); print('analysis broken: %s does not build' % name); sys.exit(2)
    os.rename(tmp, out)
    return out
def build_engine(): return build_tool('vf', ('vf.cpp', 'vf_exec.inc', 'vf_main.inc'))
def build_effects(): return build_tool('ve', ('ve.cpp',))

BASE = ['-std=gnu++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-ffp-contract=off', '-fno-math-errno',
        '-gline-tables-only', '-Wno-everything', '-I' + os.path.join(V, 'witness'), '-I' + REPO]

class Check:
    def __init__(s, pid, tier):
        s.pid, s.tier, s.seed = pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1)
        s.t0 = time.time(); s.find = []; s.inst = []; s.unan = []; s.cov = {}; s.fns = set(); s.samples = []; s.floor = {}
        s.tmp = tempfile.mkdtemp(prefix='toonsa.')
    def bump(s, k, n=1): s.cov[k] = s.cov.get(k, 0) + n
    def violation(s, inst, kind, where='', detail='', path=''):
        s.find.append(dict(instance=inst, kind=kind, where=where, detail=detail, path=path))

    # ---------------------------------------------------------------- V / G
    def vf_units(s):
        d = os.path.join(V, 'witness', s.pid); jobs = []
        if not os.path.isdir(d): return
        eng = build_engine()
        for f in sorted(os.listdir(d)):
            if not f.endswith('.cc'): continue
            p = os.path.join(d, f); txt = open(p).read()
            if '// TIER: thorough' in txt and s.tier != 'thorough': continue
            fl = re.findall(r'^// FLAGS:(.*)$', txt, re.M) or ['']
            if s.tier == 'thorough': fl += re.findall(r'^// FLAGS-THOROUGH:(.*)$', txt, re.M)
            tl = re.search(r'^// TIME: *(\d+)', txt, re.M)
            for k, x in enumerate(fl): jobs.append((f[:-3] + ('' if len(fl) == 1 else '#%d' % k), p, x.split(), int(tl.group(1)) if tl else 60))
        seeds = [s.seed] if s.tier == 'quick' else [s.seed, s.seed + 1000003, s.seed + 2000003]
        def comp(j):
            name, p, fl, tl = j; bc = os.path.join(s.tmp, name.replace('#', '_') + '.bc')
            rc, o, e = sh([CLANG] + BASE + fl + ['-emit-llvm', '-c', p, '-o', bc])
            if rc: return name, None, e, tl
            return name, bc, '', tl
        def names(bc):
            rc, o, e = sh([eng, '--list', bc]); return o.split()
        with ThreadPoolExecutor(JOBS) as ex: comped = list(ex.map(comp, jobs))
        work = []
        for name, bc, err, tl in comped:
            s.bump('translation_units')
            if bc is None:
                m = re.search(r'^(.*?: (?:fatal )?error: .*)$', err, re.M)
                s.violation(name, 'public-interface-does-not-compile', m.group(1) if m else err[:300]); continue
            ns = names(bc)
            if not ns: s.unan.append((name, 'no obligations in unit')); continue
            for sd in seeds:
                parts = min((len(ns) + 11) // 12, 40)
                for part in range(parts):
                    work.append((name, bc, sd, part, parts, tl))
        def ana(w):
            name, bc, sd, part, parts, tl = w
            rc, o, e = sh([eng, '--root', REPO, '--seed', str(sd), '--time', str(tl), '--part', '%d/%d' % (part, parts), bc], 850)
            if rc != 0: return name, sd, None, 'exit %d: %s' % (rc, e[-300:])
            try: return name, sd, json.loads(o), ''
            except Exception as x: return name, sd, None, 'bad output ' + str(x)
        with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(ana, work))
        for name, sd, out, err in res:
            if out is None: s.unan.append((name, err)); continue
            for o in out:
                inst = name + ':' + o['name']; first = sd == seeds[0]
                if o['status'] == 'unanalysable': s.unan.append((inst, o.get('why', ''))); continue
                if first:
                    s.inst.append(inst)
                    for k in ('outputs', 'steps', 'accesses', 'stores', 'calls', 'allocations', 'asserts'): s.bump(k, o.get(k, 0))
                    s.fns.update(o.get('functions', []))
                    if len(s.samples) < 6 and len(s.inst) % 7 == 1:
                        s.samples.append(dict(obligation=inst, kind=o['kind'], outputs=o['outputs'], ir_steps=o['steps'], branch_conditions=o['atoms'], functions=o.get('functions', [])[:8]))
                if 'noalloc' in o['name'] and o.get('allocations', 0): s.violation(inst, 'heap-allocation', '', '%d allocations' % o['allocations'])
                for f in o['findings']:
                    k = (inst, f['kind'], f.get('where', ''))
                    if not any((g['instance'], g['kind'], g['where']) == k for g in s.find):
                        s.violation(inst, f['kind'], f.get('where', ''), f.get('detail', ''), f.get('path', ''))

    # ---------------------------------------------------------------- W
    def wit_units(s):
        p = os.path.join(V, 'witness', s.pid, 'cases.py')
        if not os.path.exists(p): return
        spec = importlib.util.spec_from_file_location('cases_' + s.pid, p); mod = importlib.util.module_from_spec(spec)
        mod.TIER = s.tier; spec.loader.exec_module(mod)
        groups = mod.GROUPS  # list of dict(name, includes/top, flags, cases=[(name, pass, [fail...])])
        work = []; pch = {}
        def mkpch(g):
            i, g = g; h = os.path.join(s.tmp, 'w%d.hh' % i); open(h, 'w').write(g['top'] + '\n')
            fl = ['-std=' + g.get('std', 'gnu++17'), '-Wno-everything', '-I' + REPO, '-I' + os.path.join(V, 'witness')] + g.get('flags', [])
            rc, o, e = sh([CLANG] + fl + ['-x', 'c++-header', h, '-o', h + '.pch'])
            return i, g, h, fl, (rc, e)
        with ThreadPoolExecutor(JOBS) as ex: gs = list(ex.map(mkpch, enumerate(groups)))
        def run(tag, h, fl, code):
            f = os.path.join(s.tmp, tag + '.cc'); open(f, 'w').write(code)
            rc, o, e = sh([CLANG] + fl + ['-fsyntax-only', '-include-pch', h + '.pch', f])
            return rc, e
        def grun(tag, h, fl, code):
            f = os.path.join(s.tmp, tag + '.g.cc'); open(f, 'w').write('#include "%s"\n' % h + code)
            rc, o, e = sh([GXX] + [x for x in fl if x != '-Wno-everything'] + ['-w', '-fsyntax-only', f]); return rc, e
        def body(n, c):
            c = c.strip('\n')
            if c.lstrip().startswith('//TOP'): return c + '\n'
            return 'void wit_%s(){\n%s\n}\n' % (n, c)
        first = lambda e: (re.search(r'error: .*', e) or [e[:200]])[0]
        for i, g, h, fl, (rc, e) in gs:
            if rc: s.violation(g['name'], 'public-interface-does-not-compile', first(e)); continue
            passes = [(c[0], c[1]) for c in g['cases'] if c[1]]
            allp = ''.join(body(n, c) for n, c in passes)
            rcp, ep = run('w%d_all' % i, h, fl, allp)
            badp = {}
            def one(t):
                k, (n, c) = t; r, e = run('w%d_p%d' % (i, k), h, fl, body(n, c)); return n, r, e
            if rcp:
                with ThreadPoolExecutor(JOBS) as ex:
                    for n, r, e in ex.map(one, enumerate(passes)):
                        if r: badp[n] = first(e)
            s.bump('compile_pass_witnesses', len(passes))
            for n, c in passes:
                s.inst.append(g['name'] + ':' + n + ':accept')
            for n, m in badp.items(): s.violation(g['name'] + ':' + n, 'refuses-valid', m, dict(passes)[n].strip())
            if s.tier == 'thorough' and not badp:
                r, e = grun('w%d_gall' % i, h, fl, allp); s.bump('second_compiler_runs')
                if r: s.violation(g['name'], 'refuses-valid', 'g++: ' + first(e))
            fails = [(n, k, f) for n, _, fs in g['cases'] for k, f in enumerate(fs) if n not in badp]
            def onef(t):
                j, (n, k, f) = t; r, e = run('w%d_f%d' % (i, j), h, fl, body(n, f))
                if s.tier == 'thorough' and r == 1:
                    r2, e2 = grun('w%d_gf%d' % (i, j), h, fl, body(n, f))
                    if r2 == 0: r, e = 0, ''
                return n, k, f, r, e
            # Many witnesses per translation unit: a witness whose own lines appear in an error (or in the
            # instantiation trace of one) is rejected; every other one is compiled again on its own.
            def batch(t):
                b, items = t; code = ''; owner = {}; line = 1; out = {}
                for j, (n, k, f) in items:
                    c = body('%s_%d' % (n, j), f); nl = c.count('\n')
                    for q in range(line, line + nl): owner[q] = j
                    code += c; line += nl
                tag = 'w%d_b%d' % (i, b); r, e = run(tag, h, fl + ['-ferror-limit=0', '-fno-caret-diagnostics', '-ftemplate-backtrace-limit=0'], code)
                if r != 1 or 'fatal error' in e: return out
                cur = ''
                for l in e.split('\n'):
                    m = re.match(r'(.*?):(\d+):\d+: (error|note|warning): (.*)', l)
                    if not m: continue
                    if m.group(3) == 'error': cur = 'error: ' + m.group(4)
                    if os.path.basename(m.group(1)) == tag + '.cc' and int(m.group(2)) in owner and (m.group(3) == 'error' or m.group(4).startswith('in instantiation')): out.setdefault(owner[int(m.group(2))], cur)
                return out
            got = {}
            enum = list(enumerate(fails))
            if s.tier != 'thorough':
                left = [t for t in enum if not t[1][2].lstrip().startswith('//TOP')]; rnd = 0
                while len(left) > 24 and rnd < 12:
                    nb = max(JOBS, len(left) // 40 + 1); bs = [left[q::nb] for q in range(nb)]; before = len(got)
                    with ThreadPoolExecutor(JOBS) as ex:
                        for o in ex.map(batch, [(rnd * 1000 + q, b) for q, b in enumerate(bs) if b]): got.update(o)
                    left = [t for t in left if t[0] not in got]; rnd += 1
                    if len(got) - before < len(left) // 8: break
                s.bump('rejected_in_batches', len(got))
            with ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(onef, [t for t in enum if t[0] not in got]))
            rs += [fails[j] + (1, m) for j, m in got.items()]
            for n, k, f, r, e in rs:
                s.bump('compile_fail_witnesses'); inst = '%s:%s:reject%d' % (g['name'], n, k)
                if r not in (0, 1): s.unan.append((inst, 'compiler exit %d' % r)); continue
                s.inst.append(inst)
                if r == 0: s.violation(inst, 'accepts-invalid', 'compiles although it must be rejected', f.strip())
                elif len(s.samples) < 10 and len(s.inst) % 23 == 0: s.samples.append(dict(obligation=inst, code=f.strip(), diagnosed=first(e)))

    def extra(s):
        p = os.path.join(V, 'witness', s.pid, 'extra.py')
        if not os.path.exists(p): return
        spec = importlib.util.spec_from_file_location('extra_' + s.pid, p); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
        mod.run(s)

    def finish(s):
        kf = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
        kf = [k for k in kf if k['property'] == s.pid]
        known, new = {}, []
        for f in s.find:
            for k in kf:
                if f['instance'] in k['instances'] and f['kind'] in k['kinds']: known.setdefault(k['id'], (k, []))[1].append(f); break
            else: new.append(f)
        for k in kf:
            if k['id'] in known: print('KNOWN-FINDING: property=%s %s' % (s.pid, k['what']))
        rules = json.load(open(os.path.join(V, 'witness', 'rules.json'))).get(s.pid, {})
        ev = dict(property=s.pid, tier=s.tier, seed=s.seed, level='other', wall_s=round(time.time() - s.t0, 2), violations=len(new),
                  coverage=dict(explanation=rules.get('rule', 'see DESIGN.md'), obligations_analysed=len(s.inst), obligations_unanalysable=len(s.unan),
                                repo_functions_covered=len(s.fns), functions=sorted(s.fns)[:400], unanalysable=[list(u) for u in s.unan][:60],
                                known_findings=sorted(known), samples=s.samples, **s.cov),
                  assumptions=rules.get('assumptions', []))
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', s.pid + '.json'), 'w'), indent=1)
        print('%s: %d obligations analysed, %d not analysable, %d repository functions, %s, %.1fs' % (s.pid, len(s.inst), len(s.unan), len(s.fns), ' '.join('%s=%d' % q for q in sorted(s.cov.items()) if isinstance(q[1], int)), time.time() - s.t0))
        for u in s.unan[:40]: print('  not analysed: %s (%s)' % (u[0], u[1][:160]))
        shutil.rmtree(s.tmp, ignore_errors=True)
        if new:
            os.makedirs(os.path.join(V, 'replay'), exist_ok=True); rp = os.path.join(V, 'replay', s.pid + '.json')
            json.dump(dict(property=s.pid, rerun='python3 %s/tools/check.py %s' % (V, s.pid), findings=new), open(rp, 'w'), indent=1)
            for f in new[:25]: print('  %s %s at %s %s%s' % (f['instance'], f['kind'], f['where'], f['detail'][:400], (' when ' + f['path']) if f['path'] else ''))
            print('VIOLATION property=%s replay=%s' % (s.pid, rp)); return 1
        floor = rules.get('floor', 1)
        if len(s.inst) < floor: print('analysis broken: only %d of at least %d obligations could be analysed' % (len(s.inst), floor)); return 2
        return 0

def main():
    if sys.argv[1] == '--build': print(build_engine(), build_effects()); return 0
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    c = Check(pid, tier)
    try:
        c.vf_units(); c.wit_units(); c.extra(); rc = c.finish()
    finally: shutil.rmtree(c.tmp, ignore_errors=True)
    return rc
if __name__ == '__main__': sys.exit(main())
