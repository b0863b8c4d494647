"""Header rules: each public header alone, repeated, in every ordered pair, in several language
standards and configurations; and the symbol tables of translation units that use the interface."""
import os, re, sys
from concurrent.futures import ThreadPoolExecutor
def run(c):
    m = sys.modules['__main__']; V, REPO = m.V, m.REPO
    sys.path.insert(0, os.path.join(V, 'witness')); import uses
    hs = uses.headers(REPO); inc = lambda *a: ''.join('#include <%s>\n' % h for h in a)
    first = lambda e: (re.search(r'^.*(?:fatal )?error: .*', e, re.M) or [e[:200]])[0]
    short = lambda h: h[5:-2].replace('/', '_')
    std = ['-Wno-everything', '-I' + REPO, '-I' + os.path.join(V, 'witness')]
    n = [0]
    def comp(job):
        name, code, cmd = job; n[0] += 1; f = os.path.join(c.tmp, 'h%d_%s.cc' % (n[0], re.sub(r'\W', '_', name)[:80])); open(f, 'w').write(code)
        rc, o, e = m.sh(cmd + [f]); os.unlink(f); return name, rc, e
    jobs = []
    both = [m.CLANG] + std + ['-fsyntax-only']; gxx = [m.GXX, '-w', '-I' + REPO, '-fsyntax-only']
    stds = ['gnu++17', 'c++11', 'c++20']
    confs = [[], ['-DTOON_CHECK_BOUNDS'], ['-DNDEBUG'], ['-DTOON_NDEBUG'], ['-DTOON_INITIALIZE_SNAN'], ['-DTOON_INITIALIZE_QNAN'], ['-DTOON_INITIALIZE_VAL=3'], ['-DTOON_INITIALIZE_RANDOM'],
             ['-DTOON_USE_LAPACK'], ['-DTOON_DETERMINANT_LAPACK=35'], ['-DTOON_DEFAULT_PRECISION_TYPE=float'], ['-DTOON_CLAPACK'], ['-DTOON_FORTRAN_INTEGER=long'], ['-DTOON_NDEBUG_SIZE'], ['-DTOON_NDEBUG_SLICE'], ['-DTOON_NDEBUG_FILL']]
    for h in hs:
        for s in stds:
            jobs.append(('alone:%s:%s' % (short(h), s), inc(h, h), both + ['-std=' + s]))
            if c.tier == 'thorough': jobs.append(('alone:%s:%s:second' % (short(h), s), inc(h, h), gxx + ['-std=' + s]))
        for cf in confs[1:]:
            jobs.append(('alone:%s:%s' % (short(h), cf[0][2:]), inc(h), both + ['-std=gnu++17'] + cf))
    orders = [('order', hs), ('reverse', hs[::-1])]
    for k in range(len(hs)): orders.append(('rotate%d' % k, hs[k:] + hs[:k]))
    for nm, o in orders: jobs.append((nm, inc(*o) + inc(*o), both + ['-std=gnu++17']))
    for s in stds: jobs.append(('all:second:' + s, inc(*hs) + inc(*hs[::-1]), gxx + ['-std=' + s]))
    with ThreadPoolExecutor(m.JOBS) as ex: res = list(ex.map(comp, jobs))
    bad = set()
    for nm, rc, e in res:
        c.inst.append(nm); c.bump('inclusion_programs')
        if rc and nm.endswith('gnu++17'): bad.add(nm.split(':')[1])
        if rc: c.violation(nm, 'header-does-not-compile', first(e))
    # every ordered pair: the first header precompiled, the second on top
    def pch(h):
        f = os.path.join(c.tmp, short(h) + '.hh'); open(f, 'w').write(inc(h))
        rc, o, e = m.sh([m.CLANG] + std + ['-std=gnu++17', '-x', 'c++-header', f, '-o', f + '.pch']); return h, f, rc
    with ThreadPoolExecutor(m.JOBS) as ex: ps = {h: f for h, f, rc in ex.map(pch, hs) if not rc}
    pairs = [('pair:%s:%s' % (short(a), short(b)), inc(b), both + ['-std=gnu++17', '-include-pch', ps[a] + '.pch']) for a in hs if a in ps for b in hs if b != a and short(b) not in bad]
    with ThreadPoolExecutor(m.JOBS) as ex: res = list(ex.map(comp, pairs))
    for nm, rc, e in res:
        c.inst.append(nm); c.bump('ordered_pairs')
        if rc: c.violation(nm, 'header-does-not-compile', first(e))
    # symbol tables: nothing strong may be defined by a header, nothing of the library left undefined
    def sym(h):
        cs = uses.cases(h); code = inc(h)
        for k, (nm, b) in enumerate(cs): code += b + '\n' if b.startswith('//TOP') else 'namespace wit_%d { void use(){\n%s\n} }\n' % (k, b)
        out = []
        for tag, cmd in [('', [m.CLANG] + std + ['-std=gnu++17', '-O0'])] + ([('second', [m.GXX, '-w', '-I' + REPO, '-std=gnu++17', '-O0'])] if c.tier == 'thorough' else []):
            f = os.path.join(c.tmp, 's%s_%s.cc' % (tag, short(h))); o = f + '.o'; open(f, 'w').write(code)
            rc, so, e = m.sh(cmd + ['-c', f, '-o', o])
            if rc: out.append((tag, None, e)); continue
            rc, so, e = m.sh(['nm', '-C', o]); os.unlink(o); out.append((tag, so, e))
        return h, len(cs), out
    with ThreadPoolExecutor(m.JOBS) as ex: res = list(ex.map(sym, hs))
    for h, k, out in res:
        for tag, so, e in out:
            nm = 'symbols:%s%s' % (short(h), tag and ':' + tag); c.bump('symbol_tables')
            if so is None:
                if short(h) not in bad: c.violation(nm, 'header-does-not-compile', first(e))
                continue
            c.inst.append(nm); c.bump('uses_linked', k)
            for l in so.splitlines():
                q = re.match(r'^([0-9a-f]*)\s+(\S)\s+(.*)$', l)
                if not q: continue
                ty, s = q.group(2), q.group(3); c.bump('symbols')
                if ty in 'TDBRSGC' and not s.startswith(('wit_', 'use(')) : c.violation(nm, 'strong-definition-in-header', h, '%s is defined in every source file that includes the header' % s[:200])
                if ty == 'U' and 'TooN::' in s: c.violation(nm, 'declared-but-not-defined', h, '%s has no definition' % s[:200])
