import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import uses
REPO = os.environ.get('TOON_REPO', '/repo')
GROUPS = []
for h in uses.headers(REPO):
    cs = uses.cases(h)
    if not cs: continue
    nm = h.split('TooN/')[1].replace('/', '_').replace('.h', '')
    # only the header itself: what its interface needs must come with it
    GROUPS.append(dict(name=nm, top='#include <%s>' % h, cases=[(n, c, []) for n, c in cs]))
    for tag, fl in ((('release', ['-DNDEBUG']),) if h.startswith('TooN/TooN.h') or TIER == 'thorough' else ()):
        GROUPS.append(dict(name=nm + '_' + tag, top='#include <%s>' % h, flags=fl, cases=[(n, c, []) for n, c in cs]))
    for tag, fl in (('checked', ['-DTOON_CHECK_BOUNDS', '-DTOON_INITIALIZE_SNAN']),):
        GROUPS.append(dict(name=nm + '_' + tag, top='#include <%s>' % h, flags=fl, cases=[(n, c, []) for n, c in cs]))
