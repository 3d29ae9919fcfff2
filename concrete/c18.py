"""C18: identifiers"""
from .base import *

def gen_id(rng, k):
    r = lambda lo, hi: int(rng.choice([lo, hi, rng.integers(lo, hi + 1), rng.integers(lo, hi + 1)]))
    tr = [(r(0, 20000), r(0, 99999), r(0, 9999)) for _ in range(8)]
    a = tr[0]; tr += [(a[0], a[1], (a[2] + 1) % 10000), (a[0], (a[1] + 1) % 100000, a[2]), (a[0] + 1, a[1], a[2])]
    return dict(tr=tr)
@contract('C18', ['external.boss.platemjdfiber2targetid', 'external.boss.targetid2platemjdfiber'], gen_id, quick=300, thorough=5000)
def boss_ids(inp, req):
    from redrock.external.boss import platemjdfiber2targetid as P, targetid2platemjdfiber as U
    ids = {}
    for t in inp['tr']:
        i = P(*t); req(tuple(int(x) for x in U(i)) == t, 'an identifier unpacks to its numbers', (t, i))
        req(ids.get(i, t) == t, 'different triples have different identifiers', (t, i)); ids[i] = t
        for ty in ('i8', 'i4', 'u4'):            # integers of any width, as files store them
            a = P(*(np.array([x, x], dtype=ty) for x in t)); u = U(a)
            req(all(int(a[j]) == int(i) for j in (0, 1)) and all(int(u[q][0]) == t[q] for q in range(3)), 'arrays of numbers give the same identifiers', (ty, t, a))
            req(int(P(*(np.dtype(ty).type(x) for x in t))) == int(P(t[0], t[1], np.dtype(ty).type(t[2]))) == int(i), 'numbers of any integer type give the same identifier', (ty, t))

WORDS = ['GALAXY', 'STAR', 'QSO', 'A', 'F', 'CV', 'HIZ', 'LOZ', 'M', 'WD', 'ELG_12;LRG_5', 'B:C', 'x y', 'None']
def gen_ft(rng, k):
    w = lambda: str(rng.choice(WORDS)) if rng.random() < .7 else ''.join(chr(int(c)) for c in rng.integers(33, 126, size=int(rng.integers(1, 9)))).replace(':', '') or 'Q'
    return dict(sp=w().replace(':', ''), sub=[None, '', '  ', w(), w(), w()][k % 6], pad=int(rng.integers(0, 3)))
@contract('C18', ['templates.make_fulltype', 'templates.parse_fulltype'], gen_ft, quick=500, thorough=10000)
def fulltype(inp, req):
    from redrock.templates import make_fulltype as M, parse_fulltype as P
    p = ' ' * inp['pad']; sp, sub = inp['sp'], inp['sub']
    if ':::' in (sub or '') or (sub or '').strip().startswith(':') or (sub or '').strip().endswith(':'): raise Skip
    want = (sp.strip(), (sub or '').strip())
    ft = M(p + sp + p, sub if sub is None else p + sub + p)
    req(tuple(P(ft)) == want, 'a formatted type parses back', (want, ft, P(ft)))
    req(tuple(P(p + ft + p)) == want, 'surrounding blanks do not matter', ft)
    if not want[1]:
        req(M(sp, None) == M(sp, '') == M(sp, '   '), 'missing and blank subtypes are the same'); req(ft == sp.strip(), 'no separator without subtype')

def gen_hdr(rng, k):
    n = int(rng.choice([0, 1, 2, 3, 10, 11, 25, 99, 100])) if k % 3 == 0 else int(rng.integers(0, 8)); ent = []
    for i in range(n):
        sp = str(rng.choice(['GALAXY', 'QSO', 'STAR'])); sub = str(rng.choice(['', 'HIZ', 'LOZ', 'A', 'CV']))
        ver = str(rng.choice(['0.1', '1.0', '2.6', ' 1.1 '])) if rng.random() < .8 or sp != 'STAR' else 'unknown'
        kind = int(rng.integers(0, 3))
        ent.append(dict(sp=sp, sub=sub, ver=ver, kind=kind, file='rrtemplate-%s-%d.fits' % (sp, i if rng.random() < .7 else 0)))
        if ent[:-1] and rng.random() < .15: ent[-1] = dict(ent[int(rng.integers(0, len(ent) - 1))])
    skip = []
    return dict(ent=ent, fits=bool(k % 2), dirpath='/some/dir')
@contract('C18', ['templates.header2templatefiles'], gen_hdr, quick=300, thorough=4000)
def header(inp, req):
    from redrock.templates import header2templatefiles as H, make_fulltype
    from astropy.io import fits
    h = fits.Header() if inp['fits'] else {}
    h['RRVER'] = '1'; h['ARCNAM00'] = 'GALAXY'; want = []
    for i, e in enumerate(inp['ent']):
        if e['kind'] != 1: h['TEMNAM%02d' % i] = make_fulltype(e['sp'], e['sub']); h['TEMVER%02d' % i] = e['ver']
        if e['kind'] != 0: h['TEMFIL%02d' % i] = e['file']
        v = '0.1' if e['ver'] == 'unknown' else e['ver'].strip()
        want.append(os.path.join(inp['dirpath'], e['file'] if e['kind'] else 'rrtemplate-%s-%s-v%s.fits' % (e['sp'], e['sub'] or 'None', v)))
    got = H(h, template_dir=inp['dirpath'])
    req(list(got) == want, 'one file per recorded template in order', (got[:4], want[:4], len(got), len(want)))

def gen_written(rng, k):
    n = int(rng.integers(1, 14)); ts = []
    for i in range(n):
        sp = str(rng.choice(['GALAXY', 'QSO', 'STAR'])); sub = str(rng.choice(['', 'HIZ', 'LOZ', 'A', 'CV', 'F']))
        ts.append((sp, sub, '%d.%d' % (i, k % 7)))
    return dict(ts=ts, asdict=bool(k % 2), missing=bool(k % 5 == 0))
class _T: pass
@contract('C18', ['external.desi._get_header', 'templates.header2templatefiles', 'templates.make_fulltype'], gen_written, quick=40, thorough=600)
def written_header(inp, req):
    "the header of an output file leads back to the templates of the run"
    from redrock.external.desi import _get_header
    from redrock.templates import header2templatefiles as H, make_fulltype
    os.environ.setdefault('RR_TEMPLATE_DIR', os.path.join(REPO, 'py'))
    ts = []
    for sp, sub, v in inp['ts']:
        t = _T(); t.full_type = make_fulltype(sp, sub); t.version = v; t.filename = '/x/y/rrtemplate-%s-%s-v%s.fits' % (sp, sub or 'None', v); ts.append(t)
    h = _get_header({i: t for i, t in enumerate(ts)} if inp['asdict'] else ts)
    if inp['missing']:
        for i in range(len(ts)): del h['TEMFIL%02d' % i]
    req(list(H(h, template_dir='/d')) == ['/d/' + os.path.basename(t.filename) for t in ts], 'file names correspond one to one to the templates')
