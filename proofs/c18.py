"""C18: BOSS identifiers"""
from vc.prove import *

def _triple(v, tag=''):
    return (v.int('plate' + tag, lo=0), v.int('mjd' + tag, lo=0, hi=99999), v.int('fiber' + tag, lo=0, hi=9999))

@proof('C18', ['redrock.external.boss.platemjdfiber2targetid', 'redrock.external.boss.targetid2platemjdfiber'], replay='boss_ids')
def boss_roundtrip(v):
    M = v.mod('external.boss')
    t = _triple(v)
    i = v.call(M.platemjdfiber2targetid, *t)
    u = v.call(M.targetid2platemjdfiber, i)
    v.ensure('three numbers come back', len(u) == 3)
    for n, a, b in zip(('plate', 'mjd', 'fibre'), u, t): v.ensure('the %s comes back' % n, a == b)

@proof('C18', ['redrock.external.boss.platemjdfiber2targetid'], replay='boss_ids')
def boss_injective(v):
    M = v.mod('external.boss')
    t, s = _triple(v), _triple(v, '2')
    i = v.call(M.platemjdfiber2targetid, *t); j = v.call(M.platemjdfiber2targetid, *s)
    v.ensure('different triples have different identifiers', v.implies(i == j, v.and_(*[a == b for a, b in zip(t, s)])))

# ---------------------------------------------------------------- type strings
from vc.strs import Text, BLANK, ST, sv
import z3
def _texts(v):
    "any spectral type and subtype without colons"
    p, q = Text(z3.Const('spectype', ST)), Text(z3.Const('subtype', ST))
    for x in (p, q): v.require(v.not_(S(z3.Contains(x.t, z3.StringVal(':')))))
    return p, q
_T = ['redrock.templates.make_fulltype', 'redrock.templates.parse_fulltype']
@proof('C18', _T)
def type_roundtrip(v):
    T = v.mod('templates'); p, q = _texts(v)
    f = v.call(T.make_fulltype, p, q)
    a, b = v.call(T.parse_fulltype, f)
    v.ensure('the spectral type comes back', p.strip() == a)
    v.ensure('the subtype comes back', q.strip() == b)
@proof('C18', _T)
def type_without_subtype(v):
    T = v.mod('templates'); p, q = _texts(v)
    v.require(S(BLANK(q.t)))
    f, g, h = v.call(T.make_fulltype, p, None), v.call(T.make_fulltype, p, ''), v.call(T.make_fulltype, p, q)
    v.ensure('missing and blank subtypes are treated alike', v.and_(p.strip() == f, p.strip() == g, p.strip() == h))
    a, b = v.call(T.parse_fulltype, f)
    v.ensure('and parse back to no subtype', v.and_(p.strip() == a, Text(z3.StringVal('')) == b))
@proof('C18', _T[1:])
def type_padded(v):
    T = v.mod('templates'); p, q = _texts(v)
    x, y = Text(z3.Const('lead', ST)), Text(z3.Const('trail', ST))
    for t in (x, y): v.require(S(BLANK(t.t)))
    f = v.call(T.make_fulltype, p, q)
    a, b = v.call(T.parse_fulltype, f); c, d = v.call(T.parse_fulltype, x + f + y)
    v.ensure('surrounding blanks do not matter', v.and_(Text(sv(c)) == a, Text(sv(d)) == b))
