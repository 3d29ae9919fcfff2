"""C09: work distribution"""
from vc.prove import *
from vc.loader import Keyed, SymList, SymDict, Rec
from vc.rec import Ragged
import z3
CUR = [None]
class G: pass

def lsum(v, g, own, s, i):
    "weight of the units placed on process i by the first s placements"
    return v.sum(s, lambda t: term(v, g, own, i, t))
def term(v, g, own, i, t): return v.ite(own(g.sid(t)) == i, g.W(g.sid(t)), 0)

def _inv(L):
    v, g = CUR[0]; D, P = L.dist, L.processes.store
    g.sids = L.sids; g.sid = lambda s: S(z3.Function('ids', I, I)(g.sids.perm.at((zi(s),)))) if not v.bounded else None
    cnt, items, own, slot = [v.frozen(a) for a in (D.cnt, D.items, D.own, D.slot)]
    load, cap, pid = [v.frozen(P.f[k]) for k in ('load', 'capacity', 'id')]
    k, n = S(zi(L.k)) if z3.is_expr(L.k) else L.k, g.nproc
    big = S(z3.Int('unbounded'))
    def anyp(f): return S(z3.ForAll([z3.Int('pi'), z3.Int('pp')], tb(v.implies(v.and_(S(z3.Int('pi')) >= 0, S(z3.Int('pi')) < n, S(z3.Int('pp')) >= 0, S(z3.Int('pp')) < cnt(S(z3.Int('pi')))), f(S(z3.Int('pi')), S(z3.Int('pp')))))), 'b')
    out = [('processes are numbered and keep their capacity', v.all(n, lambda i: v.and_(pid(i) == i, cap(i) == g.cap(i)))),
           ('lists have a length', v.all(n, lambda i: cnt(i) >= 0)),
           ('every unit so far is in the list of its process', v.all(k, lambda s: v.and_(own(g.sid(s)) >= 0, own(g.sid(s)) < n, slot(g.sid(s)) >= 0, slot(g.sid(s)) < cnt(own(g.sid(s))),
                                                                     items(own(g.sid(s)), slot(g.sid(s))) == g.sid(s)))),
           ('every list entry is a unit so far, at one place', v.all((n, g.any_), lambda i, p: v.implies(p < cnt(i), v.and_(g.pos(items(i, p)) >= 0, g.pos(items(i, p)) < k, g.sid(g.pos(items(i, p))) == items(i, p),
                                                                                                  own(items(i, p)) == i, slot(items(i, p)) == p)))),
           ('lists are ordered by decreasing weight', v.all((n, g.any_, g.any_), lambda i, p, q: v.implies(v.and_(p < q, q < cnt(i)), g.W(items(i, p)) >= g.W(items(i, q))))),
           ('load is the weight of the units of the process', v.all(n, lambda i: load(i) == lsum(v, g, own, k, i))),
           ('each unit went where the normalised load became smallest', v.all((k, n), lambda s, i: (lsum(v, g, own, s, own(g.sid(s))) + g.W(g.sid(s))) / g.cap(own(g.sid(s))) <= (lsum(v, g, own, s, i) + g.W(g.sid(s))) / g.cap(i)))]
    if g.equal: out.append(('loads differ by at most the largest weight', v.all((n, n), lambda i, j: load(i) - load(j) <= g.wmax)))
    return out
def _hint(L):
    v, g = CUR[0]; D = L.dist; k = S(L.k) - 1
    own, old = v.frozen(D.own), L.start(D.own)
    v.sum_equal_all('placing a unit leaves earlier placements', (k + 1, g.nproc), lambda s, i: s, lambda s, i, t: term(v, g, own, i, t), lambda s, i, t: term(v, g, old, i, t))
    v.sum_step(g.nproc, k, lambda i, t: term(v, g, own, i, t))
_SP = {'distribute_work#0': dict(inv=_inv, hint=_hint)}
def _dist(v, weights=True, caps=None):
    g = G(); CUR[0] = (v, g)
    n, nproc = v.size('n', lo=0), v.size('nproc', lo=1); g.nproc = nproc
    g.any_ = S(z3.Int('unbounded'))
    ids = v.array('ids', (n,), 'i'); W = v.function('weight', ['i']) if weights else lambda x: v.ite(True, 1, 1)
    POS = v.function('unit', ['i'], 'i'); idf = v.frozen(ids)
    g.W = W
    v.require(v.all(n, lambda i: POS(idf(i)) == i))             # units are different
    g.wmax = v.real('wmax', nonneg=True)
    v.require(v.all(n, lambda i: v.and_(W(idf(i)) >= 0, W(idf(i)) <= g.wmax)))
    if caps == 'given':
        C = v.array('cap', (nproc,)); g.cap = v.frozen(C); v.require(v.all(nproc, lambda i: g.cap(i) > 0)); capl = SymList(zi(nproc), lambda k: S(C.at((k,))))
    else: g.cap, capl = (lambda i: S(z3.RealVal(1))), None
    g.equal = caps is None
    g.pos = lambda x: S(g.sids.perm.meta.pos(zi(POS(x))))
    d = v.call(v.mod('utils').distribute_work, nproc, SymList(zi(n), lambda k: S(ids.at((k,)))), Keyed(W) if weights else None, capl)
    cnt, items, own, slot = [v.frozen(a) for a in (d.cnt, d.items, d.own, d.slot)]
    v.ensure('one list per process', v.and_(isinstance(d, Ragged), S(zi(d.n)) == nproc))
    u = v.arb('u', n); x = idf(u)
    su = S(g.sids.perm.meta.pos(zi(u))); v.lemma('every unit has its turn', v.and_(su >= 0, su < n, g.sid(su) == x, g.sid(S(z3.simplify(zi(su)))) == x))
    v.ensure('every unit is in a list', v.and_(own(x) >= 0, own(x) < nproc, slot(x) >= 0, slot(x) < cnt(own(x)), items(own(x), slot(x)) == x))
    i, p, q = v.arb('i', nproc), v.arb('p', g.any_), v.arb('q', g.any_)
    v.ensure('only units are in lists, each at one place', v.implies(p < cnt(i), v.and_(POS(items(i, p)) >= 0, POS(items(i, p)) < n, idf(POS(items(i, p))) == items(i, p), own(items(i, p)) == i, slot(items(i, p)) == p)))
    v.ensure('lists are ordered by decreasing weight', v.implies(v.and_(p < q, q < cnt(i)), W(items(i, p)) >= W(items(i, q))))
    s = v.arb('s', n); y = g.sid(s)
    v.ensure('units are placed in order of decreasing weight', v.all(n, lambda t: v.implies(t > s, W(g.sid(t)) <= W(y))))
    v.ensure('each unit is placed where the normalised load becomes smallest', (lsum(v, g, own, s, own(y)) + W(y)) / g.cap(own(y)) <= (lsum(v, g, own, s, i) + W(y)) / g.cap(i))
    if g.equal:
        j = v.arb('j', nproc)
        v.ensure('equal capacities: loads differ by at most the largest weight', lsum(v, g, own, n, i) - lsum(v, g, own, n, j) <= g.wmax)
_F = ['redrock.utils.distribute_work']
@proof('C09', _F, specs=_SP)
def distribute(v): _dist(v)
@proof('C09', _F, specs=_SP)
def distribute_capacities(v): _dist(v, caps='given')
@proof('C09', _F, specs=_SP)
def distribute_unweighted(v): _dist(v, weights=False)

# ---------------------------------------------------------------- targets
def _dt_lists(L):
    v, g = CUR[0]; return {'ids': (L.k, lambda j: g.id(j))}
def _dt_dicts(L):
    v, g = CUR[0]; return {'tweights': (L.k, lambda j: g.id(j), lambda j: g.nspec(j))}
@proof('C09', ['redrock.targets.distribute_targets'], specs={'distribute_targets#0': dict(lists=_dt_lists, dicts=_dt_dicts)})
def targets(v):
    g = G(); CUR[0] = (v, g)
    n, nproc = v.size('n', lo=0), v.size('nproc', lo=1)
    g.id, g.nspec = v.function('id', ['i'], 'i'), v.function('nspec', ['i'], 'i')
    v.require(v.all(n, lambda j: g.nspec(j) >= 1))
    el = lambda k: Rec(_token_=S(zi(k)) if z3.is_expr(zi(k)) else k, id=g.id(k), spectra=SymList(zi(g.nspec(k)), lambda q: None))
    calls = []
    def work(np_, ids, weights=None, capacities=None):
        calls.append(1); RES = object()
        with program_off():
            v.ensure('as many lists as processes', np_ == nproc); v.ensure('equal capacities', capacities is None)
            j = v.arb('j', n)
            v.ensure('one unit per target', S(zi(v_count(ids))) == n); v.ensure('units are the target ids', v.el(ids, j) == g.id(j))
            v.ensure('one weight per target', S(zi(weights.n)) == n)
            v.ensure('weights belong to the ids', weights.key(j) == g.id(j)); v.ensure('the weight is the number of spectra', weights.val(j) == g.nspec(j))
        g.res = RES; return RES
    v.contract('targets', 'distribute_work', work, keep=True)
    r = v.call(v.mod('targets').distribute_targets, SymList(zi(n), el), nproc)
    v.ensure('the distribution of these units is returned', r is g.res and len(calls) == 1)
from vc.loader import _count as v_count
from vc.core import spec_mode as program_off
