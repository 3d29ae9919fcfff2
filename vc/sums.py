"""Finite sums over symbolic ranges, in a normal form: a linear combination of atomic
sums  SUM_key(n, args...)  where key is the summand with its bound index canonicalised
and every index-free subterm abstracted into an argument.  Linearity of the sum (the
only algebraic fact used) is built into the normal form; everything else is lemma."""
import z3
from fractions import Fraction
from .core import *
from .arr import *
from .arr import _b

_cache_has = {}
def mentions(t, v):
    key = (t.get_id(), v.get_id())
    seen = set(); st = [t]
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if e.eq(v): return True
        if z3.is_quantifier(e): st.append(e.body())
        else: st.extend(e.children())
    return False

def frac(t):
    if z3.is_int_value(t): return Fraction(t.as_long())
    if z3.is_rational_value(t): return t.as_fraction()
    return None

def expand(t):
    "polynomial over atoms: {tuple(sorted atoms by sexpr)): Fraction}; atoms are terms"
    f = frac(t)
    if f is not None: return {(): f} if f else {}
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in t.children(): _padd(r, expand(c), 1)
        return r
    if k == z3.Z3_OP_SUB:
        r = dict(expand(t.arg(0)))
        for c in t.children()[1:]: _padd(r, expand(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return {m: -c for m, c in expand(t.arg(0)).items()}
    if k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in t.children(): r = _pmul(r, expand(c))
        return r
    if k == z3.Z3_OP_DIV:
        f = frac(z3.simplify(t.arg(1)))
        if f: return {m: c / f for m, c in expand(t.arg(0)).items()}
        inv = Atom(z3.RealVal(1) / t.arg(1))
        return _pmul(expand(t.arg(0)), {(inv,): Fraction(1)}) if frac(t.arg(0)) != 1 else {(Atom(t),): Fraction(1)}
    if k == z3.Z3_OP_POWER:
        e = frac(t.arg(1))
        if e is not None and e.denominator == 1 and 0 <= e <= 4:
            r = {(): Fraction(1)}
            for _ in range(int(e)): r = _pmul(r, expand(t.arg(0)))
            return r
    if k == z3.Z3_OP_TO_REAL:
        c = t.arg(0)
        if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            mk = {z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product}
            if c.decl().kind() == z3.Z3_OP_UMINUS: return expand(-z3.ToReal(c.arg(0)))
            if c.decl().kind() == z3.Z3_OP_ADD:
                r = {}
                for x in c.children(): _padd(r, expand(z3.ToReal(x)), 1)
                return r
            if c.decl().kind() == z3.Z3_OP_SUB:
                r = dict(expand(z3.ToReal(c.arg(0))))
                for x in c.children()[1:]: _padd(r, expand(z3.ToReal(x)), -1)
                return r
        if z3.is_int_value(c): return {(): Fraction(c.as_long())}
    return {(Atom(t),): Fraction(1)}

class Atom:
    __slots__ = ('t', 'key')
    def __init__(s, t): s.t = t; s.key = t.sexpr()
    def __eq__(s, o): return s.key == o.key
    def __hash__(s): return hash(s.key)
    def __lt__(s, o): return s.key < o.key

def _padd(r, p, s):
    for m, c in p.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        elif m in r: del r[m]
def _pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            elif m in r: del r[m]
    if len(r) > 400: raise Unsupported('polynomial too large')
    return r

_SUMF = {}
def _abstract(t, v, args, cv):
    "replace maximal v-free non-numeral subterms by placeholders"
    if t.eq(v): return cv
    if frac(t) is not None or not (z3.is_app(t)): 
        return t
    if not mentions(t, v):
        if t.num_args() == 0 and t.decl().kind() in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return t
        for k, (a, p) in enumerate(args):
            if a.eq(t): return p
        p = z3.Const('#%d' % len(args), t.sort())
        args.append((t, p)); return p
    cs = t.children()
    if t.decl().kind() == z3.Z3_OP_EQ and not mentions(cs[0], v): cs = cs[::-1]     # a == b as b == a
    ch = [_abstract(c, v, args, cv) for c in cs]
    return t.decl()(*ch)

import re
def atomic(n, v, atoms, lo, kind):
    "SUM over v in [lo, n) of product of atoms (each mentioning v)"
    cv = z3.Const('#v', I)
    def anon(a):
        args = []
        return re.sub(r'\|?#\d+\|?', '#', _abstract(a.t, v, args, cv).sexpr())
    order = sorted(atoms, key=lambda a: (anon(a), a.key))
    args = []
    parts = [_abstract(a.t, v, args, cv) for a in order]
    key = (kind, ' * '.join(re.sub(r'\s+', ' ', p.sexpr()) for p in parts), tuple(str(a.sort()) for a, _ in args))
    f = _SUMF.get(key)
    if f is None:
        rs = R if kind == 'r' else I
        f = z3.Function('SUM%d' % len(_SUMF), I, *[a.sort() for a, _ in args], rs)
        _SUMF[key] = f
        SUMDEF[f.name()] = (cv, parts, [p for _, p in args], kind)
    nt = z3.IntVal(n) if isinstance(n, int) else n
    return f(nt, *[a for a, _ in args])
SUMDEF = {}

def SumOf(n, fn, kind='r'):
    "sum over i in [0,n) of fn(i), normal form"
    if isinstance(n, int) and n <= 24:
        if n == 0: return z3.RealVal(0) if kind == 'r' else z3.IntVal(0)
        ts = [fn(i) for i in range(n)]
        return z3.Sum(ts) if n > 1 else ts[0]
    c = ctx()
    v = c.fresh('sv', I)
    with c.binding((v,)):
        t = z3.simplify(fn(v), flat=False) if False else fn(v)
    t = z3.simplify(t, arith_lhs=False, som=False, blast_distinct=False)
    p = expand(t)
    out = []
    for m, co in p.items():
        inside = [a for a in m if mentions(a.t, v)]
        outside = [a.t for a in m if not mentions(a.t, v)]
        if not inside:
            nt = (z3.RealVal(n) if isinstance(n, int) else z3.ToReal(n)) if kind == 'r' else (z3.IntVal(n) if isinstance(n, int) else n)
            base = nt
        else:
            base = atomic(n, v, inside, 0, kind)
        cof = z3.RealVal(str(co)) if kind == 'r' else z3.IntVal(int(co))
        term = base
        for o in outside: term = o * term
        if co != 1: term = cof * term
        out.append(term)
    if not out: return z3.RealVal(0) if kind == 'r' else z3.IntVal(0)
    r = out[0] if len(out) == 1 else z3.Sum(out)
    if kind == 'i' and len(p) == 1:
        _count_facts(n, fn, r, v, t)
    return r

def _count_facts(n, fn, r, v, t):
    "a sum of 0/1 indicators lies in [0,n] and is 0 iff no indicator is set"
    c = ctx()
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE): return
    a, b = frac(t.arg(1)), frac(t.arg(2))
    if (a, b) not in ((1, 0), (0, 1)): return
    if c.mentions_bound(r): return
    g = c.ghost.setdefault('countfacts', set())
    if r.get_id() in g: return
    g.add(r.get_id()); c.ghost.setdefault('keep', []).append(r)
    nt = z3.IntVal(n) if isinstance(n, int) else n
    c.add(z3.And(r >= 0, z3.Implies(nt >= 0, r <= nt)))
    cond = t.arg(0) if a == 1 else z3.Not(t.arg(0))
    q = z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < nt), z3.Not(cond)))
    c.add((r == 0) == q)
    w = c.fresh('cw', I)
    c.add(z3.Implies(r > 0, z3.And(w >= 0, w < nt, z3.substitute(cond, (v, w)))))

def np_sum(a, axis=None, **kw):
    from .npf import _reduce_axis
    a = as_arr(a); f = a.frozen(); k = a.kind
    if k in ('w', 'x', 'o'): raise Unsupported('sum of %s array' % k)
    out, inn, join = _reduce_axis(a, axis)
    kk = 'r' if k == 'r' else 'i'
    def term(idx):
        t = f(idx)
        return num(t, k)
    def nest(o, i, rest):
        if not rest: return term(join(o, i))
        return SumOf(rest[0], lambda x: nest(o, i + (x,), rest[1:]), kk)
    def el(o): return nest(o, (), inn)
    if not out: return S(el(()), kk)
    return SArr.new(out, el, kk)

def dot(a, b):
    if hasattr(a, 'dot') and not isinstance(a, SArr): return a.dot(b)
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    ka, kb = a.kind, b.kind
    k = 'r' if 'r' in (ka, kb) else 'i'
    ax = -1; bx = 0 if b.ndim == 1 else b.ndim - 2
    n = a._shape[-1]
    if not dim_equal(n, b._shape[bx]): raise ValueError('shapes not aligned')
    fa, fb = a.frozen(), b.frozen()
    def cv(t, kk): return convert(num(t, kk), 'i' if kk == 'b' else kk, k)
    sh = a._shape[:-1] + b._shape[:bx] + b._shape[bx + 1:]
    na = a.ndim - 1
    def el(idx):
        ia, ib = idx[:na], idx[na:]
        return SumOf(n, lambda i: cv(fa(ia + (i,)), ka) * cv(fb(ib[:bx] + (i,) + ib[bx:]), kb), k)
    if not sh: return S(el(()), k)
    return SArr.new(sh, el, k)
def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim <= 2 and b.ndim <= 2: return dot(a, b)
    # batched
    n = a._shape[-1]
    fa, fb = a.frozen(), b.frozen(); ka, kb = a.kind, b.kind
    vec = b.ndim == 1
    if vec: raise Unsupported('batched matvec')
    if not dim_equal(n, b._shape[-2]): raise ValueError('matmul: shapes not aligned')
    bs = broadcast_shape([a._shape[:-2], b._shape[:-2]])
    sh = bs + (a._shape[-2], b._shape[-1])
    def el(idx):
        o, i, j = idx[:-2], idx[-2], idx[-1]
        ia = bidx(o, a._shape[:-2]) if a.ndim > 2 else ()
        ib = bidx(o, b._shape[:-2]) if b.ndim > 2 else ()
        return SumOf(n, lambda q: toreal(fa(ia + (i, q)), ka) * toreal(fb(ib + (q, j)), kb), 'r')
    return SArr.new(sh, el, 'r')

def sum_facts_nonneg(term, name='sum of non-negative terms'):
    """lemma: an atomic SUM application with pointwise non-negative summand is
    non-negative.  Emits the pointwise obligation, then assumes the conclusion."""
    c = ctx()
    d = SUMDEF[term.decl().name()]
    cv, parts, ps, kind = d
    v = c.fresh('sp', I)
    body = parts[0]
    for p in parts[1:]: body = body * p
    body = z3.substitute(body, (cv, v), *[(p, term.arg(k + 1)) for k, p in enumerate(ps)])
    c.check(name + ': summand non-negative', z3.Implies(z3.And(v >= 0, v < term.arg(0)), body >= 0), kind='lemma', assume=False)
    c.add(term >= 0)
