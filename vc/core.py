"""Core of the deductive verifier: symbolic values, paths, obligations.

The verifier executes the *real* source of /repo (parsed on every run, loops cut at
invariants, see loader.py) on symbolic values.  Every statement therefore has the
meaning Python gives it, with arithmetic on mathematical reals/integers.  A path is a
list of decisions; all feasible paths are explored by re-execution.  Obligations
(postconditions, invariants, callee preconditions, index safety) are collected with the
path condition under which they must hold and discharged by solve.py.
"""
import z3, time, sys, os
TRACE = os.environ.get('VC_TRACE'); T0 = time.time()

class PathEnd(BaseException):
    "the current path is finished (loop body verified, or assumption false)"
class Unsupported(BaseException):
    "the verifier cannot give meaning to a construct: the function is undecided"
class Restart(BaseException):
    "a loop frame grew: restart the exploration"

_CUR = [None]
def ctx():
    c = _CUR[0]
    if c is None: raise Unsupported('no active verification context')
    return c

I, R, B, W = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.BitVecSort(32)
SORT = {'i': I, 'r': R, 'b': B, 'w': W, 's': I}
STRS = []
def scode(s):
    "strings are interned: kind 's', an integer code"
    s = str(s)
    if s not in STRS: STRS.append(s)
    return STRS.index(s)

def simp(t):
    return z3.simplify(t)

class Obligation:
    __slots__ = ('name','kind','pc','goal','path','hints','expect_fail')
    def __init__(s, name, kind, pc, goal, path):
        s.name, s.kind, s.pc, s.goal, s.path = name, kind, pc, goal, path

import os as _os
FORKS = _os.environ.get('VC_FORKS')
def _show_fork(t):
    import traceback, sys
    fr = [f for f in traceback.extract_stack() if '/redrock/' in f.filename or '/proofs/' in f.filename]
    print('FORK', fr[-1].filename.split('/')[-1] if fr else '', fr[-1].lineno if fr else '', str(t).replace('\n', ' ')[:140], file=sys.stderr)
class Ctx:
    def __init__(self, name, mode='proof', feas_ms=400, max_paths=4000):
        self.name, self.mode = name, mode
        self.obligations = []
        self.feas_ms = feas_ms
        self.max_paths = max_paths
        self.loop_writes = {}       # loop site -> set of buffer ids written in its body
        self.npaths = 0
        self.assumed = set()        # names of assumed contracts used
        self.trusted_calls = {}
        self.decision_points = 0
        self.notes = []
        self.covers = {}            # reachability markers
        self.loops_cut = set()
        self.loose = set()
        self.deadline = None
    # ---- one path
    def begin(self, prefix):
        self.prefix = list(prefix); self.pos = 0; self.taken = []
        self.pc = []; self.counter = 0; self.nbuf = 0
        self.solver = z3.Solver(); self.solver.set('timeout', self.feas_ms)
        self.light = z3.Solver(); self.light.set('timeout', 50)
        self.alts = []
        self.loopstack = []
        self.inputs = {}
        self.ghost = {}; self.noforks = 0
        self.bound = {}
        self._ax = set()
    def fresh(self, name, sort):
        self.counter += 1
        return z3.Const('%s!%d' % (name, self.counter), sort)
    def fresh_fn(self, name, *sorts):
        self.counter += 1
        return z3.Function('%s!%d' % (name, self.counter), *sorts)
    def add(self, t):
        if isinstance(t, bool):
            if not t: raise PathEnd('false assumption')
            return
        if z3.is_true(t): return
        if z3.is_and(t):
            for a in t.children(): self.add(a)
            return
        self.pc.append(t); self.solver.add(t)
        if int_only(t): self.light.add(t)
    def assume(self, x):
        self.add(tb(x))
    def scope(self, t):
        "assume t temporarily (element of a comprehension): no forking inside"
        return _Scope(self, t)
    def binding(self, vs):
        return _Binding(self, vs)
    def is_bound(self, t):
        return z3.is_expr(t) and self.mentions_bound(t)
    def mentions_bound(self, t):
        if not self.bound: return False
        seen, st = set(), [t]
        while st:
            e = st.pop(); i = e.get_id()
            if i in seen: continue
            seen.add(i)
            if i in self.bound: return True
            st.extend(e.children() if z3.is_app(e) else [e.body()] if z3.is_quantifier(e) else [])
        return False
    def facts_add(self, tag, t, mk):
        """axiom about a math function: mk(t) at a ground argument, universally
        quantified (once) when the argument mentions a bound variable"""
        if self.mentions_bound(t):
            if tag in self._ax: return
            self._ax.add(tag)
            x = z3.Const('ax!' + tag, R)
            self.add(z3.ForAll([x], z3.And(mk(x)), patterns=[ufun(tag)(x)]))
            return
        for f in mk(t): self.add(f)
    def feasible(self, t=None):
        if t is None: r = self.solver.check()
        else: r = self.solver.check(t)
        if r == z3.unknown and self.ghost.get('text'):
            # text: a second opinion (infeasible paths would only cost time)
            import subprocess, tempfile
            s = z3.Solver(); s.add(self.solver.assertions())
            if t is not None: s.add(t)
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write('(set-logic ALL)\n' + s.to_smt2())
            try: return not subprocess.run(['cvc5', '--tlimit=3000', '--strings-exp', f.name], capture_output=True, text=True, timeout=10).stdout.startswith('unsat')
            except Exception: return True
            finally: _os.unlink(f.name)
        return r != z3.unsat
    def entails(self, t, ms=None):
        if isinstance(t, bool): return t
        t2 = simp(t)
        if z3.is_true(t2): return True
        if z3.is_false(t2): return False
        if int_only(t2) and self.light.check(z3.Not(t2)) == z3.unsat: return True
        return self.solver.check(z3.Not(t)) == z3.unsat
    def decide(self, t):
        if isinstance(t, bool): return t
        t = simp(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit while exploring paths')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1
        else:
            if int_only(t):
                # cheap: integer facts alone often settle an index comparison
                if self.light.check(t) == z3.unsat: ft, ff = False, True
                elif self.light.check(z3.Not(t)) == z3.unsat: ft, ff = True, False
                else: ft = self.feasible(t); ff = self.feasible(z3.Not(t))
            else: ft = self.feasible(t); ff = self.feasible(z3.Not(t))
            if ft and ff and self.noforks: raise Unsupported('branching inside a comprehension element')
            if ft and ff:
                if FORKS: _show_fork(t)
                self.alts.append(list(self.taken) + [False]); d = True
            elif ft: d = True
            elif ff: d = False
            else: raise PathEnd('infeasible')
            self.pos += 1
        self.taken.append(d)
        self.add(t if d else z3.Not(t))
        return d
    def choose(self, n, label=''):
        "unconstrained choice among n branches"
        for k in range(n - 1):
            if self._choice(): return k
        return n - 1
    def _choice(self):
        if self.noforks: raise Unsupported('branching inside a comprehension element')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1
        else:
            if FORKS: _show_fork('choice')
            self.alts.append(list(self.taken) + [False]); d = True; self.pos += 1
        self.taken.append(d)
        return d
    def check(self, name, goal, kind='post', assume=True):
        g = tb(goal)
        if isinstance(g, bool): g = z3.BoolVal(g)
        new = self.pos >= len(self.prefix)
        if new:
            gs = simp(g)
            self.obligations.append(Obligation(name, kind, list(self.pc), g if not z3.is_true(gs) else z3.BoolVal(True), tuple(self.taken)))
        if assume:
            self.add(g)
            
    def explore(self, fn, on_path=None):
        """run fn() along every feasible path"""
        while True:
            try:
                self.obligations = []; self.npaths = 0; self.covers = {}
                work = [[]]
                while work:
                    pre = work.pop()
                    self.begin(pre)
                    self.npaths += 1
                    if self.npaths > self.max_paths: raise Unsupported('too many paths')
                    old = _CUR[0]; _CUR[0] = self
                    try:
                        try: fn()
                        except PathEnd: pass
                    finally:
                        _CUR[0] = old
                    work.extend(self.alts)
                    if TRACE: print('path', self.npaths, 'open', len(work), 'dec', len(self.taken), 'ob', len(self.obligations), '%.1f' % (time.time() - T0), file=sys.stderr)
                return
            except Restart:
                continue

_INT = {}
def int_only(t):
    "no quantifiers, reals or arrays of them"
    st, seen = [t], set()
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e) or not (z3.is_bool(e) or z3.is_int(e)): return False
        if len(seen) > 60: return False
        st.extend(e.children())
    return True

class _Scope:
    def __init__(self, c, t): self.c, self.t = c, t
    def __enter__(self):
        c = self.c
        self.pc = c.pc; c.pc = list(c.pc); c.solver.push(); c.light.push(); c.noforks += 1
        self.n = len(c.taken)
        c.add(self.t)
    def __exit__(self, *a):
        c = self.c
        c.pc = self.pc; c.solver.pop(); c.light.pop(); c.noforks -= 1
        return False

class spec_mode:
    "specification terms: no safety obligations"
    def __enter__(s): c = ctx(); s.o = getattr(c, 'check_div', True); c.check_div = False
    def __exit__(s, *a): ctx().check_div = s.o; return False

class _Binding:
    def __init__(self, c, vs): self.c, self.vs = c, vs
    def __enter__(self):
        for v in self.vs: self.c.bound[v.get_id()] = v
    def __exit__(self, *a):
        for v in self.vs: self.c.bound.pop(v.get_id(), None)
        return False

# ------------------------------------------------------------------ scalars
def is_sym(x):
    return isinstance(x, S)

_STRMETH = {'strip', 'upper', 'lower', 'split', 'startswith', 'endswith', 'lstrip', 'rstrip', 'replace', 'partition', 'rpartition', 'decode', 'encode', 'find', 'join', 'format'}
class S:
    "symbolic scalar: z3 term + kind i/r/b"
    __slots__ = ('t','k')
    __array_ufunc__ = None
    __array_priority__ = 1000
    def __init__(self, t, k=None):
        self.t = t
        if k is None:
            s = t.sort()
            k = 'i' if s == I else 'r' if s == R else 'b' if s == B else 'w' if s == W else 'x' if (EXT is not None and s == EXT) else 'o'
        self.k = k
    def __repr__(self): return 'S(%s)' % (str(self.t)[:60],)
    def text(self):
        "the string, when the path determines it"
        t = simp(self.t); v = t if z3.is_int_value(t) else only_value(t)
        if v is None: v = one_of(t)
        if v is None: raise Unsupported('method of an undetermined string')
        return STRS[v.as_long()]
    def __getattr__(self, n):
        if self.k == 's' and n in _STRMETH: return getattr(self.text(), n)
        raise AttributeError(n)
    def __format__(self, spec):
        t = simp(self.t)
        if self.k == 'i' and not z3.is_int_value(t) and getattr(ctx(), 'path_open', True):
            v = only_value(t)
            if v is None and ctx().ghost.get('format forks'): v = one_of(t)
            if v is not None: t = v
        if self.k == 'i' and z3.is_int_value(t): return format(t.as_long(), spec)
        return '<sym>'
    def __bool__(self):
        return ctx().decide(truth(self))
    def __hash__(self):
        v = only_value(simp(self.t)) if self.k == 'i' else None
        if v is None: raise Unsupported('symbolic value used as dictionary key')
        return hash(v.as_long())
    def __index__(self):
        t = simp(self.t)
        if z3.is_int_value(t): return t.as_long()
        # a small range: one path per value
        c = ctx()
        if self.k == 'i' and not c.noforks and not c.mentions_bound(t) and c.entails(z3.And(t >= 0, t <= 5)):
            for v in range(5):
                if c.decide(t == v): return v
            return 5
        raise Unsupported('symbolic value used as a concrete index')
    def __int__(self): return self.__index__()
    def __float__(self):
        t = simp(self.t)
        if z3.is_rational_value(t): return float(t.as_fraction())
        if z3.is_int_value(t): return float(t.as_long())
        raise Unsupported('symbolic value converted to a concrete float')
    # arithmetic
    def __add__(s, o): return arith('+', s, o)
    def __radd__(s, o): return arith('+', o, s)
    def __sub__(s, o): return arith('-', s, o)
    def __rsub__(s, o): return arith('-', o, s)
    def __mul__(s, o):
        if isinstance(o, list): return repeat_list(o, s)
        return arith('*', s, o)
    def __rmul__(s, o):
        if isinstance(o, list): return repeat_list(o, s)
        return arith('*', o, s)
    def __truediv__(s, o): return arith('/', s, o)
    def __rtruediv__(s, o): return arith('/', o, s)
    def __floordiv__(s, o): return arith('//', s, o)
    def __rfloordiv__(s, o): return arith('//', o, s)
    def __mod__(s, o): return arith('%', s, o)
    def __rmod__(s, o): return arith('%', o, s)
    def __pow__(s, o): return arith('**', s, o)
    def __rpow__(s, o): return arith('**', o, s)
    def __neg__(s): return S(-num(s.t, s.k), 'i' if s.k != 'r' else 'r')
    def __pos__(s): return s
    def __abs__(s):
        t = num(s.t, s.k); return S(z3.If(t >= 0, t, -t))
    def __invert__(s):
        if s.k == 'b': return S(z3.Not(s.t))
        if s.k == 'w': return S(~s.t)
        raise Unsupported('bitwise not on symbolic integer')
    def __and__(s, o): return bitop('&', s, o)
    def __rand__(s, o): return bitop('&', o, s)
    def __or__(s, o): return bitop('|', s, o)
    def __ror__(s, o): return bitop('|', o, s)
    def __xor__(s, o): return bitop('^', s, o)
    __rxor__ = __xor__
    def __lt__(s, o): return compare('<', s, o)
    def __le__(s, o): return compare('<=', s, o)
    def __gt__(s, o): return compare('>', s, o)
    def __ge__(s, o): return compare('>=', s, o)
    def __eq__(s, o): return compare('==', s, o)
    def __ne__(s, o): return compare('!=', s, o)
    # numpy-scalar look-alikes
    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    def item(self): return self
    def get(self): return self
    def astype(self, dt): return to_kind(self, kind_of_dtype(dt))

def only_value(t):
    "the value of an integer term, when the path determines it"
    c = ctx()
    if c.mentions_bound(t): return None
    s = z3.Solver(); s.set('timeout', 1000)
    for f in c.pc:
        if not z3.is_quantifier(f): s.add(f)
    if s.check() != z3.sat: return None
    v = s.model().eval(t, model_completion=True)
    return v if z3.is_int_value(v) and c.entails(t == v) else None
def one_of(t):
    "a value of a term that is one of a few constants: one path per value"
    c = ctx()
    if c.noforks or c.mentions_bound(t): return None
    st, out = [simp(t)], []
    while st:
        u = st.pop()
        if z3.is_int_value(u):
            if not any(x.eq(u) for x in out): out.append(u)
        elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE: st += [u.arg(1), u.arg(2)]
        else: return None
        if len(out) > 6: return None
    for x in out[:-1]:
        if c.decide(t == x): return x
    return out[-1] if c.decide(t == out[-1]) else None
def repeat_list(o, n):
    from .loader import SymList
    if len(o) != 1 or n.k != 'i': raise Unsupported('repeated list')
    return SymList(zi(n) if ctx().decide(n.t >= 0) else 0, lambda k: o[0])

def truth(x):
    if isinstance(x, S):
        if x.k == 'b': return x.t
        if x.k == 's': raise Unsupported('truth of a string')
        return x.t != (z3.BitVecVal(0, 32) if x.k == 'w' else 0)
    return bool(x)

def num(t, k):
    if k == 's': raise Unsupported('string used as a number')
    if k == 'b': return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t

EXT = None
def lift(x):
    "python / numpy scalar -> (z3 term, kind)"
    if isinstance(x, S): return x.t, x.k
    if isinstance(x, bool): return z3.BoolVal(x), 'b'
    if isinstance(x, int): return z3.IntVal(x), 'i'
    if isinstance(x, str): return z3.IntVal(scode(x)), 's'
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            if EXT is None: raise Unsupported('non-finite constant in real arithmetic')
            return (EXT.nan if x != x else EXT.pinf if x > 0 else EXT.ninf), 'x'
        x = float(x)
        return z3.RealVal(repr(x)) if 'e' not in repr(x) else z3.RealVal(_frac(x)), 'r'
    if z3.is_expr(x):
        return x, S(x).k
    tn = type(x).__module__
    if tn == 'numpy':
        return lift(x.item())
    raise Unsupported('cannot lift %r' % type(x))

def _frac(x):
    from fractions import Fraction
    from decimal import Decimal
    f = Fraction(Decimal(repr(x)))
    return '%d/%d' % (f.numerator, f.denominator)

def toreal(t, k):
    if k == 'r': return t
    if k in 'bs': t = num(t, k)
    if z3.is_int_value(t): return z3.RealVal(t.as_long())
    return z3.ToReal(t)

def to_kind(x, k):
    t, kk = lift(x)
    if kk == k: return S(t, k)
    if 's' in (k, kk): raise Unsupported('conversion of strings')
    if k == 'x': return S(xlift(t, kk), 'x')
    if kk == 'x': raise Unsupported('extended real used as finite')
    if k == 'r': return S(toreal(t, kk), 'r')
    if k == 'b': return S(t != 0, 'b')
    if k == 'i':
        if kk == 'b': return S(num(t, kk), 'i')
        # truncation towards zero
        return S(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), 'i')
    raise Unsupported('conversion')

def kind_of_dtype(dt):
    import numpy as np
    if dt is None: return None
    dt = {'b_bool': bool, 'b_int': int, 'b_float': float}.get(getattr(dt, '__name__', None), dt)
    if any(dt is t for t in (float, int, bool)): return {float: 'r', int: 'i', bool: 'b'}[dt]
    try:
        k = np.dtype(dt).kind
    except Exception:
        raise Unsupported('dtype %r' % (dt,))
    return {'f': 'r', 'i': 'i', 'u': 'i', 'b': 'b'}.get(k) or _unsup('dtype kind %s' % k)

def _unsup(msg): raise Unsupported(msg)

def tb(x):
    "to z3 boolean (or python bool)"
    if isinstance(x, S): return truth(x)
    if isinstance(x, (list, tuple)):
        ts = [tb(y) for y in x]
        if any(t is False for t in ts): return False
        ts = [t for t in ts if t is not True]
        return z3.And(ts) if ts else True
    if z3.is_expr(x): return x
    return bool(x)

def _pair(a, b):
    (ta, ka), (tb_, kb) = lift(a), lift(b)
    if ka == 'r' or kb == 'r':
        return toreal(ta, ka), toreal(tb_, kb), 'r'
    return num(ta, ka), num(tb_, kb), 'i'

def isconst(t): return z3.is_rational_value(t) or z3.is_int_value(t)

def _elementwise(op, a, b):
    return getattr(a, '__array_like__', False) or getattr(b, '__array_like__', False)

def safe_div(ta, tb_):
    """real division; obligation: denominator non-zero (unless the code only looks
    at it under a mask).  Represented as the z3 quotient, which is exact when b != 0."""
    return ta / tb_

UF = {}
def ufun(name, n=1):
    if (name, n) not in UF:
        UF[(name, n)] = z3.Function('m_' + name, *([R] * n), R)
    return UF[(name, n)]

def power(ta, te, ke):
    s = simp(te)
    if isconst(s):
        f = s.as_fraction() if z3.is_rational_value(s) else None
        e = s.as_long() if z3.is_int_value(s) else (int(f) if f.denominator == 1 else None)
        if e is not None and 0 <= e <= 6:
            if e == 0: return z3.RealVal(1) if ta.sort() == R else z3.IntVal(1)
            r = ta
            for _ in range(e - 1): r = r * ta
            return r
        if e is not None and -4 <= e < 0:
            ta = ta if ta.sort() == R else z3.ToReal(ta)
            r = ta
            for _ in range(-e - 1): r = r * ta
            return 1 / r
    ta = ta if ta.sort() == R else z3.ToReal(ta)
    te = te if te.sort() == R else z3.ToReal(te)
    p = ufun('pow', 2)(ta, te); c = ctx()
    if c.mentions_bound(p):
        if 'pow' not in c._ax:
            c._ax.add('pow'); x, e = z3.Reals('ax!powb ax!powe'); f = ufun('pow', 2)
            c.add(z3.ForAll([x, e], z3.Implies(x > 0, f(x, e) > 0), patterns=[f(x, e)]))
    else: c.add(z3.Implies(ta > 0, p > 0))      # a real power of a positive number is positive
    return p

def xlift(t, k):
    return t if k == 'x' else EXT.fin(toreal(t, k))

def arith_t(op, ta, ka, tb_, kb):
    if 'x' in (ka, kb):
        if op not in '+-*' or len(op) > 1: raise Unsupported('arithmetic on extended reals')
        a, b = xlift(ta, ka), xlift(tb_, kb)
        if op == '-': b = z3.If(EXT.is_fin(b), EXT.fin(-EXT.val(b)), z3.If(b == EXT.pinf, EXT.ninf, z3.If(b == EXT.ninf, EXT.pinf, EXT.nan)))
        if op == '*':
            z = lambda t: z3.And(EXT.is_fin(t), EXT.val(t) == 0)
            neg = lambda t: z3.Or(t == EXT.ninf, z3.And(EXT.is_fin(t), EXT.val(t) < 0))
            return z3.If(z3.And(EXT.is_fin(a), EXT.is_fin(b)), EXT.fin(EXT.val(a) * EXT.val(b)),
                   z3.If(z3.Or(a == EXT.nan, b == EXT.nan, z(a), z(b)), EXT.nan, z3.If(neg(a) == neg(b), EXT.pinf, EXT.ninf))), 'x'
        return z3.If(z3.And(EXT.is_fin(a), EXT.is_fin(b)), EXT.fin(EXT.val(a) + EXT.val(b)),
               z3.If(z3.Or(a == EXT.nan, b == EXT.nan, z3.And(a == EXT.pinf, b == EXT.ninf), z3.And(a == EXT.ninf, b == EXT.pinf)), EXT.nan,
               z3.If(EXT.is_fin(a), b, a))), 'x'
    if op == '/':
        return safe_div(toreal(ta, ka), toreal(tb_, kb)), 'r'
    if op == '**':
        return (lambda r: (r, 'r' if r.sort() == R else 'i'))(power(toreal(ta, ka) if ka != 'i' else ta, num(tb_, kb), kb))
    if ka == 'r' or kb == 'r':
        a, b, k = toreal(ta, ka), toreal(tb_, kb), 'r'
    else:
        a, b, k = num(ta, ka), num(tb_, kb), 'i'
    if op == '+': return a + b, k
    if op == '-': return a - b, k
    if op == '*': return a * b, k
    if op == '//':
        if k == 'i':
            q = a / b   # z3 int division: euclidean; equals floor for positive divisor
            return z3.If(b > 0, q, -((a) / (-b)) if False else z3.If(a % b == 0, q, q - 1)), k
        return z3.ToReal(z3.ToInt(a / b)), k
    if op == '%':
        if k == 'i':
            return z3.If(b > 0, a % b, z3.If(a % b == 0, a % b, (a % b) + b)), k
        raise Unsupported('real modulo')
    raise Unsupported(op)

def arith(op, a, b):
    if _elementwise(op, a, b): return NotImplemented
    try:
        ta, ka = lift(a); tb_, kb = lift(b)
    except Unsupported:
        if isinstance(a, S) and isinstance(b, (int, float, S)): raise
        if isinstance(b, S) and isinstance(a, (int, float)): raise
        return NotImplemented
    if op in ('/',):
        safety_nonzero(tb_, kb)
    t, k = arith_t(op, ta, ka, tb_, kb)
    return S(t, k)

def safety_nonzero(t, k):
    s = simp(num(t, k))
    if isconst(s):
        if not z3.is_true(simp(s != 0)):
            raise ZeroDivisionError('division by zero')
        return
    c = ctx()
    if getattr(c, 'check_div', True):
        c.check('division by zero cannot happen', num(t, k) != 0, kind='safety')

def compare_t(op, ta, ka, tb_, kb):
    if 's' in (ka, kb):
        if ka != kb or op not in ('==', '!='): raise Unsupported('comparison of strings')
        return ta == tb_ if op == '==' else ta != tb_
    if ka == 'b' and kb == 'b' and op in ('==', '!='):
        return ta == tb_ if op == '==' else ta != tb_
    if 'x' in (ka, kb):
        a, b = xlift(ta, ka), xlift(tb_, kb)
        nn = z3.And(a != EXT.nan, b != EXT.nan)
        lt = lambda a, b: z3.And(nn, z3.Or(z3.And(EXT.is_fin(a), EXT.is_fin(b), EXT.val(a) < EXT.val(b)),
                                 z3.And(a == EXT.ninf, b != EXT.ninf), z3.And(b == EXT.pinf, a != EXT.pinf)))
        eq = z3.And(nn, a == b)
        return {'==': lambda: eq, '!=': lambda: z3.Not(eq), '<': lambda: lt(a, b), '<=': lambda: z3.Or(lt(a, b), eq),
                '>': lambda: lt(b, a), '>=': lambda: z3.Or(lt(b, a), eq)}[op]()
    if ka == 'w' or kb == 'w':
        a, b = toword(ta, ka), toword(tb_, kb)
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
                '>': lambda: a > b, '>=': lambda: a >= b}[op]()
    if ka == 'o' or kb == 'o':
        if op == '==': return ta == tb_
        if op == '!=': return ta != tb_
    if ka == 'r' or kb == 'r': a, b = toreal(ta, ka), toreal(tb_, kb)
    else: a, b = num(ta, ka), num(tb_, kb)
    return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
            '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()

def _inf_compare(op, a, b):
    "comparison of a finite symbolic real with an infinite/nan constant"
    import math
    flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}
    for x, y, o in ((a, b, op), (b, a, flip[op])):
        if isinstance(x, S) and x.k == 'x': return None
        if isinstance(y, float) or type(y).__module__ == 'numpy':
            try: f = float(y)
            except Exception: continue
            if math.isnan(f): return o == '!='
            if math.isinf(f):
                if o in ('==',): return False
                if o in ('!=',): return True
                return (o in ('<', '<=')) == (f > 0)
    return None

def compare(op, a, b):
    if _elementwise(op, a, b): return NotImplemented
    ks = [x.k for x in (a, b) if isinstance(x, S)]
    if b is None or a is None or (isinstance(a, str) or isinstance(b, str)) and 's' not in ks:
        if op == '==': return False
        if op == '!=': return True
    r = _inf_compare(op, a, b)
    if r is not None: return r
    try:
        ta, ka = lift(a); tb_, kb = lift(b)
    except Unsupported:
        return NotImplemented
    return S(compare_t(op, ta, ka, tb_, kb), 'b')

def toword(t, k):
    if k == 'w': return t
    t = simp(num(t, k))
    if z3.is_int_value(t): return z3.BitVecVal(t.as_long(), 32)
    raise Unsupported('mixing words and symbolic integers')

def bitop_t(op, ta, ka, tb_, kb):
    if ka == 'w' or kb == 'w':
        a, b = toword(ta, ka), toword(tb_, kb)
        return {'&': a & b, '|': a | b, '^': a ^ b}[op], 'w'
    if ka == 'b' and kb == 'b':
        return ({'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](ta, tb_)), 'b'
    # integers: bit vectors are modelled by uninterpreted per-bit predicates (32 bits)
    raise Unsupported('bitwise operation on symbolic integers')

def bitop(op, a, b):
    if _elementwise(op, a, b): return NotImplemented
    ta, ka = lift(a); tb_, kb = lift(b)
    t, k = bitop_t(op, ta, ka, tb_, kb)
    return S(t, k)

def ite(c, a, b):
    "c: python bool or z3 bool; a, b z3 terms or thunks"
    if isinstance(c, bool): return (a() if callable(a) else a) if c else (b() if callable(b) else b)
    a = a() if callable(a) else a
    b = b() if callable(b) else b
    return z3.If(c, a, b)

def AND(*a):
    r = []
    for x in a:
        x = tb(x)
        if x is False: return False
        if x is True: continue
        r.append(x)
    return True if not r else (r[0] if len(r) == 1 else z3.And(r))
def OR(*a):
    r = []
    for x in a:
        x = tb(x)
        if x is True: return True
        if x is False: continue
        r.append(x)
    return False if not r else (r[0] if len(r) == 1 else z3.Or(r))
def NOT(a):
    a = tb(a)
    return (not a) if isinstance(a, bool) else z3.Not(a)
def IMP(a, b):
    a, b = tb(a), tb(b)
    if a is False or b is True: return True
    if a is True: return b
    if b is False: return z3.Not(a)
    return z3.Implies(a, b)

def zi(x):
    "index-like value -> python int or z3 Int term"
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if isinstance(x, S):
        t = x.t if x.k != 'b' else num(x.t, 'b')
        if x.k == 'r': raise Unsupported('real used as index')
        t = simp(t)
        return t.as_long() if z3.is_int_value(t) else t
    if z3.is_expr(x):
        t = simp(x)
        return t.as_long() if z3.is_int_value(t) else t
    if type(x).__module__ == 'numpy': return int(x)
    raise Unsupported('index %r' % (x,))

def dim(x):
    "dimension -> value handed to the program: python int or S"
    return x if isinstance(x, int) else S(x, 'i')
