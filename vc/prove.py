"""Run the proofs of one property: explore the real code under contract, discharge the
obligations, and on failure search a concrete counterexample in the unrolled (bounded)
reading of the same functions.  Output: one JSON document on stdout."""
import sys, os, json, time, importlib, traceback, multiprocessing as mp, resource
import z3
from .core import *
from . import core
from .arr import *
from .arr import _b
from .core import spec_mode
from . import npf, loader, solve
from .npf import qall, qany, EXT

class Proof:
    def __init__(self, prop, name, fn, functions, specs, replay, sizes, opts):
        self.prop, self.name, self.fn, self.functions, self.specs = prop, name, fn, functions, specs
        self.replay, self.sizes, self.opts = replay, sizes, opts
REG = {}
def proof(prop, functions, specs=None, replay=None, sizes=None, **opts):
    def d(fn):
        REG.setdefault(prop, []).append(Proof(prop, fn.__name__, fn, functions, specs or {}, replay, sizes or {}, opts))
        return fn
    return d

class program:
    "statements of the code under verification: divisions are obligations"
    def __enter__(s): c = ctx(); s.o = c.check_div; c.check_div = c.check_div_program
    def __exit__(s, *a): ctx().check_div = s.o; return False
class V:
    "what a contract sees: symbolic inputs, the loaded program, and its obligations"
    symbolic = True
    def __init__(self, pr, mode, sizes=None):
        self.pr, self.mode, self.sizes = pr, mode, sizes or {}
        self.P = None
    @property
    def bounded(self): return self.mode == 'bounded'
    @property
    def c(self): return ctx()
    def mod(self, name):
        return self.P.module(name)
    # inputs
    def size(self, name, lo=0, hi=None):
        if name in self.sizes:
            n = self.sizes[name]; self.c.inputs[name] = n
            return n
        t = z3.Int(name); self.c.add(t >= lo)
        if hi is not None: self.c.add(t <= hi)
        self.c.inputs[name] = S(t)
        return S(t)
    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None: self.c.add(t >= lift(lo)[0])
        if hi is not None: self.c.add(t <= lift(hi)[0])
        self.c.inputs[name] = S(t); return S(t)
    def real(self, name, pos=False, nonneg=False):
        t = z3.Real(name)
        if pos: self.c.add(t > 0)
        if nonneg: self.c.add(t >= 0)
        self.c.inputs[name] = S(t); return S(t)
    def bool(self, name):
        t = z3.Bool(name); self.c.inputs[name] = S(t); return S(t)
    def word(self, name):
        t = z3.BitVec(name, 32); self.c.inputs[name] = S(t); return S(t)
    def array(self, name, shape, kind='r'):
        sh = tuple(zi(d) for d in shape)
        if self.bounded and all(isinstance(d, int) for d in sh):
            import itertools
            cells = {i: z3.Const('%s_%s' % (name, '_'.join(map(str, i))), SORT[kind]) for i in itertools.product(*[range(d) for d in sh])}
            def fn(idx):
                if all(isinstance(i, int) for i in idx):
                    return cells[tuple(idx)] if tuple(idx) in cells else z3.FreshConst(SORT[kind])
                return _cells(cells, sh, idx, kind)
            a = SArr.new(sh, fn, kind)
        else: a = symarr(name, sh, kind)
        f = a.frozen()
        self.c.inputs[name] = SArr.new(sh, f, kind)
        return a
    def sparse(self, name, n, m=None, **attrs):
        from .sparse import SymSparse
        return SymSparse(self.array(name, (n, n if m is None else m)), attrs=attrs)
    def sum(self, n, fn):
        "sum of fn(i) for i in range(n)"
        from .sums import SumOf
        return S(SumOf(zi(n), lambda q: toreal(*lift(fn(S(q, 'i') if z3.is_expr(q) else q))), 'r'), 'r')
    # specification vocabulary
    def all(self, shape, fn, patterns=None):
        return qall(tuple(zi(d) for d in (shape if isinstance(shape, (tuple, list)) else (shape,))), lambda i: fn(*[S(x, 'i') if z3.is_expr(x) else x for x in i]), patterns)
    def any(self, shape, fn):
        return qany(tuple(zi(d) for d in (shape if isinstance(shape, (tuple, list)) else (shape,))), lambda i: fn(*[S(x, 'i') if z3.is_expr(x) else x for x in i]))
    def el(self, a, *i):
        "specification-level element access (no bounds obligation)"
        if isinstance(a, SArr): return S(a.at(tuple(zi(j) for j in i)), a.kind)
        if getattr(a, '_symbolic_', False): return a.element(zi(i[0]))
        j = zi(i[0])
        return a[j]
    def frozen(self, a):
        f = a.frozen(); k = a.kind
        return lambda *i: S(f(tuple(zi(j) for j in i)), k)
    def position(self, a, val):
        "index at which val occurs in the index array a, if known by construction"
        if a.meta is None: return None
        p = a.meta.pos(zi(val))
        return None if p is None else (S(p, 'i') if z3.is_expr(p) else p)
    def has(self, name, a, val, cond=True, kind='post'):
        "val occurs in the index array a"
        m = a.shape[0]; p = self.position(a, val)
        if p is None: g = self.any(m, lambda q: self.el(a, q) == val)
        else: g = self.and_(p >= 0, p < m, self.el(a, p) == val)
        self.ensure(name, self.implies(cond, g), kind)
    def np(self): return npf
    def implies(self, a, b): return IMP(a, b)
    def and_(self, *a): return AND(*a)
    def or_(self, *a): return OR(*a)
    def not_(self, a): return NOT(a)
    def ite(self, c, a, b, kind='r'):
        "specification-level conditional term"
        return S(z3.If(_b(tb(c)), convert(*lift(a), kind), convert(*lift(b), kind)), kind)
    def iff(self, a, b):
        a, b = _b(tb(a)), _b(tb(b)); return a == b
    def arb(self, name, n):
        "an arbitrary index below n (skolem constant: proves a universally quantified goal)"
        t = self.c.fresh(name, I)
        self.c.add(_b(inrange(t, zi(n)))); return S(t)
    def opaque(self, name, body, kinds):
        "predicate with a hidden definition: fold / unfold at chosen arguments only"
        return Opaque(self, name, body, kinds)
    def assume(self, f): self.c.assume(f)
    def require(self, f): self.c.assume(f)
    def ensure(self, name, f, kind='post'):
        self.c.check(name, f, kind=kind, assume=False)
    def lemma(self, name, f):
        self.c.check(name, f, kind='lemma', assume=True)
    def algebra(self, name, hyps, goal):
        """lemma of real arithmetic: goal follows from hyps alone (array elements and other
        terms abstracted to variables); the hypotheses are obligations of the current point"""
        c = ctx()
        hy = [_b(tb(h)) for h in hyps]; g = _b(tb(goal))
        for k, h in enumerate(hy):
            c.check('%s (condition %d)' % (name, k + 1), h, kind='lemma', assume=True)
        mp = {}
        ah, ag = [abstract_atoms(h, mp) for h in hy], abstract_atoms(g, mp)
        pc = c.pc; c.pc = ah
        try: c.check(name, ag, kind='lemma', assume=False)
        finally: c.pc = pc
        c.add(g)
    def forall_lemma(self, name, shape, fn):
        "prove fn at arbitrary indices, then know it for all of them"
        sh = shape if isinstance(shape, (tuple, list)) else (shape,)
        if self.bounded: return self.lemma(name, self.all(sh, fn))
        c = ctx(); pc = c.pc; c.pc = list(pc)
        try:
            q = []
            for d in sh:
                t = c.fresh('arb', I); c.pc.append(_b(inrange(t, zi(d)))); q.append(S(t))
            c.check(name, fn(*q), kind='lemma', assume=False)
        finally: c.pc = pc
        c.assume(self.all(sh, fn))
    def fraction(self, name, x):
        """lemma 0 <= x <= 1 by the structure of the term: a product, quotient-free, of
        fractions is a fraction; exp(t) is one when t <= 0 (obligation)"""
        c = ctx()
        def rec(t):
            k = t.decl().kind() if z3.is_app(t) else None
            if k == z3.Z3_OP_ITE:
                for cond, u in ((t.arg(0), t.arg(1)), (z3.Not(t.arg(0)), t.arg(2))):
                    pc = c.pc; c.pc = list(pc) + [cond]
                    try: rec(u)
                    finally: c.pc = pc
                    c.add(z3.Implies(cond, z3.And(u >= 0, u <= 1)))
            elif k == z3.Z3_OP_MUL:
                for u in t.children():
                    rec(u)
            elif k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == ufun('exp').name():
                c.check(name, t.arg(0) <= 0, kind='lemma', assume=False)
            else: c.check(name, z3.And(t >= 0, t <= 1), kind='lemma', assume=False)
            c.add(z3.And(t >= 0, t <= 1))
        rec(lift(x)[0])
    def sums_in(self, x):
        "the atomic sums occurring in a term"
        out, st, seen = [], [lift(x)[0]], set()
        from .sums import SUMDEF
        while st:
            e = st.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.decl().name() in SUMDEF and e.num_args(): out.append(e); continue
                st.extend(e.children())
        return out
    def sum_lemma(self, name, x, rel, cond=True):
        """every atomic sum in x whose summands satisfy rel (one of '== 0', '>= 0', '<= 0')
        satisfies it too; the summands are an obligation at an arbitrary position"""
        if self.bounded: return
        from .sums import SUMDEF
        c = ctx(); R_ = {'== 0': lambda t: t == 0, '>= 0': lambda t: t >= 0, '<= 0': lambda t: t <= 0}[rel]
        for t in self.sums_in(x):
            cv, parts, ps, kind = SUMDEF[t.decl().name()]
            q = c.fresh('sp', I); body = parts[0]
            for p in parts[1:]: body = body * p
            body = z3.substitute(body, (cv, q), *[(p, t.arg(k + 1)) for k, p in enumerate(ps)])
            g = _b(tb(cond)); pc = c.pc; c.pc = list(pc) + [g, q >= 0, q < t.arg(0)]
            try: c.check(name, R_(body), kind='lemma', assume=False)
            finally: c.pc = pc
            c.add(z3.Implies(g, R_(t)))
    def _arb_sum(self, name, n, goal, cond):
        c = ctx(); q = c.fresh('sp', I); pc = c.pc; c.pc = list(pc) + [_b(tb(cond)), _b(inrange(q, zi(n)))]
        try: c.check(name, goal(S(q)), kind='lemma', assume=False)
        finally: c.pc = pc
    def sum_swap(self, n, m, fn):
        "finite sums commute (fact about sums)"
        if self.bounded: return
        ctx().add(_b(tb(self.sum(n, lambda i: self.sum(m, lambda j: fn(i, j))) == self.sum(m, lambda j: self.sum(n, lambda i: fn(i, j))))))
    def sum_equal(self, name, n, f, g, cond=True):
        "sums of equal terms are equal; the terms are an obligation at an arbitrary position"
        if self.bounded: return
        self._arb_sum(name, n, lambda q: f(q) == g(q), cond)
        ctx().add(_b(IMP(cond, self.sum(n, f) == self.sum(n, g))))
    def sum_equal_all(self, name, shape, n, f, g):
        "for all q in shape: the sums over t < n(q) of f(q, t) and g(q, t) are equal; the terms are an obligation"
        if self.bounded: return
        c = ctx(); sh = shape if isinstance(shape, (tuple, list)) else (shape,); pc = c.pc; c.pc = list(pc); q = []
        for d in sh:
            t = c.fresh('arb', I); c.pc.append(_b(inrange(t, zi(d)))); q.append(S(t))
        t = c.fresh('sp', I); c.pc.append(_b(inrange(t, zi(n(*q)))))
        try: c.check(name, f(*q, S(t)) == g(*q, S(t)), kind='lemma', assume=False)
        finally: c.pc = pc
        c.assume(self.all(sh, lambda *q: self.sum(n(*q), lambda t: f(*q, t)) == self.sum(n(*q), lambda t: g(*q, t))))
    def sum_step(self, shape, n, f):
        "definition of a finite sum: one more term (n >= 0)"
        if self.bounded: return
        c = ctx(); sh = shape if isinstance(shape, (tuple, list)) else (shape,)
        c.assume(self.all(sh, lambda *q: self.sum(n + 1, lambda t: f(*q, t)) == self.sum(n, lambda t: f(*q, t)) + f(*q, n)))
    def sum_empty(self, shape, f):
        "definition of a finite sum: no terms"
        if self.bounded: return
        c = ctx(); sh = shape if isinstance(shape, (tuple, list)) else (shape,)
        z = c.fresh('zero', I); c.add(z == 0)
        c.assume(self.all(sh, lambda *q: self.sum(S(z), lambda t: f(*q, t)) == 0))
    def sum_nonneg(self, name, n, f, cond=True):
        if self.bounded: return
        self._arb_sum(name, n, lambda q: f(q) >= 0, cond)
        ctx().add(_b(IMP(cond, self.sum(n, f) >= 0)))
    def sum_ge(self, name, n, f, r):
        "a sum of non-negative terms is at least its term number r"
        if self.bounded: return
        self._arb_sum(name, n, lambda q: f(q) >= 0, True)
        ctx().add(_b(IMP(inrange(zi(r), zi(n)), self.sum(n, f) >= f(r))))
    def write(self, view, fn):
        "effect of a callee: view[i] becomes fn(i)"
        from .arr import write_view
        write_view(view, SArr.new(view._shape, lambda i: lift(fn(*[S(x, 'i') if z3.is_expr(x) else x for x in i]))[0], view.kind))
    def function(self, name, kinds, kind='r'):
        "fresh uninterpreted function"
        f = ctx().fresh_fn(name, *[SORT[k] for k in kinds], SORT[kind])
        return lambda *a: S(f(*[convert(*lift(x), k) for x, k in zip(a, kinds)]), kind)
    def contract(self, module, name, fn, keep=False):
        """modular step: calls of module.name mean its contract (proved on its own);
        the bounded reading keeps the real body unless keep"""
        self.c.covers['contract of ' + module + '.' + name] = 1
        if self.bounded and not keep: return
        M = self.mod(module); parts = name.split('.')
        o = M
        for q in parts[:-1]: o = getattr(o, q)
        def stand_in(*a, **k):
            with spec_mode(): return fn(*a, **k)
        setattr(o, parts[-1], stand_in)
    def cover(self, name='return'):
        self.c.covers[name] = self.c.covers.get(name, 0) + 1
    def call(self, fn, *a, **k):
        """run the code; any exception is a failed obligation"""
        try:
            with program(): r = fn(*a, **k)
        except Exception as e:
            if self.pr.opts.get('debug') or os.environ.get('VC_DEBUG'): traceback.print_exc()
            _engine_error(e)
            self.c.check('no %s raised: %s' % (type(e).__name__, str(e)[:80]), False, kind='exception', assume=False)
            raise PathEnd('exception')
        self.cover('return')
        return r
    def call_exc(self, fn, *a, **k):
        "-> (result, exception)"
        try:
            with program(): r = fn(*a, **k)
        except Exception as e:
            _engine_error(e)
            self.cover('raise'); return None, e
        self.cover('return'); return r, None
    def raw(self, x): return lift(x)[0]

def abstract_atoms(t, mp):
    "replace uninterpreted applications and variables by fresh variables (a generalisation)"
    k = t.decl().kind() if z3.is_app(t) else None
    if z3.is_quantifier(t) or k == z3.Z3_OP_UNINTERPRETED:
        key = t.get_id()
        if key not in mp: mp[key] = (z3.FreshConst(t.sort(), 'a'), t)
        return mp[key][0]
    if t.num_args() == 0: return t
    if k == z3.Z3_OP_TO_REAL and z3.is_app_of(t.arg(0), z3.Z3_OP_ITE):
        q = t.arg(0); return z3.If(abstract_atoms(q.arg(0), mp), abstract_atoms(z3.ToReal(q.arg(1)), mp), abstract_atoms(z3.ToReal(q.arg(2)), mp))
    if k == z3.Z3_OP_TO_REAL and not z3.is_int_value(t.arg(0)):
        key = t.get_id()
        if key not in mp: mp[key] = (z3.FreshConst(t.sort(), 'a'), t)
        return mp[key][0]
    return t.decl()(*[abstract_atoms(c, mp) for c in t.children()])

class Opaque:
    def __init__(self, v, name, body, kinds):
        self.v, self.name, self.body = v, name, body
        self.f = z3.Function('OP_' + name, *[SORT[k] for k in kinds], B)
        self.kinds = kinds
    def _args(self, a): return [convert(*lift(x), k) for x, k in zip(a, self.kinds)]
    def __call__(self, *a):
        if self.v.bounded: return self.body(*a)
        return S(self.f(*self._args(a)), 'b')
    def fold(self, label, *a):
        "prove the definition at these arguments, then know the predicate"
        if self.v.bounded: return
        c = ctx(); c.check(label, self.body(*a), kind='lemma', assume=False)
        c.add(self.f(*self._args(a)))
    def unfold(self, *a):
        if self.v.bounded: return
        ctx().add(_b(IMP(S(self.f(*self._args(a)), 'b'), self.body(*a))))

def _engine_error(e):
    "an exception that a symbolic value can cause where a real one would not: undecided"
    if getattr(e, '_contract_', False): return                      # part of the contract of a called function
    if isinstance(e, (NotImplementedError, AssertionError, OSError)):
        tb = traceback.extract_tb(e.__traceback__)
        if tb and tb[-1].filename.startswith(loader.PKG): return    # raised by the program itself
    if isinstance(e, (NameError, AttributeError, TypeError, NotImplementedError, ImportError, OSError, RecursionError, AssertionError, z3.Z3Exception)):
        raise Unsupported('%s: %s' % (type(e).__name__, str(e)[:160]))

def _cells(cells, sh, idx, kind, pre=()):
    k = len(pre)
    if k == len(sh): return cells[pre]
    i = idx[k]
    if sh[k] == 0: return z3.FreshConst(SORT[kind])
    if isinstance(i, int): return _cells(cells, sh, idx, kind, pre + (i if 0 <= i < sh[k] else sh[k] - 1,))   # outside: as for symbolic indices below
    t = _cells(cells, sh, idx, kind, pre + (sh[k] - 1,))
    for j in range(sh[k] - 2, -1, -1): t = z3.If(i == j, _cells(cells, sh, idx, kind, pre + (j,)), t)
    return t

def model_value(m, t, kind):
    v = m.eval(t, model_completion=True)
    if kind == 'i': return v.as_long()
    if kind == 'b': return z3.is_true(v)
    if kind == 'w': return v.as_long()
    if z3.is_rational_value(v): return float(v.as_fraction())
    if z3.is_algebraic_value(v): return float(v.approx(20).as_fraction())
    return 0.0

def inputs_of(m, inputs):
    import itertools
    out = {}
    for n, x in inputs.items():
        if isinstance(x, S): out[n] = model_value(m, x.t, x.k)
        elif isinstance(x, SArr):
            if not all(isinstance(d, int) for d in x._shape): continue
            a = np_empty(x._shape)
            def build(pre):
                if len(pre) == len(x._shape): 
                    t = x.at(pre)
                    return model_value(m, t, x.kind)
                return [build(pre + (i,)) for i in range(x._shape[len(pre)])]
            out[n] = build(())
        else: out[n] = x
    return out
def np_empty(s): return None

def explore(pr, mode, sizes, deadline):
    c = Ctx(pr.name, mode=mode, max_paths=pr.opts.get('max_paths', 3000), feas_ms=pr.opts.get('feas_ms', 300))
    c.check_div = False; c.check_div_program = pr.opts.get('check_div', True)
    c.deadline = deadline
    v = V(pr, mode, sizes)
    P = loader.Program(pr.specs, unroll=(mode == 'bounded'))
    v.P = P
    def run():
        try: pr.fn(v)
        except Exception:
            # a specification clause that already failed may leave later clauses without a meaning
            if any(z3.is_false(o.goal) or z3.is_false(simp(o.goal)) for o in c.obligations): raise PathEnd('after a failed clause')
            raise
        v.cover('end')
        c.final_inputs = dict(c.inputs)
    # remember inputs for each obligation
    orig = c.check
    def check(name, goal, kind='post', assume=True):
        n0 = len(c.obligations)
        orig(name, goal, kind, assume)
        for o in c.obligations[n0:]: o.hints = dict(c.inputs)
    c.check = check
    c.explore(run)
    return c, P

def run_proof(pr, tier, q):
    t0 = time.time()
    sys.stdout = open(os.devnull, 'w')          # the code under verification prints its progress
    res = dict(proof=pr.name, functions=pr.functions, obligations=[], status='', unsupported='', paths=0, loops=[], covers={}, counterexamples=[])
    lim = pr.opts.get('limit', 200 if tier == 'quick' else 900); scale = float(os.environ.get('VC_SCALE', '1'))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    try:
        if pr.opts.get('unbounded', True):
            c, P = explore(pr, 'proof', {}, t0 + lim * 0.5)
            res['paths'] = c.npaths; res['loops'] = sorted(c.loops_cut); res['reshaped'] = sorted(P.reshaped & set(pr.specs)); res['covers'] = dict(c.covers)
            res['sources'] = sorted(set(P.sources.values())); res['loose'] = sorted(c.loose)
            merged = {}
            for o in c.obligations:
                merged.setdefault((o.name, o.kind), []).append(o)
            for (n, k), os_ in merged.items():
                st, be, tt, why = 'valid', set(), 0.0, ''
                for o in os_:
                    left = t0 + lim - time.time()
                    if left < 1: st, why = 'unknown', 'time limit of the proof'; break
                    r, b, t, m, w = solve.solve_one(o.pc, o.goal, z3_ms=int(min(pr.opts.get('z3_ms', 8000) * scale, left * 500)),
                                                    cvc5_s=min(int(pr.opts.get('cvc5_s', 15) * scale), int(left / 2)))
                    tt += t; be.add(b)
                    if r != 'valid':
                        st, why = r, w
                        break
                res['obligations'].append(dict(name=n, kind=k, status=st, backend='+'.join(sorted(be)), seconds=round(tt, 3), instances=len(os_), why=why))
    except Unsupported as e:
        res['unsupported'] = 'unsupported: %s' % e
        if os.environ.get('VC_DEBUG'): traceback.print_exc()
    except z3.Z3Exception as e:
        res['unsupported'] = 'solver error: %s' % str(e)[:200]
        if os.environ.get('VC_DEBUG'): traceback.print_exc()
    except PathEnd as e:
        res['unsupported'] = 'path: %s' % e
    except MemoryError:
        res['unsupported'] = 'memory'
    except Exception as e:
        res['unsupported'] = 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
        if os.environ.get('VC_DEBUG'): traceback.print_exc()
    bad = [o for o in res['obligations'] if o['status'] != 'valid']
    # bounded reading: only as counterexample search / vacuity cover
    need_b = bool(bad) or res['unsupported'] or not pr.opts.get('unbounded', True) or tier == 'thorough'
    res['bounded'] = dict(sizes=[], obligations=0, discharged=0, open=0)
    if pr.sizes and need_b:
        t1 = time.time(); blim = pr.opts.get('blimit', 60 if tier == 'quick' else 300)
        for sizes in pr.sizes:
            if time.time() - t1 > blim or res['counterexamples']: break
            try:
                c, P = explore(pr, 'bounded', sizes, t1 + blim)
                nd = no = 0
                for o in c.obligations:
                    if time.time() - t1 > blim: break
                    r, b, t, m, w = solve.solve_one(o.pc, o.goal, z3_ms=4000, cvc5_s=0)
                    if r == 'valid': nd += 1
                    elif r == 'refuted' and m is not None:
                        no += 1
                        res['counterexamples'].append(dict(abstract='(abstract' in w, obligation=o.name, kind=o.kind, sizes=sizes, inputs=inputs_of(m, o.hints), replay=pr.replay))
                        if len(res['counterexamples']) > 5: break
                    else: no += 1
                res['loose'] = sorted(set(res.get('loose', [])) | c.loose)
                res['bounded']['sizes'].append(sizes)
                res['bounded']['obligations'] += len(c.obligations); res['bounded']['discharged'] += nd; res['bounded']['open'] += no
            except BaseException as e:
                res['bounded'].setdefault('errors', []).append('%s: %s' % (type(e).__name__, str(e)[:200]))
                if os.environ.get('VC_DEBUG'): traceback.print_exc()
                if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
    n = len(res['obligations'])
    if res['unsupported']: res['status'] = 'undecided'
    elif n == 0: res['status'] = 'undecided'; res['unsupported'] = 'no obligations were generated'
    elif not res['covers'].get('end'): res['status'] = 'undecided'; res['unsupported'] = 'no path reaches the postcondition (vacuous)'
    elif not bad: res['status'] = 'proved'
    elif any(o['status'] == 'refuted' for o in bad): res['status'] = 'refuted'
    else: res['status'] = 'undecided'
    res['seconds'] = round(time.time() - t0, 2)
    q.put(res)

def main(prop, tier, only=None):
    importlib.import_module('proofs.' + prop.lower())
    prs = [p for p in REG.get(prop, []) if (not only or p.name in only) and p.opts.get('tier') in (None, tier)]
    q = mp.Queue(); running, out, todo = {}, [], list(prs)
    hard = 400 if tier == 'quick' else 1800
    import queue as Q
    while todo or running:
        while todo and len(running) < int(os.environ.get('VC_JOBS', '7')):
            pr = todo.pop(0)
            p = mp.Process(target=run_proof, args=(pr, tier, q)); p.start(); running[pr.name] = (p, time.time(), pr)
        try:
            r = q.get(timeout=0.3); out.append(r)
            p, _, _ = running.pop(r['proof']); p.join()
        except Q.Empty: pass
        for n, (p, t, pr) in list(running.items()):
            if time.time() - t > pr.opts.get('hard', hard) or (not p.is_alive() and q.empty()):
                time.sleep(0.2)
                try:
                    r = q.get(timeout=0.2); out.append(r); running.pop(r['proof'])[0].join(); continue
                except Q.Empty: pass
                if p.is_alive(): p.kill()
                p.join(); running.pop(n)
                out.append(dict(proof=n, functions=pr.functions, obligations=[], status='undecided', unsupported='process ended or hard time limit', counterexamples=[], seconds=round(time.time() - t, 1), bounded={}, loops=[], paths=0))
    order = {p.name: k for k, p in enumerate(prs)}
    out.sort(key=lambda r: order[r['proof']])
    return out

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    prop, tier = sys.argv[1], sys.argv[2]
    sys.modules['vc.prove'] = sys.modules['__main__']
    r = main(prop, tier, sys.argv[3:])
    if os.environ.get('VC_SHOW'):
        for x in r:
            print(x['proof'], x['status'], x['unsupported'], x['seconds'], 's', x['paths'], 'paths', x.get('covers'))
            for o in x['obligations']:
                if o['status'] != 'valid' or os.environ['VC_SHOW'] == '2': print('   ', o['status'], o['kind'], o['name'], o['instances'], o['seconds'], o['backend'], o['why'])
            if x['bounded']: print('    bounded', x['bounded'])
            for ce in x['counterexamples'][:2]: print('    CE', ce)
    else: json.dump(r, sys.stdout)
