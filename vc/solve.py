"""Discharge obligations: z3 first, cvc5 for what z3 leaves open; in parallel processes."""
import z3, time, os, random, subprocess, tempfile, multiprocessing as mp
from .core import Obligation

def _query(pc, goal):
    s = z3.Solver()
    for t in pc: s.add(t)
    s.add(z3.Not(goal))
    return s

def _relevant(pc, goal):
    "all hypotheses (no slicing)"
    return pc

def has_quant(ts):
    seen = set(); st = list(ts)
    while st:
        e = st.pop(); i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(e): return True
        st.extend(e.children())
    return False

ABSTRACT = ('SUM', 'm_', 'hash', 'interp', 'solve', 'SR_')
def abstract_symbols(ts):
    "uninterpreted stand-ins for interpreted functions: a model of them may be spurious"
    seen, out, st = set(), set(), list(ts)
    while st:
        e = st.pop(); i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(e): st.append(e.body()); continue
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
            n = e.decl().name()
            if n.startswith(ABSTRACT): out.add(n)
        st.extend(e.children())
    return out

def instances(pc, ts, depth=3):
    "ground instances of the defining axioms (define_content) for the applications in ts whose indices are in range"
    from .arr import DEFS
    out, done, lin = [], set(), None
    for _ in range(depth):
        new, st, seen = [], list(ts) + out, set()
        while st:
            e = st.pop()
            if e.get_id() in seen or not z3.is_app(e): continue
            seen.add(e.get_id()); st.extend(e.children())
            if e.num_args() and e.decl().name() in DEFS and e.get_id() not in done:
                done.add(e.get_id()); sym, rng, t = DEFS[e.decl().name()]
                sub = [(q, e.arg(k)) for k, q in enumerate(sym)]
                if lin is None:
                    lin = z3.Solver(); lin.set('timeout', 500)
                    for h in pc:
                        if not has_quant([h]) and not _nonlinear(h): lin.add(h)
                lin.push(); lin.add(z3.Not(z3.substitute(rng, *sub))); ok = lin.check() == z3.unsat; lin.pop()
                if ok: new.append(z3.simplify(e == z3.substitute(t, *sub)))
        if not new: break
        out += new
    return out
def _nonlinear(t):
    st, seen = [t], set()
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_MUL and sum(not _num(c) for c in e.children()) > 1 or k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not _num(e.arg(1)): return True
        st.extend(e.children())
    return False
def nra(pc, goal, ms):
    """quantifier-free hypotheses about the terms of the goal, every other term abstracted
    to a variable: a weaker set of hypotheses, decided as real arithmetic"""
    from .prove import abstract_atoms
    hyps = [t for t in pc if not has_quant([t])]
    if has_quant([goal]): return False
    hyps += instances(pc, [goal])
    mp = {}
    g = abstract_atoms(goal, mp); 
    hs = [abstract_atoms(h, mp) for h in hyps]
    def names(t):
        out, st, seen = set(), [t], set()
        while st:
            e = st.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if e.num_args() == 0 and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(e.decl().name())
            st.extend(e.children())
        return out
    ns = [names(h) for h in hs]; cur = names(g)
    for hops in (1, 2, 3):
        keep = [k for k, n in enumerate(ns) if n and n <= cur] if hops == 1 else [k for k, n in enumerate(ns) if n & cur]
        s = z3.Tactic('qfnra').solver() if not any(_has_int(hs[k]) for k in keep) and not _has_int(g) else z3.Solver()
        s.set('timeout', ms)
        for k in keep: s.add(hs[k])
        s.add(z3.Not(g))
        try:
            if s.check() == z3.unsat: return True
        except z3.Z3Exception: pass
        for k in keep: cur |= ns[k]
    return False
def _num(t): return z3.is_rational_value(t) or z3.is_int_value(t) or z3.is_algebraic_value(t)
def linearise(ts):
    """products, quotients and powers of unknowns become applications of uninterpreted
    functions of their arguments (a generalisation: what holds of it holds of arithmetic)"""
    cache, keep = {}, []
    def fn(name, sorts, rng): return z3.Function('NL_' + name, *sorts, rng)
    def go(e):
        k = e.get_id()
        if k in cache: return cache[k]
        if z3.is_quantifier(e):
            n = e.num_vars(); vs = [z3.FreshConst(e.var_sort(i), 'qv') for i in range(n)]
            sub = list(reversed(vs)); b = go(z3.substitute_vars(e.body(), *sub))
            pats = []
            for i in range(e.num_patterns()):
                p = e.pattern(i); pats.append([go(z3.substitute_vars(p.arg(j), *sub)) for j in range(p.num_args())])
            pats = [z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in pats]
            try: r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, b, patterns=pats) if not e.is_lambda() else e
            except z3.Z3Exception: r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, b)
        elif e.num_args() == 0: r = e
        else:
            a = [go(c) for c in e.children()]; d = e.decl(); kd = d.kind()
            if kd == z3.Z3_OP_MUL:
                nums = [x for x in a if _num(x)]; rest = sorted((x for x in a if not _num(x)), key=lambda x: x.get_id())
                if len(rest) > 1:
                    m = fn('mul%d' % len(rest), [x.sort() for x in rest], e.sort())(*rest)
                    r = m
                    for q in nums: r = q * r
                else: r = d(*a)
            elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and not (_num(a[1]) and kd != z3.Z3_OP_POWER):
                r = fn('f%d' % kd, [x.sort() for x in a], e.sort())(*a)
            else: r = d(*a)
        cache[k] = r; keep.append(e)
        return r
    return [go(t) for t in ts]

def _has_int(t):
    st, seen = [t], set()
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_int(e) and not z3.is_int_value(e): return True
        st.extend(e.children())
    return False

def has_text(ts):
    seen = set(); st = list(ts)
    while st:
        e = st.pop(); i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(e): st.append(e.body()); continue
        if z3.is_string(e): return True
        st.extend(e.children())
    return False
def solve_one(pc, goal, z3_ms=8000, cvc5_s=20):
    t0 = time.time()
    if z3.is_true(z3.simplify(goal)): return ('valid', 'simplifier', 0.0, None, '')
    hard = False; why = ''
    text = has_text(list(pc) + [goal])
    if text: z3_ms, cvc5_s = 1000, max(cvc5_s, 20) if cvc5_s else 0    # strings: cvc5 decides
    for ms in (min(2000, z3_ms), z3_ms):
        s = _query(pc, goal); s.set('timeout', ms)
        r = s.check()
        if r == z3.unsat: return ('valid', 'z3', time.time() - t0, None, '')
        if r == z3.sat:
            q = has_quant(list(pc) + [goal])
            m = s.model()
            ab = abstract_symbols(list(pc) + [goal])
            return ('refuted', 'z3', time.time() - t0, m, 'counter-model' + (' (quantified)' if q else '') + (' (abstract: %s)' % ', '.join(sorted(ab)[:4]) if ab else ''))
        why = s.reason_unknown()
        if hard or text: break
        hard = True
        try:
            s3 = z3.Solver(); s3.set('timeout', max(1500, z3_ms // 4))
            for t in linearise(list(pc) + [z3.Not(goal)]): s3.add(t)
            if s3.check() == z3.unsat: return ('valid', 'z3', time.time() - t0, None, '')
        except z3.Z3Exception: pass
        try:
            if nra(pc, goal, max(1000, z3_ms // 2)): return ('valid', 'z3', time.time() - t0, None, '')
        except z3.Z3Exception: pass
    # other orders of the hypotheses and seeds (quantifier instantiation depends on both)
    if not text:
        for k in (1, 2, 3):
            h = list(pc); random.Random(k).shuffle(h)
            s3 = _query(h, goal); s3.set('timeout', min(2500, z3_ms)); s3.set('smt.random_seed', 17 * k); s3.set('smt.qi.eager_threshold', [0, 5.0, 20.0, 100.0][k])
            try:
                if s3.check() == z3.unsat: return ('valid', 'z3', time.time() - t0, None, '')
            except z3.Z3Exception: pass
    # second configuration
    s2 = _query(pc, goal); s2.set('timeout', 100 if text else z3_ms); s2.set('smt.arith.solver', 2); s2.set('smt.mbqi', False)
    try:
        if s2.check() == z3.unsat: return ('valid', 'z3', time.time() - t0, None, '')
    except z3.Z3Exception: pass
    if cvc5_s:
        q = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(q)
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % (cvc5_s * 1000)] + (['--strings-exp'] if text else []) + [f.name], capture_output=True, text=True, timeout=cvc5_s + 10)
            out = o.stdout.strip().split('\n')[0] if o.stdout else ''
        except Exception as e: out = ''
        finally: os.unlink(f.name)
        if out == 'unsat': return ('valid', 'cvc5', time.time() - t0, None, '')
        if out == 'sat': return ('refuted', 'cvc5', time.time() - t0, None, 'cvc5 sat' + (' (abstract)' if abstract_symbols(list(pc) + [goal]) else ''))
    return ('unknown', 'z3+cvc5', time.time() - t0, None, why or 'timeout')
