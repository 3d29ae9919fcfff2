"""Load the real source of /repo for verification.

Each run parses the current source of a module and rewrites only control structure so
that it can be executed on symbolic values:
  * loops over symbolic ranges are cut at their invariant (establish / havoc / one
    arbitrary iteration / preserve / exit),
  * comprehensions over symbolic iterables are lifted to element-wise closures,
  * bare `except:` does not catch the verifier's own control exceptions,
  * builtins (len, range, min, max, abs, sum, sorted, isinstance, int, float ...) and the
    numpy module are replaced by symbolic counterparts.
Expressions, assignments, branches and calls are executed as written.  Dropped: print
output, decorators of numba (identity), docstrings."""
import operator, ast, os, sys, types, builtins, z3
from .core import *
from . import core
from .arr import *
from .arr import _b
from . import npf, loops
from .sums import mentions
from .rec import RecList, RecView, RecStore, RowArr, rowval, Const, empty_like, Ragged, RaggedRow
from .strs import Text, formatted, joined, str_format, str_percent
import numpy as np

REPO = os.environ.get('VC_REPO', '/repo')
PKG = os.path.join(REPO, 'py', 'redrock')

class Transform(ast.NodeTransformer):
    def __init__(self, numbering=None):
        self.qual = []; self.counts = {}; self.uid = 0; self.locals_ = []; self.numbering = numbering or {}
    def _site(self, kind):
        q = '.'.join(self.qual) or '<module>'
        n = self.counts.get((q, 'loop'), 0); self.counts[(q, 'loop')] = n + 1
        known = self.numbering.get(q)
        if known is None or n >= len(known): return '%s#%d' % (q, n)
        return '%s#%d' % (q, known[n]) if known[n] is not None else '%s#new%d' % (q, n)
    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        a = node.args
        names = {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        glob = {n for s in ast.walk(node) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
        self.locals_.append((names | _assigned(node.body)) - glob)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = self._body(node.body)
        node.args = self.visit(node.args)
        self.qual.pop(); self.locals_.pop()
        return node
    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        self.generic_visit(node)
        self.qual.pop()
        return node
    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list): out.extend(r)
            elif r is not None: out.append(r)
        return out
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None: node.type = ast.Name('Exception', ast.Load())
        return node
    def visit_For(self, node):
        if not self.qual: return self.generic_visit(node) or node
        site = self._site('for'); self.uid += 1
        L = '_L_%d' % self.uid
        node.iter = self.visit(node.iter)
        # before the statements are rewritten: a nested loop becomes assignments of its own
        assigned = sorted(_assigned(node.body) | _targets(node.target)); grown = sorted((_grown(node.body) & self.locals_[-1]) - set(assigned))
        body = self._body(node.body); orelse = self._body(node.orelse)
        src = '''
%(L)s = _vc_.enter(%(site)r, 'for')
if %(L)s.native: pass
else:
    %(L)s.establish(locals())
    if %(L)s.choose_iter():
        for _once_ in (0,):
            pass
        else:
            %(L)s.preserve(locals())
        %(L)s.left()
    else:
        pass
''' % dict(L=L, site=site)
        stmts = ast.parse(src).body
        stmts[0].value.args.append(node.iter)
        iff = stmts[1]
        iff.body = [ast.For(target=node.target, iter=ast.Attribute(ast.Name(L, ast.Load()), 'it', ast.Load()),
                            body=body, orelse=orelse, lineno=node.lineno)]
        import copy
        b2, o2, t2 = copy.deepcopy(body), copy.deepcopy(orelse), copy.deepcopy(node.target)
        havoc = _havoc(L, assigned, grown)
        item = ast.Assign([t2], ast.parse('%s.item()' % L, mode='eval').body)
        iff.orelse[1:1] = havoc
        ch = iff.orelse[-1]
        ch.body[0].body = [item] + b2
        ch.orelse = ast.parse('%s.exit(locals())' % L).body + o2
        for s in stmts: ast.copy_location(s, node)
        return stmts
    def visit_While(self, node):
        if not self.qual: return self.generic_visit(node) or node
        site = self._site('while'); self.uid += 1
        L = '_L_%d' % self.uid
        assigned = sorted(_assigned(node.body)); grown = sorted((_grown(node.body) & self.locals_[-1]) - set(assigned))
        test = self.visit(node.test)
        body = self._body(node.body); orelse = self._body(node.orelse)
        src = '''
%(L)s = _vc_.enter(%(site)r, 'while')
if %(L)s.native: pass
else:
    %(L)s.establish(locals())
    if True:
        for _once_ in (0,):
            pass
        else:
            %(L)s.preserve(locals())
        %(L)s.left()
    else:
        pass
''' % dict(L=L, site=site)
        stmts = ast.parse(src).body
        import copy
        iff = stmts[1]
        iff.body = [ast.While(test=test, body=body, orelse=orelse)]
        iff.orelse[1:1] = _havoc(L, assigned, grown)
        ch = iff.orelse[-1]
        ch.test = copy.deepcopy(test)
        ch.body[0].body = ast.parse('%s.started(locals())' % L).body + copy.deepcopy(body)
        ch.orelse = ast.parse('%s.exit(locals())' % L).body + copy.deepcopy(orelse)
        for s in stmts: ast.copy_location(s, node)
        return stmts
    # mutation of python containers / attributes is reported to the runtime (a loop that is
    # cut at its invariant may only change what the invariant speaks about)
    def _touch(self, node, targets):
        out = []
        if self.qual:
            st = list(targets)
            while st:
                t = st.pop()
                if isinstance(t, (ast.Tuple, ast.List)): st.extend(t.elts)
                elif isinstance(t, (ast.Subscript, ast.Attribute)) and _pure(t.value):
                    e = ast.Expr(ast.Call(ast.Attribute(ast.Name('_vc_', ast.Load()), 'touch', ast.Load()), [_load(t.value)], []))
                    out.append(ast.copy_location(e, node))
        self.generic_visit(node)
        named = []
        if self.qual and isinstance(node, ast.Assign):
            for t in targets:
                if isinstance(t, ast.Name):
                    e = ast.Expr(ast.Call(ast.Attribute(ast.Name('_vc_', ast.Load()), 'define', ast.Load()), [ast.Constant('.'.join(self.qual)), ast.Name(t.id, ast.Load())], []))
                    named.append(ast.fix_missing_locations(ast.copy_location(e, node)))
        return out + [node] + named if out or named else node
    def visit_Assign(self, node): return self._touch(node, node.targets)
    def visit_AugAssign(self, node):
        if self.qual and isinstance(node.op, ast.Add) and isinstance(node.target, ast.Name):
            call = ast.Call(ast.Attribute(ast.Name('_vc_', ast.Load()), 'iadd', ast.Load()), [ast.Name(node.target.id, ast.Load()), node.value], [])
            node = ast.fix_missing_locations(ast.copy_location(ast.Assign([node.target], call), node))
            self.generic_visit(node); return node
        return self._touch(node, [node.target])
    def visit_Delete(self, node): return self._touch(node, node.targets)
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if not self.qual: return node
        parts = [v if isinstance(v, ast.Constant) else
                 ast.Tuple([v.value, ast.Constant(None if v.conversion in (None, -1) else chr(v.conversion)), v.format_spec or ast.Constant('')], ast.Load()) for v in node.values]
        return ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vc_', ast.Load()), 'fstr', ast.Load()), [ast.List(parts, ast.Load())], []), node))
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.qual and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vc_', ast.Load()), 'percent', ast.Load()), [node.left, node.right], []), node))
        return node
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if self.qual and isinstance(f, ast.Attribute) and f.attr == 'join' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and len(node.args) == 1:
            node.func = ast.copy_location(ast.Attribute(ast.Name('_vc_', ast.Load()), 'join', ast.Load()), f); node.args.insert(0, f.value)
            return ast.fix_missing_locations(node)
        if self.qual and isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            node.func = ast.copy_location(ast.Attribute(ast.Name('_vc_', ast.Load()), 'fmt', ast.Load()), f); node.args.insert(0, f.value)
            return ast.fix_missing_locations(node)
        if self.qual and isinstance(f, ast.Name) and f.id == 'str' and len(node.args) == 1:
            node.func = ast.copy_location(ast.Attribute(ast.Name('_vc_', ast.Load()), 'str', ast.Load()), f); return ast.fix_missing_locations(node)
        if self.qual and isinstance(f, ast.Attribute) and f.attr in MUTATORS:
            node.func = ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vc_', ast.Load()), 'mut', ast.Load()), [f.value, ast.Constant(f.attr)], []), f)
        return node
    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].ifs and self.qual:
            g = node.generators[0]
            # native comprehension when the iterable is concrete: element function through a lambda
            arg = ast.Name('_e_', ast.Load())
            if isinstance(g.target, ast.Name):
                lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), node.elt)
            elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                lam = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in g.target.elts], None, [], [], None, []), node.elt)
            else: return node
            star = not isinstance(g.target, ast.Name)
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vc_', ast.Load()), 'comp', ast.Load()),
                   [ast.Constant(kind), ast.Constant(star), lam, g.iter], []), node)
        return node
    def visit_DictComp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].ifs and self.qual and isinstance(node.generators[0].target, ast.Name):
            g = node.generators[0]
            mk = lambda e: ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), e)
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vc_', ast.Load()), 'dictcomp', ast.Load()), [mk(node.key), mk(node.value), g.iter], []), node)
        return node
    def visit_ListComp(self, node): return self._comp(node, 'list')
    def visit_GeneratorExp(self, node): return self._comp(node, 'gen')

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'update', 'setdefault', 'add', 'discard', 'clear', 'popitem', 'reverse', 'sort'}
def _pure(e):
    if isinstance(e, (ast.Name, ast.Constant)): return True
    if isinstance(e, ast.Attribute): return _pure(e.value)
    if isinstance(e, ast.Subscript): return _pure(e.value) and _pure(e.slice)
    if isinstance(e, ast.Tuple): return all(_pure(x) for x in e.elts)
    return False
def _load(e):
    import copy
    e = copy.deepcopy(e)
    for n in ast.walk(e):
        if hasattr(n, 'ctx'): n.ctx = ast.Load()
    return e
def _grown(body):
    "names of lists that the statements append to"
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Call) and isinstance(n.func.func, ast.Attribute) and n.func.func.attr == 'mut' \
               and isinstance(n.func.args[0], ast.Name): out.add(n.func.args[0].id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name): out.add(n.func.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name): out.add(n.value.id)
    return out

def _targets(t):
    if isinstance(t, ast.Name): return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        r = set()
        for e in t.elts: r |= _targets(e)
        return r
    if isinstance(t, ast.Starred): return _targets(t.value)
    return set()

def _assigned(body):
    "names bound in the statements (loop-carried scalars)"
    out = set()
    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        def visit_GeneratorExp(self, n): pass
        def visit_DictComp(self, n): pass
        def visit_Assign(self, n):
            for t in n.targets: out.update(_targets(t))
            self.generic_visit(n)
        def visit_AugAssign(self, n): out.update(_targets(n.target))
        def visit_AnnAssign(self, n): out.update(_targets(n.target))
        def visit_For(self, n): out.update(_targets(n.target)); self.generic_visit(n)
        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None: out.update(_targets(i.optional_vars))
            self.generic_visit(n)
        def visit_NamedExpr(self, n): out.update(_targets(n.target)); self.generic_visit(n)
    v = V()
    for s in body: v.visit(s)
    return out

def _havoc(L, names, grown=()):
    if not names and not grown: return ast.parse('%s.havoc(locals(), ())' % L).body
    src = '(%s,) = %s.havoc(locals(), %r, %r)' % (', '.join(list(names) + list(grown)), L, tuple(names), tuple(grown))
    return ast.parse(src).body

class Undef:
    def __init__(s, n): object.__setattr__(s, '_n', n)
    def _u(s, *a, **k): raise Unsupported('variable %s may be unbound after the loop cut' % s._n)
    __getattr__ = __call__ = __add__ = __radd__ = __mul__ = __getitem__ = __bool__ = __lt__ = __iter__ = __len__ = _u

# ---------------------------------------------------------------- loops
class SymRange:
    _symbolic_ = True
    def __init__(s, lo, hi): s.lo, s.hi = lo, hi
    def count(s): return zsub(s.hi, s.lo)
    def element(s, k): return dim(zadd(s.lo, k))
class SymEnum:
    _symbolic_ = True
    def __init__(s, a, start=0): s.a, s.start = a, start
    def count(s): return _count(s.a)
    def element(s, k): return (dim(zadd(zi(s.start), k)), _element(s.a, k))
class SymZip:
    _symbolic_ = True
    def __init__(s, *a): s.a = a
    def count(s):
        return _count(s.a[0])
    def element(s, k): return tuple(_element(x, k) for x in s.a)
class SymIter:
    "anything with abstract count/element (spec-provided objects)"
    _symbolic_ = True
def _count(x):
    if isinstance(x, SArr): return x._shape[0]
    if hasattr(x, 'count') and getattr(x, '_symbolic_', False): return x.count()
    return len(x)
def _element(x, k):
    if isinstance(x, SArr): return x[dim(k)] if not z3.is_expr(k) else _sub0(x, k)
    if getattr(x, '_symbolic_', False): return x.element(k)
    return x[k]
def _sub0(x, k):
    "x[k] for k already known in range"
    axes, nd = [], x.ndim
    for d in x.axes:
        if d[0] == 'fix': axes.append(d)
        elif d[1] == 0: axes.append(('fix', zadd(d[2], zmul(d[3], k))))
        else: axes.append(('ax', d[1] - 1, d[2], d[3]))
    v = SArr(x.buf, x._shape[1:], axes)
    return S(v.buf.at(v.base(())), x.kind) if nd == 1 else v
def symbolic_iter(x):
    if isinstance(x, SArr): return not isinstance(x._shape[0], int)
    if isinstance(x, (SymRange, SymEnum, SymZip)): return not isinstance(x.count(), int)
    return getattr(x, '_symbolic_', False) and not isinstance(x.count(), int)

class Locals:
    "what a loop invariant sees"
    def __init__(s, loc, L): s.__dict__['_l'] = loc; s.__dict__['_L'] = L
    def __getattr__(s, n):
        if n == s._L.spec.get('counter') and s._L.kind == 'for': return s._L.counter()
        if n in s._l: return s._l[n]
        raise Unsupported('loop invariant refers to variable %r that does not exist' % n)
    def __getitem__(s, n): return s.__getattr__(n)
    def has(s, n): return n in s._l
    @property
    def k(s):
        if s._L.kind == 'for': return s._L.k
        n = s._L.spec.get('counter')        # the loop counts by itself
        if n is None: raise Unsupported('loop %s has no iteration counter' % s._L.site)
        return zi(s.__getattr__(n))
    @property
    def n(s):
        if s._L.n is None: raise Unsupported('loop %s has no number of iterations' % s._L.site)
        return s._L.n
    @property
    def entry(s): return Locals(s._L.entry, s._L)
    def old(s, a):
        "content of array a when the loop was entered"
        return s._content(a, s._L.entry_fn)
    def start(s, a):
        "content of array a when the current iteration started"
        return s._content(a, s._L.start_fn)
    def _content(s, a, fns):
        f = fns.get(a.buf.id)
        if f is None: f = freeze(a.buf)
        me, k = SArr(a.buf, a._shape, list(a.axes)), a.kind
        return lambda *i: S(f(me.base(tuple(zi(j) for j in i))), k)

class Loop:
    def __init__(self, vc, site, kind, it=None):
        self.vc, self.site, self.kind = vc, site, kind
        self.spec = vc.spec(site)
        if kind == 'for':
            if isinstance(it, (SymRange, SymEnum, SymZip)) and isinstance(it.count(), int):
                n = it.count(); it = [it.element(k) for k in range(n)]
            self.native = core._CUR[0] is None or not symbolic_iter(it)
            if self.native and self.spec is not None and self.spec.get('force') and core._CUR[0] is not None:
                self.native = False
            self.it = it
            if not self.native:
                if self.spec is None: raise Unsupported('loop %s over a symbolic range has no invariant' % site)
                self.n = _count(it)
        else:
            self.native = core._CUR[0] is None or self.spec is None or vc.unroll
            self.n = None
        self.k = 0
    def counter(self):
        "value of the loop variable in iteration k of a loop over a range, also for k = number of iterations"
        it = self.it
        if isinstance(it, SymRange): return it.element(self.k)
        return dim(it.start + it.step * zi(self.k) if isinstance(it, range) else zi(self.k))
    # -- frame discovery
    def need(self, bid):
        c = ctx()
        # buffers are identified by creation order along the path prefix
        c.loop_writes.setdefault(self.key, set()).add(bid)
        raise Restart()
    def inv(self, loc):
        if 'inv' not in self.spec: return []
        L = Locals(loc, self)
        with spec_mode(): return self.spec['inv'](L)
    def list_inv(self, loc):
        "lists grown by the loop: name -> (length now, element function, independent of the loop state)"
        f = self.spec.get('lists')
        if f is None: return {}
        with spec_mode(): return f(Locals(loc, self))
    def dict_inv(self, loc):
        "dictionaries grown by the loop: name -> (entries now, key of entry j, value of entry j)"
        f = self.spec.get('dicts')
        if f is None: return {}
        with spec_mode(): return f(Locals(loc, self))
    def rec_desc(self, loc):
        "lists of records grown by the loop: name -> {field: kind}"
        f = self.spec.get('records')
        if f is None: return {}
        with spec_mode(): return f(Locals(loc, self))
    @staticmethod
    def place(loc, n):
        "value of a name or of an item `container[key]` of a local container"
        if '[' not in n: return loc.get(n)
        a, k = n[:-1].split('[')
        return loc[a][loc[k]]
    def establish(self, loc):
        c = ctx()
        c.loops_cut.add(self.site)
        for n, d in (self.spec['fields'](Locals(loc, self)) if 'fields' in self.spec else {}).items():
            for st in _stores(loc.get(n)):
                for k, kd in d.items():
                    if k not in st.f: st.f[k] = RecStore.fresh({k: kd}, n).f[k]
        self.key = (self.site, len(c.loopstack), c.nbuf)
        self.k = 0
        self.buf_mark = c.nbuf
        self.entry = dict(loc)
        self.entry_fn = {}; self.start_fn = {}
        self.entry_objs = {id(o): o for o in _containers(list(loc.values()))}
        for n in self.rec_desc(loc):
            if n not in loc or not isinstance(loc[n], list) or loc[n]: raise Unsupported('record list %s is not empty on entry' % n)
            if _refs(loc.values(), loc[n]) != 1: raise Unsupported('record list %s has another name' % n)
        for n, (cnt, key, val) in self.dict_inv(loc).items():
            d = loc.get(n)
            if type(d) is not dict or d or _refs(loc.values(), d) != 1: raise Unsupported('%s is not an empty dictionary of its own' % n)
            c.check('%s: dictionary %s on entry' % (self.site, n), zeq(zi(cnt), 0), kind='invariant')
        for n in self.spec.get('scratch', ()):
            if type(loc.get(n)) is not dict or _refs(loc.values(), loc[n]) != 1: raise Unsupported('%s is not a dictionary of its own' % n)
        for n, (cnt, el) in self.list_inv(loc).items():
            v = self.place(loc, n)
            if '[' in n and _refs(loc.values(), v) != 1: raise Unsupported('list %s has another name' % n)
            if not isinstance(v, list): raise Unsupported('list %s of the loop invariant is not a list' % n)
            c.check('%s: list %s on entry' % (self.site, n), zeq(zi(cnt), len(v)), kind='invariant')
            for j, x in enumerate(v): same_value('%s: list %s on entry' % (self.site, n), x, el(j))
        seen = dict(loc)
        for n, d in self.rec_desc(loc).items(): seen[n] = empty_like(d)
        for name, f in self.inv(seen):
            c.check('%s: invariant "%s" holds on entry' % (self.site, name), f, kind='invariant')
    def havoc(self, loc, names, grown=()):
        c = ctx()
        if self.kind == 'for':
            self.k = c.fresh('k', I)
            c.add(self.k >= 0)
            if not isinstance(self.n, int): c.add(z3.Implies(self.n >= 0, self.k <= self.n))
            else: c.add(self.k <= max(self.n, 0))
        self.havocked = set(c.loop_writes.get(self.key, ()))
        # havoc buffers in the frame
        bufs = {}
        for x in _reach(list(loc.values()) + list(self.spec.get('extra', lambda L: [])(Locals(loc, self)))):
            bufs[x.id] = x
        for bid in sorted(self.havocked):
            b = bufs.get(bid)
            if b is None: raise Unsupported('loop %s writes an array not reachable from its locals' % self.site)
            self.entry_fn[bid] = freeze(b)
            b.note_write()
            f = c.fresh_fn('hv', *([I] * len(b.shape)), SORT[b.kind])
            b.setfn(lambda idx, f=f: f(*[z3.IntVal(i) if isinstance(i, int) else i for i in idx]))
            self.start_fn[bid] = freeze(b)
        types_ = self.spec.get('types', {})
        out = []
        new = dict(loc)
        lists = self.list_inv(loc); self.grow = {}; dicts = self.dict_inv(loc); recs = self.rec_desc(loc)
        for n in lists:
            if '[' in n:
                v = SymGrow(*lists[n]); self.grow[n] = v
                a, key = n[:-1].split('['); loc[a][loc[key]] = v
        for n in tuple(names) + tuple(grown):
            if n in self.spec.get('scratch', ()):
                v = Scratch()
            elif n in dicts:
                v = GrowDict(*dicts[n]); self.grow[n] = v
            elif n in recs:
                v = RecList(RecStore.fresh(recs[n], n))
            elif n in lists:
                v = SymGrow(*lists[n]); self.grow[n] = v
            elif n in grown:
                v = loc.get(n, Undef(n))        # not described: touch() refuses its mutation
            elif n in types_:
                t = types_[n]
                if callable(t):
                    # value of the variable from the second iteration on; before that the one it was entered with
                    v = loc.get(n, Undef(n)) if c.decide(_b(zeq(self.k, 0))) else t(Locals(loc, self))
                else: v = S(c.fresh(n, SORT[t]), t)
            elif n not in loc: v = Undef(n)
            else: v = self._havoc_value(n, loc[n])
            new[n] = v; out.append(v)
        self.loc = new
        for name, f in self.inv(new): c.assume(f)
        c.loopstack.append(self)
        self.depth = len(c.loopstack)
        return tuple(out)
    def _havoc_value(self, n, v):
        c = ctx()
        if isinstance(v, S): return S(c.fresh(n, v.t.sort()), v.k)
        if isinstance(v, bool): return S(c.fresh(n, B), 'b')
        if isinstance(v, (int, np.integer)): return S(c.fresh(n, I), 'i')
        if isinstance(v, (float, np.floating)): return S(c.fresh(n, R), 'r')
        if isinstance(v, SArr):
            # rebinding to another array of the same shape: arbitrary content
            f = c.fresh_fn(n, *([I] * v.ndim), SORT[v.kind])
            r = SArr.new(v._shape, lambda idx: f(*[z3.IntVal(i) if isinstance(i, int) else i for i in idx]), v.kind)
            r.buf.rebound = n      # may be the array the name was entered with: not to be written in place
            return r
        return Undef(n)
    def choose_iter(self):
        c = ctx()
        n = self.n
        if isinstance(n, int) and n <= 0:
            pass
        if c.choose(2) == 0:
            c.add(_b(zlt(self.k, n)))
            if not c.feasible(): raise PathEnd('no iteration')
            return True
        c.add(_b(z3.If(n >= 0, self.k == n, self.k == 0) if z3.is_expr(n) else self.k == max(n, 0)))
        if not c.feasible(): raise PathEnd('no exit')
        return False
    def item(self):
        self._variant0()
        return _element(self.it, self.k)
    def started(self, loc):
        self._variant0(loc)
    def _variant0(self, loc=None):
        v = self.spec.get('variant')
        self.v0 = v(Locals(loc if loc is not None else self.loc, self)) if v and self.kind == 'while' else None
    def preserve(self, loc):
        c = ctx()
        self._pop()
        if self.kind == 'for': self.k = self.k + 1
        hints = self.spec.get('hint')
        if hints:
            with spec_mode(): hints(Locals(loc, self))
        for n, (cnt, el) in self.list_inv(loc).items():
            g = self.place(loc, n)
            if not isinstance(g, SymGrow): raise Unsupported('list %s of the loop invariant was rebound' % n)
            c.check('%s: list %s preserved' % (self.site, n), zeq(zi(cnt), g.count()), kind='invariant')
            for j, x in enumerate(g.extra): same_value('%s: list %s preserved' % (self.site, n), x, el(zadd(zi(g.base_n), j)))
        for n, (cnt, key, val) in self.dict_inv(loc).items():
            g = loc.get(n)
            if not isinstance(g, GrowDict): raise Unsupported('dictionary %s of the loop invariant was rebound' % n)
            c.check('%s: dictionary %s preserved' % (self.site, n), zeq(zi(cnt), zadd(g.base_n, len(g.extra))), kind='invariant')
            for j, (a, b) in enumerate(g.extra):
                same_value('%s: keys of %s preserved' % (self.site, n), a, key(zadd(g.base_n, j)))
                same_value('%s: values of %s preserved' % (self.site, n), b, val(zadd(g.base_n, j)))
        for n in self.rec_desc(loc):
            g = loc.get(n)
            if not isinstance(g, RecList): raise Unsupported('record list %s of the loop invariant was rebound' % n)
            if g.extra:
                st = g.absorbed(); loc = dict(loc); loc[n] = RecList(st)
        for n, t in self.spec.get('types', {}).items():
            if callable(t): same_value('%s: variable %s preserved' % (self.site, n), loc[n], t(Locals(loc, self)))
        for name, f in self.inv(loc):
            c.check('%s: invariant "%s" preserved' % (self.site, name), f, kind='invariant')
        if self.v0 is not None:
            v1 = self.spec['variant'](Locals(loc, self))
            t0, t1 = lift(self.v0)[0], lift(v1)[0]
            c.check('%s: variant decreases and is bounded' % self.site, z3.And(t1 < t0, t0 >= 0), kind='termination')
        raise PathEnd('iteration verified')
    def exit(self, loc):
        self._pop()
        if self.kind == 'for' and z3.is_expr(self.k):
            k, n = self.k, self.n if not isinstance(self.n, int) else max(self.n, 0)
            if ctx().entails(_b(zeq(k, n))):
                for v in self.grow.values():
                    if z3.is_expr(v.base_n) and v.base_n.eq(k): v.base_n = n
                self.k = n
        h = self.spec.get('at_exit')
        if h:
            with spec_mode(): h(Locals(loc, self))
    def left(self): self._pop()
    def _pop(self):
        c = ctx()
        while c.loopstack and c.loopstack[-1] is not self: c.loopstack.pop()
        if c.loopstack: c.loopstack.pop()

def _reach(vals, seen=None, depth=0):
    seen = set() if seen is None else seen
    for v in vals:
        if id(v) in seen: continue
        seen.add(id(v))
        if isinstance(v, SArr): yield v.buf
        elif isinstance(v, (list, tuple)): yield from _reach(v, seen, depth + 1)
        elif isinstance(v, dict): yield from _reach(dict.values(v), seen, depth + 1)
        elif hasattr(v, '__dict__') and depth < 5 and not isinstance(v, (type, types.ModuleType, types.FunctionType)):
            yield from _reach(list(v.__dict__.values()), seen, depth + 1)

def _stores(v):
    "record stores behind a list of records"
    if isinstance(v, RecList): return [v.store]
    if isinstance(v, SymList) and v.store is not None: return [v.store]
    return []
def _refs(vals, o):
    "number of references to the object o from the values (containers and attributes included)"
    n, st, seen = 0, list(vals), set()
    while st:
        x = st.pop()
        if x is o: n += 1
        if id(x) in seen or isinstance(x, (Loop, str, int, float, bool, S, SArr, type, types.ModuleType, types.FunctionType, z3.AstRef)) or x is None: continue
        seen.add(id(x))
        if isinstance(x, (list, tuple, set)): st.extend(x)
        elif isinstance(x, dict): st.extend(dict.values(x))
        elif hasattr(x, '__dict__'): st.extend(x.__dict__.values())
    return n
def _containers(vals, seen=None, depth=0):
    "mutable python objects reachable from the values"
    seen = {} if seen is None else seen
    for v in vals:
        if id(v) in seen or isinstance(v, (str, int, float, bool, S, SArr, type, types.ModuleType, types.FunctionType, z3.AstRef)) or v is None: continue
        if isinstance(v, (list, tuple, set)):
            seen[id(v)] = v; _containers(list(v), seen, depth + 1)
        elif isinstance(v, dict):
            seen[id(v)] = v; _containers(list(dict.values(v)), seen, depth + 1)
        elif isinstance(v, np.ndarray): seen[id(v)] = v
        elif hasattr(v, '__dict__') and depth < 6:
            seen[id(v)] = v; _containers(list(v.__dict__.values()), seen, depth + 1)
    return list(seen.values())

def same_value(name, a, b, kind='invariant'):
    "obligation: two values are equal (arrays: same shape and elements)"
    c = ctx()
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        c.check(name, len(a) == len(b), kind=kind, assume=False)
        for x, y in zip(a, b): same_value(name, x, y, kind)
        return
    if isinstance(a, RowArr) or isinstance(b, RowArr): a, b = rowval(a)[0], rowval(b)[0]
    if isinstance(a, SArr) and a.ndim or isinstance(b, SArr) and b.ndim:
        a, b = as_arr(a), as_arr(b)
        if a.ndim != b.ndim: c.check(name, False, kind=kind, assume=False); return
        c.check(name, AND(*[zeq(x, y) for x, y in zip(a._shape, b._shape)]), kind=kind, assume=False)
        ix = tuple(c.fresh('sv', I) for _ in a._shape)
        pc = c.pc; c.pc = list(pc) + [_b(inrange(i, d)) for i, d in zip(ix, a._shape)]
        try: c.check(name, S(a.at(ix), a.kind) == S(b.at(ix), b.kind), kind=kind, assume=False)
        finally: c.pc = pc
        return
    if isinstance(a, (S, int, float, bool)) or isinstance(b, (S, int, float, bool)):
        c.check(name, a == b, kind=kind, assume=False); return
    ta, tb_ = getattr(a, '_token_', a), getattr(b, '_token_', b)
    if ta is not a or tb_ is not b: same_value(name, ta, tb_, kind); return
    c.check(name, bool(a is b or a == b), kind=kind, assume=False)

class Rec:
    "an input object of the contract: fixed attributes"
    def __init__(self, _token_=None, **kw):
        self.__dict__.update(kw)
        if _token_ is not None: self.__dict__['_token_'] = _token_
    def __setattr__(self, n, v): raise Unsupported('assignment to attribute %s of an input object' % n)
class Keyed:
    "an input dictionary given by a function of a symbolic key"
    def __init__(self, fn): self.__dict__['_fn'] = fn
    def __getitem__(self, k): return self._fn(k)

class Scratch(dict):
    "a dictionary whose content at the start of an iteration is unknown: only what the iteration itself stores can be read"
    def __missing__(s, k): raise Unsupported('key %r of a dictionary from an earlier iteration' % (k,))
    def _no(s, *a, **k): raise Unsupported('content of a dictionary from an earlier iteration')
    __iter__ = __len__ = __contains__ = __bool__ = __eq__ = __delitem__ = __or__ = get = keys = values = items = pop = popitem = setdefault = copy = clear = _no
    __hash__ = None

class SymGrow:
    "a list of symbolic length (elements of the loop invariant) plus the elements appended since"
    _symbolic_ = True
    def __init__(s, n, fn): s.base_n, s.fn, s.extra = zi(n), fn, []
    def append(s, x): s.extra.append(x)
    def extend(s, xs):
        if symbolic_iter(xs): raise Unsupported('extend by a symbolic sequence')
        s.extra.extend(xs)
    def count(s): return zadd(s.base_n, len(s.extra))
    def element(s, k):
        if not s.extra: return s.fn(k)
        d = zsub(k, s.base_n)
        c = ctx()
        for j, x in enumerate(s.extra):
            if c.entails(_b(zeq(d, j))): return x
        if c.entails(_b(zlt(d, 0))): return s.fn(k)
        raise Unsupported('element of a growing list')
    def __getitem__(s, k):
        if isinstance(k, slice): raise Unsupported('slice of a symbolic list')
        return s.element(norm_index(k, s.count()))
    def _no(s, *a, **k): raise Unsupported('operation on a list of symbolic length')
    __iter__ = __len__ = __contains__ = __add__ = __setitem__ = __delitem__ = insert = pop = remove = sort = reverse = index = clear = __eq__ = __mul__ = __iadd__ = _no
    def __bool__(s): return ctx().decide(_b(zlt(0, s.count())))
    __hash__ = None

class SymList:
    "list of symbolic length given by an element function"
    _symbolic_ = True
    store = perm = None
    def __init__(s, n, fn): s.n, s.fn = n, fn
    def count(s): return s.n
    def element(s, k): return s.fn(k)
    def to_sarr(s):
        q = ctx().fresh('lk', I)
        with ctx().scope(_b(inrange(q, s.n))): v = s.fn(q)
        if isinstance(v, SArr):
            # equal-shaped rows
            if not ctx().entails(_b(zlt(0, s.n))) or any(z3.is_expr(d) and mentions(d, q) for d in v._shape): raise Unsupported('array of a possibly empty or ragged list')
            f = v.frozen()
            def el(i):
                iv = [ctx().fresh('si', I) if z3.is_expr(x) else x for x in i[1:]]
                t = z3.substitute(f(tuple(iv)), (q, z3.IntVal(i[0]) if isinstance(i[0], int) else i[0]))
                ps = [(x, y) for x, y in zip(iv, i[1:]) if z3.is_expr(y)]
                return z3.substitute(t, *ps) if ps else t
            return SArr.new((s.n,) + tuple(v._shape), el, v.kind)
        k = lift(v)[1]
        return SArr.new((s.n,), lambda i: lift(s.fn(i[0]))[0], k)
    def __getitem__(s, k): return s.fn(norm_index(k, s.n))

def subst(v, a, b):
    "replace the constant a by the term b in a value"
    b = z3.IntVal(b) if isinstance(b, int) else b
    def go(v):
        if isinstance(v, S): return S(z3.substitute(v.t, (a, b)), v.k)
        if isinstance(v, SArr):
            f, k = v.frozen(), v.kind
            sub = lambda t: z3.substitute(t, (a, b)) if z3.is_expr(t) else t
            def el(i):
                # keep the caller's index away from the substitution
                iv = [ctx().fresh('si', I) if z3.is_expr(x) else x for x in i]
                t = z3.substitute(f(tuple(iv)), (a, b))
                ps = [(x, y) for x, y in zip(iv, i) if z3.is_expr(y)]
                return z3.substitute(t, *ps) if ps else t
            return SArr.new(tuple(sub(d) for d in v._shape), el, k)
        if isinstance(v, tuple): return tuple(go(x) for x in v)
        if isinstance(v, list): return [go(x) for x in v]
        if isinstance(v, dict): return {k: go(x) for k, x in v.items()}
        if v is None or isinstance(v, (str, int, float, bool)): return v
        raise Unsupported('comprehension element of type %s' % type(v).__name__)
    return go(v)

def template(fn, it):
    "element function of a comprehension, evaluated once at an arbitrary in-range index"
    c = ctx(); n = _count(it)
    k0 = c.fresh('ck', I)
    with c.scope(_b(inrange(k0, n))): v = fn(_element(it, k0))
    return lambda k: subst(v, k0, k)

class SymDict:
    "dictionary built from rows 0..n-1 (a later row with the same key wins)"
    _symbolic_ = True
    def __init__(s, n, key, val): s.n, s.key, s.val = n, key, val
    def lookup(s, k):
        "-> row (z3 Int) or None; forks"
        c = ctx()
        kt, kk = lift(k)
        eq = lambda i: tb(compare('==', s.key(S(i, 'i')), S(kt, kk)))
        i = c.fresh('dk', I)
        with c.binding((i,)): none = z3.ForAll([i], z3.Implies(_b(inrange(i, s.n)), z3.Not(_b(eq(i)))))
        if c.choose(2) == 0:
            w = c.fresh('row', I)
            c.add(_b(inrange(w, s.n))); c.add(_b(eq(w)))
            with c.binding((i,)): c.add(z3.ForAll([i], z3.Implies(_b(AND(inrange(i, s.n), zlt(w, i))), z3.Not(_b(eq(i))))))
            if not c.feasible(): raise PathEnd('no such key')
            return w
        c.add(none)
        if not c.feasible(): raise PathEnd('key present')
        return None
    def __getitem__(s, k):
        x = s.val(S(z3.Int('#row'), 'i'))
        if isinstance(x, (int, float, str, bool)):       # the same value in every row
            c = ctx(); i = c.fresh('dk', I)
            with c.binding((i,)): g = z3.Exists([i], z3.And(_b(inrange(i, s.n)), _b(tb(compare('==', s.key(S(i, 'i')), k)))))
            c.check('key is in the dictionary', g, kind='safety')
            return x
        w = s.lookup(k)
        if w is None: raise KeyError('symbolic key')
        return s.val(S(w, 'i'))
    def __contains__(s, k): return s.lookup(k) is not None
    def get(s, k, default=None):
        w = s.lookup(k)
        return default if w is None else s.val(S(w, 'i'))
    def count(s): raise Unsupported('length of a symbolic dictionary')
    element = count

class GrowDict(SymDict):
    "dictionary filled by a loop: entries described by the invariant, then the ones added since"
    def __init__(s, n, key, val):
        s.base_n, s.extra = zi(n), []
        s.rowkey, s.rowval = key, val
        s.key = lambda i: key(zi(i)); s.val = lambda i: val(zi(i))
    @property
    def n(s):
        return s.base_n
    def __setitem__(s, k, v): s.extra.append((k, v))
    def _extra(s, k):
        for a, b in reversed(s.extra):
            if truth_(a == k): return (b,)
    def __getitem__(s, k):
        e = s._extra(k)
        return e[0] if e else SymDict.__getitem__(s, k)
    def __contains__(s, k): return s._extra(k) is not None or SymDict.__contains__(s, k)
    def get(s, k, default=None):
        e = s._extra(k)
        return e[0] if e else SymDict.get(s, k, default)
    def update(s, *a, **k): raise Unsupported('update of a symbolic dictionary')
    pop = popitem = setdefault = clear = __delitem__ = __iter__ = __len__ = keys = values = items = __or__ = copy = __eq__ = update
    __hash__ = None
def truth_(x): return bool(x)

def _snapshot(fn):
    "the function with the current values of the variables it captures"
    if not getattr(fn, '__closure__', None): return fn
    def cell(x):
        try: return types.CellType(x.cell_contents)
        except ValueError: return x
    return types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__, tuple(cell(x) for x in fn.__closure__))

class Runtime:
    def __init__(self, specs, unroll=False):
        self.specs, self.unroll = specs, unroll
    def touch(self, o):
        if core._CUR[0] is None or isinstance(o, SArr): return o
        for L in ctx().loopstack:
            if id(o) in L.entry_objs: raise Unsupported('loop %s changes a python object its invariant does not describe' % L.site)
        return o
    def fstr(self, parts): return formatted(parts)
    def fmt(self, s, *a, **k): return str_format(s, a, k)
    def percent(self, s, a): return str_percent(s, a)
    def join(self, sep, xs): return joined(sep, xs)
    def str(self, x): return x if isinstance(x, Text) else str(x)
    def mut(self, o, name):
        self.touch(o)
        if name == 'extend' and type(o) is list and core._CUR[0] is not None: return lambda xs: o.append(Seg(xs.copy())) if isinstance(xs, SArr) and not isinstance(xs._shape[0], int) else o.extend(xs)
        return getattr(o, name)
    def iadd(self, o, v):
        "o += v; a python list is extended in place"
        if type(o) is list and core._CUR[0] is not None:
            self.touch(o)
            if isinstance(v, SArr) and not isinstance(v._shape[0], int): o.append(Seg(v.copy())); return o
        return operator.iadd(o, v)
    def spec(self, site): return self.specs.get(site)
    def define(self, site, v):
        "name the elements of a large array expression: fresh function with its defining axiom (no effect on content)"
        sp = self.specs.get(site)
        if sp is None or not isinstance(v, SArr) or core._CUR[0] is None or self.unroll: return
        define_content(v, sp['define'])
    def enter(self, site, kind, it=None):
        return Loop(self, site, kind, it)
    def dictcomp(self, key, val, it):
        if symbolic_iter(it):
            tk, tv = template(key, it), template(val, it)
            return SymDict(_count(it), lambda i: tk(i.t), lambda i: tv(i.t))
        if isinstance(it, (SymRange, SymEnum, SymZip)):
            it = [it.element(k) for k in range(it.count())]
        return {key(e): val(e) for e in it}
    def comp(self, kind, star, fn, it):
        f = (lambda e: fn(*e)) if star else fn
        if symbolic_iter(it):
            n = _count(it); c = ctx(); k0 = c.fresh('ck', I)
            # the element is evaluated once, at an arbitrary position, when the comprehension is
            try:
                with c.scope(_b(inrange(k0, n))): v = f(_element(it, k0))
                if isinstance(v, RecView):
                    L = SymList(n, lambda k: RecView(v.store, z3.substitute(v.row, (k0, z3.IntVal(k) if isinstance(k, int) else k)) if z3.is_expr(v.row) else v.row))
                    L.store = v.store; return L
                if type(v) is list and not v and kind == 'list': return Ragged(n)
                if type(v) is dict and v and kind == 'list' and all(isinstance(x, (S, int, float)) for x in v.values()):
                    fs = {}
                    for key, x in v.items():
                        t, kd = lift(x)
                        if key in c.__dict__.get('real_fields', ()): t, kd = convert(t, kd, 'r'), 'r'
                        fs[key] = SArr.new((n,), lambda i, t=t: z3.substitute(t, (k0, z3.IntVal(i[0]) if isinstance(i[0], int) else i[0])), kd)
                    st = RecStore(n, fs); st.dynamic = True
                    return RecList(st)
                if isinstance(v, (S, int, float, bool, str)) or v is None: return SymList(n, lambda k: subst(v, k0, k))
            except Unsupported: pass
            fn2 = _snapshot(fn)
            f2 = (lambda e: fn2(*e)) if star else fn2
            return SymList(n, lambda k: f2(_element(it, k)))
        if isinstance(it, (SymRange, SymEnum, SymZip)):
            it = [it.element(k) for k in range(it.count())]
        return [f(e) for e in it]

# ---------------------------------------------------------------- builtins
def b_len(x):
    if isinstance(x, (SymGrow, RecList)): return dim(x.count())
    if isinstance(x, SArr): return dim(x._shape[0])
    if getattr(x, '_symbolic_', False): return dim(x.count())
    if type(x) is list and any(type(e) is Seg for e in x):
        n = 0
        for e in x: n = zadd(n, e.a._shape[0] if type(e) is Seg else 1)
        return dim(n)
    if isinstance(x, S) and x.k == 's': return strlen(x)
    if isinstance(x, Text): return x._length()
    return len(x)
def strlen(x):
    t = simp(x.t)
    def go(t):
        if z3.is_int_value(t): return z3.IntVal(len(STRS[t.as_long()]))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: return z3.If(t.arg(0), go(t.arg(1)), go(t.arg(2)))
        raise Unsupported('length of an unknown string')
    return S(go(t), 'i')
def b_range(*a):
    if any(isinstance(x, S) for x in a):
        a = [zi(x) for x in a]
        if all(isinstance(x, int) for x in a): return range(*a)
        if len(a) == 1: return SymRange(0, a[0])
        if len(a) == 2: return SymRange(a[0], a[1])
        if len(a) == 3 and isinstance(a[2], int) and a[2] == 1: return SymRange(a[0], a[1])
        raise Unsupported('range with step')
    return range(*a)
def _ext(op):
    nat = builtins.min if op == 'min' else builtins.max
    def f(*a, key=None, default=None):
        if key is None:
            xs = list(a[0]) if len(a) == 1 and not isinstance(a[0], SArr) and not symbolic_iter(a[0]) else list(a)
            if any(type(x) is Seg for x in xs): return npf.red_ext(as_arr(xs), None, op)
            if len(a) == 1 and isinstance(a[0], SArr): return npf.red_ext(a[0], None, op)
            if len(a) == 1 and symbolic_iter(a[0]):
                if isinstance(a[0], SymList): return npf.red_ext(a[0].to_sarr(), None, op)
                raise Unsupported('min/max over symbolic list')
            xs = [npf.scal(x) for x in xs]
            if any(isinstance(x, S) for x in xs):
                r = xs[0]
                for x in xs[1:]:
                    # python keeps the first extremal element
                    c = (x < r) if op == 'min' else (x > r)
                    if not isinstance(c, S): r = x if c else r; continue
                    (t1, k1), (t2, k2) = lift(x), lift(r)
                    k = kind_join([k1, k2])
                    r = S(z3.If(truth(c), convert(t1, k1, k), convert(t2, k2, k)), k)
                return r
            if default is not None: return nat(xs, default=default)
            return nat(xs)
        if len(a) == 1 and symbolic_iter(a[0]): return sym_extreme(a[0], key, op)
        xs = list(a[0]) if len(a) == 1 else list(a)
        best, kb = xs[0], key(xs[0])
        for x in xs[1:]:
            kx = key(x)
            if (kx < kb) if op == 'min' else (kx > kb): best, kb = x, kx
        return best
    return f
b_min, b_max = _ext('min'), _ext('max')
def b_abs(x): return abs(x)
def b_sum(x, start=0):
    if isinstance(x, SArr) and symbolic_iter(x): return npf.np_sum(x)
    if symbolic_iter(x): return npf.np_sum(x.to_sarr()) if hasattr(x, 'to_sarr') else _un('sum')
    r = start
    for e in x: r = r + e
    return r
def _un(w): raise Unsupported(w)
def b_int(x=0, *a):
    if isinstance(x, SArr): x = x.item()
    if isinstance(x, S): return to_kind(x, 'i')
    return int(x, *a)
def b_float(x=0.0):
    if isinstance(x, SArr): x = x.item()
    if isinstance(x, S): return to_kind(x, 'r')
    if isinstance(x, Text): return x.number()
    return float(x)
def b_bool(x=False):
    if isinstance(x, S): return S(_b(truth(x)), 'b')
    return bool(x)
def b_enumerate(x, start=0):
    if symbolic_iter(x): return SymEnum(x, start)
    return enumerate(x if not isinstance(x, (SymRange, SymEnum, SymZip)) else [x.element(k) for k in range(x.count())], start)
def b_zip(*a):
    if any(symbolic_iter(x) for x in a): return SymZip(*a)
    return zip(*a)
class ListArr(SArr):
    "list(array) of symbolic length: no array arithmetic"
    def _no(s, *a, **k): raise Unsupported('list operation on the elements of an array of symbolic length')
    def __getitem__(s, k):
        r = SArr.__getitem__(s, k)
        if isinstance(k, slice): return as_list(r)
        if isinstance(k, (SArr, np.ndarray, tuple, list)): s._no()
        return r
    append = extend = insert = pop = remove = sort = reverse = index = count = _no
for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor'):
    for _p in ('', 'r', 'i'): setattr(ListArr, '__%s%s__' % (_p, _n), ListArr._no)
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'neg', 'invert'): setattr(ListArr, '__%s__' % _n, ListArr._no)
ListArr.__hash__ = None
def as_list(x):
    r = ListArr(x.buf, x._shape, x.axes, x.meta); r.rows_from, r.unravel = x.rows_from, x.unravel
    return r
def b_list(x=()):
    if symbolic_iter(x): return as_list(x.copy() if len(x._shape) == 1 else x) if isinstance(x, SArr) else x
    return list(x)
def b_tuple(x=()):
    if symbolic_iter(x): return x
    return tuple(x)
def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, (SymGrow, SymList, RecList)): return any(q in (list, b_list) for q in ts)
    if isinstance(x, S):
        for q in ts:
            if q in (int, np.integer, np.int64) and x.k == 'i': return True
            if q in (float, np.floating, np.float64) and x.k == 'r': return True
            if q in (bool, np.bool_) and x.k == 'b': return True
            if q is b_int and x.k == 'i' or q is b_float and x.k == 'r': return True
        return False
    if isinstance(x, Text): return any(q is str for q in ts)
    ts = tuple({b_int: int, b_float: float, b_list: list, b_tuple: tuple, b_bool: bool, b_type: type}.get(q, q) if not isinstance(q, type) else q for q in ts)
    return isinstance(x, ts)
class b_typemeta(type): pass
def b_type(x, *a):
    if a: return type(x, *a)
    if isinstance(x, (SArr, np.ndarray)): return npf.ndarray
    if isinstance(x, S): return {'i': b_int, 'r': b_float, 'b': b_bool}.get(x.k, S)
    t = type(x)
    return {int: b_int, float: b_float, list: b_list, tuple: b_tuple, bool: b_bool}.get(t, t)
def key_terms(x, key):
    "the sort key at an arbitrary position: function of the position -> tuple of scalars"
    f = template(key or (lambda e: e), x)
    v = f(z3.Int('#key'))
    tup = isinstance(v, tuple)
    if not all(isinstance(y, (S, int, float)) for y in (v if tup else (v,))): raise Unsupported('sort key')
    return (lambda i: f(i)) if tup else (lambda i: (f(i),))
def lex(a, b):
    "a < b for tuples of the same length"
    r = False
    for x, y in zip(reversed(a), reversed(b)): r = OR(x < y, AND(x == y, r))
    return _b(r) if not isinstance(r, bool) else z3.BoolVal(r)
def sym_extreme(x, key, op):
    "min / max of a sequence of symbolic length: its first smallest / largest element"
    c = ctx(); n = _count(x)
    if not c.decide(_b(zlt(0, n))): raise ValueError('%s() iterable argument is empty' % op)
    ks = key_terms(x, key)
    better = (lambda i, j: lex(ks(i), ks(j))) if op == 'min' else (lambda i, j: lex(ks(j), ks(i)))
    w, q = c.fresh('best', I), c.fresh('bq', I)
    c.add(_b(inrange(w, n)))
    with c.binding((q,)):
        c.add(z3.ForAll([q], z3.Implies(_b(inrange(q, n)), z3.Not(better(q, w)))))
        c.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < w), better(w, q))))
    return _element(x, w)
def b_sorted(x, key=None, reverse=False):
    if symbolic_iter(x):
        "stable, also when reversed"
        ks = key_terms(x, key); c = ctx()
        le = (lambda i, j: z3.Not(lex(ks(i), ks(j)))) if reverse else (lambda i, j: z3.Not(lex(ks(j), ks(i))))
        p = npf._perm(_count(x), le, 'sorted', stable=True, eq=lambda i, j: AND(*[u == v for u, v in zip(ks(i), ks(j))]))
        if isinstance(x, RecList):
            st = x.absorbed(); r = SymList(x.count(), lambda k: RecView(st, p.at((k,)))); r.store = st
        else:
            r = SymList(_count(x), lambda k: _element(x, p.at((k,)))); r.store = getattr(x, 'store', None)
        r.perm = p
        return r
    x = list(x)
    ks = [key(e) if key else e for e in x]
    if not any(isinstance(k, S) or isinstance(k, tuple) and npf.sym_in(k) for k in ks): return sorted(x, key=key, reverse=reverse)
    out = []
    for e, k in zip(x, ks):
        i = len(out)
        # stable insertion
        while i > 0 and ((out[i - 1][1] < k) if reverse else (k < out[i - 1][1])): i -= 1
        out.insert(i, (e, k))
    return [e for e, _ in out]
def b_any(x):
    if isinstance(x, SArr): return npf.red_any(x)
    for e in x:
        if e: return True
    return False
def b_all(x):
    if isinstance(x, SArr): return npf.red_all(x)
    for e in x:
        if not e: return False
    return True
def b_print(*a, **k): pass
def b_round(x, *a):
    if isinstance(x, S): return S(ufun('round')(convert(*lift(x), 'r')), 'r')     # some function of it
    return round(x, *a)
def b_str(x=''):
    return str(x)

def b_hash(x):
    "hash of symbolic values: some function of them (equal values give equal hashes)"
    if not npf.sym_in(x): return hash(x)
    xs = x if isinstance(x, tuple) else (x,)
    ts = []
    for e in xs:
        if isinstance(e, (S, int, float)) and not isinstance(e, bool): ts.append(toreal(*lift(e)))
        else: raise Unsupported('hash of %s' % type(e).__name__)
    f = z3.Function('hash%d' % len(ts), *([R] * len(ts)), I)
    return S(f(*ts), 'i')
BUILTINS = dict(vars(builtins))
BUILTINS.update(len=b_len, range=b_range, min=b_min, max=b_max, abs=b_abs, sum=b_sum, int=b_int, float=b_float,
                enumerate=b_enumerate, zip=b_zip, list=b_list, tuple=b_tuple, isinstance=b_isinstance, sorted=b_sorted,
                any=b_any, all=b_all, hash=b_hash, print=b_print, round=b_round, bool=b_bool, type=b_type)

class StubModule(types.ModuleType):
    "an external module that is not modelled: any use on a verified path is unsupported"
    def __init__(self, name): super().__init__(name); self.__dict__['__path__'] = []
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return StubObj(self.__name__ + '.' + n)
class StubObj:
    def __init__(s, n): s.__dict__['_n'] = n
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        return StubObj(s._n + '.' + n)
    def __call__(s, *a, **k): raise Unsupported('call of unmodelled %s' % s._n)

class NumbaStub(types.ModuleType):
    def __init__(self):
        super().__init__('numba')
        def jit(*a, **k):
            if len(a) == 1 and callable(a[0]) and not k: return a[0]
            return lambda f: f
        self.jit = self.njit = jit
        self.prange = b_range

class Program:
    """the modules of redrock, loaded from source and executed under the verifier"""
    def __init__(self, specs=None, unroll=False, stubs=None):
        self.mods = {}
        self.rt = Runtime(specs or {}, unroll)
        self.stubs = dict(stubs or {})
        self.sources = {}; self.reshaped = set()
    def module(self, name):
        "name like 'fitz' or 'external.boss'"
        full = 'redrock' + ('.' + name if name else '')
        if full in self.mods: return self.mods[full]
        path = os.path.join(PKG, *name.split('.')) if name else PKG
        path = os.path.join(path, '__init__.py') if os.path.isdir(path) else path + '.py'
        src = open(path).read()
        self.sources[full] = path
        tree = ast.parse(src, path)
        num, gone = loops.numbering(tree, os.path.relpath(path, REPO)); self.reshaped |= gone
        tree = ast.fix_missing_locations(Transform(num).visit(tree))
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if path.endswith('__init__.py') else full.rpartition('.')[0]
        b = dict(BUILTINS)
        b['__import__'] = self._import
        m.__dict__['__builtins__'] = b
        m.__dict__['_vc_'] = self.rt
        self.mods[full] = m
        old = core._CUR[0]; core._CUR[0] = None
        try: exec(compile(tree, path, 'exec'), m.__dict__)
        finally: core._CUR[0] = old
        return m
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals['__package__'].split('.')
            base = pkg[:len(pkg) - (level - 1)]
            full = '.'.join(base + ([name] if name else []))
            sub = full.split('.', 1)[1] if '.' in full else ''
            if name == '' and fromlist:
                m = self.module(sub) if sub else types.SimpleNamespace()
                for f in fromlist:
                    if not hasattr(m, f): setattr(m, f, self.module((sub + '.' if sub else '') + f))
                return m
            m = self.module(sub)
            return m
        top = name.split('.')[0]
        if name in self.stubs: return self.stubs[name]
        if top == 'redrock': return self.module(name.split('.', 1)[1] if '.' in name else '')
        if top == 'numpy':
            if name == 'numpy' or not fromlist: return npf.facade
            return __import__(name, fromlist=list(fromlist or ()))
        if top == 'numba': return NUMBA
        if fromlist and name == 'scipy.linalg' : return SCIPY_LINALG
        if fromlist and name == 'scipy.special': return SCIPY_SPECIAL
        if fromlist and name == 'scipy.optimize': return SCIPY_OPT
        if fromlist and name == 'scipy.sparse': return SCIPY_SPARSE
        if top == 'scipy' and name not in ('scipy', 'scipy.constants', 'scipy.linalg', 'scipy.special', 'scipy.optimize', 'scipy.sparse'): return StubModule(name)
        if top == 'scipy':
            import scipy, scipy.constants
            ns = types.SimpleNamespace(constants=scipy.constants, sparse=SCIPY_SPARSE, linalg=SCIPY_LINALG, special=SCIPY_SPECIAL, optimize=SCIPY_OPT)
            return ns if not name == 'scipy.constants' or not fromlist else scipy.constants
        if top in ('cupy', 'cupyx', 'mpi4py'): raise ImportError(name)
        if top in ('astropy', 'fitsio', 'h5py', 'desispec', 'desitarget', 'desiutil', 'matplotlib', 'healpy'):
            return StubModule(name) if fromlist else StubModule(top)
        if name == 'multiprocessing': return MPROC
        if top in STD_OK: return builtins.__import__(name, None, None, fromlist or (), 0)
        return StubModule(name)
NUMBA = NumbaStub()
def _rawarray(code, init):
    "contract of multiprocessing.RawArray(typecode, values): a flat shared buffer with these values"
    a = as_arr(init)
    if a.ndim != 1: raise Unsupported('RawArray of an array that is not flat')
    ctx().check('the shared buffer has the element type of the array', code == a.dtype.char, kind='safety')
    return a.copy()
class _Mproc(types.SimpleNamespace):
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        return StubObj('multiprocessing.' + n)
MPROC = _Mproc(RawArray=_rawarray)
class _Ns(types.SimpleNamespace):
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        return StubObj(n)
SCIPY_LINALG, SCIPY_SPECIAL, SCIPY_OPT = _Ns(), _Ns(), _Ns()
def _nnls(A, b, *a, **k):
    "assumed contract of scipy.optimize.nnls: (x, residual norm) with x >= 0, or RuntimeError"
    c = ctx(); A, b = as_arr(A), as_arr(b)
    if c.choose(2) == 1: raise RuntimeError('Maximum number of iterations reached.')
    x = symarr('nnls!%d' % c.counter, (A._shape[1],)); c.counter += 1
    c.ghost.setdefault('nnls', []).append((A.copy(), b.copy(), x))
    q = z3.Int('#q'); t = x.at((q,))
    c.add(z3.ForAll([q], z3.Implies(_b(inrange(q, A._shape[1])), t >= 0), patterns=[t]))
    return x, S(c.fresh('rnorm', R), 'r')
def _lsq_linear(A, b, bounds=None, method='trf', **k):
    "assumed contract of scipy.optimize.lsq_linear: result .x within the bounds"
    c = ctx(); A, b = as_arr(A), as_arr(b)
    x = symarr('lsq!%d' % c.counter, (A._shape[1],)); c.counter += 1
    n = A._shape[1]
    if c.choose(2) == 1: raise np.linalg.LinAlgError('lsq_linear')
    c.ghost.setdefault('lsq', []).append((A.copy(), b.copy(), bounds, x))
    if bounds is not None:
        lo, hi = as_arr(bounds[0]), as_arr(bounds[1])
        q = z3.Int('#q'); t = x.at((q,))
        def bd(a, lower):
            u, kk = bcast1(a, q)
            return compare_t('>=' if lower else '<=', t, 'r', u, kk)
        with c.binding((q,)): g = AND(S(bd(lo, True), 'b'), S(bd(hi, False), 'b'))
        c.add(z3.ForAll([q], z3.Implies(_b(inrange(q, n)), _b(g)), patterns=[t]))
    return types.SimpleNamespace(x=x)
def bcast1(a, q):
    return (a.at(()) if a.ndim == 0 else a.at((q,))), a.kind
SCIPY_OPT.nnls, SCIPY_OPT.lsq_linear = _nnls, _lsq_linear
from .sparse import Dia, Csr
class _Sp(_Ns):
    csr_matrix = csr_array = Csr
    dia_matrix = dia_array = Dia
    def isspmatrix(self, x): return getattr(x, '_sparse_', False)
    issparse = isspmatrix
SCIPY_SPARSE = _Sp()
STD_OK = {'__future__', 'sys', 'os', 're', 'time', 'math', 'traceback', 'itertools', 'functools', 'collections', 'copy',
          'hashlib', 'glob', 'warnings', 'importlib', 'multiprocessing', 'argparse', 'fractions', 'operator', 'json', 'tempfile', 'contextlib', 'types', 'typing', 'pickle', 'random', 'shutil', 'string', 'struct', 'abc', 'enum', 'dataclasses', 'numbers', 'bisect', 'heapq', 'inspect', 'platform', 'subprocess', 'logging', 'queue', 'threading', 'textwrap', 'io', 'pathlib', 'datetime', 'getpass', 'atexit', 'signal', 'socket', 'uuid', 'decimal', 'statistics', 'gc', 'weakref', 'zlib'}
