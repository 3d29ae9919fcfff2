"""Symbolic text (SMT strings).  Contracts of the methods of str used here:

strip     s = a + t + b; t is empty exactly if s is blank, otherwise begins and ends with a
          character that is not whitespace; what begins and ends so is left as it is.
          Whitespace is an unknown set of characters that contains the blank and none of the digits, ':', '/', '#', '.', '_'
split(x)  the parts between the occurrences of x, from the left (at most three)
upper     (lower) an unknown function, applied twice the same as once, that does not touch whitespace: it may
          be exchanged with strip"""
import re, string, z3
from .core import *
from .core import simp
ST = z3.StringSort(); BL = z3.BoolSort()
WS = z3.Function('whitespace', ST, BL); BLANK = z3.Function('blank', ST, BL)
UP = z3.Function('upper', ST, ST); NUM = z3.Function('SR_number', ST, R); LOW = z3.Function('lower', ST, ST)
def sv(x):
    if isinstance(x, Text): return x.t
    if isinstance(x, str): return z3.StringVal(x)
    raise Unsupported('text combined with %r' % type(x))
def first(t): return z3.SubString(t, 0, 1)
def last(t): return z3.SubString(t, z3.Length(t) - 1, 1)
def _empty(t): return z3.is_string_value(t) and t.as_string() == ''
def _blank(t):
    if z3.is_string_value(t): return t.as_string().strip(' \t\n') == ''
    return not ctx().feasible(z3.Not(BLANK(t)))
def _cat(xs): return z3.StringVal('') if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)
def _pieces(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return [q for c in t.children() for q in _pieces(c)]
    return [t]
def _at_literal(t, sep):
    "the text before and after the first occurrence of sep, if that is inside a literal part"
    if not isinstance(sep, str): return None
    ps = _pieces(simp(t))
    for k, p in enumerate(ps):
        if z3.is_string_value(p) and sep in p.as_string():
            q = p.as_string(); i = q.index(sep)
            a = simp(_cat(ps[:k] + [z3.StringVal(q[:i])])); b = simp(_cat([z3.StringVal(q[i + len(sep):])] + ps[k + 1:]))
            return None if ctx().feasible(z3.Contains(simp(z3.Concat(a, z3.StringVal(sep[:-1]))), z3.StringVal(sep))) else (a, b)
    return None
def _axioms():
    c = ctx()
    if c.ghost.get('text'): return
    c.ghost['text'] = True
    for w in ' \t\n': c.add(WS(z3.StringVal(w)))
    for w in ':/#._0123456789': c.add(z3.Not(WS(z3.StringVal(w))))
    c.add(BLANK(z3.StringVal('')))
def clean(t): return z3.And(z3.Not(WS(first(t))), z3.Not(WS(last(t))))
class Text:
    "a string"
    def __init__(s, t): s.t = t
    # contracts of the methods
    def strip(s, chars=None, left=True, right=True):
        if chars is not None: raise Unsupported('strip of given characters')
        if z3.is_app(s.t) and s.t.decl().eq(UP): return Text(s.t.arg(0)).strip(chars, left, right).upper()
        if z3.is_app(s.t) and s.t.decl().eq(LOW): return Text(s.t.arg(0)).strip(chars, left, right).lower()
        _axioms(); c = ctx(); memo = c.ghost.setdefault('strip', {})
        key = (s.t.sexpr(), left, right)
        if key not in memo:
            ps = _pieces(simp(s.t)); n = len(ps)
            while left and len(ps) > 1 and _blank(ps[0]): ps = ps[1:]
            while right and len(ps) > 1 and _blank(ps[-1]): ps = ps[:-1]
            if len(ps) < n: memo[key] = Text(_cat(ps)).strip(None, left, right); return memo[key]
            ends = [w(first(s.t)) for w in (WS,) if left] + [WS(last(s.t)) for _ in (1,) if right]
            if not _empty(s.t) and not c.feasible(z3.Or(s.t == z3.StringVal(''), *ends)): memo[key] = s; return s     # nothing to strip
            t, a, b = (c.fresh(n, ST) for n in ('stripped', 'lead', 'trail'))
            ok = z3.And(*([z3.Not(WS(first(t)))] if left else []), *([z3.Not(WS(last(t)))] if right else []))
            was = z3.And(*([z3.Not(WS(first(s.t)))] if left else []), *([z3.Not(WS(last(s.t)))] if right else []))
            E = z3.StringVal('')
            c.add(s.t == z3.Concat(a, t, b)); c.add((t == E) == BLANK(s.t)); c.add(z3.Or(t == E, ok)); c.add(z3.Implies(t == E, b == E))
            c.add(z3.Implies(z3.Or(s.t == E, was), z3.And(t == s.t, a == E, b == E)))
            if not left: c.add(a == E)
            if not right: c.add(z3.Implies(t != E, b == E))
            memo[key] = Text(t)
        return memo[key]
    def lstrip(s, chars=None): return s.strip(chars, True, False)
    def rstrip(s, chars=None): return s.strip(chars, False, True)
    def split(s, sep=None, maxsplit=-1):
        if sep is None: raise Unsupported('split at whitespace')
        out, t, x = [], s.t, sv(sep)
        for k in range(4):
            if k == maxsplit or not ctx().decide(z3.Contains(t, x)): return out + [Text(simp(t))]
            p = _at_literal(t, sep)
            if p is not None: out.append(Text(p[0])); t = p[1]; continue
            i = z3.IndexOf(t, x, 0)
            out.append(Text(z3.SubString(t, 0, i))); t = z3.SubString(t, i + z3.Length(x), z3.Length(t) - i - z3.Length(x))
        raise Unsupported('split into many parts')
    def partition(s, sep):
        x = sv(sep)
        if not ctx().decide(z3.Contains(s.t, x)): return s, '', ''
        i = z3.IndexOf(s.t, x, 0)
        return Text(z3.SubString(s.t, 0, i)), sep, Text(z3.SubString(s.t, i + z3.Length(x), z3.Length(s.t) - i - z3.Length(x)))
    def startswith(s, p): return OR(*[S(z3.PrefixOf(sv(q), s.t)) for q in (p if isinstance(p, tuple) else (p,))])
    def endswith(s, p): return OR(*[S(z3.SuffixOf(sv(q), s.t)) for q in (p if isinstance(p, tuple) else (p,))])
    def upper(s): return s if z3.is_app(s.t) and s.t.decl().eq(UP) else Text(z3.StringVal(s.t.as_string().upper())) if z3.is_string_value(s.t) else Text(UP(s.t))
    def lower(s): return s if z3.is_app(s.t) and s.t.decl().eq(LOW) else Text(z3.StringVal(s.t.as_string().lower())) if z3.is_string_value(s.t) else Text(LOW(s.t))
    def find(s, p): return S(z3.IndexOf(s.t, sv(p), 0))
    def isspace(s):
        _axioms(); return AND(S(s.t != z3.StringVal('')), S(BLANK(s.t)))
    def number(s): return S(NUM(s.t), 'r')
    def encode(s, *a): raise Unsupported('encoding of text')
    # operators
    def __len__(s): raise Unsupported('length of text used as a concrete number')
    def _length(s): return S(z3.Length(s.t))
    def __contains__(s, p): return ctx().decide(z3.Contains(s.t, sv(p)))
    def __add__(s, o): return Text(simp(z3.Concat(s.t, sv(o))))
    def __radd__(s, o): return Text(simp(z3.Concat(sv(o), s.t)))
    def __eq__(s, o):
        if not isinstance(o, (Text, str)): return False
        return S(s.t == sv(o))
    def __ne__(s, o):
        if not isinstance(o, (Text, str)): return True
        return S(s.t != sv(o))
    def __bool__(s): return ctx().decide(s.t != z3.StringVal(''))
    def __hash__(s):
        t = simp(s.t)
        if z3.is_string_value(t): return hash(t.as_string())
        raise Unsupported('symbolic text used as dictionary key')
    def __getitem__(s, k):
        if isinstance(k, slice):
            if k.step not in (None, 1): raise Unsupported('slice of text')
            lo = 0 if k.start is None else k.start
            if isinstance(lo, int) and lo >= 0 and (k.stop is None or isinstance(k.stop, int) and k.stop >= lo):
                return Text(z3.SubString(s.t, lo, z3.Length(s.t) - lo if k.stop is None else k.stop - lo))
        elif isinstance(k, int): ctx().check('a character of the text', z3.Length(s.t) > (k if k >= 0 else -k - 1), kind='index'); return Text(z3.SubString(s.t, k if k >= 0 else z3.Length(s.t) + k, 1))
        raise Unsupported('index of text')
    def __str__(s): return '<text>'
    def __repr__(s): return '<text>'
    def __format__(s, spec): return '<text>'

def formatted(parts):
    "an f-string: parts are strings or (value, conversion, format)"
    out = []
    for p in parts:
        if isinstance(p, str): out.append(p); continue
        v, conv, spec = p
        if isinstance(v, Text):
            if conv == 'r' or spec: raise Unsupported('formatted text')
            out.append(v)
        else:
            if not conv and not spec and type(v).__module__.startswith('redrock'): out.append(type(v).__str__(v)); continue
            if conv: v = dict(r=repr, s=str, a=ascii)[conv](v)
            out.append(format(v, spec))
    return joined('', out)
def str_format(s, a, k):
    "s.format(*a, **k)"
    if not any(isinstance(x, Text) for x in [*a, *k.values()]): return s.format(*a, **k)
    parts, n = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit: parts.append(lit)
        if field is None: continue
        if '{' in (spec or '') or not (field == '' or field.isidentifier() or field.isdigit()): raise Unsupported('formatted text')
        if field == '': x = a[n]; n += 1
        else: x = a[int(field)] if field.isdigit() else k[field]
        parts.append((x, conv, spec or ''))
    return formatted(parts)
def str_percent(s, a):
    "s % a"
    xs = list(a.values()) if isinstance(a, dict) else list(a) if isinstance(a, tuple) else [a]
    if not any(isinstance(x, Text) for x in xs): return s % a
    out, at, n = [], 0, 0
    for m in re.finditer(r'%(\((\w+)\))?([-+ #0-9.]*)([a-zA-Z%])', s):
        out.append(s[at:m.start()]); at = m.end()
        if m[4] == '%': out.append('%'); continue
        if m[2]: x = a[m[2]]
        else: x = xs[n]; n += 1
        if isinstance(x, Text):
            if m[3] or m[4] != 's': raise Unsupported('formatted text')
            out.append(x)
        else: out.append(('%' + m[3] + m[4]) % (x,))
    return joined('', out + [s[at:]])
def joined(sep, xs):
    xs = list(xs)
    if all(isinstance(x, str) for x in xs): return sep.join(xs)
    r = None
    for x in xs: r = x if r is None else r + sep + x
    return r

def _no(m): raise Unsupported(m)
class TextArr:
    "a one-dimensional array of texts, of a known number of elements"
    def __init__(s, xs): s.xs = list(xs)
    shape = property(lambda s: (len(s.xs),)); size = property(lambda s: len(s.xs)); ndim = 1
    def __len__(s): return len(s.xs)
    def __iter__(s): return iter(s.xs)
    def __getitem__(s, k):
        if isinstance(k, slice): return TextArr(s.xs[k])
        if isinstance(k, int): return s.xs[k]
        raise Unsupported('index of an array of texts')
    def __setitem__(s, k, x):
        if not isinstance(k, int) or not isinstance(x, (Text, str)): raise Unsupported('assignment to an array of texts')
        s.xs[k] = x
    def __eq__(s, o): raise Unsupported('comparison of texts')
    __hash__ = None
    def astype(s, t): return TextArr(s.xs) if t in (str, 'str', 'U') else _no('texts as other values')
    def copy(s): return TextArr(s.xs)
    def tolist(s): return list(s.xs)
def texts(a):
    import numpy as np
    if isinstance(a, (str, Text)): return None
    return [str(x) if isinstance(x, np.str_) else x for x in a]
class Char:
    "numpy.char, element by element"
    def _each(f):
        def g(a, *k):
            x = texts(a); return f(a, *k) if x is None else TextArr([f(e, *k) for e in x])
        return staticmethod(g)
    strip = _each(lambda e, *k: e.strip(*k)); upper = _each(lambda e: e.upper()); lower = _each(lambda e: e.lower())
    lstrip = _each(lambda e, *k: e.lstrip(*k)); rstrip = _each(lambda e, *k: e.rstrip(*k))
    @staticmethod
    def add(a, b):
        x, y = texts(a), texts(b)
        if x is None and y is None: return a + b
        n = len(x if x is not None else y)
        if x is not None and y is not None and len(x) != len(y): raise Unsupported('broadcast of texts')
        return TextArr([(a if x is None else x[k]) + (b if y is None else y[k]) for k in range(n)])
    def __getattr__(s, n): raise Unsupported('numpy.char.%s' % n)
