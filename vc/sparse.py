"""Contract of a scipy.sparse matrix as far as redrock uses it: an n x m array of reals;
sum, dot and @ mean the matrix operations; dia/csr forms hold the same matrix."""
import z3
from .core import *
from .arr import *
from . import npf, sums

class SymSparse:
    _sparse_ = True
    __array_ufunc__ = None
    def __init__(self, dense, name=None, attrs=None):
        self._dense = dense            # SArr of shape (n, m)
        self.format = name
        for k, v in (attrs or {}).items(): setattr(self, k, v)
    @staticmethod
    def fresh(name, n, m=None, **attrs):
        return SymSparse(symarr(name, (n, n if m is None else m)), attrs=attrs)
    @property
    def shape(self): return self._dense.shape
    @property
    def ndim(self): return 2
    @property
    def T(self): return SymSparse(self._dense.T)
    def transpose(self): return self.T
    def tocsr(self): return self
    tocsc = todia = tocoo = copy = tocsr
    def toarray(self): return self._dense.copy()
    todense = toarray
    def sum(self, axis=None):
        r = sums.np_sum(self._dense, axis=axis)
        if axis is None: return r
        axis %= 2
        return r.reshape((r.shape[0], 1)) if axis == 1 else r.reshape((1, r.shape[0]))
    def dot(self, o):
        if isinstance(o, SymSparse): return SymSparse(sums.dot(self._dense, o._dense))
        return sums.dot(self._dense, npf.as_arr(o))
    def __matmul__(self, o): return self.dot(o)
    def __rmatmul__(self, o): return sums.dot(npf.as_arr(o), self._dense)
    def __mul__(self, o):
        if isinstance(o, (S, int, float)): return SymSparse(self._dense * o)
        raise Unsupported('sparse product')
    def multiply(self, o): return SymSparse(self._dense * npf.as_arr(o))
    def at(self, i, j): return S(self._dense.at((zi(i), zi(j))), 'r')


class Dia:
    """contract of scipy.sparse.dia_matrix((data, offsets), shape): a matrix with these diagonals;
    sums and products with it are functions of its content"""
    _sparse_ = True
    format = 'dia'
    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if dtype is not None or not (isinstance(arg, tuple) and len(arg) == 2): raise Unsupported('dia_matrix')
        self.data, self.offsets = as_arr(arg[0]), as_arr(arg[1])
        if copy: self.data, self.offsets = self.data.copy(), self.offsets.copy()
        self._sh = tuple(zi(d) for d in shape)
        self._m = {}
    @property
    def shape(self): return tuple(dim(d) for d in self._sh)
    def tocsr(self, copy=False): return Csr(None, source=self.frozen())
    def todia(self, copy=False): return self
    def copy(self): return self.frozen()
    def frozen(self): return Dia((self.data.copy(), self.offsets.copy()), self._sh)
    def sum(self, axis=None):
        if axis != 1: raise Unsupported('sum of a diagonal matrix')
        f = ctx().fresh_fn('rowsum', I, R); self.rowsum = f
        return SArr.new((self._sh[0], 1), lambda i: f(z3.IntVal(i[0]) if isinstance(i[0], int) else i[0]), 'r')
class Csr:
    "contract of scipy.sparse.csr_matrix: built from its arrays, or from another matrix (source)"
    _sparse_ = True
    format = 'csr'
    def __init__(self, arg, shape=None, dtype=None, copy=False, source=None):
        if source is None:
            if isinstance(arg, Dia): source = arg.frozen()
            elif dtype is not None or not (isinstance(arg, tuple) and len(arg) == 3): raise Unsupported('csr_matrix')
        self.source = source
        if source is None:
            self.data, self.indices, self.indptr = [as_arr(a) for a in arg]
            self._sh = tuple(zi(d) for d in shape)
        else:
            # some arrays that represent the source
            c = ctx(); n = c.fresh('nnz', I); c.add(n >= 0); self._sh = source._sh; c.counter += 1
            self.data = symarr('csrdata!%d' % c.counter, (n,)); self.indices = symarr('csrind!%d' % c.counter, (n,), 'i')
            self.indptr = symarr('csrptr!%d' % c.counter, (zadd(self._sh[0], 1),), 'i')
            c.ghost.setdefault('csr', []).append((self.data.copy(), self.indices.copy(), self.indptr.copy(), source))
    @property
    def shape(self): return tuple(dim(d) for d in self._sh)
    def tocsr(self, copy=False): return self
    def todia(self, copy=False): raise Unsupported('csr to dia')
