"""C17: warning bits"""
from .base import *
def gen(rng, k): return dict(words=[int(w) for w in rng.integers(0, 2 ** 24, size=20)])
BAD = ('NEGATIVE_MODEL', 'MANY_OUTLIERS', 'Z_FITLIMIT', 'NEGATIVE_EMISSION', 'BAD_MINFIT')
@contract('C17', ['zwarning.ZWarningMask.flags', 'zwarning.ZWarningMask', 'zwarning.badfit_mask'], gen, quick=50, thorough=500)
def bits(inp, req):
    from redrock.zwarning import ZWarningMask as ZW, badfit_mask
    fl = ZW.flags()
    names = [n for n in vars(ZW) if n.isupper() and not n.startswith('_') and isinstance(getattr(ZW, n), int)]
    req(sorted(n for n, _ in fl) == sorted(names) and len(fl) == len(set(n for n, _ in fl)), 'the list is complete', fl)
    req(all(int(v) == int(getattr(ZW, n)) for n, v in fl), 'listed values are those of the warnings')
    req(all(fl[i][1] < fl[i + 1][1] for i in range(len(fl) - 1)), 'the list is ordered by bit')
    for n in names:
        v = int(getattr(ZW, n))
        req(v > 0 and v & (v - 1) == 0, 'every warning is one bit', (n, v))
        for m in names: req(m == n or v & int(getattr(ZW, m)) == 0, 'warnings have distinct bits', (n, m))
    res = [n for n in names if n.startswith('RESERVED')]
    req({int(getattr(ZW, n)) for n in res} == {1 << b for b in range(16, 24)}, 'bits 16 to 23 are reserved', res)
    want = 0
    for n in BAD: want |= int(getattr(ZW, n))
    req(int(badfit_mask) == want, 'the bad-fit mask has exactly its causes', (badfit_mask, want))
    for w in inp['words']:
        req((w & badfit_mask != 0) == any(w & getattr(ZW, n) for n in BAD), 'a word is bad exactly with one of the causes', w)
