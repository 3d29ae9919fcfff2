"""C17: warning bits"""
from vc.prove import *
BAD = ('NEGATIVE_MODEL', 'MANY_OUTLIERS', 'Z_FITLIMIT', 'NEGATIVE_EMISSION', 'BAD_MINFIT')
@proof('C17', ['redrock.zwarning.ZWarningMask', 'redrock.zwarning.ZWarningMask.flags', 'redrock.zwarning.badfit_mask'])
def bits(v):
    M = v.mod('zwarning'); ZW = M.ZWarningMask
    names = [n for n in vars(ZW) if n.isupper() and not n.startswith('_')]
    val = {n: getattr(ZW, n) for n in names}
    for n in names:
        v.ensure('every warning is one bit', val[n] > 0 and val[n] & (val[n] - 1) == 0)
        for m in names: v.ensure('distinct warnings have distinct bits', m == n or val[n] & val[m] == 0)
    fl = v.call(ZW.flags)
    v.ensure('the list is complete', sorted(n for n, _ in fl) == sorted(names))
    v.ensure('listed values are those of the warnings', all(val.get(n) == x for n, x in fl))
    v.ensure('the list is ordered by bit', all(fl[k][1] < fl[k + 1][1] for k in range(len(fl) - 1)))
    v.ensure('bits 16 to 23 are reserved and overlap nothing else',
             {val[n] for n in names if n.startswith('RESERVED')} == {1 << b for b in range(16, 24)} and
             all(val[n] < 1 << 16 or val[n] > (1 << 24) - 1 for n in names if not n.startswith('RESERVED')))
    # for every warning word: bad exactly when one of the causes is set
    w = v.word('w')
    bad = (w & int(M.badfit_mask)) != 0
    v.ensure('a warning word is bad exactly with one of the causes', v.iff(bad, v.or_(*[(w & val[n]) != 0 for n in BAD])))
