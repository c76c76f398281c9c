"""substitution and evaluation of terms/values"""
from .terms import *
from . import terms as TM


def rebuild_atom(a):
    k = a[0]
    if k == 'div':
        return div(a[1], a[2])
    if k == 'wrap':
        return wrap(a[1], a[2])
    if k == 'swrap':
        return swrap(a[1], a[2])
    if k == 'bit':
        return bit(a[1], a[2])
    if k == 'b':
        return bval(a[1])
    if k == 'ite':
        return ite(a[1], a[2], a[3])
    if k == 'mul':
        return mul(a[1], a[2])
    if k == 'or':
        return bor(a[1], a[2])
    if k == 'and':
        return band(a[1], a[2])
    if k == 'shr':
        return shr(a[1], a[2])
    if k == 'pow2':
        return shl(1, a[1])
    if k == 'el':
        from . import seqs
        return seqs.rebuild_el(a)
    if k == 'len':
        from . import seqs
        return seqs.rebuild_len(a)
    return atom(a)


def subst(x, m, memo=None):
    """replace atoms (by id) with integer terms inside any value"""
    if memo is None:
        memo = {}
    if isinstance(x, Lin):
        r = memo.get(x)
        if r is not None:
            return r
        out = x.c
        for i, v in x.t:
            y = m.get(i)
            if y is None:
                y = memo.get(('a', i))
                if y is None:
                    a = TM.ATOMS[i]
                    na = tuple(subst(z, m, memo) if isinstance(z, (Lin, tuple)) else z for z in a)
                    y = Lin(((i, 1),), 0) if na == a else rebuild_atom(na)
                    memo[('a', i)] = y
            out = add(out, mulc(y, v))
        memo[x] = out
        return out
    if isinstance(x, tuple):
        if not x:
            return x
        k = x[0]
        if k in ('ge', 'eq', 'ne') and len(x) == 2 and isinstance(x[1], Lin):
            y = subst(x[1], m, memo)
            return {'ge': ge, 'eq': eq, 'ne': ne}[k](y)
        if k == 'and' and len(x) == 3:
            return andc(subst(x[1], m, memo), subst(x[2], m, memo))
        if k == 'or' and len(x) == 3 and isinstance(x[1], tuple):
            return orc(subst(x[1], m, memo), subst(x[2], m, memo))
        n = tuple(subst(z, m, memo) if isinstance(z, (Lin, tuple)) else z for z in x)
        if n == x:
            return x
        if k == 'seq':
            from . import seqs
            return seqs.norm(n)
        return n
    return x
