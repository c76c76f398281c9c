"""values: symbolic initial values, records, symbolic sequences"""
from . import terms as TM
from .terms import *
from .subst import subst

P = None        # the loaded program (set by loader)


def ty(tid):
    return P.types[tid]


def strip_ref(tid):
    t = ty(tid)
    while t['k'] in ('ref', 'rref'):
        tid = t['e']
        t = ty(tid)
    return tid


PTRS = {'std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr'}
SEQS = {'std::vector', 'std::deque', 'std::list', 'std::array', 'std::initializer_list', 'std::forward_list', 'std::queue', 'std::stack'}
MAPS = {'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap'}


def tname(tid):
    t = ty(strip_ref(tid))
    return t.get('tn')


def int_range(t):
    if t['k'] == 'bool':
        return 0, 1
    w = t['w']
    if t.get('sg'):
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1


def init_sym(tid, name):
    """symbolic initial value of an object of a type, called `name`"""
    tid = strip_ref(tid)
    t = ty(tid)
    k = t['k']
    if k in ('int', 'bool') or (k == 'enum' and 'w' in t):
        lo, hi = int_range(t)
        if isinstance(name, tuple) and name and name[0] == 'at':
            return atom(('el', name[1], name[2], lo, hi))
        return sym(name, lo, hi)
    if k == 'ptr':
        return ('sptr', name, t['e'])
    if k == 'null':
        return ('null',)
    if k == 'rec':
        tn = t.get('tn')
        if tn in PTRS:
            return ('sptr', name, t['ta'][0])
        if tn == 'std::array' :
            n = t['ta'][1]['v'] if isinstance(t['ta'][1], dict) else None
            return ('seq', (('sl', ('sb', name, t['ta'][0]), 0, n),))
        if tn in SEQS:
            b = ('sb', name, t['ta'][0])
            return ('seq', (('sl', b, 0, atom(('len', b))),))
        if tn in MAPS:
            return ('map', name, tid, ())
        if tn == 'std::function':
            return ('sfn', name)
        if tn == 'std::atomic' or tn == 'std::__atomic_base' :
            return init_sym(t['ta'][0], name)
        if tn in ('std::basic_string',):
            return ('str', name)
        if tn == 'modbus::Expected':
            return ('sexp', name, t['ta'][0])
        if tn == 'ser4cpp::RSeq':
            b = ('sb', ('bytes', name), None)
            return ('rseq', b, 0, sym(('len', name), 0, None))
        if tn == 'ser4cpp::WSeq':
            return ('wseq', ('lv', ('wbuf', name), ()), 0, sym(('cap', name), 0, None))
        if tn == 'std::optional':
            return ('sopt', name, t['ta'][0])
        if tn in ('std::pair',) and t.get('ta'):
            return ('rec', t['c'], (('first', init_sym(t['ta'][0], ('fld', name, 'first'))), ('second', init_sym(t['ta'][1], ('fld', name, 'second')))))
        if t['c'] in P.records:
            return ('srec', t['c'], name)
        return ('opq', name, tid)
    return ('opq', name, tid)


def elem(base, idx):
    """element idx of a symbolic base sequence"""
    eltid = base[2]
    if eltid is None:
        return atom(('el', base, idx, 0, 255))
    return init_sym(eltid, ('at', base, idx))


def rebuild_el(a):
    return atom(a)


def rebuild_len(a):
    return atom(a)


def max_bv(x, memo=None):
    if memo is None:
        memo = {}
    if isinstance(x, Lin):
        if x in memo:
            return memo[x]
        r = 0
        for i, _ in x.t:
            a = TM.ATOMS[i]
            r = max(r, a[1] if a[0] == 'bv' else max_bv(a, memo))
        memo[x] = r
        return r
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'bv' and isinstance(x[1], int):
            return x[1]
        r = 0
        for y in x:
            if isinstance(y, (Lin, tuple)):
                r = max(r, max_bv(y, memo))
        return r
    return 0


def seglen(s):
    if s[0] == 'one':
        return 1
    if s[0] == 'sl':
        return s[3]
    n = seqlen(('seq', s[2]))
    if isinstance(n, int):
        return mulc(s[1], n)
    if isinstance(s[1], int):
        return mulc(n, s[1])
    if max_bv(n) == 0:
        return mul(n, s[1])
    return atom(('f', 'sumlen', s, 0, None))


def seqlen(q):
    n = 0
    for s in q[1]:
        n = add(n, seglen(s))
    return n


def comp(n, segs, hole):
    """n copies of segs, hole (an atom id) being the copy's index"""
    d = 1 + inner_depth(segs)
    bv = atom(('bv', d))
    return ('comp', n, subst(segs, {hole: bv}))


def norm(q):
    out = []
    for s in q[1]:
        if s[0] == 'sl':
            if s[3] == 0:
                continue
            if out and out[-1][0] == 'sl' and out[-1][1] == s[1] and add(out[-1][2], out[-1][3]) == s[2]:
                p = out.pop()
                s = ('sl', p[1], p[2], add(p[3], s[3]))
            out.append(s)
        elif s[0] == 'comp':
            if s[1] == 0:
                continue
            if isinstance(s[1], int) and s[1] > 0 and s[1] <= 64:
                for i in range(s[1]):
                    out.extend(norm(('seq', tinst(s, i)))[1])
                continue
            # element-wise copies of a symbolic base are slices
            if len(s[2]) == 1 and s[2][0][0] == 'one':
                b = base_elem(s[2][0][1])
                if b is not None:
                    off = sub(b[1], atom(('bv', 1)))
                    if max_bv(off) == 0:
                        n = ('sl', b[0], off, s[1])
                        out = list(norm(('seq', tuple(out) + (n,)))[1])
                        continue
            out.append(s)
        else:
            # a single element continuing a slice
            if out and out[-1][0] == 'sl':
                b = base_elem(s[1])
                if b is not None and b[0] == out[-1][1] and b[1] == add(out[-1][2], out[-1][3]):
                    p = out.pop()
                    out.append(('sl', p[1], p[2], add(p[3], 1)))
                    continue
            out.append(s)
            # fold an instance of the preceding comprehension
            for k in range(1, 17):
                if len(out) > k and out[-1 - k][0] == 'comp' and len(out[-1 - k][2]) == k:
                    c = out[-1 - k]
                    if tuple(out[-k:]) == tinst(c, c[1]):
                        del out[-1 - k:]
                        out.append(('comp', add(c[1], 1), c[2]))
                        break
    return ('seq', tuple(out))


def tinst(c, val):
    """template of comp segment c at index val; the binder is numbered one above
    every binder nested in the template"""
    d = inner_depth(c[2]) + 1
    return subst(c[2], {aid(('bv', d)): val})


def inner_depth(segs):
    """largest binder number bound inside segs"""
    d = 0

    def walk(x):
        nonlocal d
        if isinstance(x, Lin):
            for i, _ in x.t:
                walk(TM.ATOMS[i])
        elif isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'comp':
                d = max(d, inner_depth(x[2]) + 1)
            for y in x:
                if isinstance(y, (Lin, tuple)):
                    walk(y)
    walk(segs)
    return d


def base_elem(v):
    """(base, index) when v is exactly one element of a symbolic base"""
    if isinstance(v, Lin):
        a = single(v)
        if a is not None and a[0] == 'el' and isinstance(a[1], tuple) and a[1][0] == 'sb':
            return a[1], a[2]
        return None
    if isinstance(v, tuple) and len(v) >= 2:
        n = None
        if v[0] in ('srec',):
            n = v[2]
        elif v[0] in ('sptr', 'sfn', 'str', 'opq', 'sexp'):
            n = v[1]
        if isinstance(n, tuple) and n and n[0] == 'at':
            return n[1], n[2]
    return None


EMPTY = ('seq', ())


def push(q, v):
    return norm(('seq', q[1] + (('one', v),)))


def concat(a, b):
    return norm(('seq', a[1] + b[1]))


def seq_get(q, idx, F=None):
    """element idx of a sequence (None when it cannot be located)"""
    off = 0
    n = len(q[1])
    for j, s in enumerate(q[1]):
        L = seglen(s)
        rel = sub(idx, off)
        last = j == n - 1
        inside = last
        if not last:
            c = ge(sub(sub(L, 1), rel))
            d = c if isinstance(c, bool) else (F.decide(c) if F is not None else None)
            if d is None:
                return None
            inside = d
        if inside:
            if s[0] == 'one':
                if rel == 0 or last:
                    return s[1]
                return None
            if s[0] == 'sl':
                return elem(s[1], add(s[2], rel))
            k = len(s[2])
            if all(x[0] == 'one' for x in s[2]):
                if k == 1:
                    return tinst(s, rel)[0][1]
                i = mod(rel, k, F)
                if isinstance(i, int):
                    return tinst(s, div(rel, k, F))[i][1]
            return None
        off = add(off, L)
    return None


def seq_slice(q, off, n, F=None):
    """n elements from off, when cut points fall on segment boundaries or in slices"""
    out = []
    pos = 0
    want = n
    start = off
    for s in q[1]:
        L = seglen(s)
        if want == 0:
            break
        rel = sub(start, pos)
        # start inside this segment?
        c = ge(sub(sub(L, 1), rel))
        d = c if isinstance(c, bool) else (F.decide(c) if F is not None else None)
        if d is False:
            pos = add(pos, L)
            continue
        if d is None:
            c = ge(sub(want, L))
            if rel == 0 and (c if isinstance(c, bool) else F is not None and F.decide(c)):
                out.append(s)
                want = sub(want, L)
                start = add(start, L)
                pos = add(pos, L)
                continue
            if not (s[0] == 'sl' or rel == 0):
                return None
            # rel <= L is enough: an empty remainder contributes nothing
            c = ge(sub(L, rel))
            if not (c if isinstance(c, bool) else F is not None and F.decide(c)):
                return None
        avail = sub(L, rel)
        c = ge(sub(want, avail))
        full = c if isinstance(c, bool) else (F.decide(c) if F is not None else None)
        if full is None:
            return None
        take = avail if full else want
        if s[0] == 'one':
            out.append(s)
        elif s[0] == 'sl':
            out.append(('sl', s[1], add(s[2], rel), take))
        elif rel == 0 and full:
            out.append(s)
        else:
            return None
        want = sub(want, take)
        start = add(start, take)
        pos = add(pos, L)
    if want != 0:
        return None
    return norm(('seq', tuple(out)))


def seq_set(q, idx, v, F=None):
    """functional update where the position can be located exactly"""
    off = 0
    n = len(q[1])
    out = list(q[1])
    for j, s in enumerate(q[1]):
        L = seglen(s)
        rel = sub(idx, off)
        c = ge(sub(sub(L, 1), rel))
        d = c if isinstance(c, bool) else (F.decide(c) if F is not None else None)
        if d is None and j == n - 1:
            d = True
        if d is None:
            return None
        if d:
            if s[0] == 'one':
                out[j] = ('one', v)
                return norm(('seq', tuple(out)))
            if s[0] == 'sl':
                out[j:j + 1] = [('sl', s[1], s[2], rel), ('one', v), ('sl', s[1], add(add(s[2], rel), 1), sub(sub(s[3], rel), 1))]
                return norm(('seq', tuple(out)))
            if s[0] == 'comp' and len(s[2]) == 1 and s[2][0][0] == 'one' and max_bv(s[2][0][1]) == 0:
                out[j:j + 1] = [('comp', rel, s[2]), ('one', v), ('comp', sub(sub(s[1], rel), 1), s[2])]
                return norm(('seq', tuple(out)))
            return None
        off = add(off, L)
    return None


# ------------------------------------------------------------------- records
def rec_get(v, f):
    for n, x in v[2]:
        if n == f:
            return x
    return None


def rec_set(v, f, x):
    out = []
    done = False
    for n, y in v[2]:
        if n == f:
            out.append((n, x))
            done = True
        else:
            out.append((n, y))
    if not done:
        out.append((f, x))
    return (v[0], v[1], tuple(out)) + v[3:]


def fields_of(cls):
    """[(name, tid)] including bases"""
    r = P.records.get(cls)
    if r is None:
        return []
    out = []
    for b in r['bases']:
        out += fields_of(ty(b).get('c'))
    out += [(f['n'], f['t']) for f in r['fields']]
    return out


def field_type(cls, f):
    for n, t in fields_of(cls):
        if n == f:
            return t
    return None
