"""concrete evaluation of normal forms and search for integer witnesses.

Used only to *refute*: a path whose computed value differs from the specified
one is reported only together with integer values of the inputs that satisfy
the path's facts and on which the two normal forms evaluate differently."""
import random
import zlib
from . import terms as TM
from . import seqs as Q
from .terms import *
from .seqs import init_sym, ty, fields_of, rec_get
from .interp import is_lv


class NoVal(Exception):
    pass


CONSTS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 63, 64, 65, 100, 123, 124, 125, 126, 127, 128, 129, 130, 246, 250, 251, 252, 253, 254, 255, 256, 257, 259, 260, 261, 512, 1000, 1024, 1968, 1969, 2000, 2001, 4096, 32767, 32768, 32769, 49152, 65279, 65280, 65281, 65533, 65534, 65535)


class Model:
    """assignment of integers to leaf atoms; unassigned leaves get a value on demand"""

    def __init__(self, seed=0, style=None):
        self.vals = {}
        self.preds = {}
        self.rnd = random.Random(seed)
        self.style = style
        self.bv = {}
        self.idx = {}

    def default(self, key, lo, hi):
        lo = 0 if lo is None else lo
        hi = lo + 300 if hi is None else hi
        r = random.Random(zlib.crc32(repr((self.rnd_seed(), key)).encode()))
        if self.style == 'lo':
            return lo
        if self.style == 'hi':
            return hi
        if self.style == 'index':
            # neighbouring elements differ
            k = key[2] if len(key) > 2 and isinstance(key[2], int) else 0
            return lo + (k * 7 + 3) % (hi - lo + 1)
        return r.randint(lo, hi)

    def rnd_seed(self):
        return getattr(self, '_seed', 0)

    # ---- terms
    def num(self, x):
        if isinstance(x, int):
            return x
        s = x.c
        for i, k in x.t:
            s += k * self.atom(TM.ATOMS[i])
        return s

    def conc(self, x):
        """concretise every integer inside a name"""
        if isinstance(x, Lin):
            return self.num(x)
        if isinstance(x, tuple):
            return tuple(self.conc(y) for y in x)
        return x

    def leaf(self, key, lo, hi):
        v = self.vals.get(key)
        if v is None:
            v = self.default(key, lo, hi)
            self.vals[key] = v
        return v

    def atom(self, a):
        k = a[0]
        if k == 's':
            return self.leaf(('s', self.conc(a[1])), a[2], a[3])
        if k == 'el':
            return self.leaf(('el', self.conc(a[1]), self.num(a[2])), a[3], a[4])
        if k == 'len':
            return self.leaf(('len', self.conc(a[1])), 0, 40)
        if k == 'div':
            return self.num(a[1]) // a[2]
        if k == 'wrap':
            return self.num(a[2]) % (1 << a[1])
        if k == 'swrap':
            h = 1 << (a[1] - 1)
            return (self.num(a[2]) + h) % (2 * h) - h
        if k == 'bit':
            return (self.num(a[1]) >> self.num(a[2])) & 1
        if k == 'b':
            return int(self.cond(a[1]))
        if k == 'ite':
            return self.num(a[2]) if self.cond(a[1]) else self.num(a[3])
        if k == 'or':
            return self.num(a[1]) | self.num(a[2])
        if k == 'xor':
            return self.num(a[1]) ^ self.num(a[2])
        if k == 'and':
            return self.num(a[1]) & self.num(a[2])
        if k == 'mul':
            return self.num(a[1]) * self.num(a[2])
        if k == 'shr':
            return self.num(a[1]) >> self.num(a[2])
        if k == 'pow2':
            return 1 << self.num(a[1])
        if k == 'bv':
            if a[1] in self.bv:
                return self.bv[a[1]]
            raise NoVal(a)
        if k == 'quot':
            d = self.num(a[2])
            if d == 0:
                raise NoVal(a)
            return self.num(a[1]) // d
        raise NoVal(a)

    def cond(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'ge':
            return self.num(c[1]) >= 0
        if k == 'eq':
            return self.num(c[1]) == 0
        if k == 'ne':
            return self.num(c[1]) != 0
        if k == 'and':
            return self.cond(c[1]) and self.cond(c[2])
        if k == 'or':
            return self.cond(c[1]) or self.cond(c[2])
        if k in ('p', 'np'):
            v = self.preds.get(c[1])
            if v is None:
                raise NoVal(c)
            return v if k == 'p' else not v
        raise NoVal(c)

    # ---- values
    def value(self, v, depth=0):
        """python value of a value of the domain"""
        if isinstance(v, (int, Lin)):
            return self.num(v)
        if v is None:
            return None
        if depth > 12:
            raise NoVal('depth')
        k = v[0]
        if k == 'rec':
            return {n: self.value(x, depth + 1) for n, x in v[2]}
        if k == 'srec':
            return {n: self.value(init_sym(t, ('fld', v[2], n)), depth + 1) for n, t in fields_of(v[1])}
        if k == 'seq':
            return self.segs(v[1], depth)
        if k == 'bytes':
            return self.value(v[1], depth + 1)
        if k == 'rseq':
            b = v[1]
            n, off = self.num(v[3]), self.num(v[2])
            if is_lv(b):
                raise NoVal(v)
            return [self.value(Q.elem(b, off + i), depth + 1) for i in range(n)]
        raise NoVal(k)

    def segs(self, segs, depth):
        out = []
        for s in segs:
            if s[0] == 'one':
                out.append(self.value(s[1], depth + 1))
            elif s[0] == 'sl':
                n, off = self.num(s[3]), self.num(s[2])
                if n > 70000:
                    raise NoVal('long')
                for i in range(n):
                    out.append(self.value(Q.elem(s[1], off + i), depth + 1))
            else:
                n = self.num(s[1])
                d = Q.inner_depth(s[2]) + 1
                old = self.bv.get(d)
                if n > 70000:
                    raise NoVal('long')
                for i in range(n):
                    self.bv[d] = i
                    out += self.segs(s[2], depth)
                if old is None:
                    self.bv.pop(d, None)
                else:
                    self.bv[d] = old
        return out


def leaves(x, acc):
    """leaf atoms (ids) on which a term depends, in order of appearance"""
    if isinstance(x, Lin):
        for i, _ in x.t:
            a = TM.ATOMS[i]
            if a[0] in ('s', 'len'):
                acc.setdefault(i)
            elif a[0] == 'el':
                leaves(a[2], acc)
                if isinstance(a[2], int):
                    acc.setdefault(i)
            for y in a:
                if isinstance(y, (Lin, tuple)):
                    leaves(y, acc)
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (Lin, tuple)):
                leaves(y, acc)
    return acc


def bound(F, x, up):
    """tightest bound of x under the facts (binary search on entailment)"""
    lo, hi = rng2(x)
    if up:
        h = hi if hi is not None else 1 << 20
        l = lo if lo is not None else -(1 << 20)
        if hi is None and not F.entails_ge(sub(h, x)):
            return h
        while l < h:
            m = (l + h) // 2
            if F.entails_ge(sub(m, x)):
                h = m
            else:
                l = m + 1
        return h
    h = hi if hi is not None else 1 << 20
    l = lo if lo is not None else -(1 << 20)
    if lo is None and not F.entails_ge(sub(x, l)):
        return l
    while l < h:
        m = (l + h + 1) // 2
        if F.entails_ge(sub(x, m)):
            l = m
        else:
            h = m - 1
    return l


def extra_conds(univ, m):
    """the universally quantified facts of a path under a model"""
    from .subst import subst
    for u in univ:
        if u[0] != 'forall':
            continue
        n = m.num(u[1])
        for i in range(min(n, 3000)):
            c = subst(u[3], {u[2]: i})
            if not m.cond(c):
                return False
    return True


def models(st, seed=1, n=6, also=()):
    """integer assignments satisfying the facts of a path"""
    out = []
    styles = ('index', None, 'lo', 'hi')
    for t in range(n * 3):
        m = Model(style=styles[t % 4])
        m._seed = seed * 1000 + t
        m.rnd = random.Random(seed * 1000 + t)
        m.preds = dict(st.facts.preds)
        F = st.facts.copy()
        acc = {}
        for c in F.cs:
            leaves(c, acc)
        for c in also:
            leaves(c, acc)
        order = sorted(acc, key=lambda i: (TM.ATOMS[i][0] == 'el', 0))
        ok = True
        for i in order:
            a = TM.ATOMS[i]
            x = Lin(((i, 1),), 0)
            try:
                key = ('s', m.conc(a[1])) if a[0] == 's' else ('len', m.conc(a[1])) if a[0] == 'len' else ('el', m.conc(a[1]), m.num(a[2]))
            except NoVal:
                continue
            if key in m.vals:
                if not F.add(eq(sub(x, m.vals[key]))):
                    ok = False
                    break
                continue
            lo, hi = bound(F, x, False), bound(F, x, True)
            if lo > hi:
                ok = False
                break
            pick = [lo, hi]
            cs = [c for c in CONSTS if lo <= c <= hi]
            if a[0] in ('s', 'len') and hi - lo > 5000:
                hi2 = min(hi, lo + 5000) if a[0] == 'len' else hi
            else:
                hi2 = hi
            rs = [m.rnd.randint(lo, hi2) for _ in range(6)]
            m.rnd.shuffle(cs)
            cand = {0: [lo] + cs + rs, 1: rs + cs, 2: cs + rs + [lo], 3: [hi2] + rs + cs}[t % 4]
            cand += list(range(lo, min(hi, lo + 64) + 1)) + [hi]
            for v in cand:
                G = F.copy()
                if G.add(eq(sub(x, v))):
                    F = G
                    m.vals[key] = v
                    break
            else:
                ok = False
                break
        if not ok:
            continue
        try:
            if all(m.cond(c) for c in st.facts.cs) and extra_conds(st.univ, m):
                out.append(m)
        except NoVal:
            continue
        if len(out) >= n:
            break
    return out


# -------------------------------------------------------------- equality proofs
def same_value(F, a, b, depth=0):
    """both values are equal under the facts (sound, incomplete)"""
    if a == b:
        return True
    if is_int(a) and is_int(b):
        return F.entails(eq(sub(a, b)))
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return False
    if a[0] == 'bytes':
        return same_value(F, a[1], b, depth)
    if b[0] == 'bytes':
        return same_value(F, a, b[1], depth)
    if a[0] in ('rec', 'srec') and b[0] in ('rec', 'srec'):
        if a[1] != b[1]:
            return False
        fa = [n for n, _ in fields_of(a[1])]

        def get(v, n):
            if v[0] == 'rec':
                return rec_get(v, n)
            return init_sym(dict(fields_of(v[1]))[n], ('fld', v[2], n))
        return all(get(a, n) is not None and get(b, n) is not None and same_value(F, get(a, n), get(b, n), depth + 1) for n in fa)
    if a[0] == 'seq' and b[0] == 'seq':
        return same_segs(F, list(a[1]), list(b[1]))
    return False


def same_segs(F, a, b):
    a, b = list(a), list(b)
    while a or b:
        a = [s for s in a[:1] if not (Q.seglen(s) == 0)] + a[1:]
        b = [s for s in b[:1] if not (Q.seglen(s) == 0)] + b[1:]
        if not a and not b:
            return True
        if not a or not b:
            rest = a or b
            return all(F.entails(eq(Q.seglen(s))) if not isinstance(Q.seglen(s), int) else Q.seglen(s) == 0 for s in rest)
        x, y = a[0], b[0]
        if x == y:
            a.pop(0)
            b.pop(0)
            continue
        lx, ly = Q.seglen(x), Q.seglen(y)
        if x[0] == 'one' and y[0] == 'one':
            if not same_value(F, x[1], y[1]):
                return False
            a.pop(0)
            b.pop(0)
            continue
        # empty segments
        hit = False
        for s, l in ((a, lx), (b, ly)):
            if not isinstance(l, int) and F.entails(eq(l)):
                s.pop(0)
                hit = True
        if hit:
            continue
        if x[0] == 'comp' and y[0] == 'comp':
            if len(x[2]) == len(y[2]):
                n = x[1]
                if not F.entails(eq(sub(x[1], y[1]))):
                    return False
                bv = sym(('pos', 'cmp'), 0, None)
                G = F.copy()
                G.add(ge(sub(sub(n, 1), bv)))
                if not same_segs(G, list(Q.tinst(x, bv)), list(Q.tinst(y, bv))):
                    return False
                a.pop(0)
                b.pop(0)
                continue
            return False
        if x[0] == 'sl' and y[0] == 'sl' and x[1] == y[1] and F.entails(eq(sub(x[2], y[2]))) and F.entails(eq(sub(lx, ly))):
            a.pop(0)
            b.pop(0)
            continue
        # slices of the same bytes cut at different places
        if x[0] == 'sl' and y[0] == 'sl' and x[1] == y[1] and F.entails(eq(sub(x[2], y[2]))):
            if F.entails_ge(sub(ly, lx)):
                a.pop(0)
                b[0] = ('sl', y[1], add(y[2], lx), sub(ly, lx))
                continue
            if F.entails_ge(sub(lx, ly)):
                b.pop(0)
                a[0] = ('sl', x[1], add(x[2], ly), sub(lx, ly))
                continue
        # slice against template of single elements
        if x[0] == 'sl' and y[0] == 'comp' and len(y[2]) == 1:
            x2 = None
            if F.entails(eq(sub(lx, y[1]))):
                bv = sym(('pos', 'cmp'), 0, None)
                if same_value(F, Q.elem(x[1], add(x[2], bv)), Q.tinst(y, bv)[0][1]):
                    a.pop(0)
                    b.pop(0)
                    continue
            return False
        if y[0] == 'sl' and x[0] == 'comp':
            a, b = b, a
            continue
        # peel one element off a slice
        if x[0] == 'sl' and y[0] == 'one' and F.entails_ge(sub(lx, 1)):
            a[0:1] = [('one', Q.elem(x[1], x[2])), ('sl', x[1], add(x[2], 1), sub(lx, 1))]
            continue
        if y[0] == 'sl' and x[0] == 'one' and F.entails_ge(sub(ly, 1)):
            a, b = b, a
            continue
        # peel one instance off a comprehension
        if x[0] == 'comp' and F.entails_ge(sub(x[1], 1)) and y[0] == 'one':
            bv = atom(('bv', Q.inner_depth(x[2]) + 1))
            from .subst import subst
            a[0:1] = list(Q.tinst(x, 0)) + [('comp', sub(x[1], 1), subst(x[2], {aid(('bv', Q.inner_depth(x[2]) + 1)): add(bv, 1)}))]
            continue
        if y[0] == 'comp' and F.entails_ge(sub(y[1], 1)) and x[0] == 'one':
            a, b = b, a
            continue
        return False
    return True
