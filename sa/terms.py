"""Integer terms, conditions and the relational (linear) abstract domain.

Every integer the analysed program computes is represented in a normal form:
a linear combination of atoms.  Atoms are symbols (inputs), floor quotients by a
positive constant (which also give bytes, bits, remainders and masks), wrapped
values whose wrap could not be removed, elements/lengths of symbolic sequences
and a few uninterpreted forms.  Equal normal forms are equal values.

`Facts` is the abstract state's relational component: a conjunction of linear
constraints over atoms, with an emptiness test by elimination (the classical
convex-polyhedra operations, with integer tightening).
"""
from functools import lru_cache

INTERN = {}
ATOMS = []


def aid(atom):
    i = INTERN.get(atom)
    if i is None:
        i = len(ATOMS)
        INTERN[atom] = i
        ATOMS.append(atom)
    return i


class Lin:
    """linear combination; t = tuple of (atom id, coef) sorted by id, c = constant"""
    __slots__ = ('t', 'c', 'h')

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self.h = hash((t, c))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return show(self)


def mk(d, c):
    t = tuple(sorted((a, k) for a, k in d.items() if k != 0))
    if not t:
        return c
    return Lin(t, c)


def atom(a):
    return Lin(((aid(a), 1),), 0)


def parts(x):
    if isinstance(x, Lin):
        return dict(x.t), x.c
    return {}, int(x)


def is_int(x):
    return isinstance(x, (int, Lin))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int):
        return Lin(a.t, a.c + b)
    if isinstance(a, int):
        return Lin(b.t, b.c + a)
    d, c = parts(a)
    for k, v in b.t:
        d[k] = d.get(k, 0) + v
    return mk(d, c + b.c)


def mulc(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    return Lin(tuple((x, v * k) for x, v in a.t), a.c * k)


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    return add(a, mulc(b, -1))


def single(x):
    """the atom if x is exactly one atom with coefficient 1"""
    if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
        return ATOMS[x.t[0][0]]
    return None


# ---------------------------------------------------------------- ranges
def arange(a):
    """(lo, hi) of an atom, None = unbounded"""
    k = a[0]
    if k in ('s', 'el', 'f', 'top'):
        return a[-2], a[-1]
    if k == 'div':
        lo, hi = rng(a[1])
        return (None if lo is None else lo // a[2]), (None if hi is None else hi // a[2])
    if k == 'wrap':
        return 0, (1 << a[1]) - 1
    if k == 'swrap':
        return -(1 << (a[1] - 1)), (1 << (a[1] - 1)) - 1
    if k == 'len' or k == 'bv':
        return 0, None
    if k in ('bit', 'b'):
        return 0, 1
    if k == 'ite':
        l1, h1 = rng(a[2])
        l2, h2 = rng(a[3])
        return (None if l1 is None or l2 is None else min(l1, l2)), (None if h1 is None or h2 is None else max(h1, h2))
    if k in ('or', 'xor'):
        l1, h1 = rng(a[1])
        l2, h2 = rng(a[2])
        if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0 and h1 is not None and h2 is not None:
            return 0, (1 << max(h1.bit_length(), h2.bit_length())) - 1
        return None, None
    if k == 'and':
        l1, h1 = rng(a[1])
        l2, h2 = rng(a[2])
        if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
            hs = [h for h in (h1, h2) if h is not None]
            return 0, (min(hs) if hs else None)
        return None, None
    if k == 'mul':
        l1, h1 = rng(a[1])
        l2, h2 = rng(a[2])
        if l1 is not None and l1 >= 0 and l2 is not None and l2 >= 0:
            return l1 * l2, (None if h1 is None or h2 is None else h1 * h2)
        return None, None
    if k == 'quot':
        l1, h1 = rng(a[1])
        if l1 is not None and l1 >= 0:
            return 0, h1
        return None, None
    if k == 'shr':
        l1, h1 = rng(a[1])
        if l1 is not None and l1 >= 0:
            return 0, h1
        return None, None
    if k == 'pow2':
        return 1, None
    return None, None


def rng(x):
    if isinstance(x, int):
        return x, x
    lo = hi = x.c
    for i, k in x.t:
        l, h = arange(ATOMS[i])
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + l * k
        hi = None if hi is None or h is None else hi + h * k
    return lo, hi


# ---------------------------------------------------------------- constructors
def sym(name, lo=None, hi=None):
    return atom(('s', name, lo, hi))


def div(x, k, F=None):
    """floor(x / k) for constant k > 0"""
    if isinstance(x, int):
        return x // k
    if k == 1:
        return x
    out, rest, c = {}, {}, x.c
    for i, v in x.t:
        q, r = divmod(v, k)
        # keep small negative remainders negative so that k*div cancels
        if v % k == 0:
            out[i] = v // k
        else:
            rest[i] = v
    q, r = divmod(c, k)
    o = mk(out, q)
    r = mk(rest, r)
    if isinstance(r, int):
        return add(o, r // k)
    lo, hi = rng(r)
    if lo is not None and hi is not None and lo // k == hi // k:
        return add(o, lo // k)
    if F is not None:
        if F.entails_ge(r) and F.entails_ge(sub(k - 1, r)):
            return o
    s = single(r)
    if s is not None and s[0] == 'div':
        return add(o, atom(('div', s[1], s[2] * k)))
    # div(j*x + c, k) with a common factor g of coefs and k:  div(div(.., g), k/g)
    from math import gcd
    g = k
    for _, v in r.t:
        g = gcd(g, v)
    if g > 1:
        inner = mk({i: v // g for i, v in r.t}, r.c // g)
        return add(o, div(inner, k // g, F))
    return add(o, atom(('div', r, k)))


def mod(x, k, F=None):
    return sub(x, mulc(div(x, k, F), k))


def wrap(w, x, F=None):
    """x mod 2^w"""
    m = 1 << w
    if isinstance(x, int):
        return x % m
    lo, hi = rng2(x)
    if lo is not None and hi is not None and lo >= 0 and hi < m:
        return x
    if F is not None and F.entails_ge(x) and F.entails_ge(sub(m - 1, x)):
        return x
    # drop inner multiples of 2^w, unwrap nested wraps of at least the same width
    d, c = parts(x)
    chg = False
    for i, v in list(d.items()):
        a = ATOMS[i]
        if a[0] in ('wrap', 'swrap') and a[1] >= w:
            del d[i]
            c2 = mulc(a[2], v)
            dd, cc = parts(c2)
            for j, u in dd.items():
                d[j] = d.get(j, 0) + u
            c += cc
            chg = True
        elif v % m == 0:
            del d[i]
            chg = True
    if chg:
        return wrap(w, mk(d, c), F)
    if not 0 <= c < m:
        return wrap(w, mk(d, c % m), F)
    if lo is not None and lo >= 0:
        return mod(x, m)
    return atom(('wrap', w, x))


def swrap(w, x, F=None):
    h = 1 << (w - 1)
    if isinstance(x, int):
        return (x + h) % (2 * h) - h
    lo, hi = rng2(x)
    if lo is not None and hi is not None and lo >= -h and hi < h:
        return x
    if F is not None and F.entails_ge(add(x, h)) and F.entails_ge(sub(h - 1, x)):
        return x
    return atom(('swrap', w, x))


def bit(x, i):
    """bit i of non-negative x"""
    if isinstance(i, int):
        if i >= 64:
            return 0
        return sub(div(x, 1 << i), mulc(div(x, 2 << i), 2))
    if isinstance(x, int) and x == 0:
        return 0
    return atom(('bit', x, i))


def nonneg(x):
    lo, _ = rng(x)
    return lo is not None and lo >= 0


def occupied(x):
    """bit mask that non-negative x may have set, None when unknown"""
    if isinstance(x, int):
        return x if x >= 0 else None
    m = x.c
    if m < 0:
        return occ2(x)
    for i, v in x.t:
        lo, hi = arange(ATOMS[i])
        if v <= 0 or v & (v - 1) or lo is None or lo < 0 or hi is None:
            return occ2(x)
        b = ((1 << hi.bit_length()) - 1) * v
        if b & m:
            return occ2(x)
        m |= b
    return m


def occ2(x):
    """recognise bit fields written as div(x,a) - k*div(x,a*k)"""
    lo, hi = rng2(x)
    if lo is not None and lo >= 0 and hi is not None:
        # a multiple of 2^s with an upper bound
        s = 0
        while x.c % (2 << s) == 0 and all(v % (2 << s) == 0 for _, v in x.t) and s < 63:
            s += 1
        top = (1 << hi.bit_length()) - 1
        return top & ~((1 << s) - 1)
    return None


def rng2(x):
    """range that understands x - k*div(x,k) remainders"""
    if isinstance(x, int):
        return x, x
    lo, hi = rng(x)
    if lo is not None and hi is not None and lo >= 0:
        # may still be improvable; fine
        pass
    d, c = parts(x)
    L, H = c, c
    used = set()
    items = sorted(d.items(), key=lambda p: -abs(p[1]))
    for i, v in items:
        if i in used:
            continue
        a = ATOMS[i]
        if a[0] == 'div' and v < 0:
            k = a[2]
            # v*div(y,k): look for +g*div(y,k/f) with g*f == -v
            base = a[1]
            found = None
            for j, u in items:
                if j in used or j == i or u <= 0:
                    continue
                b = ATOMS[j]
                if b[0] == 'div' and b[1] == base and k % b[2] == 0 and (k // b[2]) * u == -v:
                    found = (j, u, (k // b[2]))
                elif (single(base) == b) and k * u == -v:
                    found = (j, u, k)
            if found:
                used.add(i)
                used.add(found[0])
                H = None if H is None else H + found[1] * (found[2] - 1)
                continue
            # base itself a sum:  base - k*div(base,k)
            if isinstance(base, Lin) and (-v) % k == 0:
                g = -v // k
                dd, cc = parts(mulc(base, g))
                if all(d.get(jj) == uu and jj not in used for jj, uu in dd.items()):
                    for jj in dd:
                        used.add(jj)
                    used.add(i)
                    L = None if L is None else L - cc
                    H = None if H is None else H - cc + g * (k - 1)
                    continue
    for i, v in items:
        if i in used:
            continue
        l, h = arange(ATOMS[i])
        if v < 0:
            l, h = h, l
        L = None if L is None or l is None else L + l * v
        H = None if H is None or h is None else H + h * v
    if L is None or (lo is not None and lo > L):
        L = lo
    if H is None or (hi is not None and hi < H):
        H = hi
    return L, H


def bor(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int):
        a, b = b, a
    if b == 0:
        return a
    oa, ob = occupied(a), occupied(b)
    if oa is not None and ob is not None and oa & ob == 0:
        return add(a, b)
    if isinstance(b, int) and b > 0 and nonneg2(a):
        return sub(add(a, b), band(a, b))
    return atom(('or', a, b))


def nonneg2(x):
    lo, _ = rng2(x)
    return lo is not None and lo >= 0


def band(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if b == 0:
        return 0
    if isinstance(b, int) and b > 0 and nonneg2(a):
        out = 0
        i = 0
        while b >> i:
            if (b >> i) & 1:
                j = i
                while (b >> j) & 1:
                    j += 1
                # bits i..j-1
                f = sub(div(a, 1 << i), mulc(div(a, 1 << j), 1 << (j - i)))
                lo, hi = rng2(a)
                if hi is not None and hi < (1 << j):
                    f = div(a, 1 << i)
                out = add(out, mulc(f, 1 << i))
                i = j
            else:
                i += 1
        return out
    if b == 1 or a == 1:
        x = a if b == 1 else b
        return mod(x, 2)
    sa = single(a)
    sb = single(b)
    # (x >> i) & 1 handled by b == 1 above when i constant; symbolic shift:
    return atom(('and', a, b))


def shr(a, k, F=None):
    if isinstance(k, int):
        return div(a, 1 << k, F)
    return atom(('shr', a, k))


def shl(a, k):
    if isinstance(k, int):
        return mulc(a, 1 << k) if k < 128 else atom(('top', ('shl', k), None, None))
    if a == 1:
        return atom(('pow2', k))
    return atom(('mul', a, atom(('pow2', k))))


def mul(a, b):
    if isinstance(a, int):
        return mulc(b, a)
    if isinstance(b, int):
        return mulc(a, b)
    if aid(('mulkey', a)) > aid(('mulkey', b)):
        a, b = b, a
    return atom(('mul', a, b))


# ---------------------------------------------------------------- conditions
# True / False / ('ge', lin) lin>=0 / ('eq', lin) / ('ne', lin) / ('and',a,b) /
# ('or',a,b) / ('p', pred) opaque / ('np', pred)
def ge(x):
    if isinstance(x, int):
        return x >= 0
    lo, hi = rng2(x)
    if lo is not None and lo >= 0:
        return True
    if hi is not None and hi < 0:
        return False
    from math import gcd
    g = 0
    for _, v in x.t:
        g = gcd(g, v)
    if g > 1:
        x = Lin(tuple((i, v // g) for i, v in x.t), x.c // g)
    return ('ge', x)


def eq(x):
    if isinstance(x, int):
        return x == 0
    lo, hi = rng2(x)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    if x.t[0][1] < 0:
        x = neg(x)
    s = single(x)
    from math import gcd
    g = 0
    for _, v in x.t:
        g = gcd(g, v)
    if g > 1:
        if x.c % g:
            return False
        x = Lin(tuple((i, v // g) for i, v in x.t), x.c // g)
    # boolean atoms
    if len(x.t) == 1 and x.t[0][1] == 1:
        a = ATOMS[x.t[0][0]]
        if a[0] == 'b':
            if x.c == 0:
                return notc(a[1])
            if x.c == -1:
                return a[1]
    return ('eq', x)


def ne(x):
    return notc(eq(x))


def notc(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == 'ge':
        return ge(sub(-1, c[1]))
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'and':
        return orc(notc(c[1]), notc(c[2]))
    if k == 'or':
        return andc(notc(c[1]), notc(c[2]))
    if k == 'p':
        return ('np', c[1])
    if k == 'np':
        return ('p', c[1])
    raise ValueError(c)


def andc(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    if a == b:
        return a
    return ('and', a, b)


def orc(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    if a == b:
        return a
    return ('or', a, b)


def truth(v):
    """condition: integer value v != 0"""
    if isinstance(v, int):
        return v != 0
    s = single(v)
    if s is not None and s[0] == 'b':
        return s[1]
    if s is not None and arange(s) == (0, 1):
        return ('ge', sub(v, 1))
    lo, hi = rng2(v)
    if lo == 0 and hi == 1:
        return ('ge', sub(v, 1))
    if lo == -1 and hi == 0:
        return ('ge', sub(-1, v))
    return ne(v)


def bval(c):
    """0/1 value of a condition"""
    if c is True:
        return 1
    if c is False:
        return 0
    if c[0] == 'ge':
        lo, hi = rng2(c[1])
        if lo == -1 and hi == 0:
            return add(c[1], 1)
    if c[0] in ('eq', 'ne'):
        lo, hi = rng2(c[1])
        if lo == 0 and hi == 1:
            return c[1] if c[0] == 'ne' else sub(1, c[1])
        if lo == -1 and hi == 0:
            return neg(c[1]) if c[0] == 'ne' else add(1, c[1])
    return atom(('b', c))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    if is_int(a) and is_int(b):
        d = sub(a, b)
        if isinstance(d, int):
            return add(b, mulc(bval(c), d))
        return atom(('ite', c, a, b))
    return None


# ---------------------------------------------------------------- display
def show(x, depth=0):
    if isinstance(x, Lin):
        out = []
        for i, v in x.t:
            s = show(ATOMS[i], depth + 1)
            out.append(s if v == 1 else '%d*%s' % (v, s))
        if x.c or not out:
            out.append(str(x.c))
        r = ' + '.join(out)
        return '(%s)' % r if depth and len(out) > 1 else r
    if isinstance(x, tuple):
        if x and x[0] == 's':
            return show(x[1], depth + 1)
        if x and x[0] == 'f' and len(x) >= 4:
            return '%s(%s)' % (x[1], ', '.join(show(y, depth + 1) for y in x[2:-2]))
        if x and x[0] in ('fld',):
            return '%s.%s' % (show(x[1], depth + 1), x[2])
        if x and x[0] == 'div':
            return '%s/%d' % (show(x[1], depth + 1), x[2])
        if x and x[0] == 'len':
            return 'size(%s)' % show(x[1], depth + 1)
        if x and x[0] == 'el':
            return '%s[%s]' % (show(x[1], depth + 1), show(x[2], 0))
        if x and x[0] == 'bv':
            return 'k%d' % x[1]
        if x and x[0] in ('ge', 'eq', 'ne') and len(x) == 2:
            return '%s %s 0' % (show(x[1], 0), {'ge': '>=', 'eq': '==', 'ne': '!='}[x[0]])
        if x and x[0] in ('and', 'or') and len(x) == 3:
            return '(%s %s %s)' % (show(x[1], 1), x[0], show(x[2], 1))
        return '(' + ', '.join(show(y, depth + 1) for y in x) + ')'
    return str(x)


# ---------------------------------------------------------------- facts
class Facts:
    """conjunction of conditions"""
    __slots__ = ('cs', 'preds', 'dead', '_key')

    def __init__(self, cs=(), preds=None):
        self.cs = tuple(cs)
        self.preds = dict(preds or {})
        self.dead = False

    def copy(self):
        f = Facts(self.cs, self.preds)
        f.dead = self.dead
        return f

    def add(self, c):
        """conjoin an atomic (non or) condition; False when it became empty"""
        if c is True:
            return not self.dead
        if c is False:
            self.dead = True
            return False
        k = c[0]
        if k == 'and':
            return self.add(c[1]) and self.add(c[2])
        if k in ('p', 'np'):
            v = k == 'p'
            old = self.preds.get(c[1])
            if old is None:
                self.preds[c[1]] = v
                return True
            if old != v:
                self.dead = True
                return False
            return True
        if c not in self.cs:
            self.cs = self.cs + (c,)
            if k != 'or' and not feasible(self.cs):
                self.dead = True
                return False
        return True

    def decide(self, c):
        """True / False / None"""
        if c is True or c is False:
            return c
        k = c[0]
        if k in ('p', 'np'):
            v = self.preds.get(c[1])
            if v is None:
                return None
            return v if k == 'p' else not v
        if k == 'and':
            a, b = self.decide(c[1]), self.decide(c[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'or':
            a, b = self.decide(c[1]), self.decide(c[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if c in self.cs:
            return True
        n = notc(c)
        if n in self.cs:
            return False
        if not feasible(self.cs, (c,)):
            return False
        if not feasible(self.cs, (n,)):
            return True
        return None

    def entails(self, c):
        return self.decide(c) is True

    def entails_ge(self, x):
        lo, hi = rng2(x)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0 and not self.dead:
            return False
        return self.decide(ge(x)) is True

    def key(self):
        return (self.cs, tuple(sorted(((repr(k), v) for k, v in self.preds.items()))))


_cache = {}


def feasible(cs, extra=()):
    key = (frozenset(cs), frozenset(extra)) if extra else frozenset(cs)
    r = _cache.get(key)
    if r is None:
        r = _feasible(list(cs) + list(extra), extra)
        if len(_cache) > 200000:
            _cache.clear()
        _cache[key] = r
    return r


def atoms_of(x, acc):
    """atom ids occurring (deeply) in a term"""
    if isinstance(x, Lin):
        for i, _ in x.t:
            if i not in acc:
                acc.add(i)
                for y in ATOMS[i]:
                    if isinstance(y, (Lin, tuple)):
                        atoms_of(y, acc)
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (Lin, tuple)):
                atoms_of(y, acc)
    return acc


def top_atoms(c):
    if isinstance(c, Lin):
        return {i for i, _ in c.t}
    out = set()
    if isinstance(c, tuple):
        if c[0] in ('ge', 'eq', 'ne'):
            return top_atoms(c[1])
        if c[0] in ('and', 'or'):
            return top_atoms(c[1]) | top_atoms(c[2])
    return out


def related(a):
    """atoms linked to a by its defining constraints"""
    t = ATOMS[a]
    if t[0] == 'div':
        return top_atoms(t[1])
    if t[0] in ('wrap', 'swrap'):
        return top_atoms(t[2])
    if t[0] == 'ite':
        return top_atoms(t[1]) | top_atoms(t[2]) | top_atoms(t[3])
    if t[0] == 'b':
        return top_atoms(t[1])
    if t[0] == 'mul':
        return top_atoms(t[1]) | top_atoms(t[2])
    return set()


def _feasible(cs, seeds=()):
    # cone of influence
    if seeds:
        want = set()
        for c in seeds:
            want |= top_atoms(c)
    else:
        want = None
    items = [(c, _closure(top_atoms(c))) for c in cs]
    if want is not None:
        want = set(_closure(want))
        sel = []
        rest = items
        while True:
            nxt = []
            grew = False
            for c, at in rest:
                if at & want:
                    sel.append(c)
                    if not at <= want:
                        want |= at
                        grew = True
                else:
                    nxt.append((c, at))
            rest = nxt
            if not grew:
                break
        cs = sel
    return _case(cs, 0)


_clos = {}


def _closure(ats):
    ats = frozenset(ats)
    r = _clos.get(ats)
    if r is None:
        out = set(ats)
        todo = list(ats)
        while todo:
            a = todo.pop()
            for b in related(a):
                if b not in out:
                    out.add(b)
                    todo.append(b)
        r = frozenset(out)
        _clos[ats] = r
    return r


MAXSPLIT = 7


def _case(cs, depth):
    """case-split disjunctions, disequalities, boolean and ite atoms, then eliminate"""
    flat = []
    todo = list(cs)
    while todo:
        c = todo.pop()
        if c is True:
            continue
        if c is False:
            return False
        if c[0] == 'and':
            todo += [c[1], c[2]]
        elif c[0] in ('p', 'np'):
            continue
        else:
            flat.append(c)
    for i, c in enumerate(flat):
        if c[0] == 'or':
            rest = flat[:i] + flat[i + 1:]
            if depth >= MAXSPLIT:
                return _case(rest, depth)
            return _case(rest + [c[1]], depth + 1) or _case(rest + [c[2]], depth + 1)
    if not _eliminate([c for c in flat if c[0] != 'ne']):
        return False
    nes = [c for c in flat if c[0] == 'ne']
    if nes:
        base = [c for c in flat if c[0] != 'ne']
        unit = []
        for c in nes:
            up = _eliminate(base + [u for u in [ge(sub(c[1], 1))] if u is not True]) if ge(sub(c[1], 1)) is not False else False
            dn = _eliminate(base + [u for u in [ge(sub(-1, c[1]))] if u is not True]) if ge(sub(-1, c[1])) is not False else False
            if not up and not dn:
                return False
            if not up or not dn:
                u = ge(sub(c[1], 1)) if up else ge(sub(-1, c[1]))
                unit.append((c, u))
        if unit:
            gone = [c for c, _ in unit]
            return _case([c for c in flat if c not in gone] + [u for _, u in unit if u is not True], depth)
    for i, c in enumerate(flat):
        if c[0] == 'ne':
            rest = flat[:i] + flat[i + 1:]
            if depth >= MAXSPLIT:
                return _case(rest, depth)
            return _case(rest + [ge(sub(c[1], 1))], depth + 1) or _case(rest + [ge(sub(-1, c[1]))], depth + 1)
    # boolean / ite atoms
    if depth < MAXSPLIT:
        for c in flat:
            for a in sorted(_closure(top_atoms(c))):
                t = ATOMS[a]
                if t[0] == 'b' and t[1][0] in ('ge', 'eq', 'ne', 'and', 'or'):
                    return (_case(_replace(flat, a, 1) + [t[1]], depth + 1)
                            or _case(_replace(flat, a, 0) + [notc(t[1])], depth + 1))
                if t[0] == 'ite' and t[1][0] in ('ge', 'eq', 'ne', 'and', 'or'):
                    return (_case(_replace(flat, a, t[2]) + [t[1]], depth + 1)
                            or _case(_replace(flat, a, t[3]) + [notc(t[1])], depth + 1))
    return True


def _replace(cs, a, val):
    from . import subst as S
    out = []
    for c in cs:
        out.append(S.subst(c, {a: val}))
    return out


def _eliminate(cs):
    """emptiness of a conjunction of ge/eq constraints over the integers
    (sound 'empty' answers; 'not empty' may be wrong only for exotic integer gaps)"""
    from math import gcd
    rows = []   # dict, const : sum + const >= 0
    eqs = []
    seen = set()
    todo = []

    def touch(x):
        for i, _ in x.t:
            if i not in seen:
                seen.add(i)
                todo.append(i)
    for c in cs:
        touch(c[1])
        if c[0] == 'ge':
            rows.append((dict(c[1].t), c[1].c))
        else:
            eqs.append((dict(c[1].t), c[1].c))
    fresh = [-1]
    while todo:
        i = todo.pop()
        a = ATOMS[i]
        lo, hi = arange(a)
        if lo is not None:
            rows.append(({i: 1}, -lo))
        if hi is not None:
            rows.append(({i: -1}, hi))
        if a[0] == 'div' and isinstance(a[1], Lin):
            touch(a[1])
            d, c = parts(sub(a[1], mulc(Lin(((i, 1),), 0), a[2])))
            rows.append((d, c))
            rows.append(({k: -v for k, v in d.items()}, a[2] - 1 - c))
        elif a[0] in ('wrap', 'swrap') and isinstance(a[2], Lin):
            touch(a[2])
            d, c = parts(sub(a[2], Lin(((i, 1),), 0)))
            d[fresh[0]] = -(1 << a[1])
            fresh[0] -= 1
            eqs.append((d, c))
    def solve(eqs, rows):
        while eqs:
            d, c = eqs.pop()
            d = {k: v for k, v in d.items() if v}
            if not d:
                if c != 0:
                    return None
                continue
            g = 0
            for v in d.values():
                g = gcd(g, v)
            if c % g:
                return None
            d = {k: v // g for k, v in d.items()}
            c //= g
            piv = None
            for k, v in d.items():
                if abs(v) == 1:
                    piv = k
                    break
            if piv is None:
                rows.append((d, c))
                rows.append(({k: -v for k, v in d.items()}, -c))
                continue
            v = d.pop(piv)
            # piv = -(d + c)/v
            ex = {k: -w * v for k, w in d.items()}
            ec = -c * v

            def sb(row):
                dd, cc = row
                w = dd.get(piv)
                if not w:
                    return row
                dd = dict(dd)
                del dd[piv]
                for k, u in ex.items():
                    dd[k] = dd.get(k, 0) + w * u
                return ({k: u for k, u in dd.items() if u}, cc + w * ec)
            eqs = [sb(r) for r in eqs]
            rows = [sb(r) for r in rows]
        return rows
    rows = solve(eqs, rows)
    if rows is None:
        return False
    best = {}

    def put(store, d, c):
        d = {k: v for k, v in d.items() if v}
        if not d:
            return c >= 0
        g = 0
        for v in d.values():
            g = gcd(g, v)
        if g > 1:
            d = {k: v // g for k, v in d.items()}
            c = c // g
        key = tuple(sorted(d.items()))
        o = store.get(key)
        if o is None or c < o:
            store[key] = c
        return True
    for d, c in rows:
        if not put(best, d, c):
            return False
    for _ in range(6):
        # pairs of opposite rows without slack are equalities
        eqs = []
        for key, c in best.items():
            if key[0][1] > 0 and best.get(tuple((k, -v) for k, v in key)) == -c and any(abs(v) == 1 for k, v in key):
                eqs.append((dict(key), c))
        if not eqs:
            break
        rows = solve(eqs, [(dict(key), c) for key, c in best.items()])
        if rows is None:
            return False
        best = {}
        for d, c in rows:
            if not put(best, d, c):
                return False
    while best:
        # contradiction between opposite rows
        for key, c in best.items():
            o = best.get(tuple((k, -v) for k, v in key))
            if o is not None and c + o < 0:
                return False
        cnt = {}
        for key in best:
            for k, v in key:
                p = cnt.setdefault(k, [0, 0])
                p[0 if v > 0 else 1] += 1
        k = min(cnt, key=lambda q: cnt[q][0] * cnt[q][1] - cnt[q][0] - cnt[q][1])
        pos, negs, new = [], [], {}
        for key, c in best.items():
            d = dict(key)
            v = d.get(k, 0)
            if v > 0:
                pos.append((d, c, v))
            elif v < 0:
                negs.append((d, c, -v))
            else:
                new[key] = c
        if len(pos) * len(negs) > 3000:
            return True
        for d1, c1, v1 in pos:
            for d2, c2, v2 in negs:
                dd = {}
                for q, w in d1.items():
                    if q != k:
                        dd[q] = dd.get(q, 0) + w * v2
                for q, w in d2.items():
                    if q != k:
                        dd[q] = dd.get(q, 0) + w * v1
                if not put(new, dd, c1 * v2 + c2 * v1):
                    return False
        if len(new) > 4000:
            return True
        best = new
    return True
