"""loop summaries: generalise consecutive loop-head states and verify the
generalisation inductively (an exact acceleration of the abstract fixpoint)"""
from . import terms as TM
from . import seqs as Q
from .terms import *
from .subst import subst

_k = [0]


class No(Exception):
    @staticmethod
    def now():
        raise No()


def g3(x, y, z, H):
    """template T with T(0)=x, T(1)=y, T(2)=z"""
    if x == y == z and type(x) == type(y):
        return x
    if is_int(x) and is_int(y) and is_int(z):
        d = sub(y, x)
        if isinstance(d, int) and sub(z, y) == d:
            return add(x, mulc(H, d))
        return glin(x, y, z, H)
    if isinstance(x, tuple) and isinstance(y, tuple) and isinstance(z, tuple):
        if not x or not y or not z:
            raise No()
        if x[0] != y[0] or y[0] != z[0]:
            if isinstance(x[0], str):
                raise No()
        if x[0] == 'seq':
            return ('seq', gseq(x[1], y[1], z[1], H))
        if x[0] == 'map':
            if x[:3] != y[:3] or y[:3] != z[:3]:
                raise No()
            return x[:3] + (gseq(x[3], y[3], z[3], H, True),)
        if len(x) != len(y) or len(y) != len(z):
            raise No()
        if x[0] in ('ge', 'eq', 'ne') and len(x) == 2:
            return (x[0], g3(x[1], y[1], z[1], H))
        return tuple(g3(a, b, c, H) for a, b, c in zip(x, y, z))
    raise No()


NUMS = {'div': (2,), 'wrap': (1,), 'swrap': (1,), 's': (2, 3), 'el': (3, 4), 'f': (3, 4), 'top': (2, 3), 'len': (), 'bv': (1,)}


def gatom(xs, H):
    """template of corresponding atoms; numeric parameters must agree"""
    a = xs[0]
    for n in NUMS.get(a[0], ()):
        if n < len(a) and any(len(b) != len(a) or b[n] != a[n] for b in xs):
            raise No()
    return g3(*xs, H) if len(xs) == 3 else g2(*xs, H)


def glin(x, y, z, H):
    dx, cx = parts(x)
    dy, cy = parts(y)
    dz, cz = parts(z)
    if len(dx) != len(dy) or len(dy) != len(dz):
        raise No()
    if cx + cz != 2 * cy:
        raise No()
    out = add(cx, mulc(H, cy - cx))
    common = {a for a in dx if dy.get(a) == dx[a] and dz.get(a) == dx[a]}
    for a in common:
        out = add(out, Lin(((a, dx[a]),), 0))
    rx = [(a, k) for a, k in sorted(dx.items()) if a not in common]
    ry = [(a, k) for a, k in sorted(dy.items()) if a not in common]
    rz = [(a, k) for a, k in sorted(dz.items()) if a not in common]
    for a, k in rx:
        done = False
        for j, (b, kb) in enumerate(ry):
            if kb != k or TM.ATOMS[b][0] != TM.ATOMS[a][0]:
                continue
            for l, (c, kc) in enumerate(rz):
                if kc != k or TM.ATOMS[c][0] != TM.ATOMS[a][0]:
                    continue
                try:
                    t = gatom((TM.ATOMS[a], TM.ATOMS[b], TM.ATOMS[c]), H)
                except No:
                    continue
                from .subst import rebuild_atom
                out = add(out, mulc(rebuild_atom(t), k))
                del ry[j]
                del rz[l]
                done = True
                break
            if done:
                break
        if not done:
            raise No()
    return out


def gseq(x, y, z, H, plain=False):
    if len(x) == len(y) == len(z):
        try:
            return tuple(g3(a, b, c, H) for a, b, c in zip(x, y, z))
        except No:
            pass
    n = len(y) - len(x)
    if n <= 0 or len(z) - len(y) != n:
        raise No()
    for t in (0, 1, 2):
        if len(x) < t:
            break
        p = len(x) - t
        if x[:p] != y[:p] or y[:p + n] != z[:p + n]:
            continue
        try:
            tail = tuple(g3(a, b, c, H) for a, b, c in zip(x[p:], y[p + n:], z[p + 2 * n:]))
            e0, e1 = y[p:p + n], z[p + n:p + 2 * n]
            tmpl = tuple(g2(a, b, H) for a, b in zip(e0, e1))
        except No:
            continue
        hid = H.t[0][0]
        seg = Q.comp(H, tmpl, hid)
        return x[:p] + (seg,) + tail
    raise No()


def g2(x, y, H):
    """two samples"""
    if x == y and type(x) == type(y):
        return x
    if is_int(x) and is_int(y):
        d = sub(y, x)
        return g3(x, y, add(y, d), H) if isinstance(d, int) else glin2(x, y, H)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x:
        if isinstance(x[0], str) and x[0] != y[0]:
            raise No()
        return tuple(g2(a, b, H) for a, b in zip(x, y))
    raise No()


def glin2(x, y, H):
    dx, cx = parts(x)
    dy, cy = parts(y)
    if len(dx) != len(dy):
        raise No()
    out = add(cx, mulc(H, cy - cx))
    common = {a for a in dx if dy.get(a) == dx[a]}
    for a in common:
        out = add(out, Lin(((a, dx[a]),), 0))
    rx = [(a, k) for a, k in sorted(dx.items()) if a not in common]
    ry = [(a, k) for a, k in sorted(dy.items()) if a not in common]
    from .subst import rebuild_atom
    for a, k in rx:
        for j, (b, kb) in enumerate(ry):
            if kb != k or TM.ATOMS[b][0] != TM.ATOMS[a][0]:
                continue
            try:
                t = gatom((TM.ATOMS[a], TM.ATOMS[b]), H)
            except No:
                continue
            out = add(out, mulc(rebuild_atom(t), k))
            del ry[j]
            break
        else:
            raise No()
    return out


def gev(a, b, c, H):
    """event lists"""
    x, y, z = a.ev, b.ev, c.ev
    if x == y == z:
        return x
    n = len(y) - len(x)
    if n <= 0 or len(z) - len(y) != n or y[:len(x)] != x or z[:len(y)] != y:
        raise No()
    hid = H.t[0][0]
    tmpl = tuple(('one', g2(p, q, H)) for p, q in zip(y[len(x):], z[len(y):]))
    cs = Q.comp(H, tmpl, hid)
    return x + (('loop', cs),)


def fold_events(ev):
    """append instances of a preceding loop event to it"""
    out = list(ev)
    i = 0
    while i < len(out):
        if out[i][0] == 'loop':
            c = out[i][1]
            k = len(c[2])
            while len(out) - i - 1 >= k and tuple(('one', e) for e in out[i + 1:i + 1 + k]) == Q.tinst(c, c[1]):
                del out[i + 1:i + 1 + k]
                c = ('comp', add(c[1], 1), c[2])
                out[i] = ('loop', c)
        i += 1
    return tuple(out)


def value_eq(F, x, y):
    """equality of values under facts"""
    if x == y:
        return True
    if is_int(x) and is_int(y):
        return F.entails(eq(sub(x, y)))
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return False
        if x and isinstance(x[0], str) and x[0] != y[0]:
            return False
        return all(value_eq(F, a, b) for a, b in zip(x, y))
    return False


def try_loop(I, hist, step, entry_roots):
    """hist: consecutive loop-head states.  Returns (exits, number of visits kept) or None"""
    for p in (1, 2, 3, 4, 5, 6, 7, 8):
        if len(hist) < 2 * p + 1:
            break
        r = attempt(I, hist, step, p)
        if r is not None:
            return r, len(hist) - 1 - 2 * p
    return None


DEBUG = []


def fail(*why):
    if DEBUG:
        print('   gen:', *why)
    return None


def attempt(I, hist, step, p):
    a, b, c = hist[-1 - 2 * p], hist[-1 - p], hist[-1]
    if a.mem.keys() != b.mem.keys() or b.mem.keys() != c.mem.keys():
        return fail(p, 'roots', b.mem.keys() ^ c.mem.keys())
    if a.dead != c.dead or a.imp != c.imp:
        return fail(p, 'dead')
    _k[0] += 1
    H = sym(('iter', _k[0]), 0, None)
    hid = H.t[0][0]
    G = a.copy()
    try:
        r = None
        for r in a.mem:
            G.mem[r] = g3(a.mem[r], b.mem[r], c.mem[r], H)
        r = 'events'
        G.ev = gev(a, b, c, H)
    except No:
        return fail(p, 'template', r, [show(x.mem.get(r)) for x in (a, b, c)])
    # facts
    fa = list(a.facts.cs)
    keep = [f for f in fa if f in b.facts.cs and f in c.facts.cs]
    nb = [f for f in b.facts.cs if f not in fa]
    nc = [f for f in c.facts.cs if f not in b.facts.cs]
    G.facts = Facts(keep, {k: v for k, v in a.facts.preds.items() if b.facts.preds.get(k) == v and c.facts.preds.get(k) == v})
    Fa = a.facts
    univ = []
    rec = []
    # one more period shows which new facts recur
    pairs = []
    d = c.copy()
    for i in range(p):
        ex_, ct = step(d)
        if len(ct) != 1:
            return fail(p, 'branching')
        d = ct[0]
    nd = [f for f in d.facts.cs if f not in c.facts.cs]
    if len(nc) != len(nd):
        return fail(p, 'facts', len(nc), len(nd))
    for x, y in zip(nc, nd):
        try:
            f = g2(x, y, H)
        except No:
            continue
        f = subst(renorm(f), {hid: sub(H, 1)}) if isinstance(f, tuple) else f
        if f is True or f is False or not b.facts.entails(subst(f, {hid: 0})):
            continue
        pairs.append((x, y, f))
    for x, y, f in pairs:
        f = renorm(f) if isinstance(f, tuple) else f
        if f is True:
            continue
        prev = subst(f, {hid: sub(H, 1)})
        first = subst(f, {hid: -1})
        if prev is True:
            pass
        elif Fa.entails(first):
            rec.append(f)
            G.facts.add(prev)
        else:
            univ.append(f)
    # inductive step
    cur = G.copy()
    exits = []
    for i in range(p):
        ex_, ct = step(cur)
        exits += ex_
        if len(ct) != 1:
            return fail(p, 'branching', len(ct), [show(x) for x in ct[0].facts.cs] if ct else '', [show(x) for x in G.facts.cs])
        cur = ct[0]
    if cur.imp - G.imp:
        return fail(p, 'imprecise', cur.imp)
    m = {hid: add(H, 1)}
    if set(cur.mem) != set(G.mem):
        return fail(p, 'roots after')
    for r in G.mem:
        want = subst(G.mem[r], m)
        if not value_eq(cur.facts, cur.mem[r], want):
            return fail(p, 'value', r, show(cur.mem[r]), 'want', show(want))
    if fold_events(cur.ev) != subst(G.ev, m):
        return fail(p, 'events')
    for f in rec:
        if not cur.facts.entails(f):
            return fail(p, 'fact', show(f))
    out = []
    for k, s, v in exits:
        if s.facts.dead:
            continue
        if univ:
            s.univ = s.univ + tuple(('forall', H, hid, f) for f in univ)
        if G.univ != a.univ:
            pass
        s, v = eliminate(s, v, hid)
        if not s.facts.dead:
            out.append((k, s, v))
    return out


def renorm(f):
    if f[0] == 'ge':
        return ge(f[1])
    if f[0] == 'eq':
        return eq(f[1])
    if f[0] == 'ne':
        return ne(f[1])
    return f


def eliminate(s, v, hid):
    """remove the iteration counter when the exit facts determine it"""
    H = Lin(((hid, 1),), 0)
    cand = [c for c in s.facts.cs if c[0] in ('ge', 'eq') and hid in dict(c[1].t)]
    for c in cand:
        k = dict(c[1].t)[hid]
        if k in (1, -1):
            expr = mulc(sub(c[1], mulc(H, k)), -k)
            if c[0] == 'eq' or s.facts.entails(eq(sub(H, expr))):
                return replace(s, v, hid, expr)
    for c in sorted(cand, key=lambda c: abs(c[1].c)):
        k = dict(c[1].t)[hid]
        if k < -1:
            # X - k*H >= 0: when X - k*H < k as well, H is X div k
            k = -k
            X = add(c[1], mulc(H, k))
            if isinstance(X, Lin):
                N = sub(X, X.c)
                for j in (0, 1, 2, -1, -2):
                    r = sub(N, mulc(add(H, j), k))
                    if s.facts.entails_ge(r) and s.facts.entails_ge(sub(k - 1, r)):
                        return replace(s, v, hid, sub(div(N, k), j))
            if isinstance(X, Lin) and s.facts.entails_ge(add(sub(mulc(H, k), X), k - 1)):
                return replace(s, v, hid, div(X, k))
    return s, v


def replace(s, v, hid, expr):
    m = {hid: expr}
    for r in list(s.mem):
        s.mem[r] = subst(s.mem[r], m)
    s.ev = fold_events(subst(s.ev, m))
    F = Facts((), s.facts.preds)
    for x in s.facts.cs:
        y = subst(x, m)
        if y is True:
            continue
        if y is False:
            F.dead = True
        else:
            F.add(y)
    s.facts = F
    s.univ = subst(s.univ, m)
    return s, (subst(v, m) if isinstance(v, (tuple, Lin)) else v)
