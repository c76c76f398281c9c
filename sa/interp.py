"""Path-sensitive abstract interpreter over the resolved C++ AST.

Computes the transfer function of a function: for every class of paths the
relational facts that hold, the abstract memory it leaves and the sequence of
observable effects (events).  Loops are summarised by an inductively verified
generalisation of their iterations.  Nothing is executed: values are normal
forms over symbolic inputs, calls are resolved through the class hierarchy.
"""
import time
from . import seqs as Q
from . import terms as TM
from .terms import *
from .seqs import init_sym, strip_ref, ty, tname, rec_get, rec_set, fields_of, field_type, int_range
from .subst import subst
from . import gen


class Stuck(Exception):
    pass


class Fresh(int):
    """number naming an object or unknown created along a path"""
    __slots__ = ()


class St:
    __slots__ = ('mem', 'facts', 'ev', 'n', 'exc', 'imp', 'dead', 'univ', 'env', 'this', 'steps', 'tag')

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.ev = ()
        self.n = 0
        self.exc = None
        self.imp = frozenset()
        self.dead = frozenset()
        self.univ = ()
        self.env = {}
        self.this = None
        self.steps = 0
        self.tag = None

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.ev = self.ev
        s.n = self.n
        s.exc = self.exc
        s.imp = self.imp
        s.dead = self.dead
        s.univ = self.univ
        s.env = self.env
        s.this = self.this
        s.steps = self.steps
        s.tag = self.tag
        return s

    def fresh(self):
        self.n += 1
        return Fresh(self.n)

    def imprecise(self, why):
        self.imp = self.imp | {why}

    def emit(self, *e):
        self.ev = self.ev + (e,)


def LV(root, *path):
    return ('lv', root, tuple(path))


def is_lv(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == 'lv'


NULL = ('null',)
LOCKS = {'std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock'}


class Interp:
    refs = {}

    def __init__(self, P, **opt):
        self.P = P
        self.maxvisits = opt.get('maxvisits', 20)
        self.maxconst = 400
        self.depth = 0
        self.maxdepth = opt.get('maxdepth', 60)
        self.ncut = 0
        self.cuts = []          # loops/recursions not followed to the end
        self.seen = set()       # functions interpreted (coverage)
        self.callsites = 0
        self.native_expected = opt.get('native_expected', True)
        self.opaque = opt.get('opaque', {})      # usr -> handler(I, st, node, o, args)
        self.hooks = opt.get('hooks', {})        # method name -> handler for symbolic objects
        self.budget = opt.get('budget', 400000)
        self.deadline = time.time() + opt['seconds'] if opt.get('seconds') else None
        self.maxstates = opt.get('maxstates', 4000)
        self.generalise = opt.get('generalise', True)
        from . import lib
        self.lib = lib
        self.loc_file = None
        self.stack = []
        self.rstack = []

    # ------------------------------------------------------------ locations
    def loc(self, n):
        f = self.stack[-1] if self.stack else None
        if f is None:
            return '?'
        return '%s:%s' % (f['file'].replace(self.lib.REPO + '/', ''), n.get('l', f['line']) if isinstance(n, dict) else f['line'])

    # -------------------------------------------------------------- memory
    watcher = None          # watcher(st, lv, 'read' | 'written')

    def load(self, st, lv):
        root, path = lv[1], lv[2]
        if self.watcher is not None and path:
            self.watcher(st, lv, 'read')
        if root in st.dead:
            st.emit('uaf', root, self.where())
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'sym':
                v = init_sym(root[2], root[1])
            elif root[0] == 'wbuf':
                b = ('sb', ('wbuf', root[1]), None)
                v = ('seq', (('sl', b, 0, sym(('cap', root[1]), 0, None)),))
                st.mem[root] = v
            else:
                v = ('opq', ('dangling', root), None)
        for s in path:
            v = self.proj(st, v, s)
        return v

    def where(self):
        f = self.stack[-1] if self.stack else None
        return f['disp'] if f else '?'

    def proj(self, st, v, s):
        if s[0] == 'f':
            if v[0] == 'rec':
                x = rec_get(v, s[1])
                if x is None:
                    t = field_type(v[1], s[1])
                    return init_sym(t, ('missing', v[1], s[1])) if t is not None else ('opq', ('missing', s[1]), None)
                return x
            if v[0] == 'srec':
                t = field_type(v[1], s[1])
                if t is None:
                    return ('opq', ('fld', v[2], s[1]), None)
                return init_sym(t, ('fld', v[2], s[1]))
            return ('opq', ('fld', v, s[1]), None)
        if s[0] == 'i':
            if v[0] == 'seq':
                x = Q.seq_get(v, s[1], st.facts)
                if x is not None:
                    return x
            elif v[0] == 'opq':
                return ('opq', ('at', v[1], s[1]), None)
            st.imprecise('element')
            return atom(('top', ('el', v, s[1]), None, None))
        if s[0] == 'mv':        # map value by key
            return self.lib.map_at(self, st, v, s[1])
        if s[0] == 'x':         # value held by an Expected/optional
            if v[0] in ('exp', 'some'):
                return v[-1]
            if v[0] == 'sexp':
                return init_sym(v[2], ('val', v[1]))
            return ('opq', ('val', v), None)
        raise Stuck('proj %r' % (s,))

    def store(self, st, lv, val):
        root, path = lv[1], lv[2]
        if self.watcher is not None and path:
            self.watcher(st, lv, 'written')
        if root in st.dead:
            st.emit('uaf', root, self.where())
        if not path:
            st.mem[root] = val
            return
        v = st.mem.get(root)
        if v is None:
            v = self.load(st, LV(root))
        st.mem[root] = self.upd(st, v, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        s = path[0]
        if s[0] == 'f':
            if v[0] == 'srec':
                v = ('rec', v[1], tuple((n, init_sym(t, ('fld', v[2], n))) for n, t in fields_of(v[1])))
            if v[0] == 'rec':
                return rec_set(v, s[1], self.upd(st, self.proj(st, v, s), path[1:], val))
            st.imprecise('store')
            return v
        if s[0] == 'i':
            if v[0] == 'seq':
                old = self.proj(st, v, s) if len(path) > 1 else None
                r = Q.seq_set(v, s[1], self.upd(st, old, path[1:], val), st.facts)
                if r is not None:
                    return r
            st.imprecise('element store')
            b = ('sb', ('havoc', st.fresh()), None)
            return ('seq', (('sl', b, 0, Q.seqlen(v) if v[0] == 'seq' else sym(('n', st.fresh()), 0, None)),))
        if s[0] == 'mv':
            old = self.proj(st, v, s) if len(path) > 1 else None
            return self.lib.map_put(self, st, v, s[1], self.upd(st, old, path[1:], val))
        if s[0] == 'x':
            if v[0] in ('exp', 'some'):
                return v[:-1] + (self.upd(st, v[-1], path[1:], val),)
            if v[0] == 'sexp':
                return ('exp', 1, self.upd(st, self.proj(st, v, s), path[1:], val))
        st.imprecise('store')
        return v

    def temp(self, st, v):
        r = ('t', st.fresh())
        st.mem[r] = v
        return LV(r)

    def new_obj(self, st, v):
        r = ('o', st.fresh())
        st.mem[r] = v
        return LV(r)

    def val(self, st, x):
        return self.load(st, x) if is_lv(x) else x

    def as_lv(self, st, x):
        return x if is_lv(x) else self.temp(st, x)

    def sub(self, lv, *steps):
        return ('lv', lv[1], lv[2] + steps)

    # ------------------------------------------------------------- branches
    def branch(self, st, c):
        """[(state, bool)]"""
        d = st.facts.decide(c)
        if d is not None:
            return [(st, d)]
        a = st
        b = st.copy()
        out = []
        if c[0] == 'or':
            # keep the two ways of being true apart: facts stay conjunctive
            for s2, t in self.branch(a, c[1]):
                if t:
                    out.append((s2, True))
                else:
                    out += [(s3, t2) for s3, t2 in self.branch(s2, c[2])]
            return out
        if c[0] == 'and':
            for s2, t in self.branch(a, c[1]):
                if not t:
                    out.append((s2, False))
                else:
                    out += self.branch(s2, c[2])
            return out
        if a.facts.add(c):
            out.append((a, True))
        if b.facts.add(notc(c)):
            out.append((b, False))
        return out

    def cond(self, st, v):
        """condition of a scalar/pointer value"""
        if isinstance(v, (int, Lin)):
            return truth(v)
        k = v[0]
        if k == 'null':
            return False
        if k in ('ptr', 'clo', 'fn', 'bind', 'wrapped', 'timer', 'some'):
            return True
        if k == 'sptr':
            return ('np', ('null', v[1]))
        if k == 'sfn':
            return ('np', ('nullfn', v[1]))
        if k == 'nofn' or k == 'none':
            return False
        if k == 'lv':
            return True
        if k == 'sopt':
            return ('p', ('has', v[1]))
        return ('p', ('truth', v))

    # ----------------------------------------------------------- expressions
    def rvs(self, e, st):
        """value of an expression"""
        out = []
        for s, v in self.ev(e, st):
            if s.exc is None and is_lv(v) and e is not None and (e.get('lv')):
                v = self.load(s, v)
            out.append((s, v))
        return out

    def seq_ev(self, es, st, how):
        """evaluate expressions left to right -> [(st, [vals] or None)]"""
        acc = [(st, [])]
        for e, h in zip(es, how):
            nxt = []
            for s, vs in acc:
                if s.exc is not None:
                    nxt.append((s, None))
                    continue
                for s2, v in (self.ev(e, s) if h == 'lv' else self.rvs(e, s)):
                    nxt.append((s2, None if s2.exc is not None else vs + [v]))
            acc = nxt
        return acc

    def ev(self, e, st):
        if e is None:
            return [(st, None)]
        st.steps += 1
        self.budget -= 1
        if self.budget < 0 or (self.deadline and not self.budget & 255 and time.time() > self.deadline):
            raise Stuck('budget')
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            st.imprecise('node ' + e['k'])
            return [(st, self.unknown(st, e.get('t'), e['k']))]
        return m(e, st)

    def unknown(self, st, tid, why):
        if tid is None:
            return None
        t = ty(strip_ref(tid))
        if t['k'] in ('void',):
            return None
        return init_sym(tid, ('unknown', why, st.fresh()))

    def e_int(self, e, st):
        return [(st, int(e['v']))]

    def e_float(self, e, st):
        return [(st, ('flt', e['v']))]

    def e_str(self, e, st):
        return [(st, ('str', e['v']))]

    def e_null(self, e, st):
        return [(st, NULL)]

    def e_zero(self, e, st):
        return [(st, self.zero(e['t'], st))]

    def zero(self, tid, st):
        t = ty(strip_ref(tid))
        if t['k'] in ('int', 'bool', 'enum'):
            return 0
        if t['k'] in ('ptr', 'null'):
            return NULL
        if t['k'] == 'rec' and t['c'] in self.P.records and not self.lib.native(t):
            return ('rec', t['c'], tuple((n, self.zero(x, st)) for n, x in fields_of(t['c'])))
        return self.lib.default(self, st, tid)

    def e_this(self, e, st):
        return [(st, ('ptr', st.this) if st.this is not None else ('opq', 'this', None))]

    def e_fref(self, e, st):
        return [(st, ('fn', e['fn']['u']))]

    def e_mfref(self, e, st):
        return [(st, ('fn', e['fn']['u']))]

    def e_bind(self, e, st):
        lv = st.env.get(e['v'])
        if lv is not None:
            return [(st, lv)]
        return self.ev(e['e'], st)

    def e_var(self, e, st):
        lv = st.env.get(e['v'])
        if lv is not None:
            return [(st, lv)]
        if e['sc'] == 'global':
            q = e.get('q', e['n'])
            ph = self.lib.placeholder(q, e)
            if ph is not None:
                return [(st, ph if not e.get('lv') else self.temp(st, ph))]
            r = ('g', q)
            if r not in st.mem:
                if e.get('init') is not None:
                    for s, v in self.rvs(e['init'], st):
                        s.mem[r] = v
                        return [(s, LV(r))]
                st.mem[r] = init_sym(e['dt'], ('global', q))
            return [(st, LV(r))]
        st.imprecise('variable ' + e['n'])
        lv = self.temp(st, self.unknown(st, e['t'], e['n']))
        return [(st, lv)]

    def deref(self, st, p, e=None):
        """lvalue a pointer refers to, or None (path crashes)"""
        if is_lv(p):
            return p
        if not isinstance(p, tuple):
            st.imprecise('pointer')
            return LV(('sym', ('deref', p), None))
        if p[0] == 'ptr':
            return p[1]
        if p[0] == 'sptr':
            if st.facts.preds.get(('null', p[1])) is True:
                return None
            return LV(('sym', p[1], p[2]))
        if p[0] == 'null':
            return None
        if p[0] == 'it':
            return self.lib.it_deref(self, st, p)
        if p[0] == 'decay':
            return self.sub(p[1], ('i', p[2]))
        return LV(('sym', ('deref', p), None)) if p[0] != 'opq' else self.temp(st, ('opq', ('deref', p[1]), None))

    def crash(self, st, what, e):
        st.emit('crash', what, self.loc(e), self.where())
        st.exc = ('crash', what)
        return st

    def e_mem(self, e, st):
        out = []
        for s, b in (self.rvs(e['b'], st) if e['ar'] else self.ev(e['b'], st)):
            if s.exc is not None:
                out.append((s, None))
                continue
            if e['ar']:
                lv = self.deref(s, b)
                if lv is None:
                    out.append((self.crash(s, 'null dereference', e), None))
                    continue
            else:
                lv = self.as_lv(s, b)
            bv = s.mem.get(lv[1]) if not lv[2] else None
            if isinstance(bv, tuple) and bv[0] == 'mapent':
                out.append((s, bv[2] if e['f'] == 'second' else self.temp(s, bv[1])))
                continue
            r = self.sub(lv, ('f', e['f']))
            ft = field_type(e['c'], e['f'])
            if ft is not None and ty(ft)['k'] in ('ref', 'rref'):
                v = self.load(s, r)
                if is_lv(v):
                    r = v
                elif v[0] == 'ptr':
                    r = v[1]
            out.append((s, r))
        return out

    def e_cast(self, e, st):
        out = []
        ck = e['ck']
        for s, v in self.rvs(e['e'], st):
            if s.exc is not None:
                out.append((s, None))
                continue
            out.append((s, self.cast(s, v, e['t'], ck)))
        return out

    def cast(self, s, v, tid, ck=None):
        t = ty(strip_ref(tid))
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return bval(self.cond(s, v))
        if isinstance(v, (int, Lin)) and t['k'] in ('int', 'bool', 'enum'):
            if t['k'] == 'bool':
                return bval(truth(v))
            w = t.get('w', 32)
            return swrap(w, v, s.facts) if t.get('sg') else wrap(w, v, s.facts)
        if t['k'] == 'bool':
            return bval(self.cond(s, v))
        return v

    def e_pcast(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            if s.exc is None and not e.get('lv') and is_lv(v) and e['e'].get('lv'):
                v = self.load(s, v)
            if s.exc is None and not is_lv(v) and v is not None and v[0] == 'sptr' and e['ck'] in ('BaseToDerived', 'Dynamic'):
                t = ty(e['t'])
                if t['k'] == 'ptr':
                    v = ('sptr', v[1], t['e'])
            out.append((s, v))
        return out

    def e_decay(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            if is_lv(v):
                v = ('decay', v, 0)
            out.append((s, v))
        return out

    def e_un(self, e, st):
        op = e['op']
        out = []
        if op == '&':
            for s, v in self.ev(e['e'], st):
                out.append((s, ('ptr', v) if is_lv(v) else v))
            return out
        if op == '*':
            for s, v in self.rvs(e['e'], st):
                if s.exc is not None:
                    out.append((s, None))
                    continue
                lv = self.deref(s, v)
                if lv is None:
                    out.append((self.crash(s, 'null dereference', e), None))
                else:
                    out.append((s, lv))
            return out
        if op in ('++', '--'):
            for s, lv in self.ev(e['e'], st):
                if s.exc is not None:
                    out.append((s, None))
                    continue
                old = self.load(s, lv)
                if not is_int(old):
                    if old[0] == 'decay':
                        new = ('decay', old[1], add(old[2], 1 if op == '++' else -1))
                    else:
                        s.imprecise('++')
                        new = old
                else:
                    t = ty(strip_ref(e['t']))
                    new = self.arith(s, '+' if op == '++' else '-', old, 1, t)
                self.store(s, lv, new)
                out.append((s, old if e.get('post') else lv))
            return out
        for s, v in self.rvs(e['e'], st):
            if s.exc is not None:
                out.append((s, None))
                continue
            if op == '!':
                out.append((s, bval(notc(self.cond(s, v)))))
            elif op == '-' and is_int(v):
                out.append((s, self.fit(s, neg(v), ty(e['t']))))
            elif op == '+':
                out.append((s, v))
            elif op == '~' and is_int(v):
                out.append((s, self.fit(s, sub(-1, v), ty(e['t']))))
            else:
                out.append((s, self.unknown(s, e['t'], 'un' + op)))
        return out

    def fit(self, s, v, t):
        if t['k'] == 'bool':
            return bval(truth(v))
        if 'w' not in t:
            return v
        if t.get('sg'):
            return swrap(t['w'], v, s.facts)
        return wrap(t['w'], v, s.facts)

    def arith(self, s, op, a, b, t):
        if not (is_int(a) and is_int(b)):
            if isinstance(a, tuple) and a[0] == 'decay' and is_int(b):
                return ('decay', a[1], add(a[2], b if op == '+' else neg(b)))
            if isinstance(a, tuple) and a[0] == 'rp' and is_int(b):
                return ('rp', a[1], add(a[2], b if op == '+' else neg(b)))
            return ('opq', ('arith', op, a, b), None)
        F = s.facts
        if op == '+':
            r = add(a, b)
        elif op == '-':
            r = sub(a, b)
        elif op == '*':
            r = mul(a, b)
        elif op in ('/', '%'):
            if isinstance(b, int) and b > 0 and (nonneg2(a) or F.entails_ge(a)):
                r = div(a, b, F) if op == '/' else mod(a, b, F)
            elif isinstance(b, int) and isinstance(a, int) and b != 0:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                r = q if op == '/' else a - q * b
            else:
                r = atom(('f', op, a, b, 0 if nonneg2(a) else None, None))
        elif op == '<<':
            r = shl(a, b)
        elif op == '>>':
            if isinstance(b, Lin):
                lo, hi = rng2(b)
            r = shr(a, b, F)
        elif op == '&':
            r = band(a, b)
        elif op == '|':
            r = bor(a, b)
        elif op == '^':
            r = self.bxor(a, b)
        else:
            r = atom(('f', op, a, b, None, None))
        return self.fit(s, r, t)

    def bxor(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a ^ b
        o = bor(a, b)
        n = band(a, b)
        return sub(o, n)

    CMP = {'<', '>', '<=', '>=', '==', '!='}

    def compare(self, s, op, a, b):
        """condition"""
        if isinstance(a, tuple) and a[0] == 'decay' and isinstance(b, tuple) and b[0] == 'decay' and a[1] == b[1]:
            a, b = a[2], b[2]
        if is_int(a) and is_int(b):
            d = sub(a, b)
            c = {'<': lambda: ge(sub(-1, d)), '<=': lambda: ge(neg(d)), '>': lambda: ge(sub(d, 1)), '>=': lambda: ge(d), '==': lambda: eq(d), '!=': lambda: ne(d)}[op]()
            return c
        if op in ('==', '!='):
            c = self.same(s, a, b)
            return c if op == '==' else notc(c)
        return ('p', ('cmp', op, a, b))

    def same(self, s, a, b):
        if is_int(a) and is_int(b):
            return eq(sub(a, b))
        if a == b and isinstance(a, tuple) and a[0] not in ('rec', 'opq'):
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == 'null' and b[0] == 'null':
                return True
            for x, y in ((a, b), (b, a)):
                if x[0] == 'null':
                    return notc(self.cond(s, y))
            if a[0] == 'it' or b[0] == 'it':
                return self.lib.it_eq(self, s, a, b)
            if a[0] == 'ptr' and b[0] == 'ptr':
                if a[1][1] != b[1][1]:
                    return False
                return a[1] == b[1]
            if a[0] == 'ptr' and b[0] == 'sptr' or a[0] == 'sptr' and b[0] == 'ptr':
                o, y = (a, b) if a[0] == 'ptr' else (b, a)
                if o[1][1][0] in ('o', 'v', 't'):
                    return False
                if o[1][1][0] == 'sym' and o[1][1][1] == y[1] and not o[1][2]:
                    return True
            if a[0] == 'str' and b[0] == 'str' and isinstance(a[1], str) and isinstance(b[1], str):
                return a[1] == b[1]
            if a[0] == 'rec' and b[0] == 'rec' and a[1] == b[1]:
                c = True
                for (n, x), (_, y) in zip(a[2], b[2]):
                    c = andc(c, self.same(s, x, y))
                return c
        if repr(a) > repr(b):
            a, b = b, a
        if a == b:
            return True
        return ('p', ('same', a, b))

    def effect_free(self, n):
        """no assignment, call with effects or allocation below this node"""
        k = n.get('k')
        if k in ('assign', 'cassign', 'new', 'delete', 'throw', 'lambda', 'icall', 'ctor'):
            return False
        if k == 'un' and n['op'] in ('++', '--'):
            return False
        if k == 'call':
            return False
        for key in ('a', 'b', 'c', 'e', 'o'):
            x = n.get(key)
            if isinstance(x, dict) and not self.effect_free(x):
                return False
            if isinstance(x, list):
                for y in x:
                    if isinstance(y, dict) and not self.effect_free(y):
                        return False
        return True

    def e_bin(self, e, st):
        op = e['op']
        out = []
        if op in ('&&', '||'):
            for s, a in self.rvs(e['a'], st):
                if s.exc is not None:
                    out.append((s, None))
                    continue
                ca = self.cond(s, a)
                d = s.facts.decide(ca)
                if d is not None:
                    if (op == '&&') != d:
                        out.append((s, 1 if op == '||' else 0))
                        continue
                    for s2, b in self.rvs(e['b'], s):
                        out.append((s2, None if s2.exc is not None else bval(self.cond(s2, b))))
                    continue
                if self.effect_free(e['b']):
                    # evaluate under the assumption, keep one state
                    s1 = s.copy()
                    s1.facts.add(ca if op == '&&' else notc(ca))
                    rs = self.rvs(e['b'], s1)
                    if len(rs) == 1 and rs[0][0].exc is None and rs[0][0].ev == s.ev and rs[0][0].mem.keys() == s.mem.keys():
                        cb = self.cond(rs[0][0], rs[0][1])
                        out.append((s, bval(andc(ca, cb) if op == '&&' else orc(ca, cb))))
                        continue
                for s2, t in self.branch(s, ca):
                    if (op == '&&') != t:
                        out.append((s2, 1 if op == '||' else 0))
                        continue
                    for s3, b in self.rvs(e['b'], s2):
                        out.append((s3, None if s3.exc is not None else bval(self.cond(s3, b))))
            return out
        if op == ',':
            for s, a in self.ev(e['a'], st):
                if s.exc is not None:
                    out.append((s, None))
                else:
                    out += self.ev(e['b'], s)
            return out
        for s, vs in self.seq_ev([e['a'], e['b']], st, ['rv', 'rv']):
            if vs is None:
                out.append((s, None))
                continue
            a, b = vs
            if op in self.CMP:
                out.append((s, bval(self.compare(s, op, a, b))))
            else:
                out.append((s, self.arith(s, op, a, b, ty(e['t']))))
        return out

    def e_assign(self, e, st):
        out = []
        for s, b in self.rvs(e['b'], st):
            if s.exc is not None:
                out.append((s, None))
                continue
            for s2, lv in self.ev(e['a'], s):
                if s2.exc is not None:
                    out.append((s2, None))
                    continue
                self.store(s2, lv, b)
                out.append((s2, lv))
        return out

    def e_cassign(self, e, st):
        out = []
        for s, b in self.rvs(e['b'], st):
            if s.exc is not None:
                out.append((s, None))
                continue
            for s2, lv in self.ev(e['a'], s):
                if s2.exc is not None:
                    out.append((s2, None))
                    continue
                a = self.load(s2, lv)
                r = self.arith(s2, e['op'].rstrip('=') or e['op'], a, b, ty(e['ct']))
                r = self.cast(s2, r, e['a']['t']) if is_int(r) else r
                self.store(s2, lv, r)
                out.append((s2, lv))
        return out

    def e_cond(self, e, st):
        out = []
        for s, c in self.rvs(e['c'], st):
            if s.exc is not None:
                out.append((s, None))
                continue
            cc = self.cond(s, c)
            res = []
            for s2, t in self.branch(s, cc):
                arm = e['a'] if t else e['b']
                for s3, v in self.ev(arm, s2):
                    if s3.exc is None and is_lv(v) and not e.get('lv'):
                        v = self.load(s3, v)
                    elif s3.exc is None and e.get('lv') and not is_lv(v):
                        v = self.temp(s3, v)
                    res.append((s3, v))
            if len(res) == 2 and not any(x[0].exc for x in res) and is_int(res[0][1]) and is_int(res[1][1]) and not isinstance(cc, bool):
                a, b = res
                if a[0].mem == b[0].mem and a[0].ev == b[0].ev:
                    # only for simple conditions
                    sbase = s.copy() if False else None
                    v = ite(cc, a[1], b[1]) if cc[0] in ('ge', 'eq', 'ne') else None
                    if v is not None and single(v) is None or (isinstance(v, Lin) and single(v)[0] != 'ite'):
                        m = a[0].copy()
                        m.facts = self.common(a[0].facts, b[0].facts)
                        out.append((m, v))
                        continue
            out += res
        return out

    def common(self, f, g):
        h = Facts([c for c in f.cs if c in g.cs], {k: v for k, v in f.preds.items() if g.preds.get(k) == v})
        return h

    def e_index(self, e, st):
        out = []
        for s, vs in self.seq_ev([e['a'], e['b']], st, ['rv', 'rv']):
            if vs is None:
                out.append((s, None))
                continue
            a, b = vs
            if not is_int(b):
                a, b = b, a
            if is_lv(a):
                out.append((s, self.sub(a, ('i', b))))
            elif a[0] == 'decay':
                out.append((s, self.sub(a[1], ('i', add(a[2], b)))))
            elif a[0] in ('rp', 'rseq', 'wseq'):
                out.append((s, self.lib.byte_lv(self, s, a, b, e)))
            elif a[0] == 'str' and isinstance(b, int) and isinstance(a[1], str) and b < len(a[1]):
                out.append((s, self.temp(s, ord(a[1][b]))))
            else:
                s.imprecise('index')
                out.append((s, self.temp(s, self.unknown(s, e['t'], 'index'))))
        return out

    def e_throw(self, e, st):
        out = []
        if e.get('e') is None:
            cur = st.mem.get(('curexc',))
            st.exc = cur if cur is not None else ('exc', ('opq', 'rethrow', None))
            return [(st, None)]
        for s, v in self.rvs(e['e'], st):
            if s.exc is None:
                s.exc = ('exc', v)
            out.append((s, None))
        return out

    def e_typeid(self, e, st):
        if 'ty' in e:
            return [(st, self.temp(st, ('typeid', tname(e['ty']))))]
        out = []
        for s, v in self.ev(e['e'], st):
            x = self.val(s, v) if s.exc is None else None
            out.append((s, None if s.exc is not None else self.temp(s, ('typeid', x[1] if isinstance(x, tuple) and x[0] in ('rec', 'srec') else ('dyn', x)))))
        return out

    def e_pdtor(self, e, st):
        out = []
        for s, v in self.ev(e['b'], st):
            if s.exc is None and isinstance(v, tuple):
                s.emit('destroy', self.as_lv(s, v), self.loc(e))
            out.append((s, None))
        return out

    def e_delete(self, e, st):
        out = []
        for s, v in self.rvs(e['e'], st):
            if s.exc is None and isinstance(v, tuple) and v[0] == 'ptr' and not v[1][2]:
                s.dead = s.dead | {v[1][1]}
            out.append((s, None))
        return out

    def e_new(self, e, st):
        out = []
        if e.get('place'):
            for s, p in self.rvs(e['place'][0], st):
                if s.exc is not None:
                    out.append((s, None))
                    continue
                for s2, v in (self.rvs(e['init'], s) if e.get('init') else [(s, None)]):
                    if s2.exc is None:
                        lv = self.deref(s2, p)
                        self.store(s2, lv, v)
                        s2.emit('construct', lv, self.loc(e))
                    out.append((s2, p))
            return out
        for s, v in (self.rvs(e['init'], st) if e.get('init') else [(st, self.lib.default(self, st, e['at']))]):
            if s.exc is None:
                v = ('ptr', self.new_obj(s, v))
            out.append((s, v))
        return out

    def e_lambda(self, e, st):
        acc = [(st, [])]
        for c in e['caps']:
            nxt = []
            for s, caps in acc:
                if s.exc is not None:
                    nxt.append((s, caps))
                    continue
                if c['k'] == 'this':
                    nxt.append((s, caps + [('this', None, s.this)]))
                elif c.get('ic'):
                    t = ty(c['t'])
                    for s2, v in self.ev(c['iinit'], s):
                        if s2.exc is None:
                            if t['k'] in ('ref', 'rref'):
                                v = self.as_lv(s2, v)
                                nxt.append((s2, caps + [('ref', c['v'], v)]))
                                continue
                            v = self.val(s2, v)
                        nxt.append((s2, caps + [('val', c['v'], v)]))
                else:
                    lv = s.env.get(c['v'])
                    if lv is None:
                        rs = self.ev(c['init'], s) if c.get('init') else [(s, self.temp(s, ('opq', c['n'], None)))]
                    else:
                        rs = [(s, lv)]
                    for s2, lv in rs:
                        if c['k'] == 'ref':
                            nxt.append((s2, caps + [('ref', c['v'], self.as_lv(s2, lv))]))
                        else:
                            nxt.append((s2, caps + [('val', c['v'], self.val(s2, lv))]))
            acc = nxt
        out = []
        for s, caps in acc:
            out.append((s, ('clo', e['_key'], tuple(caps)) if s.exc is None else None))
        return out

    def e_ilist(self, e, st):
        t = ty(strip_ref(e['t']))
        out = []
        for s, vs in self.seq_ev(e['a'], st, ['rv'] * len(e['a'])):
            if vs is None:
                out.append((s, None))
                continue
            if t['k'] == 'rec' and t['c'] in self.P.records and not self.lib.native(t):
                if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][0] in ('rec', 'srec') and vs[0][1] == t['c']:
                    out.append((s, vs[0]))
                    continue
                fs = e['fs']
                vals = {}
                extra = ()
                for n, v in zip(fs, vs):
                    if n == '<base>':
                        if isinstance(v, tuple) and v[0] == 'rec':
                            extra += v[2]
                    else:
                        vals[n] = v
                flds = list(extra)
                for n, tid in fields_of(t['c']):
                    if n in vals:
                        flds.append((n, vals[n]))
                    elif not any(x[0] == n for x in flds):
                        flds.append((n, self.zero(tid, s)))
                out.append((s, ('rec', t['c'], tuple(flds))))
            elif t['k'] == 'rec' and t.get('tn') == 'std::array' and len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][0] == 'seq':
                out.append((s, vs[0]))
            elif t['k'] in ('int', 'bool', 'enum', 'ptr') and len(vs) <= 1:
                out.append((s, vs[0] if vs else self.zero(e['t'], s)))
            elif t['k'] == 'rec' and t.get('tn') not in Q.SEQS and t['c'] not in self.P.records and t.get('tn') != 'std::initializer_list' and len(vs) == 1 and t['k'] != 'arr':
                out.append((s, vs[0]))
            else:
                out.append((s, Q.norm(('seq', tuple(('one', v) for v in vs)))))
        return out

    # ------------------------------------------------------------------ ctor
    def e_ctor(self, e, st):
        out = []
        how = self.argmode(e['fn'], e['a'])
        for s, vs in self.seq_ev(e['a'], st, how):
            if vs is None:
                out.append((s, None))
                continue
            out += self.construct(s, e['t'], e['fn'], vs, e)
        return out

    def argmode(self, fn, args):
        pt = fn.get('pt', [])
        how = []
        for i, a in enumerate(args):
            if a is None:
                how.append('rv')
                continue
            if i < len(pt):
                t = ty(pt[i])
                how.append('lv' if t['k'] in ('ref', 'rref') else 'rv')
            else:
                how.append('lv')
        return how

    def construct(self, st, tid, fn, args, e):
        t = ty(strip_ref(tid))
        if t['k'] == 'rec' and t['c'] in self.P.records and not self.lib.native(t):
            if (fn.get('cp') or fn.get('mv')) and len(args) == 1:
                f = self.P.functions.get(fn['u'])
                if f is None or f.get('df'):
                    return [(st, self.val(st, args[0]))]
            lv = self.temp(st, ('rec', t['c'], ()))
            rs = self.run_ctor(st, fn, t['c'], lv, args, e)
            out = []
            for s, _ in rs:
                if s.exc is None:
                    v = s.mem.pop(lv[1])
                    out.append((s, v))
                else:
                    out.append((s, None))
            return out
        r = self.lib.ctor(self, st, t, fn, args, e)
        return r

    def run_ctor(self, st, fn, cls, lv, args, e):
        f = self.P.functions.get(fn['u'])
        if f is None:
            # implicit default constructor
            return self.default_fields(st, cls, lv, set())
        return self.call(st, f, lv, args, e)

    def default_fields(self, st, cls, lv, done):
        r = self.P.records[cls]
        cur = [(st, None)]
        for b in r['bases']:
            bc = ty(b).get('c')
            if bc in self.P.records and ('b', bc) not in done:
                nxt = []
                for s, _ in cur:
                    nxt += self.default_fields(s, bc, lv, done) if s.exc is None else [(s, None)]
                cur = nxt
        for f in r['fields']:
            if f['n'] in done:
                continue
            nxt = []
            for s, _ in cur:
                if s.exc is not None:
                    nxt.append((s, None))
                elif f.get('init') is not None:
                    for s2, v in self.rvs(f['init'], s):
                        if s2.exc is None:
                            self.store(s2, self.sub(lv, ('f', f['n'])), v)
                        nxt.append((s2, None))
                else:
                    self.store(s, self.sub(lv, ('f', f['n'])), self.uninit(s, f['t'], f['n']))
                    nxt.append((s, None))
            cur = nxt
        return cur

    def uninit(self, st, tid, name):
        t = ty(strip_ref(tid))
        if t['k'] in ('int', 'bool', 'enum'):
            lo, hi = int_range(t)
            return atom(('s', ('uninit', name, st.fresh()), lo, hi))
        if t['k'] == 'ptr':
            return ('opq', ('uninit', name, st.fresh()), tid)
        if t['k'] == 'rec' and t['c'] in self.P.records and not self.lib.native(t):
            lv = self.temp(st, ('rec', t['c'], ()))
            rs = self.default_fields(st, t['c'], lv, set())
            return st.mem.pop(lv[1]) if len(rs) == 1 and rs[0][0] is st else ('rec', t['c'], ())
        return self.lib.default(self, st, tid)

    # ----------------------------------------------------------------- calls
    def e_call(self, e, st):
        fn = e['fn']
        self.callsites += 1
        out = []
        acc = [(st, None)]
        if e.get('o') is not None:
            acc = []
            for s, o in (self.rvs(e['o'], st) if e.get('oa') else self.ev(e['o'], st)):
                if s.exc is not None:
                    out.append((s, None))
                    continue
                if e.get('oa'):
                    lv = self.deref(s, o)
                    if lv is None:
                        out.append((self.crash(s, 'null dereference', e), None))
                        continue
                else:
                    lv = self.as_lv(s, o)
                acc.append((s, lv))
        how = self.argmode(fn, e['a'])
        for s, o in acc:
            for s2, vs in self.seq_ev(e['a'], s, how):
                if vs is None:
                    out.append((s2, None))
                    continue
                for s3, v in self.dispatch(s2, fn, o, vs, e):
                    if s3.exc is None and e.get('lv') and not is_lv(v):
                        v = self.temp(s3, v)
                    elif is_lv(v) and not e.get('lv') and ty(fn['rt'])['k'] in ('int', 'bool', 'enum'):
                        v = self.load(s3, v)
                    out.append((s3, v))
        return out

    def e_icall(self, e, st):
        out = []
        if e.get('fe') is None:
            a = e['a']
            f, args = a[0], a[1:]
        else:
            f, args = e['fe'], e['a']
        for s, fv in self.rvs(f, st):
            if s.exc is not None:
                out.append((s, None))
                continue
            for s2, vs in self.seq_ev(args, s, ['lv'] * len(args)):
                if vs is None:
                    out.append((s2, None))
                else:
                    out += self.invoke(s2, fv, vs, e)
        return out

    def dispatch(self, st, fn, o, args, e):
        """call of a known callee"""
        u = fn['u']
        h = self.opaque.get(u)
        if h is not None:
            r = h(self, st, fn, o, args, e)
            if r is not None:
                return r
        # calling a closure
        if fn.get('lam') and o is not None:
            return self.invoke(st, self.load(st, o), args, e)
        if o is not None and fn['n'] == 'operator()':
            v = self.load(st, o)
            if isinstance(v, tuple) and v[0] in ('clo', 'fn', 'bind', 'wrapped', 'sfn', 'nofn'):
                return self.invoke(st, v, args, e)
        c = fn.get('c')
        if o is not None and fn['n'].startswith('~') and is_lv(o):
            st.emit('destroy', o, self.loc(e))
        r = self.lib.call(self, st, fn, o, args, e)
        if r is not None:
            return r
        f = self.P.functions.get(u)
        if fn.get('v') and o is not None and not e.get('nv'):
            ov = self.load(st, o)
            cls = None
            exact = False
            if ov[0] == 'rec':
                cls, exact = ov[1], True
            elif ov[0] == 'srec':
                cls = ov[1]
                exact = isinstance(ov[2], tuple) and ov[2] and ov[2][0] == 'self'
            if exact:
                g = self.P.resolve(fn, cls)
                if g is not None:
                    h = self.opaque.get(g['fn']['u'])
                    if h is not None:
                        r = h(self, st, g['fn'], o, args, e)
                        if r is not None:
                            return r
                    return self.call(st, g, o, args, e)
            return self.vcall(st, fn, o, args, e)
        if f is not None:
            if f.get('df') and o is not None and fn['n'] == 'operator=':
                self.store(st, o, self.val(st, args[0]))
                return [(st, o)]
            return self.call(st, f, o, args, e)
        if fn['n'] == 'operator=' and o is not None and fn.get('repo') and len(args) == 1:
            self.store(st, o, self.val(st, args[0]))
            return [(st, o)]
        return self.lib.external(self, st, fn, o, args, e)

    def snap(self, st, x):
        """self-contained copy of an argument for the event log"""
        v = self.val(st, x)
        return self.lib.snapshot(self, st, v)

    def objname(self, st, o):
        """identity of the object a call is made on"""
        if o is None:
            return None
        r = o[1]
        if r[0] == 'sym' and not o[2]:
            return r[1]
        return (r, o[2])

    def vcall(self, st, fn, o, args, e):
        nm = self.objname(st, o)
        a = tuple(self.snap(st, x) for x in args)
        st.emit('vcall', fn['n'], nm, a, self.loc(e), fn.get('c'))
        h = self.hooks.get(fn['n'])
        if h is not None:
            r = h(self, st, fn, o, args, e)
            if r is not None:
                return r
        return [(st, self.ret_sym(st, fn, ('ret', fn['n'], nm, st.fresh())))]

    def ret_sym(self, st, fn, name):
        t = ty(fn['rt'])
        if t['k'] == 'void':
            return None
        if t['k'] in ('ref', 'rref'):
            return LV(('sym', name, t['e']))
        return init_sym(fn['rt'], name)

    def invoke(self, st, fv, args, e=None):
        """call a function value"""
        fv = self.val(st, fv)
        k = fv[0]
        if k == 'clo':
            lam = self.P.lambdas[fv[1]]
            return self.call_lambda(st, lam, fv[2], args, e)
        if k == 'wrapped':
            return self.invoke(st, fv[1], args, e)
        if k == 'bind':
            a = []
            for x in fv[2]:
                if isinstance(x, tuple) and x[0] == 'ph':
                    a.append(args[x[1] - 1] if x[1] - 1 < len(args) else ('opq', 'missing argument', None))
                else:
                    a.append(x)
            return self.invoke(st, fv[1], a, e)
        if k == 'fn':
            f = self.P.functions.get(fv[1])
            if f is None:
                # pure virtual through a pointer to member
                st.imprecise('function pointer')
                return [(st, None)]
            if f['fn'].get('c') and not f['fn'].get('st'):
                o = self.val(st, args[0])
                lv = self.deref(st, o) if not is_lv(o) else o
                if o[0] == 'rec':
                    lv = self.as_lv(st, args[0])
                return self.dispatch(st, f['fn'], lv, args[1:], e or {})
            return self.call(st, f, None, args, e or {})
        if k == 'sfn':
            if st.facts.preds.get(('nullfn', fv[1])) is True:
                return [(self.crash(st, 'empty function called', e or {}), None)]
            st.emit('hcall', fv[1], tuple(self.snap(st, x) for x in args), self.loc(e) if e else '?')
            h = self.hooks.get('<handler>')
            if h is not None:
                r = h(self, st, fv, args, e)
                if r is not None:
                    return r
            return [(st, None if e is None or 't' not in e or ty(e['t'])['k'] == 'void' else init_sym(e['t'], ('hret', fv[1], st.fresh())))]
        if k == 'nofn':
            return [(self.crash(st, 'empty function called', e or {}), None)]
        if k == 'rec':
            # callable object
            for f in self.P.method(fv[1], 'operator()', len(args)):
                return self.call(st, f, self.temp(st, fv), args, e or {})
        st.imprecise('call of unknown function value')
        return [(st, None)]

    def bind_params(self, st, env, params, args, frame):
        for i, p in enumerate(params):
            t = ty(p['t'])
            a = args[i] if i < len(args) else self.unknown(st, p['t'], 'param')
            if t['k'] in ('ref', 'rref'):
                env[p['v']] = self.as_lv(st, a)
            else:
                v = self.val(st, a)
                if is_int(v) and t['k'] in ('int', 'bool', 'enum') and 'w' in t:
                    v = self.cast(st, v, p['t'])
                r = ('v', frame, p['v'])
                st.mem[r] = v
                env[p['v']] = LV(r)

    def call(self, st, f, this, args, e):
        self.seen.add(f['disp'])
        if self.depth >= self.maxdepth or (sum(1 for x in self.stack if x is f) >= 12):
            self.cuts.append((f['disp'], 'recursion'))
            st.imprecise('recursion')
            st.exc = ('cut', 'recursion')
            return [(st, None)]
        frame = st.fresh()
        saved = st.env, st.this
        env = {}
        self.bind_params(st, env, f['params'], args, frame)
        st.env = env
        st.this = this
        self.depth += 1
        self.stack.append(f)
        self.rstack.append(ty(f['fn']['rt'])['k'] in ('ref', 'rref') if f['fn'].get('rt') is not None else False)
        try:
            if 'inits' in f:
                cur = self.run_inits(st, f, this)
            else:
                cur = [(st, None)]
            outs = []
            for s, _ in cur:
                if s.exc is not None:
                    outs.append(('exc', s, None))
                else:
                    outs += self.ex(f['body'], s) if f['body'] is not None else [('n', s, None)]
        finally:
            self.depth -= 1
            self.stack.pop()
            self.rstack.pop()
        res = []
        for k, s, v in outs:
            s.env, s.this = saved
            self.drop_frame(s, frame)
            res.append((s, v if k == 'ret' and s.exc is None else None))
        return self.merge(res)

    def drop_frame(self, s, frame):
        loc = 'L%d' % (self.depth + 1)
        for r in [r for r in s.mem if r[0] == 'v' and (r[1] == frame or r[1] == loc)]:
            del s.mem[r]

    def run_inits(self, st, f, this):
        cls = f['fn']['c']
        cur = [(st, None)]
        done = set()
        if any(i.get('d') for i in f['inits']):
            for i in f['inits']:
                if i.get('d'):
                    out = []
                    for s, v in self.rvs(i['e'], st):
                        if s.exc is None:
                            self.store(s, this, v)
                        out.append((s, None))
                    return out
        for i in f['inits']:
            nxt = []
            for s, _ in cur:
                if s.exc is not None:
                    nxt.append((s, None))
                    continue
                if 'b' in i:
                    bc = ty(i['b']).get('c')
                    if bc in self.P.records:
                        x = i['e']
                        if isinstance(x, dict) and x['k'] == 'ctor':
                            for s2, vs in self.seq_ev(x['a'], s, self.argmode(x['fn'], x['a'])):
                                if vs is None:
                                    nxt.append((s2, None))
                                elif (x['fn'].get('cp') or x['fn'].get('mv')) and vs:
                                    v = self.val(s2, vs[0])
                                    for n, t in fields_of(bc):
                                        self.store(s2, self.sub(this, ('f', n)), self.proj(s2, v, ('f', n)))
                                    nxt.append((s2, None))
                                else:
                                    nxt += self.run_ctor(s2, x['fn'], bc, this, vs, x)
                        else:
                            nxt += self.default_fields(s, bc, this, set())
                        continue
                    nxt.append((s, None))
                    continue
                m = i.get('m')
                if m is None:
                    nxt.append((s, None))
                    continue
                if m == '':
                    nxt.append((s, None))
                    continue
                ft = field_type(cls, m)
                path = [('f', m)]
                if ft is None:
                    # a member of an anonymous union
                    for n, t in fields_of(cls):
                        if n == '' and field_type(ty(t).get('c'), m) is not None:
                            ft = field_type(ty(t)['c'], m)
                            path = [('f', ''), ('f', m)]
                isref = ft is not None and ty(ft)['k'] in ('ref', 'rref')
                for s2, v in (self.ev(i['e'], s) if isref else self.rvs(i['e'], s)):
                    if s2.exc is None:
                        if v is None and ft is not None:
                            v = self.uninit(s2, ft, m)
                        if not isref and is_int(v) and ft is not None and ty(ft)['k'] in ('int', 'bool', 'enum'):
                            v = self.cast(s2, v, ft)
                        s2_lv = this
                        for x in path:
                            s2_lv = self.sub(s2_lv, x)
                        self.store(s2, s2_lv, v)
                        if len(path) > 1:
                            s2.emit('construct', s2_lv, self.where())
                    nxt.append((s2, None))
            cur = nxt
            if i.get('m'):
                done.add(i['m'])
                if field_type(cls, i['m']) is None:
                    done.add('')
            if 'b' in i:
                done.add(('b', ty(i['b']).get('c')))
        # members without initialiser
        out = []
        for s, _ in cur:
            if s.exc is not None:
                out.append((s, None))
                continue
            r = self.P.records.get(cls)
            if r is None:
                out.append((s, None))
                continue
            for fd in r['fields']:
                if fd['n'] not in done:
                    self.store(s, self.sub(this, ('f', fd['n'])), self.uninit(s, fd['t'], fd['n']))
            out.append((s, None))
        return out

    def call_lambda(self, st, lam, caps, args, e):
        if self.depth >= self.maxdepth:
            self.cuts.append(('lambda', 'recursion'))
            st.exc = ('cut', 'recursion')
            return [(st, None)]
        frame = st.fresh()
        saved = st.env, st.this
        env = {}
        this = None
        for k, v, x in caps:
            if k == 'this':
                this = x
            elif k == 'ref':
                env[v] = x
            else:
                r = ('v', frame, v)
                st.mem[r] = x
                env[v] = LV(r)
        self.bind_params(st, env, lam['params'], args, frame)
        st.env = env
        st.this = this
        self.depth += 1
        self.stack.append(lam['_owner'])
        self.rstack.append(ty(lam['rt'])['k'] in ('ref', 'rref') if isinstance(lam.get('rt'), int) and lam['rt'] in self.P.types else False)
        self.seen.add(lam['_owner']['disp'] + '::<lambda:%s>' % lam['id'])
        try:
            outs = self.ex(lam['body'], st)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.rstack.pop()
        res = []
        for k, s, v in outs:
            s.env, s.this = saved
            self.drop_frame(s, frame)
            res.append((s, v if k == 'ret' and s.exc is None else None))
        return self.merge(res)

    # ------------------------------------------------------------- merging
    def merge(self, res):
        """join results that only differ in complementary facts"""
        if len(res) < 2:
            return res
        if len(res) > self.maxstates:
            raise Stuck('too many states')
        groups = {}
        for i, (s, v) in enumerate(res):
            groups.setdefault((len(s.ev), s.exc is None, len(s.mem)), []).append(i)
        gone = set()
        for ids in groups.values():
            if len(ids) < 2 or len(ids) > 60:
                continue
            chg = True
            while chg:
                chg = False
                live = [i for i in ids if i not in gone]
                for x in range(len(live)):
                    for y in range(x + 1, len(live)):
                        i, j = live[x], live[y]
                        (a, va), (b, vb) = res[i], res[j]
                        if va == vb and a.ev == b.ev and a.exc == b.exc and a.dead == b.dead and a.univ == b.univ and a.imp == b.imp and a.tag == b.tag:
                            f = self.complementary(a.facts, b.facts)
                            if f is not None and a.mem == b.mem:
                                a.facts = f
                                a.n = max(a.n, b.n)
                                gone.add(j)
                                chg = True
                                break
                    if chg:
                        break
        return [r for i, r in enumerate(res) if i not in gone]

    def complementary(self, f, g):
        if f.preds == g.preds:
            x = [c for c in f.cs if c not in g.cs]
            y = [c for c in g.cs if c not in f.cs]
            if not x or not y:
                return f if not x else g
            if len(x) == 1 and len(y) == 1 and x[0] == notc(y[0]):
                return self.common(f, g)
            return None
        if set(f.cs) == set(g.cs):
            d = [k for k in set(f.preds) | set(g.preds) if f.preds.get(k) != g.preds.get(k)]
            if len(d) == 1 and d[0] in f.preds and d[0] in g.preds:
                return self.common(f, g)
        return None

    # ------------------------------------------------------------ statements
    def ex(self, n, st):
        """[(kind, state, value)]"""
        if n is None:
            return [('n', st, None)]
        m = getattr(self, 's_' + n['k'], None)
        if m is None:
            st.imprecise('statement ' + n['k'])
            return [('n', st, None)]
        return m(n, st)

    def s_block(self, n, st):
        cur = [st]
        out = []
        locks = []
        for x in n['s']:
            nxt = []
            for s in cur:
                for k, s2, v in self.ex(x, s):
                    if k == 'n':
                        nxt.append(s2)
                    else:
                        out.append((k, s2, v))
            if x['k'] == 'decls':
                for d in x['d']:
                    if tname(d['t']) in LOCKS or 'ThreadPool' in ty(d['t']).get('s', '') and tname(d['t']) == 'std::unique_ptr':
                        locks.append(d['v'])
            cur = [s for s, _ in self.merge([(s, None) for s in nxt])]
            if not cur:
                break
        out += [('n', s, None) for s in cur]
        if locks:
            for k, s, v in out:
                for x in reversed(locks):
                    self.lib.unlock(self, s, x, n)
        return out

    def s_decls(self, n, st):
        cur = [st]
        out = []
        for d in n['d']:
            nxt = []
            for s in cur:
                for s2, _ in self.declare(d, s):
                    if s2.exc is not None:
                        out.append(('exc', s2, None))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [('n', s, None) for s in cur]

    def frame_of(self, st):
        return self.depth

    def declare(self, d, st):
        t = ty(d['t'])
        out = []
        root = ('v', 'L%d' % self.depth, d['v'])
        if t['k'] in ('ref', 'rref'):
            for s, v in self.ev(d['init'], st):
                if s.exc is None:
                    env = dict(s.env)
                    env[d['v']] = self.as_lv(s, v)
                    s.env = env
                    self.bindings(d, s)
                out.append((s, None))
            return out
        if d.get('init') is None:
            rs = [(st, self.uninit(st, d['t'], d['n']))]
        else:
            rs = self.rvs(d['init'], st)
        for s, v in rs:
            if s.exc is None:
                env = dict(s.env)
                env[d['v']] = LV(root)
                s.env = env
                if v is None:
                    v = self.uninit(s, d['t'], d['n'])
                if is_int(v) and t['k'] in ('int', 'bool', 'enum') and 'w' in t:
                    v = self.cast(s, v, d['t'])
                s.mem[root] = v
                self.bindings(d, s)
            out.append((s, None))
        return out

    def bindings(self, d, s):
        if not d.get('binds'):
            return
        lv = s.env[d['v']]
        v = self.load(s, lv)
        env = dict(s.env)
        names = None
        if isinstance(v, tuple) and v[0] in ('rec', 'srec'):
            names = [x for x, _ in v[2]] if v[0] == 'rec' else [x for x, _ in fields_of(v[1])]
        elif isinstance(v, tuple) and v[0] == 'mapent':
            names = ['first', 'second']
        if names is not None:
            for b, nme in zip(d['binds'], names):
                env[b['v']] = self.sub(lv, ('f', nme))
        s.env = env

    def s_expr(self, n, st):
        out = []
        for s, v in self.ev(n['e'], st):
            out.append(('exc' if s.exc is not None else 'n', s, None))
        return out

    def s_ret(self, n, st):
        f = self.stack[-1] if self.stack else None
        out = []
        if n.get('e') is None:
            return [('ret', st, None)]
        e = n['e']
        for s, v in self.ev(e, st):
            if s.exc is not None:
                out.append(('exc', s, None))
                continue
            out.append(('ret', s, v))
        # reference or value?  decided by the callee's return type
        res = []
        isref = self.ret_is_ref(n)
        for k, s, v in out:
            if k == 'ret' and is_lv(v) and e.get('lv') and not isref:
                v = self.load(s, v)
            elif k == 'ret' and isref and not is_lv(v) and v is not None:
                v = self.temp(s, v)
            res.append((k, s, v))
        return res

    def ret_is_ref(self, n):
        return self.rstack[-1] if self.rstack else False

    def s_break(self, n, st):
        return [('brk', st, None)]

    def s_cont(self, n, st):
        return [('cont', st, None)]

    def s_if(self, n, st):
        out = []
        pre = [st]
        if n.get('init'):
            pre = []
            for k, s, v in self.ex(n['init'], st):
                if k == 'n':
                    pre.append(s)
                else:
                    out.append((k, s, v))
        if n.get('cv'):
            nxt = []
            for s in pre:
                for s2, _ in self.declare(n['cv'], s):
                    if s2.exc is not None:
                        out.append(('exc', s2, None))
                    else:
                        nxt.append(s2)
            pre = nxt
        for s0 in pre:
            for s, c in self.rvs(n['c'], s0):
                if s.exc is not None:
                    out.append(('exc', s, None))
                    continue
                cc = self.cond(s, c)
                d = s.facts.decide(cc)
                if d is not None:
                    out += self.ex(n['a'] if d else n.get('b'), s)
                    continue
                base = s.copy()
                res = []
                arms = self.branch(s, cc)
                for s2, t in arms:
                    res.append((t, self.ex(n['a'] if t else n.get('b'), s2)))
                m = self.join_if(base, cc, res)
                if m is not None:
                    out.append(('n', m, None))
                else:
                    for t, r in res:
                        out += r
        return out

    def join_if(self, base, cc, res):
        """merge the two arms of an if that only assign scalars"""
        if len(res) != 2 or any(len(r) != 1 or r[0][0] != 'n' for _, r in res):
            return None
        if isinstance(cc, bool) or cc[0] not in ('ge', 'eq', 'ne', 'p', 'np'):
            return None
        at = {t: r[0][1] for t, r in res}
        if len(at) != 2:
            return None
        a, b = at[True], at[False]
        if a.ev != b.ev or a.dead != b.dead or a.imp != b.imp or a.univ != b.univ:
            return None
        if a.mem.keys() != b.mem.keys():
            # roots created in one arm only (temporaries)
            for s in (a, b):
                for r in [r for r in s.mem if r not in base.mem and r[0] in ('t',)]:
                    del s.mem[r]
            if a.mem.keys() != b.mem.keys():
                return None
        m = a.copy()
        for r in a.mem:
            x, y = a.mem[r], b.mem[r]
            if x is y or x == y:
                continue
            z = self.join_val(cc, x, y)
            if z is None:
                return None
            m.mem[r] = z
        m.facts = self.common(a.facts, b.facts)
        m.n = max(a.n, b.n)
        return m

    def join_val(self, cc, x, y):
        if is_int(x) and is_int(y):
            d = sub(x, y)
            if isinstance(d, int) and cc[0] in ('ge', 'eq', 'ne'):
                bv = bval(cc)
                sg = single(bv)
                # keep paths apart unless the condition itself is a 0/1 quantity of the input
                if isinstance(bv, Lin) and not any(TM.ATOMS[i][0] == 'b' for i, _ in bv.t):
                    return add(y, mulc(bv, d))
            return None
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'rec' and y[0] == 'rec' and x[1] == y[1] and len(x[2]) == len(y[2]):
            out = []
            for (n, p), (n2, q) in zip(x[2], y[2]):
                if n != n2:
                    return None
                if p == q:
                    out.append((n, p))
                    continue
                z = self.join_val(cc, p, q)
                if z is None:
                    return None
                out.append((n, z))
            return ('rec', x[1], tuple(out))
        return None

    def s_switch(self, n, st):
        out = []
        pre = [st]
        if n.get('init'):
            pre = [s for k, s, v in self.ex(n['init'], st) if k == 'n']
        if n.get('cv'):
            pre = [s2 for s in pre for s2, _ in self.declare(n['cv'], s)]
        # flatten body into labelled statements
        items = []

        def flat(x):
            if x['k'] in ('case', 'default'):
                items.append(('lab', x))
                flat(x['s']) if x['s'] is not None else None
            else:
                items.append(('st', x))
        body = n['a']['s'] if n['a']['k'] == 'block' else [n['a']]
        for x in body:
            flat(x)
        for s0 in pre:
            for s, v in self.rvs(n['c'], s0):
                if s.exc is not None:
                    out.append(('exc', s, None))
                    continue
                rest = [s]
                starts = []
                dflt = None
                for i, (k, x) in enumerate(items):
                    if k != 'lab':
                        continue
                    if x['k'] == 'default':
                        dflt = i
                        continue
                    c1 = int(x['c']['v'])
                    nr = []
                    for r in rest:
                        if x.get('c2'):
                            c = andc(ge(sub(v, c1)), ge(sub(int(x['c2']['v']), v)))
                        else:
                            c = self.compare(r, '==', v, c1)
                        for r2, t in self.branch(r, c):
                            if t:
                                starts.append((i, r2))
                            else:
                                nr.append(r2)
                    rest = nr
                for r in rest:
                    if dflt is not None:
                        starts.append((dflt, r))
                    else:
                        out.append(('n', r, None))
                for i, s1 in starts:
                    cur = [s1]
                    for k, x in items[i:]:
                        if k != 'st':
                            continue
                        nxt = []
                        for s2 in cur:
                            for kk, s3, v3 in self.ex(x, s2):
                                if kk == 'n':
                                    nxt.append(s3)
                                elif kk == 'brk':
                                    out.append(('n', s3, None))
                                else:
                                    out.append((kk, s3, v3))
                        cur = nxt
                        if not cur:
                            break
                    out += [('n', s2, None) for s2 in cur]
        nn = [(s, None) for k, s, v in out if k == 'n']
        oth = [x for x in out if x[0] != 'n']
        return oth + [('n', s, None) for s, _ in self.merge(nn)]

    def s_try(self, n, st):
        out = []
        for k, s, v in self.ex(n['a'], st):
            if k != 'exc' and s.exc is None:
                out.append((k, s, v))
                continue
            if s.exc[0] != 'exc':
                out.append(('exc', s, None))
                continue
            pend = [s]
            for h in n['h']:
                nxt = []
                for s2 in pend:
                    m = self.lib.catches(self, s2, s2.exc[1], h['t'])
                    for s3, t in ([(s2, m)] if isinstance(m, bool) else self.branch(s2, m)):
                        if not t:
                            nxt.append(s3)
                            continue
                        x = s3.exc
                        s3.exc = None
                        old = s3.mem.get(('curexc',))
                        s3.mem[('curexc',)] = x
                        if h['v'] >= 0:
                            env = dict(s3.env)
                            env[h['v']] = self.temp(s3, self.lib.as_exc(self, s3, x[1], h['t']))
                            s3.env = env
                        for r in self.ex(h['s'], s3):
                            r[1].mem.pop(('curexc',), None)
                            if old is not None:
                                r[1].mem[('curexc',)] = old
                            out.append(r)
                pend = nxt
            out += [('exc', s2, None) for s2 in pend]
        return out

    # ----------------------------------------------------------------- loops
    def s_while(self, n, st):
        def head(s):
            if n.get('cv'):
                r = []
                for s1, _ in self.declare(n['cv'], s):
                    if s1.exc is not None:
                        r.append((s1, None))
                    else:
                        r += self.rvs(n['c'], s1)
                return r
            return self.rvs(n['c'], s)
        return self.loop(st, head, lambda s: self.ex(n['a'], s), None, n)

    def s_do(self, n, st):
        out = []
        first = []
        for k, s, v in self.ex(n['a'], st):
            if k in ('n', 'cont'):
                first.append(s)
            elif k == 'brk':
                out.append(('n', s, None))
            else:
                out.append((k, s, v))
        for s in first:
            out += self.loop(s, lambda s: self.rvs(n['c'], s), lambda s: self.ex(n['a'], s), None, n)
        return out

    def s_for(self, n, st):
        out = []
        for k, s, v in (self.ex(n['init'], st) if n.get('init') else [('n', st, None)]):
            if k != 'n':
                out.append((k, s, v))
                continue
            out += self.loop(s, (lambda s: self.rvs(n['c'], s)) if n.get('c') else (lambda s: [(s, 1)]),
                             lambda s: self.ex(n['a'], s), n.get('inc'), n)
        return out

    def s_forr(self, n, st):
        out = []
        pre = [st]
        if n.get('init'):
            pre = [s for k, s, v in self.ex(n['init'], st)]
        for s0 in pre:
            # iterate over the range: by position for sequences
            for s, r in self.ev(n['re'], s0):
                if s.exc is not None:
                    out.append(('exc', s, None))
                    continue
                lv = self.as_lv(s, r)
                v = self.load(s, lv)
                if isinstance(v, tuple) and v[0] == 'map':
                    for s2 in self.lib.map_orders(self, s, v):
                        out += self.range_loop(n, s2, lv, v)
                    continue
                out += self.range_loop(n, s, lv, v)
        return out

    def range_loop(self, n, s, lv, v):
        d = n['var']
        isref = ty(d['t'])['k'] in ('ref', 'rref')
        iroot = ('v', 'L%d' % self.depth, ('it', d['v']))
        mp = isinstance(v, tuple) and v[0] == 'map'
        if not mp and not (isinstance(v, tuple) and v[0] == 'seq'):
            s.imprecise('range')
            return [('n', s, None)]
        s.mem[iroot] = 0
        if mp:
            ents = self.lib.map_entries(self, s, v)
            if ents is None:
                s.imprecise('map iteration')
                return [('n', s, None)]
            v = ents
            lv = self.temp(s, v)
            isref = True

        def head(st):
            return [(st, bval(ge(sub(sub(Q.seqlen(self.load(st, lv)), 1), st.mem[iroot]))))]

        def body(st):
            i = st.mem[iroot]
            e = self.sub(lv, ('i', i))
            env = dict(st.env)
            if isref:
                x = e
                if mp:
                    env[d['v']] = e
                else:
                    env[d['v']] = e
                st.env = env
            else:
                root = ('v', 'L%d' % self.depth, d['v'])
                env[d['v']] = LV(root)
                st.env = env
                x = self.load(st, e)
                t = ty(d['t'])
                if is_int(x) and 'w' in t:
                    x = self.cast(st, x, d['t'])
                st.mem[root] = x
            self.bindings(d, st)
            return self.ex(n['a'], st)

        def inc(st):
            st.mem[iroot] = add(st.mem[iroot], 1)
            return [(st, None)]
        return self.loop(s, head, body, inc, n)

    def loop(self, st, head, body, inc, n):
        """all visits of a loop head"""
        entry_roots = set(st.mem)
        env0 = st.env
        out = []

        def step(s):
            """one iteration from a head state -> (exits, continuing)"""
            exits, cont = [], []
            for s1, c in head(s):
                if s1.exc is not None:
                    exits.append(('exc', s1, None))
                    continue
                for s2, t in self.branch(s1, self.cond(s1, c)):
                    if not t:
                        exits.append(('n', s2, None))
                        continue
                    for k, s3, v in body(s2):
                        if k in ('n', 'cont'):
                            if inc is None:
                                cont.append(s3)
                            elif callable(inc):
                                cont += [x for x, _ in inc(s3)]
                            else:
                                for s4, _ in self.ev(inc, s3):
                                    if s4.exc is not None:
                                        exits.append(('exc', s4, None))
                                    else:
                                        cont.append(s4)
                        elif k == 'brk':
                            exits.append(('n', s3, None))
                        else:
                            exits.append((k, s3, v))
            for s in cont:
                s.env = env0
                for r in [r for r in s.mem if r not in entry_roots and r[0] in ('v', 't')]:
                    if r[0] == 'v' and not (isinstance(r[1], str) and int(r[1][1:]) >= self.depth):
                        continue
                    if r[0] == 't' and self.escapes(s, r):
                        continue
                    del s.mem[r]
            cont = [s for s, _ in self.merge([(s, None) for s in cont])]
            if len(cont) > 1:
                # states that leave at the very next test of the condition
                live = []
                for s in cont:
                    last = []
                    for s1, c in head(s.copy()):
                        if s1.exc is not None:
                            last.append(('exc', s1, None))
                            continue
                        d = s1.facts.decide(self.cond(s1, c))
                        if d is not False:
                            last = None
                            break
                        last.append(('n', s1, None))
                    if last is None:
                        live.append(s)
                    else:
                        exits += last
                cont = live
            return exits, cont
        cur = [st]
        hist = []
        visit = 0
        undecided = 0
        while cur:
            if len(cur) == 1:
                hist.append(cur[0].copy())
            else:
                hist = []
            nxt = []
            dec = True
            for s in cur:
                ex_, ct = step(s)
                if ex_ and ct:
                    dec = False
                if len(ct) > 1:
                    dec = False
                for k, s2, v in ex_:
                    s2.env = env0
                out += [(visit, x) for x in ex_]
                nxt += ct
            nxt = [s for s, _ in self.merge([(s, None) for s in nxt])]
            cur = nxt
            visit += 1
            if not dec:
                undecided += 1
            if not cur:
                break
            if undecided >= 3 and self.generalise and len(cur) == 1:
                g = gen.try_loop(self, hist + [cur[0].copy()], step, entry_roots)
                if g is not None:
                    gout, base = g
                    # visits from the generalised one on are instances of the summary
                    base += visit - len(hist)
                    out = [(w, x) for w, x in out if w < base]
                    for k, s2, v in gout:
                        s2.env = env0
                    out += [(visit, x) for x in gout]
                    cur = []
                    break
            if undecided >= self.maxvisits or visit >= self.maxconst or len(cur) > 64 or (undecided and visit >= self.maxvisits * 2 + 4):
                self.cuts.append((self.where(), 'loop at line %s after %d visits' % (n.get('l'), visit)))
                self.ncut += len(cur)
                break
        out = [x for _, x in out]
        nn = [(s, None) for k, s, v in out if k == 'n']
        oth = [x for x in out if x[0] != 'n']
        return oth + [('n', s, None) for s, _ in self.merge(nn)]

    def escapes(self, s, r):
        """is a temporary still referenced from elsewhere"""
        cache = self.refs
        if len(cache) > 20000:
            cache.clear()

        def refs(v):
            if not isinstance(v, tuple):
                return NOREFS
            if len(v) == 3 and v[0] == 'lv':
                return frozenset((v[1],)) if v[1][0] == 't' else NOREFS
            big = len(v) > 4
            if big:
                c = cache.get(id(v))
                if c is not None:
                    return c[1]
            out = NOREFS
            for x in v:
                if isinstance(x, tuple):
                    y = refs(x)
                    if y:
                        out = out | y
            if big:
                cache[id(v)] = (v, out)
            return out
        for q, v in s.mem.items():
            if not isinstance(v, tuple):
                continue
            c = cache.get(id(v))
            if c is None:
                c = cache[id(v)] = (v, refs(v))
            if r in c[1] and q != r:
                return True
        return False


NOREFS = frozenset()
