"""C32: copies of messages; C33: Expected; C34: identifiers, endpoints and
exceptions; C36: session timers; C37: default answers of a server session"""
from sa import lib
from sa import terms as T
from sa.model import models, NoVal
from sa.interp import Interp, St, LV, NULL, is_lv
from sa.report import Broken
from sa.seqs import init_sym, strip_ref, fields_of, ty
from checks.client import NS, concrete, ctors, method, loc_of, make

EXCS = ('ModbusException', 'TimeoutException')


def uninit(P, cls):
    out = []
    for n, t in fields_of(cls):
        c = ty(t).get('c')
        out.append((n, uninit(P, c) if n == '' and c in P.records else None))
    return ('rec', cls, tuple(out))


class Exp:
    """every way of making an Expected, and every observer on the result"""

    def __init__(self, P, R):
        self.P, self.R = P, R
        self.pay = NS + 'ReadCoilsResponse'
        self.cls = next((c for c in P.records if c == NS + 'Expected<%s>' % self.pay), None)
        if self.cls is None:
            raise Broken('no Expected')
        self.I = Interp(P, maxvisits=8, generalise=False)
        self.fs = [f for f in P.functions.values() if f['fn'].get('c') == self.cls]
        self.undec = set()

    def value(self, name='value'):
        return ('rec', self.pay, tuple((n, init_sym(t, ('fld', (name,), n))) for n, t in fields_of(self.pay)))

    def exc(self, c):
        return ('srec', NS + c, ('failure',))

    def payload(self, p):
        return ty(strip_ref(p['t'])).get('c') == self.pay

    def construct(self, s, f, arg):
        root = ('x', s.fresh())
        s.mem[root] = uninit(self.P, self.cls)
        return [(x, LV(root)) for x, _ in self.I.call(s, f, LV(root), [arg], {})]

    def objects(self):
        """(how it was made, state, object, has a value?, what it must hold)"""
        base = []
        for f in self.fs:
            n, ps = f['fn']['n'], f['params']
            if len(ps) != 1:
                continue
            t = ty(strip_ref(ps[0]['t']))
            if n == 'Expected' and self.payload(ps[0]):
                s = St()
                s.mem[('arg',)] = self.value()
                for x, o in self.construct(s, f, LV(('arg',))):
                    base.append(('made from a value', f, x, o, True, self.value()))
            elif n == 'from_exception':
                for c in EXCS:
                    e = self.exc(c)
                    if t.get('tn') == 'std::__exception_ptr::exception_ptr':
                        a, how = ('excptr', e), 'made from an exception pointer'
                    elif t.get('c') == e[1]:
                        a, how = e, 'made from a %s' % c
                    else:
                        continue
                    s = St()
                    s.mem[('arg',)] = a
                    for x, v in self.I.call(s, f, None, [LV(('arg',)) if ty(ps[0]['t'])['k'] in ('ref', 'rref') else a], {}):
                        o = None
                        if x.exc is None:
                            o = LV(('x', x.fresh()))
                            x.mem[o[1]] = self.I.val(x, v)
                        base.append((how, f, x, o, False, e))
        out = list(base)
        for how, f0, s, o, ok, held in base:
            if s.exc is not None or s.imp:
                continue
            for f in self.fs:
                if f['fn']['n'] == 'Expected' and len(f['params']) == 1 and ty(strip_ref(f['params'][0]['t'])).get('c') == self.cls:
                    mv = ty(f['params'][0]['t'])['k'] == 'rref'
                    x = s.copy()
                    x.ev = ()
                    before = x.mem[o[1]]
                    for y, p in self.construct(x, f, o):
                        out.append(('moved from one %s' % how if mv else 'copied from one %s' % how, f, y, p, ok, held))
                        if not mv and not y.imp and y.mem[o[1]] != before:
                            self.bad(y, 'source-changed', f, 'copying an Expected changes the one copied')
                        if mv:
                            # what is left can still be destroyed
                            z = y.copy()
                            z.ev = tuple(e for e in s.ev if e[0] in ('construct', 'destroy')) + tuple(y.ev)
                            out.append(('that another was moved from, %s' % how, f, z, o, ok, None))
        return out

    def bad(self, s, rule, f, text):
        if s.imp:
            self.undec.add(text)
        else:
            self.R.violate('C33:' + rule, loc_of(f), text)

    def same(self, s, v, want):
        v = lib.snapshot(self.I, s, v)
        if isinstance(v, tuple) and v[0] == 'excptr':
            v = v[1]
        return v == want

    def observe(self, how, s0, o, ok, held):
        I = self.I
        alive = []
        for e in s0.ev:
            if e[0] == 'construct' and e[1][1] == o[1]:
                alive.append(e[1])
            elif e[0] == 'destroy' and e[1] in alive:
                alive.remove(e[1])
        for f in self.fs:
            n = f['fn']['n']
            if f['params'] or n == 'Expected':
                continue
            if held is None and not n.startswith('~'):
                continue
            s = s0.copy()
            s.ev = ()
            fta = f['fn'].get('fta')
            E = ty(strip_ref(fta[0])).get('c') if fta else None
            for x, v in I.call(s, f, o, [], {}):
                self.R.count('paths')
                if x.imp:
                    self.undec.add('%s of an Expected %s: imprecise (%s)' % (n, how, ', '.join(sorted(map(str, x.imp)))[:100]))
                    continue
                what = '%s%s of an Expected %s' % (n, '<%s>' % E.split('::')[-1] if E else '', how)
                crash = [e for e in x.ev if e[0] == 'crash']
                if crash:
                    self.bad(x, 'crash', f, '%s: %s' % (what, crash[0][1]))
                    continue
                thrown = x.exc[1] if x.exc is not None else None
                res = None if v is None or thrown is not None else I.val(x, v)
                if n.startswith('~'):
                    gone = [e[1] for e in x.ev if e[0] == 'destroy']
                    if thrown is not None:
                        self.bad(x, 'throws', f, what + ' throws')
                    elif (gone or alive) and how.split()[0] in ('made', 'copied', 'moved', 'that'):
                        # the members of a union are made and destroyed by hand
                        if len(alive) == 1 and gone != alive:
                            self.bad(x, 'destroy', f, '%s destroys %s' % (what, 'nothing' if not gone else 'another member than the one it holds'))
                        elif len(alive) > 1:
                            self.bad(x, 'construct', f, 'an Expected %s makes more than one member of its union' % how)
                elif n == 'is_valid':
                    if thrown is not None or T.is_int(res) and x.facts.decide(T.eq(T.sub(res, int(ok)))) is False:
                        self.bad(x, 'is-valid', f, '%s is %s' % (what, res if isinstance(res, int) else 'wrong'))
                elif n == 'get':
                    if ok and (thrown is not None or not self.same(x, res, held)):
                        self.bad(x, 'get', f, what + (' throws' if thrown is not None else ' is not the value it was made from'))
                    if not ok and (thrown is None or not self.same(x, thrown, held)):
                        self.bad(x, 'get-exception-thrown', f, what + (' does not throw the exception it holds' if thrown is not None else ' gives a value that does not exist'))
                elif n == 'has_exception':
                    want = int(not ok and held[1] == E)
                    if thrown is not None or T.is_int(res) and x.facts.decide(T.eq(T.sub(res, want))) is False:
                        self.bad(x, 'has-exception', f, '%s is %s' % (what, 'not given' if thrown is not None else not want))
                elif n == 'get_exception':
                    if ok or E and held[1] != E:
                        if thrown is None or not (thrown[0] == 'stdexc' and thrown[1] == 'std::invalid_argument'):
                            self.bad(x, 'get-exception', f, what + ' does not throw std::invalid_argument')
                    elif thrown is not None or not self.same(x, res, held):
                        self.bad(x, 'get-exception', f, what + (' throws' if thrown is not None else ' is not the exception it was made from'))
                self.R.ok()

    def slicing(self):
        """an exception of a class derived from the one named"""
        for f in self.fs:
            if f['fn']['n'] != 'from_exception' or len(f['params']) != 1:
                continue
            c = ty(strip_ref(f['params'][0]['t'])).get('c')
            d = [x for x in EXCS if c in self.P.records and x != c and NS + x != c and self.P.is_a(NS + x, c)]
            for n in d:
                s = St()
                s.mem[('arg',)] = self.exc(n)
                for x, v in self.I.call(s, f, None, [LV(('arg',))], {}):
                    self.R.count('paths')
                    if x.exc is None:
                        self.bad(x, 'slicing', f, 'from_exception given a %s as %s cuts it instead of failing' % (n, c))
                    self.R.ok()


def c33(P, R):
    R.rule('Expected<T>, for an instance with a symbolic value: made from a value (copied, moved), from an exception, from an exception pointer, copied and moved from each of these; every observer (is_valid, get, has_exception<E>, get_exception, get_exception<E>, destruction) is interpreted on each and must tell exactly what it was made from; each union member made is the one destroyed.')
    lib.NATIVE_EXPECTED[0] = False
    try:
        X = Exp(P, R)
        objs = X.objects()
        kinds = set()
        for how, f, s, o, ok, held in objs:
            R.count('objects')
            if s.exc is not None:
                X.bad(s, 'throws', f, 'an Expected %s: throws' % how)
                continue
            if s.imp:
                X.undec.add('an Expected %s: imprecise (%s)' % (how, ', '.join(sorted(map(str, s.imp)))[:100]))
                continue
            kinds.add((how.split()[0], ok))
            X.observe(how, s, o, ok, held)
        X.slicing()
        if not {('made', True), ('made', False), ('copied', True), ('copied', False)} <= kinds:
            X.undec.add('not every way of making an Expected was found: %s' % sorted(kinds))
        for u in sorted(X.undec):
            R.undec(u)
        R.used(X.I)
    finally:
        lib.NATIVE_EXPECTED[0] = True



# ------------------------------------------------------------- plain values
class Obj:
    """an object of a class made from symbolic arguments, and its methods"""

    def __init__(self, prop, P, R):
        self.prop, self.P, self.R = prop, P, R
        self.I = Interp(P, maxvisits=8, generalise=False)
        self.undec = set()
        self.why = {}

    def make(self, st, cls, name, how=None):
        """[(state, object, ctor, its arguments)]"""
        out = []
        for f in [f for f in self.P.functions.values() if f['fn'].get('c') == cls and 'inits' in f and not f['fn'].get('cp') and not f['fn'].get('mv') and (how is None or how(f))]:
            s = st.copy()
            root = (name, s.fresh())
            s.mem[root] = ('rec', cls, tuple((n, None) for n, _ in fields_of(cls)))
            vals, args = [], []
            for k, p in enumerate(f['params']):
                t = strip_ref(p['t'])
                v = self.I.val(s, self.sym(s, t, (name, k)))
                vals.append(v)
                if ty(p['t'])['k'] in ('ref', 'rref'):
                    r = (name + 'arg', s.fresh())
                    s.mem[r] = v
                    args.append(LV(r))
                else:
                    args.append(v)
            for x, _ in self.I.call(s, f, LV(root), args, {}):
                if self.good(x, f, 'construction'):
                    out.append((x, LV(root), f, vals))
        return out

    def sym(self, s, t, name):
        c = ty(t).get('c')
        if c in self.P.records and not lib.native(ty(t)):
            return ('rec', c, tuple((n, self.sym(s, x, name + (n,))) for n, x in fields_of(c)))
        return init_sym(t, name)

    def good(self, x, f, what, throws=False):
        self.R.count('paths')
        if x.imp:
            self.undec.add('%s of %s: imprecise (%s)' % (what, f['disp'], ', '.join(sorted(map(str, x.imp)))[:120]))
            return False
        c = [e for e in x.ev if e[0] == 'crash']
        if c:
            self.bad('crash', f, '%s of %s: %s' % (what, f['disp'], c[0][1]))
            return False
        if x.exc is not None and not throws:
            self.bad('throws', f, '%s of %s throws' % (what, f['disp']))
            return False
        return True

    def bad(self, rule, f, text):
        self.R.violate(self.prop + ':' + rule, loc_of(f), text)

    def call(self, s, f, o, args):
        x = s.copy()
        x.ev = ()
        for y, v in self.I.call(x, f, o, args, {}):
            if self.good(y, f, 'a call'):
                yield y, (None if v is None else self.I.val(y, v)), v

    def differs(self, s, got, want):
        """True when the two are certainly not always equal, None when unclear"""
        got, want = lib.snapshot(self.I, s, got), lib.snapshot(self.I, s, want)
        if got == want:
            return False
        if isinstance(got, tuple) and isinstance(want, tuple) and got[0] == 'rec' and want[0] == 'rec':
            if got[1] != want[1]:
                return True
            w = dict(want[2])
            r = [self.differs(s, v, w.get(n)) for n, v in got[2]]
            return True if any(r) else None if None in r else False
        if T.is_int(got) and T.is_int(want):
            c = T.eq(T.sub(got, want))
        else:
            c = self.I.same(s, got, want) if isinstance(got, tuple) and isinstance(want, tuple) else False
        if c is True or c is False:
            return not c
        d = s.facts.decide(c)
        if d is not None:
            return not d
        # some value makes them differ
        g = s.facts.copy()
        return True if g.add(T.notc(c)) else None

    def finish(self, n=0):
        for u in sorted(self.undec):
            self.R.undec(u)
        self.R.used(self.I)


def equality(X, cls):
    """operator== and operator!= over two arbitrary objects of the class"""
    for n in ('operator==', 'operator!='):
        free = [f for f in X.P.functions.values() if f['fn']['n'] == n and not f['fn'].get('c') and len(f['params']) == 2 and all(ty(strip_ref(p['t'])).get('c') == cls for p in f['params'])]
        for f in (X.P.method(cls, n) or []) + free:
            for s, a, _, va in X.make(St(), cls, 'a'):
                for s2, b, _, vb in X.make(s, cls, 'b'):
                    X.R.count('comparisons')
                    for k in range(1 << len(va)):
                        x = s2.copy()
                        live = True
                        for i in range(len(va)):
                            c = T.eq(T.sub(va[i], vb[i])) if T.is_int(va[i]) else X.I.same(x, va[i], vb[i])
                            live = live and x.facts.add(c if k >> i & 1 else T.notc(c))
                        if not live:
                            continue
                        want = int((k == (1 << len(va)) - 1) == (n == 'operator=='))
                        for y, r, _ in X.call(x, f, None if f in free else a, [a, b] if f in free else [b]):
                            d = y.facts.decide(T.eq(T.sub(r, want))) if T.is_int(r) else None
                            if d is False:
                                X.bad('equality', f, '%s is %s for objects that %s' % (f['disp'], 'true' if not want else 'false', 'are equal' if k == (1 << len(va)) - 1 else 'differ'))
                            elif d is None:
                                w = witness(y, r, want) or near(y, r, want, va, vb) if T.is_int(r) else None
                                if w:
                                    X.bad('equality', f, '%s is %s for objects that %s' % (f['disp'], w, 'are equal' if k == (1 << len(va)) - 1 else 'differ'))
                                    continue
                                X.undec.add('%s is not decided' % f['disp'])
                            X.R.ok()


def units(P, R):
    """equality and hash of unit identifiers (what the sessions of a server are found by)"""
    U = NS + 'UnitIdentifier'
    X = Obj(R.prop, P, R)
    if U not in P.records:
        raise Broken('no class ' + U)
    R.rule('Unit identifiers are equal exactly when their values are, and equal ones have equal hashes.')
    equality(X, U)
    hashes(X, U)
    X.finish()


def witness(s, r, want):
    """a value of the boolean r, in some model of the path, other than want"""
    for m in models(s, 1, 40):
        try:
            v = m.value(r)
        except NoVal:
            continue
        if bool(v) != bool(want):
            return 'true' if v else 'false'
    return None


def near(s, r, want, va, vb):
    """the same for two objects that differ in a single bit of a number"""
    for a, b in zip(va, vb):
        if not T.is_int(a) or not T.is_int(b):
            continue
        for base in (0, 5, 0x7FFF):
            for k in range(17):
                x = s.copy()
                if x.facts.add(T.eq(T.sub(a, base))) and x.facts.add(T.eq(T.sub(b, base ^ (1 << k)))):
                    w = witness(x, r, want)
                    if w:
                        return w
    return None


def getters(X, cls, names, how=None):
    """each accessor gives what the object was made from"""
    for s, o, f, vals in X.make(St(), cls, 'o', how):
        for n, k in names.items():
            for g in [g for g in X.P.method(cls, n) or [] if not g['params']]:
                for y, r, _ in X.call(s, g, o, []):
                    d = X.differs(y, r, vals[k] if isinstance(k, int) else k)
                    if d:
                        X.bad('accessor', g, '%s is not what the object was made from' % g['disp'])
                    elif d is None:
                        X.undec.add('%s is not decided' % g['disp'])
                    X.R.ok()


def c34(P, R):
    R.rule('Unit and transaction identifiers, endpoints and exceptions, made from symbolic values: the accessors give what the object was made from; == holds exactly when all of it is equal and != is its negation (every combination of equal and different members); ++ adds one and wraps at 65535 (prefix gives the new, postfix the old identifier); equal unit identifiers have equal hashes; the default unit is 0xFF; every exception class derives from IException, and ModbusException reports the type it was made with and, for each type, its own text.')
    X = Obj('C34', P, R)
    U, TI, E = NS + 'UnitIdentifier', NS + 'TransactionIdentifier', NS + 'Ipv4Endpoint'
    for c in (U, TI, E):
        if c not in P.records:
            raise Broken('no class ' + c)
        equality(X, c)
    getters(X, U, {'get_value': 0})
    getters(X, TI, {'get_value': 0})
    getters(X, E, {'get_hostname': 0, 'get_port': 1})
    for f in P.method(U, 'default_unit_identifier') or []:
        for y, r, _ in X.call(St(), f, None, []):
            o = y.fresh()
            y.mem[('d', o)] = r
            for g in P.method(U, 'get_value'):
                for z, v, _ in X.call(y, g, LV(('d', o)), []):
                    if v != 255:
                        X.bad('default-unit', f, 'the default unit identifier is %s' % v)
                    R.ok()
    # increment
    for f in P.method(TI, 'operator++') or []:
        post = bool(f['params'])
        for s, o, _, vals in X.make(St(), TI, 'o'):
            for c, want in ((T.eq(T.sub(vals[0], 65535)), 0), (T.notc(T.eq(T.sub(vals[0], 65535))), T.add(vals[0], 1))):
                x = s.copy()
                if not x.facts.add(c):
                    continue
                for y, r, raw in X.call(x, f, o, [0] if post else []):
                    for what, val, w in (('the identifier', y.mem[o[1]], want), ('the result', r, vals[0] if post else want)):
                        for g in P.method(TI, 'get_value'):
                            q = ('q', y.fresh())
                            y.mem[q] = val
                            for z, v, _ in X.call(y, g, LV(q), []):
                                if X.differs(z, v, w):
                                    X.bad('increment', f, '%s %s of %s is wrong' % ('postfix' if post else 'prefix', what, 'the last identifier' if want == 0 else 'an identifier'))
                                R.ok()
    hashes(X, U)
    # exceptions
    IE, ME = NS + 'IException', NS + 'ModbusException'
    R.count('exception classes', len([c for c in P.all_derived(IE)]))
    for c in ('ModbusException', 'TimeoutException', 'ConnectionException', 'MalformedModbusRequestException', 'MalformedModbusResponseException'):
        if NS + c in P.records and not P.is_a(NS + c, IE):
            R.violate('C34:hierarchy', c, '%s is not an IException any more' % c)
        R.ok()
    for c in [IE] + [c for c in P.all_derived(IE) if c != ME]:
        if c in P.records:
            acc(X, c)
    acc(X, ME)
    X.finish()


def hashes(X, U):
    for f in [f for f in X.P.functions.values() if f['fn'].get('c') == 'std::hash<modbus::UnitIdentifier>' and f['fn']['n'] == 'operator()']:
        for s, a, _, va in X.make(St(), U, 'a'):
            x = s.copy()
            x.mem[('b', 0)] = x.mem[a[1]]
            x.mem[('h', 0)] = ('rec', f['fn']['c'], ())
            for y, r, _ in X.call(x, f, LV(('h', 0)), [a]):
                for z, q, _ in X.call(y, f, LV(('h', 0)), [LV(('b', 0))]):
                    if T.is_int(r) and T.is_int(q) and r != q and z.facts.decide(T.eq(T.sub(r, q))) is not True:
                        X.bad('hash', f, 'two equal unit identifiers have different hashes')
                    X.R.ok()


def acc(X, c):
    """accessors of an exception"""
    P = X.P
    get = method(P, c, 'get_message', 0)
    seen = {}
    for s, o, f, vals in X.make(St(), c, 'o'):
        if len(vals) > 1:
            X.undec.add('exception %s with several arguments' % c)
            continue
        if vals and T.is_int(vals[0]):
            e = P.enums.get(NS + 'ExceptionType')
            if e is None:
                raise Broken('no ExceptionType')
            for n, v in e['v']:
                x = s.copy()
                if not x.facts.add(T.eq(T.sub(vals[0], int(v)))):
                    continue
                for g in P.method(c, 'get_exception_type') or []:
                    for y, r, _ in X.call(x, g, o, []):
                        if y.facts.decide(T.eq(T.sub(r, int(v)))) is False:
                            X.bad('accessor', g, 'the exception made with type %s reports another one' % n)
                        X.R.ok()
                # the text is made by the constructor
                x = St()
                root = ('m', x.fresh())
                x.mem[root] = ('rec', c, tuple((m, None) for m, _ in fields_of(c)))
                x.mem[('t', 0)] = int(v)
                for y, _ in X.I.call(x, f, LV(root), [LV(('t', 0)) if ty(f['params'][0]['t'])['k'] in ('ref', 'rref') else int(v)], {}):
                    if not X.good(y, f, 'construction'):
                        continue
                    for z, r, _ in X.call(y, get, LV(root), []):
                        if not (isinstance(r, tuple) and r[0] == 'str' and isinstance(r[1], str)):
                            X.undec.add('the message of %s is not followed' % n)
                        elif not r[1]:
                            X.bad('message', f, 'the message of exception %s is empty' % n)
                        elif seen.setdefault(r[1], n) != n:
                            X.bad('message', f, 'exceptions %s and %s have the same message' % (n, seen[r[1]]))
                        X.R.ok()
            continue
        for y, r, _ in X.call(s, get, o, []):
            if vals:
                if X.differs(y, r, vals[0]):
                    X.bad('accessor', get, 'the message of %s is not the one given' % c)
            elif r == ('str', '') or not (isinstance(r, tuple) and r[0] == 'str'):
                X.bad('message', f, 'the message of %s is empty' % c)
            X.R.ok()


def c32(P, R):
    R.rule('Every message class, made from a symbolic message: its accessor gives that message, clone gives a new object of the same class with the same content that shares nothing with the original, and the original is not changed.')
    X = Obj('C32', P, R)
    base = NS + 'IMessage'
    n = 0
    for c in sorted(P.all_derived(base)):
        cl = P.method(c, 'clone', 0)
        if not cl:
            for a in P.ancestors(c):
                cl = cl or P.method(a, 'clone', 0)
        if not cl or not ctors(P, c):
            continue
        n += 1
        R.count('message classes')
        getters(X, c, {'get_request': 0, 'get_response': 0})
        for s, o, f, vals in X.make(St(), c, 'o'):
            old = s.mem[o[1]]
            for y, r, _ in X.call(s, cl[0], o, []):
                R.ok()
                if y.mem.get(o[1]) != old:
                    X.bad('changed', cl[0], 'clone changes the message it copies')
                if not (isinstance(r, tuple) and r[0] in ('ptr', 'null')):
                    X.undec.add('the result of %s is not followed' % cl[0]['disp'])
                    continue
                if r[0] == 'null':
                    X.bad('clone', cl[0], '%s gives nothing' % cl[0]['disp'])
                    continue
                if r[1][1] == o[1]:
                    X.bad('clone', cl[0], '%s gives the message itself, not a copy' % cl[0]['disp'])
                    continue
                d = X.differs(y, y.mem[r[1][1]] if not r[1][2] else X.I.load(y, r[1]), old)
                if d:
                    X.bad('clone', cl[0], '%s is not equal to the message it copies' % cl[0]['disp'])
                elif d is None:
                    X.undec.add('%s is not decided' % cl[0]['disp'])
    if n == 0:
        raise Broken('no message classes')
    X.finish()


def c36(P, R):
    R.rule('IClientSession::start (both forms), on a session made by the channel: exactly one timer is started on the executor, at the instant or after the duration given, with the action given and unchanged; the ITimer returned cancels that timer and no other, and reports its expiry.')
    from checks.session import Session
    S = Session(P, R)
    I = S.I
    X = Obj('C36', P, R)
    X.I = I
    n = 0
    for s, o in S.world_root():
        cls = I.load(s, o)[1]
        for f in [f for c in P.ancestors(cls) for f in P.method(c, 'start', 2) or [] if f.get('body') is not None]:
            x = s.copy()
            x.ev = ()
            a = init_sym(f['params'][0]['t'], ('when',))
            g = init_sym(f['params'][1]['t'], ('action',))
            x.mem[('when', 0)] = a
            x.mem[('action', 0)] = g
            for y, v in I.call(x, f, o, [LV(('when', 0)), LV(('action', 0))], {}):
                if not X.good(y, f, 'a call'):
                    continue
                n += 1
                R.ok()
                st = [e for e in y.ev if e[0] == 'start']
                if len(st) != 1 or [e for e in y.ev if e[0] in ('cancel', 'post', 'hcall')]:
                    X.bad('start', f, '%s starts %d timers%s' % (f['disp'], len(st), '' if len(st) != 1 else ' and does something else'))
                    continue
                if X.differs(y, st[0][2], lib.snapshot(I, y, a)):
                    X.bad('when', f, '%s does not start the timer with the time given' % f['disp'])
                if st[0][3] != g and not forwards(X, y, st[0][3], g):
                    X.bad('action', f, '%s does not start the timer with the action given' % f['disp'])
                if not (isinstance(v, tuple) and v[0] in ('ptr', 'lv')):
                    X.undec.add('the timer returned by %s is not followed' % f['disp'])
                    continue
                w = I.val(y, v)
                if w[0] != 'ptr':
                    X.bad('timer', f, '%s returns no timer' % f['disp'])
                    continue
                t = w[1]
                tc = I.load(y, t)[1]
                for name in ('cancel', 'expires_at'):
                    m = method(P, tc, name, 0)
                    for z, r, _ in X.call(y, m, t, []):
                        R.ok()
                        c = [e[1] for e in z.ev if e[0] == 'cancel']
                        if name == 'cancel' and c != [st[0][1]]:
                            X.bad('cancel', m, 'ITimer::cancel %s' % ('cancels nothing' if not c else 'cancels something else'))
                        if name == 'expires_at' and (c or r != lib.pure('timer.expires_at', (('timer', st[0][1]),), m['fn']['rt'])):
                            X.bad('expires-at', m, 'ITimer::expires_at is not the expiry of the timer')
    if n == 0:
        X.undec.add('no start of a session')
    X.finish()


def forwards(X, s, f, g):
    """does calling f call g exactly once and nothing else?"""
    x = s.copy()
    x.ev = ()
    rs = X.I.invoke(x, f, [], {})
    return bool(rs) and all(y.exc is None and [e[1] for e in y.ev if e[0] == 'hcall'] == [g[1]] for y, _ in rs)


def c37(P, R):
    R.rule('Every on_request of IServerSession, interpreted on an arbitrary request: it throws nothing and returns the ModbusException IllegalFunction, so that a session answers what it does not implement with that exception.')
    X = Obj('C37', P, R)
    from checks.codec import enum_value
    want = enum_value(P, 'IllegalFunction')
    n = 0
    for f in P.method(NS + 'IServerSession', 'on_request') or []:
        if f.get('body') is None:
            continue
        n += 1
        s = St()
        s.mem[('self',)] = ('srec', NS + 'IServerSession', ('self',))
        s.mem[('req',)] = X.sym(s, strip_ref(f['params'][0]['t']), ('req',))
        for y, r, _ in X.call(s, f, LV(('self',)), [LV(('req',))]):
            R.ok()
            if not (isinstance(r, tuple) and r[0] == 'exp'):
                X.undec.add('the result of %s is not followed' % f['disp'])
                continue
            e = lib.snapshot(X.I, y, r[2])
            if r[1] != 0:
                X.bad('default', f, '%s answers with a response' % f['disp'])
            elif not (isinstance(e, tuple) and e[0] == 'rec'):
                X.undec.add('the exception of %s is not followed' % f['disp'])
            elif not P.is_a(e[1], NS + 'ModbusException'):
                X.bad('default', f, '%s answers with %s, not with a ModbusException' % (f['disp'], e[1]))
            else:
                for g in P.method(NS + 'ModbusException', 'get_exception_type'):
                    q = ('q', y.fresh())
                    y.mem[q] = r[2]
                    for z, v, _ in X.call(y, g, LV(q), []):
                        if v != want:
                            X.bad('default', f, '%s answers with an exception other than IllegalFunction' % f['disp'])
    if n < 8:
        X.undec.add('%d default handlers with a body instead of 8' % n)
    X.finish()


CHECKS = {'C32': c32, 'C33': c33, 'C34': c34, 'C36': c36, 'C37': c37}
