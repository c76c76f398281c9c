"""C29-C31: the in-memory database, analysed through its own interface"""
import itertools
from sa import seqs as Q
from sa import terms as T
from sa import lib
from sa.interp import Interp, St, LV, Stuck
from sa.model import models, NoVal
from sa.report import Broken
from sa.seqs import init_sym, strip_ref, fields_of, ty
from checks.client import NS, loc_of
from checks.codec import REQ, enum_value

DB = ('db',)
BASE = T.sym(('base',), 0, 65520)


def differ(s, x, y, seed=1):
    """is there an assignment on this path under which two integers differ?
    True, False, or None (not known)"""
    if not (T.is_int(x) and T.is_int(y)):
        return None
    c = T.eq(T.sub(x, y))
    d = s.facts.decide(c)
    if d is not None:
        return not d
    for m in models(s, seed, 4, also=(c,)) if False else models(s, seed, 6):
        try:
            if m.num(x) != m.num(y):
                return True
        except NoVal:
            return None
    return None


def val(I, s, v):
    """a loaded integer"""
    v = I.val(s, v)
    return v if T.is_int(v) else None


def blank(P, I, st, cls, root):
    def build(c):
        fs = []
        for n, t in fields_of(c):
            ti = ty(strip_ref(t))
            if ti['k'] == 'rec' and ti.get('c') in P.records and (ti.get('c') or '').startswith(NS):
                fs.append((n, build(ti['c'])))
            elif 'mutex' in (P.types[strip_ref(t)]['s']):
                fs.append((n, ('opq', ('mutex', n), t)))
            else:
                fs.append((n, lib.default(I, st, t)))
        return ('rec', c, tuple(fs))
    st.mem[root] = build(cls)


class Table:
    """one table behind its interface: put(s, addr, v), get(s, addr), ... return
    [(state, result, output)]"""

    def __init__(self, P, cls, names, root=DB):
        self.P, self.cls, self.root = P, cls, root
        self.fs = {}
        for k, n in names.items():
            for c in P.ancestors(cls):
                r = [f for f in P.method(c, n) if f.get('body') is not None]
                if r:
                    self.fs[k] = r[0]
                    break
            else:
                raise Broken('%s::%s' % (cls, n))

    def call(self, I, s, k, args, out=None):
        f = self.fs[k]
        a = []
        for x in args:
            if isinstance(x, tuple) and x and x[0] == 'seq':
                a.append(I.temp(s, x))
            else:
                a.append(x)
        if out is not None:
            a.append(out)
        res = []
        for s2, v in I.call(s, f, LV(self.root), a, {}):
            res.append((s2, val(I, s2, v) if v is not None else None))
        return res


def paths(R, what, rs):
    """the paths of a call; [] when they are not all understood"""
    out = []
    for s, v in rs:
        if s.exc is not None:
            out.append((s, ('exc',) + tuple(map(str, s.exc))[:2]))
        elif s.imp:
            R.undec('%s: imprecise (%s)' % (what, ', '.join(sorted(map(str, s.imp)))[:80]))
            return []
        else:
            out.append((s, v))
    if not out or len(out) > 16:
        R.undec('%s: %d paths' % (what, len(out)))
        return []
    return out


def only(R, what, rs):
    """the single precise path of a call, None when there is none"""
    p = paths(R, what, rs)
    if len(p) > 1:
        R.undec('%s: %d paths' % (what, len(p)))
    return p[0] if len(p) == 1 else None


def layouts(deep):
    """(what, [keys], starts): address layouts around a symbolic base, and at the
    ends of the address space"""
    offs = range(0, 5)
    for r in range(0, 6):
        for c in itertools.combinations(offs, r):
            if not deep and c and (c[0] > 1 or r == 4 and c != (0, 1, 2, 4)):
                continue
            yield [T.add(BASE, o) for o in c], [T.add(BASE, o) for o in range(0, 4)], 'base+%s' % (list(c),)
    for c in ([65533, 65534, 65535], [65535], [0, 65535], [0, 1, 65534, 65535], [0, 1, 2]):
        yield list(c), sorted({c[0], c[-1], 65534, 65535, 0}), str(c)
    if deep:
        for r in range(1, 5):
            for c in itertools.combinations((0, 1, 65534, 65535), r):
                yield list(c), [0, 1, 65534, 65535], str(c)


def sym(name, t):
    return T.sym(name, 0, 1 if t == 'bool' else 65535)


def fill(R, I, tab, s, keys, t, tag='v'):
    """add values under the keys (in descending order: the order must not matter)"""
    for i, k in reversed(list(enumerate(keys))):
        x = only(R, 'add', tab.call(I, s, 'add', [k, sym((tag, i), t)]))
        if x is None:
            return None
        s, v = x
        if differ(s, v, 1) is not False:
            return 'refused', k
    return s


def contains(keys, a):
    for i, k in enumerate(keys):
        if T.sub(k, a) == 0:
            return i
    return None


def content(R, I, tab, s, keys, want, probes, t):
    """does every probe read as in `want`? -> text of the first difference, or None"""
    for a in probes:
        x = s.copy()
        r = ('probe', x.fresh())
        x.mem[r] = sym(('old',), t)
        i = contains(keys, a)
        for y, v in paths(R, 'get', tab.call(I, x, 'get', [a], LV(r))):
            if differ(y, v, 1 if i is not None else 0) is True:
                return 'address %s is %s' % (T.show(a), 'missing' if i is not None else 'present')
            if i is not None and differ(y, I.load(y, LV(r)), want[i]) is True:
                return 'address %s holds %s instead of %s' % (T.show(a), T.show(I.load(y, LV(r))), T.show(want[i]))
    return None


def c31(P, R):
    R.rule('Every operation of the single-type database is interpreted, through its own interface, on databases of every layout of a set of addresses (around a symbolic base address and at both ends of the address space) with symbolic values: results, outputs and the whole content afterwards are compared with a map from addresses to values; ranged operations succeed exactly when every address of the range exists, and otherwise change nothing.')
    deep = R.tier != 'quick'
    tpl = [c for c in P.records if c.startswith(NS + 'SingleTypeDatabase<')]
    if not tpl:
        raise Broken('SingleTypeDatabase')
    for cls in sorted(tpl):
        t = 'bool' if 'bool' in cls else 'u16'
        tab = Table(P, cls, {'add': 'add_value', 'set': 'set_value', 'get': 'get_value', 'sets': 'set_values', 'gets': 'get_values', 'valid': 'is_valid', 'range': 'is_valid_range'})
        I = Interp(P, maxvisits=900, generalise=False, budget=10 ** 9)
        W = {k: loc_of(f) for k, f in tab.fs.items()}

        def bad(key, where, text, t=t):
            R.violate('C31:%s' % key, where, '%s database: %s' % ('bit' if t == 'bool' else 'register', text))

        def check(what, cond, key, text):
            if cond is True:
                bad(key, W[what], text)
            elif cond is False:
                R.ok()
            else:
                R.undec('%s: %s' % (key, text[:60]))
        big = [(list(range(0, 300)), [0], '0..299', (300, 256, 301)), ([x for x in range(65100, 65400) if x != 65399 - 1], [65100], '65100..65399 without 65398', (298, 299))]
        jobs = [(k, st_, w, (1, 2, 3)) for k, st_, w in layouts(deep)] + (big if t == 'u16' or deep else big[:1])
        for keys, starts, what, counts in jobs:
            s0 = St()
            blank(P, I, s0, cls, DB)
            vals = [sym(('v', i), t) for i in range(len(keys))]
            s0 = fill(R, I, tab, s0, keys, t)
            if s0 is None:
                continue
            if isinstance(s0, tuple):
                bad('add', W['add'], 'adding the new address %s is refused' % T.show(s0[1]))
                continue
            R.count('layouts')
            many = len(keys) > 50
            probes = [keys[0], keys[len(keys) // 2], keys[-1]] if many else None

            def after(key, op, s, want, ks=None, what=what):
                ks = keys if ks is None else ks
                pr = probes or sorted({*ks, *starts, *([T.add(BASE, o) for o in range(6)] if 'base' in what else [])}, key=repr)
                d = content(R, I, tab, s, ks, want, pr, t)
                if d:
                    bad(key, W[op], 'layout %s: after %s %s' % (what, key, d))
                else:
                    R.ok()
            if not many:
                for a in starts:
                    i = contains(keys, a)
                    # single values
                    for op, args in (('set', [a, sym(('new',), t)]), ('add', [a, sym(('new',), t)]), ('valid', [a])):
                        for s, v in paths(R, op, tab.call(I, s0.copy(), op, args)):
                            present = i is not None
                            exp = (0 if present else 1) if op == 'add' else (1 if present else 0)
                            check(op, differ(s, v, exp), op, 'layout %s: %s(%s) does not return %s' % (what, tab.fs[op]['fn']['n'], T.show(a), bool(exp)))
                            if op == 'set':
                                after('set', op, s, [sym(('new',), t) if j == i else x for j, x in enumerate(vals)])
                            elif op == 'add':
                                after('add', op, s, vals if present else vals + [sym(('new',), t)], keys if present else keys + [a])
                    x0 = s0.copy()
                    r = ('out', x0.fresh())
                    x0.mem[r] = sym(('old',), t)
                    for s, v in paths(R, 'get', tab.call(I, x0, 'get', [a], LV(r))):
                        check('get', differ(s, v, 1 if i is not None else 0), 'get', 'layout %s: get_value(%s) does not return %s' % (what, T.show(a), i is not None))
                        if i is not None:
                            check('get', differ(s, I.load(s, LV(r)), vals[i]), 'get', 'layout %s: get_value(%s) yields %s' % (what, T.show(a), T.show(I.load(s, LV(r)))))
                        after('get', 'get', s, vals)
            for a in starts:
                for n in counts:
                    idx = [contains(keys, T.add(a, j)) for j in range(n)]
                    full = all(i is not None for i in idx)
                    for s, v in paths(R, 'range', tab.call(I, s0.copy(), 'range', [a, n])):
                        check('range', differ(s, v, 1 if full else 0), 'range', 'layout %s: is_valid_range(%s, %d) does not return %s' % (what, T.show(a), n, full))
                    news = [sym(('new', j), t) for j in range(n)]
                    for s, v in paths(R, 'sets', tab.call(I, s0.copy(), 'sets', [a, ('seq', tuple(('one', v) for v in news))])):
                        check('sets', differ(s, v, 1 if full else 0), 'sets', 'layout %s: set_values(%s, %d values) does not return %s' % (what, T.show(a), n, full))
                        want = list(vals)
                        if full:
                            for j, i in enumerate(idx):
                                want[i] = news[j]
                        after('sets', 'sets', s, want)
                    x0 = s0.copy()
                    r = ('out', x0.fresh())
                    x0.mem[r] = ('seq', tuple(('one', sym(('old', j), t)) for j in range(n)))
                    for s, v in paths(R, 'gets', tab.call(I, x0, 'gets', [a], LV(r))):
                        check('gets', differ(s, v, 1 if full else 0), 'gets', 'layout %s: get_values(%s, %d values) does not return %s' % (what, T.show(a), n, full))
                        if full:
                            q = s.mem[r]
                            g = [Q.seq_get(q, j, s.facts) for j in range(n)] if Q.seqlen(q) == n else None
                            if g is None:
                                bad('gets', W['gets'], 'layout %s: get_values(%s, %d values) changes the size of the output' % (what, T.show(a), n))
                            else:
                                d = [differ(s, g[j], vals[i]) for j, i in enumerate(idx)]
                                k = next((j for j, z in enumerate(d) if z is True), None)
                                check('gets', True if k is not None else (None if None in d else False), 'gets',
                                      'layout %s: get_values(%s, %d values) yields %s for address %s' % (what, T.show(a), n, T.show(g[k or 0]), T.show(T.add(a, k or 0))))
                        after('gets', 'gets', s, vals)
        R.used(I)


# ------------------------------------------------------------------------- C30
TABLES = {'coil': ('add_coil', 'get_coil', 'set_coil', 'bool'), 'discrete_input': ('add_discrete_input', 'get_discrete_input', 'set_discrete_input', 'bool'),
          'holding_register': ('add_holding_register', 'get_holding_register', 'set_holding_register', 'u16'), 'input_register': ('add_input_register', 'get_input_register', 'set_input_register', 'u16')}
SERVES = {'ReadCoilsRequest': 'coil', 'ReadDiscreteInputsRequest': 'discrete_input', 'ReadHoldingRegistersRequest': 'holding_register', 'ReadInputRegistersRequest': 'input_register',
          'WriteSingleCoilRequest': 'coil', 'WriteSingleRegisterRequest': 'holding_register', 'WriteMultipleCoilsRequest': 'coil', 'WriteMultipleRegistersRequest': 'holding_register'}


def database(P):
    out = [c for c in P.all_derived(NS + 'IServerSession') if P.is_a(c, NS + 'IDatabase')]
    if not out:
        raise Broken('no in-memory database')
    return out[0]


def handler(P, cls, msg):
    for c in P.ancestors(cls):
        for f in P.method(c, 'on_request', 1):
            if f.get('body') is not None and ty(strip_ref(f['params'][0]['t'])).get('c') == NS + msg:
                return f
    raise Broken('on_request(%s)' % msg)


def request(P, msg, start, n, t):
    """request value; new values are symbols ('new', j)"""
    fs = []
    for f, ft in fields_of(NS + msg):
        ti = ty(strip_ref(ft))
        if f == 'starting_address':
            fs.append((f, start))
        elif f.startswith('qty'):
            fs.append((f, n))
        elif f == 'values':
            fs.append((f, ('seq', tuple(('one', sym(('new', j), t)) for j in range(n)))))
        elif f == 'value' and ti['k'] == 'rec':
            fs.append((f, ('rec', ti['c'], tuple((g, start if g == 'address' else sym(('new', 0), t)) for g, _ in fields_of(ti['c'])))))
        else:
            raise Broken('%s::%s' % (msg, f))
    return ('rec', NS + msg, tuple(fs))


def rget(v, f):
    for n, x in v[2]:
        if n == f:
            return x
    return None


def c30(P, R):
    R.rule('Each of the eight request handlers and each accessor of the in-memory database is interpreted on databases whose four tables hold different symbolic values at several address layouts: a read answers the values stored in its own table with the addresses counted from the start, a write changes exactly the addressed cells of its own table and echoes the request, and a request touching a missing address is answered IllegalDataAddress and changes nothing; afterwards every cell of all four tables is read back.')
    deep = R.tier != 'quick'
    cls = database(P)
    tabs = {k: Table(P, cls, {'add': a, 'get': g, 'set': st_}) for k, (a, g, st_, t) in TABLES.items()}
    ida = enum_value(P, 'IllegalDataAddress')
    I = Interp(P, maxvisits=400, generalise=False, budget=10 ** 9)
    lay = [([0, 1, 2], 'base+0..2'), ([0, 2], 'base+0,2')] + ([([1], 'base+1'), ([0, 1, 3], 'base+0,1,3')] if deep else [])
    jobs = [([T.add(BASE, o) for o in offs], what, [T.add(BASE, o) for o in range(3)], (1, 2, 3), (1, 2, 3), [T.add(BASE, o) for o in range(4)]) for offs, what in lay]
    jobs.append(([0, 65533, 65534, 65535], '0,65533..65535', [65533, 65534, 65535], (1, 2, 3), (1, 2, 3), [0, 1, 65532, 65533, 65534, 65535]))
    jobs.append((list(range(0, 300)), '0..299', [0, 44, 45], (257, 300) if deep else (300,), (123, 125) if deep else (125,), [0, 1, 44, 45, 168, 255, 256, 299, 300]))
    for keys, what, starts, bits, regs, probes in jobs:
        s0 = St()
        blank(P, I, s0, cls, DB)
        for k, tab in tabs.items():
            if s0 is None or isinstance(s0, tuple):
                break
            s0 = fill(R, I, tab, s0, keys, TABLES[k][3], tag=k)
        if s0 is None:
            continue
        if isinstance(s0, tuple):
            R.violate('C30:add', loc_of(tab.fs['add']), 'adding the new address %s to table %s is refused' % (T.show(s0[1]), k))
            return

        def readback(s, want, where, key, text):
            for k, tab in tabs.items():
                d = content(R, I, tab, s, keys, want[k], probes, TABLES[k][3])
                if d:
                    R.violate('C30:' + key, where, '%s: in the %s table %s' % (text, k.replace('_', ' '), d))
                    return
            R.ok()
        have = {k: [sym((k, i), TABLES[k][3]) for i in range(len(keys))] for k in TABLES}
        readback(s0, have, loc_of(tabs['coil'].fs['add']), 'add', 'layout %s, after adding values' % what)
        # accessors
        for k, tab in tabs.items():
            for a in starts:
                i = contains(keys, a)
                for s, v in paths(R, 'set', tab.call(I, s0.copy(), 'set', [a, sym(('new', 0), TABLES[k][3])])):
                    w = loc_of(tab.fs['set'])
                    if differ(s, v, 1 if i is not None else 0) is True:
                        R.violate('C30:set', w, 'layout %s: %s(%s) does not return %s' % (what, TABLES[k][2], T.show(a), i is not None))
                    want = {j: list(v_) for j, v_ in have.items()}
                    if i is not None:
                        want[k][i] = sym(('new', 0), TABLES[k][3])
                    readback(s, want, w, 'set', 'layout %s, after %s(%s)' % (what, TABLES[k][2], T.show(a)))
        # requests
        for msg, k in SERVES.items():
            f = handler(P, cls, msg)
            w = loc_of(f)
            t = TABLES[k][3]
            kind = REQ[msg][1]
            for a in starts:
                for n in ((bits if t == 'bool' else regs) if kind in ('read', 'coils', 'regs') else (1,)):
                    s = s0.copy()
                    r = ('request', 0)
                    s.mem[r] = request(P, msg, a, n, t)
                    R.count('requests')
                    for s, v in paths(R, msg, I.call(s, f, LV(DB), [LV(r)], {})):
                        text = 'layout %s: %s of %d from %s' % (what, msg, n, T.show(a))
                        idx = [contains(keys, T.add(a, j)) for j in range(n)]
                        full = all(i is not None for i in idx)
                        if not (isinstance(v, tuple) and v[0] == 'exp'):
                            if isinstance(v, tuple) and v[0] == 'exc':
                                R.violate('C30:%s:throws' % msg, w, '%s throws' % text)
                            else:
                                R.undec(text + ': result not understood')
                            continue
                        ok = v[1] in (1, True)
                        if ok != full:
                            R.violate('C30:%s:range' % msg, w, '%s is %s' % (text, 'accepted although an address is missing' if ok else 'refused although all addresses exist'))
                            continue
                        want = {j: list(v_) for j, v_ in have.items()}
                        if full:
                            answer(R, I, s, msg, kind, v[2], a, n, [have[k][i] for i in idx], t, w, text)
                            if kind != 'read':
                                for j, i in enumerate(idx):
                                    want[k][i] = sym(('new', j), t)
                        else:
                            x = v[2]
                            c = None
                            if isinstance(x, tuple) and x[0] == 'rec':
                                c = next((y for _, y in x[2] if T.is_int(y)), None)
                            if not (isinstance(x, tuple) and len(x) > 1 and x[1] == NS + 'ModbusException' and (c is None or differ(s, c, ida) is not True)):
                                R.violate('C30:%s:exception' % msg, w, '%s is not answered with IllegalDataAddress' % text)
                            else:
                                R.ok()
                        readback(s, want, w, msg + ':content', 'after ' + text)
    R.used(I)


def answer(R, I, s, msg, kind, v, a, n, stored, t, w, text):
    """a response value against the stored/given values"""
    v = I.val(s, v)
    if not (isinstance(v, tuple) and v[0] == 'rec'):
        R.undec(text + ': response not understood')
        return
    pairs = []
    if kind == 'read':
        q = rget(v, 'values')
        if not (isinstance(q, tuple) and q[0] == 'seq'):
            R.undec(text + ': response not understood')
            return
        if Q.seqlen(q) != n:
            R.violate('C30:%s:count' % msg, w, '%s answers %s values' % (text, T.show(Q.seqlen(q))))
            return
        for j in range(n):
            e = Q.seq_get(q, j, s.facts)
            if not (isinstance(e, tuple) and e[0] == 'rec'):
                R.undec(text + ': response not understood')
                return
            pairs.append(('address of value %d' % j, rget(e, 'address'), T.add(a, j)))
            pairs.append(('value %d' % j, rget(e, 'value'), stored[j]))
    elif kind in ('coil', 'reg'):
        e = rget(v, 'value')
        pairs = [('address', rget(e, 'address'), a), ('value', rget(e, 'value'), sym(('new', 0), t))]
    else:
        pairs = [('starting address', rget(v, 'starting_address'), a), ('quantity', next((x for f, x in v[2] if f.startswith('qty')), None), n)]
    for nm, x, y in pairs:
        d = differ(s, x, y) if x is not None else None
        if d is True:
            R.violate('C30:%s:answer' % msg, w, '%s: %s is answered as %s instead of %s' % (text, nm, T.show(x), T.show(y)))
            return
        if d is None:
            R.undec(text + ': ' + nm)
            return
    R.ok()


# ------------------------------------------------------------------------- C29
class Watched(Interp):
    """records accesses to data members of one object"""
    watch = {}
    quiet = False

    def touch(self, st, lv, kind):
        if lv[1] == DB and not self.quiet:
            f = lv[2][0][1] if lv[2] and lv[2][0][0] == 'f' else None
            if f in self.watch:
                st.emit('access', f, kind, self.where())

    def load(self, st, lv):
        self.touch(st, lv, 'read')
        return Interp.load(self, st, lv)

    def store(self, st, lv, v):
        self.touch(st, lv, 'written')
        return Interp.store(self, st, lv, v)


def c29(P, R):
    R.rule('Lockset analysis of the in-memory database: on every path of every public entry (request handlers, add_*, execute_transaction with a transaction calling any accessor) each access to a table happens while one and the same mutex of the database is held, no mutex is locked again while held (accessors called from a transaction included), and every lock is released when the entry is left, also by an exception.')
    cls = database(P)
    muts = [n for n, t in fields_of(cls) if 'mutex' in P.types[strip_ref(t)]['s']]
    data = [n for n, t in fields_of(cls) if n not in muts and 'atomic' not in P.types[strip_ref(t)]['s']]
    I = Watched(P, maxvisits=4, generalise=False, budget=10 ** 9)
    I.watch = set(data)
    acc = {}
    for c in P.ancestors(NS + 'IDatabase'):
        pass
    virt = [(f['n'] if 'n' in f else f) for f in []]
    accessors = []
    for c in P.ancestors(cls):
        for f in P.functions.values():
            if f['fn'].get('c') == c and f.get('body') is not None and any(f['fn']['n'] == n for v in TABLES.values() for n in v[1:3]):
                accessors.append(f)
    entries = []
    for msg in REQ:
        entries.append((handler(P, cls, msg), msg))
    for f in P.functions.values():
        if f['fn'].get('c') == cls and f.get('body') is not None and f['fn']['n'] not in [n for v in TABLES.values() for n in v[1:3]] and f['fn']['n'] != 'on_request' and f.get('acc') == 0 and 'inits' not in f and not f['fn']['n'].startswith('~') and not f['fn']['n'].startswith('operator'):
            entries.append((f, None))
    common = None

    def run(f, msg, tx, throws):
        st = St()
        blank(P, I, st, cls, DB)
        # unknown content
        def unknown(v, path):
            if isinstance(v, tuple) and v[0] == 'rec':
                return ('rec', v[1], tuple((n, unknown(x, path + (n,))) for n, x in v[2]))
            if isinstance(v, tuple) and v[0] == 'map':
                return ('map', ('content',) + path, v[2], ())
            return v
        st.mem[DB] = unknown(st.mem[DB], ())
        args = []
        for p in f['params']:
            t = strip_ref(p['t'])
            ti = ty(t)
            if msg and ti.get('c') == NS + msg:
                st.mem[('request', 0)] = request(P, msg, BASE, 1, 'u16' if 'Reg' in msg else 'bool')
                args.append(LV(('request', 0)))
            elif ti.get('tn') == 'std::function':
                args.append(('sfn', ('transaction',)))
                st.facts.preds[('nullfn', ('transaction',))] = False
            else:
                args.append(I.temp(st, init_sym(t, ('arg', p['n']))) if ty(p['t'])['k'] in ('ref', 'rref') else init_sym(t, ('arg', p.get('n'))))

        def transaction(I_, s, fv, a, e):
            if fv[1] != ('transaction',):
                return None
            s.emit('transaction', None)
            if throws:
                s.exc = ('exc', ('stdexc', 'user'))
                return [(s, None)]
            if tx is None:
                return None
            o = I_.val(s, a[0]) if a else None
            ar = []
            for p in tx['params']:
                t = strip_ref(p['t'])
                if ty(p['t'])['k'] == 'ref':
                    r = ('txout', s.fresh())
                    s.mem[r] = init_sym(t, ('txout',))
                    ar.append(LV(r))
                else:
                    ar.append(init_sym(t, ('txarg', p['n'])))
            return [(y, None) for y, _ in I_.call(s, tx, LV(DB), ar, {})]
        I.hooks['<handler>'] = transaction
        I.stack = []
        return I.call(st, f, LV(DB), args, {})
    for f, msg in entries:
        has_tx = any(ty(strip_ref(p['t'])).get('tn') == 'std::function' for p in f['params'])
        for tx, throws in ([(a, False) for a in accessors] + [(None, True)] if has_tx else [(None, False)]):
            name = f['fn']['n'] + ('(%s)' % msg if msg else '') + (' with a transaction calling ' + tx['fn']['n'] if tx else ' with a throwing transaction' if throws else '')
            R.count('entries')
            for s, _ in run(f, msg, tx, throws):
                R.count('paths')
                held = []
                intx = False
                for e in s.ev:
                    if e[0] == 'lock':
                        if e[1] in held:
                            R.violate('C29:relock', e[2], '%s locks a mutex that is already held' % name)
                        held.append(e[1])
                    elif e[0] == 'unlock':
                        if e[1] in held:
                            held.remove(e[1])
                    elif e[0] == 'transaction':
                        intx = True
                        own = {h for h in held if h[1] == DB}
                        if not own:
                            R.violate('C29:transaction', loc_of(f), '%s runs the transaction without holding the lock' % name)
                    elif e[0] == 'access':
                        own = {h for h in held if h[1] == DB}
                        if s.imp:
                            R.undec('%s: imprecise (%s)' % (name, ', '.join(sorted(map(str, s.imp)))[:80]))
                            break
                        if not own:
                            R.violate('C29:unlocked', e[3], '%s: %s is %s without holding the lock of the database' % (name, e[1], e[2]))
                            break
                        common = own if common is None else common & own
                        if not common:
                            R.violate('C29:two-locks', e[3], '%s: %s is accessed under another mutex than elsewhere' % (name, e[1]))
                            common = None
                            break
                        R.count('accesses')
                else:
                    if held and s.exc is None:
                        R.violate('C29:kept', loc_of(f), '%s returns without releasing the lock' % name)
                    elif held and throws:
                        R.violate('C29:kept', loc_of(f), '%s leaves the lock held when the transaction throws' % name)
                    else:
                        R.ok()
    R.used(I)


CHECKS = {'C29': c29, 'C30': c30, 'C31': c31}
