"""meaning of the library operations the code uses (standard containers and
pointers, ser4cpp sequences, exe4cpp executors/timers, asio, logging)"""
from . import seqs as Q
from . import terms as TM
from .terms import *
from .seqs import init_sym, strip_ref, ty, tname, rec_get, fields_of
from . import loader

REPO = loader.REPO
NATIVE_EXPECTED = [True]
NATIVE_LOGGER = [True]
NULL = ('null',)


def native(t):
    tn = t.get('tn')
    if tn == 'modbus::Expected':
        return NATIVE_EXPECTED[0]
    return tn == 'modbus::Logger' and NATIVE_LOGGER[0]


def LV(root, *path):
    return ('lv', root, tuple(path))


def is_lv(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == 'lv'


def placeholder(q, e):
    if q.startswith('std::placeholders::_') or '::placeholders::_' in q:
        return ('ph', int(q.rsplit('_', 1)[1]))
    return None


# ------------------------------------------------------------- default values
def default(I, st, tid):
    t = ty(strip_ref(tid))
    tn = t.get('tn')
    k = t['k']
    if k in ('int', 'bool', 'enum'):
        return 0
    if k in ('ptr', 'null'):
        return NULL
    if k != 'rec':
        return ('opq', ('default', st.fresh()), tid)
    if tn in Q.PTRS:
        return NULL
    if tn == 'std::array':
        n = t['ta'][1]['v'] if isinstance(t['ta'][1], dict) else 0
        return ('seq', (('sl', ('sb', ('uninit', st.fresh()), t['ta'][0]), 0, int(n)),))
    if tn in Q.SEQS:
        return Q.EMPTY
    if tn in Q.MAPS:
        return ('map', None, strip_ref(tid), ())
    if tn == 'std::function':
        return ('nofn',)
    if tn == 'std::basic_string':
        return ('str', '')
    if tn in ('std::atomic', 'std::__atomic_base'):
        return default(I, st, t['ta'][0])
    if tn == 'std::error_code':
        return ('ec', None)
    if tn == 'std::optional':
        return ('none',)
    if tn == 'std::__exception_ptr::exception_ptr':
        return NULL
    if tn == 'ser4cpp::StaticBuffer':
        n = t['ta'][0]
        n = int(n['v']) if isinstance(n, dict) else int(n)
        return ('seq', (('sl', ('sb', ('uninit', st.fresh()), None), 0, n),))
    if tn == 'ser4cpp::RSeq':
        return ('rseq', ('sb', ('nobytes',), None), 0, 0)
    if tn == 'ser4cpp::WSeq':
        return ('wseq', LV(('nobuf',)), 0, 0)
    if tn == 'exe4cpp::Timer':
        return ('notimer',)
    if tn == 'std::basic_ostringstream':
        return ('oss', ())
    if t.get('c') in I.P.records and not native(t):
        return I.zero(tid, st)
    return ('opq', ('default', t.get('c'), st.fresh()), tid)


# ------------------------------------------------------------------ sequences
def content(I, st, v):
    """bytes an RSeq/WSeq designates"""
    src, off, n = v[1], v[2], v[3]
    if is_lv(src):
        b = I.load(st, src)
        if b[0] == 'seq':
            r = Q.seq_slice(b, off, n, st.facts)
            if r is not None:
                return r
        return None
    return Q.norm(('seq', (('sl', src, off, n),)))


def byte_at(I, st, v, i):
    src, off = v[1], v[2]
    if is_lv(src):
        b = I.load(st, src)
        if b[0] == 'seq':
            r = Q.seq_get(b, add(off, i), st.facts)
            if r is not None:
                return r
        st.imprecise('byte')
        return atom(('top', ('byte', v, i), 0, 255))
    return Q.elem(src, add(off, i))


def byte_lv(I, st, a, b, e):
    if a[0] == 'wseq' and is_lv(a[1]):
        return ('lv', a[1][1], a[1][2] + (('i', add(a[2], b)),))
    if a[0] in ('rseq', 'rp'):
        if is_lv(a[1]):
            return ('lv', a[1][1], a[1][2] + (('i', add(a[2], b)),))
        return I.temp(st, Q.elem(a[1], add(a[2], b)))
    return I.temp(st, I.unknown(st, e.get('t'), 'byte'))


def tkmin(st, a, b):
    """min(a, b) -> [(st, value)]"""
    return a, b


def snapshot(I, st, v, depth=0):
    if isinstance(v, (int, Lin)) or v is None:
        return v
    if is_lv(v):
        return v
    if v[0] in ('rseq', 'wseq'):
        c = content(I, st, v)
        return ('bytes', c if c is not None else ('opq', v))
    if v[0] == 'rec':
        return ('rec', v[1], tuple((n, snapshot(I, st, x, depth + 1)) for n, x in v[2]))
    if v[0] == 'exp':
        return ('exp', v[1], snapshot(I, st, v[2], depth + 1))
    if v[0] == 'ptr' and depth < 2 and v[1][1][0] in ('t', 'v'):
        return v
    return v


# ------------------------------------------------------------------ exceptions
def is_class(I, c, base):
    if c == base:
        return True
    if c in I.P.records:
        return I.P.is_a(c, base)
    STD = {'std::invalid_argument': ['std::logic_error', 'std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception']}
    return base in STD.get(c, ())


def exc_is(I, st, v, cls):
    """condition: exception value v is caught by class cls"""
    if v[0] == 'rec' or v[0] == 'srec':
        return is_class(I, v[1], cls)
    if v[0] == 'stdexc':
        return is_class(I, v[1], cls)
    if v[0] == 'sexc':
        c = ('p', ('excis', v[1], cls))
        return c
    return ('p', ('excis', v, cls))


def catches(I, st, v, tid):
    if tid < 0:
        return True
    return exc_is(I, st, v, ty(strip_ref(tid)).get('c'))


def as_exc(I, st, v, tid):
    if v[0] == 'sexc' and tid >= 0:
        c = ty(strip_ref(tid)).get('c')
        if c in I.P.records:
            return ('srec', c, ('exc', v[1]))
    return v


def raise_(I, st, v):
    st.exc = ('exc', v)
    return [(st, None)]


# ------------------------------------------------------------------------ maps
def map_types(m):
    t = ty(m[2])
    return t['ta'][0], t['ta'][1] if len(t['ta']) > 1 and t.get('tn') not in ('std::set', 'std::unordered_set') else None


def map_lookup(I, st, m, k):
    """[(st, present?, value)]"""
    out = []
    cur = [st]
    for u in reversed(m[3]):
        nxt = []
        for s in cur:
            c = I.same(s, u[1], k)
            for s2, t in I.branch(s, c):
                if t:
                    out.append((s2, u[0] == 'set', u[2]))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        if m[1] is None:
            out.append((s, False, None))
            continue
        kt, vt = map_types(m)
        for s2, t in I.branch(s, ('p', ('has', m[1], k))):
            out.append((s2, t, init_sym(vt, ('mapval', m[1], k)) if t and vt is not None else None))
    return out


def map_at(I, st, m, k):
    for u in reversed(m[3]):
        c = I.same(st, u[1], k)
        d = st.facts.decide(c)
        if d:
            return u[2]
        if d is None:
            st.imprecise('map lookup')
            break
    if m[1] is None:
        return ('opq', ('mapval', k), None)
    kt, vt = map_types(m)
    return init_sym(vt, ('mapval', m[1], k))


def map_put(I, st, m, k, v):
    out = []
    done = False
    for u in m[3]:
        if st.facts.decide(I.same(st, u[1], k)) is True:
            out.append(('set', k, v))
            done = True
        else:
            out.append(u)
    if not done:
        out.append(('set', k, v))
    return m[:3] + (tuple(out),)


def map_del(I, st, m, k):
    out = tuple(u for u in m[3] if st.facts.decide(I.same(st, u[1], k)) is not True)
    if m[1] is not None:
        out += (('del', k, None),)
    return m[:3] + (out,)


def map_sets(st, m):
    """the entries of an explicit map in iteration order, None: undecided"""
    us = [u for u in m[3] if u[0] == 'set']
    if len(us) > 1 and ty(m[2]).get('tn') in ('std::map', 'std::set') and all(is_int(u[1]) for u in us):
        d = descending(m)
        if d is None:
            return None
        us = sort_sets(st, us)
        return us[::-1] if us is not None and d else us
    return us


def map_orders(I, st, m):
    """states in which the order of the keys of an explicit map is known; the
    keys of a map are distinct"""
    if m[1] is not None or map_sets(st, m) is not None or descending(m) is None:
        return [st]
    ks = [u[1] for u in m[3] if u[0] == 'set']
    if len(ks) > 4 or not all(is_int(k) for k in ks):
        return [st]
    for i, a in enumerate(ks):
        for b in ks[:i]:
            up, down = ge(sub(sub(a, b), 1)), ge(sub(sub(b, a), 1))
            if st.facts.decide(up) is None and st.facts.decide(down) is None:
                out = []
                for s, t in I.branch(st, up):
                    for s2, t2 in [(s, None)] if t else I.branch(s, down):
                        if t or t2:
                            out += map_orders(I, s2, m)
                return out or [st]
    return [st]


def descending(m):
    """ordered by something else than operator<?"""
    t = ty(m[2])
    i = 2 if t['tn'] == 'std::map' else 1
    c = tname(t['ta'][i]) if len(t['ta']) > i and isinstance(t['ta'][i], int) else 'std::less'
    return {'std::less': False, 'std::greater': True}.get(c)


def sort_sets(st, us):
    if all(isinstance(u[1], int) for u in us):
        return sorted(us, key=lambda u: u[1])
    out = []
    for u in us:
        at = len(out)
        for i, w in enumerate(out):
            d = st.facts.decide(ge(sub(sub(w[1], u[1]), 1)))
            if d is None:
                return None
            if d:
                at = i
                break
        out.insert(at, u)
    return out


def map_pos(I, st, it):
    """position of an iterator in an explicit map, None: not known"""
    if not (isinstance(it, tuple) and it[0] == 'it' and isinstance(it[2], tuple)):
        return None
    m = I.load(st, it[1])
    if not (isinstance(m, tuple) and m[0] == 'map' and m[1] is None):
        return None
    us = map_sets(st, m)
    if us is None:
        return None
    if it[2][0] == 'end':
        return len(us)
    if it[2][0] == 'k':
        for i, u in enumerate(us):
            if st.facts.decide(I.same(st, u[1], it[2][1])) is True:
                return i
    return None


def map_entries(I, st, m):
    if m[1] is not None:
        return None
    us = map_sets(st, m)
    if us is None:
        return None
    return Q.norm(('seq', tuple(('one', ('rec', 'std::pair', (('first', u[1]), ('second', u[2])))) for u in us)))


def map_size(I, st, m):
    if m[1] is None:
        return sum(1 for u in m[3] if u[0] == 'set')
    b = ('sb', ('keys', m[1]), None)
    n = atom(('len', b))
    if m[3]:
        return atom(('f', 'mapsize', m, 0, None))
    return n


# ------------------------------------------------------------------- iterators
# ('it', container lvalue, position); position: integer for sequences,
# ('k', key) / ('end',) / ('r', rank) for maps
def it_deref(I, st, it):
    lv, pos = it[1], it[2]
    if is_int(pos):
        return ('lv', lv[1], lv[2] + (('i', pos),))
    m = I.load(st, lv)
    if pos[0] == 'k':
        k = pos[1]
        r = ('lv', lv[1], lv[2] + (('mv', k),))
        kt, vt = map_types(m)
        if vt is None:
            return I.temp(st, k)
        return ('lv', ('entry', k, r), ()) if False else entry(I, st, k, r)
    if pos[0] == 'r':
        k = rank_key(I, st, m, pos[1])
        r = ('lv', lv[1], lv[2] + (('mv', k),))
        return entry(I, st, k, r)
    st.emit('crash', 'dereference of end iterator', I.where(), I.where())
    st.exc = ('crash', 'end iterator')
    return I.temp(st, ('opq', 'end', None))


def entry(I, st, k, r):
    """pair<const K, V>& : first by value, second aliasing the map's value"""
    return I.temp(st, ('mapent', k, r))


def rank_key(I, st, m, r):
    kt, vt = map_types(m)
    b = ('sb', ('keys', m[1]), kt)
    k = Q.elem(b, r)
    if is_int(k):
        # neighbouring ranks hold increasing keys
        for d in (-1, 1):
            o = Q.elem(b, add(r, d))
            known = any(o.t[0][0] in atoms_of(c, set()) for c in st.facts.cs) if isinstance(o, Lin) else False
            if known:
                st.facts.add(ge(sub(mulc(sub(o, k), d), 1)))
    return k


def it_eq(I, st, a, b):
    if a[0] != 'it' or b[0] != 'it':
        return ('p', ('same', a, b))
    x, y = a[2], b[2]
    if is_int(x) and is_int(y):
        return eq(sub(x, y))
    if x == y:
        return True
    kinds = {x[0], y[0]}
    if kinds == {'k', 'end'}:
        return False
    if kinds == {'k'}:
        return I.same(st, x[1], y[1])
    if 'r' in kinds:
        m = I.load(st, a[1])
        n = map_size(I, st, m)
        rx = x[1] if x[0] == 'r' else n if x[0] == 'end' else None
        ry = y[1] if y[0] == 'r' else n if y[0] == 'end' else None
        if rx is not None and ry is not None:
            return eq(sub(rx, ry))
    return ('p', ('same', a, b))


def it_step(I, st, it, d):
    pos = it[2]
    if is_int(pos):
        return ('it', it[1], add(pos, d))
    m = I.load(st, it[1])
    if pos[0] == 'r':
        return ('it', it[1], ('r', add(pos[1], d)))
    if m[1] is None:
        us = map_sets(st, m)
        ks = [u[1] for u in us] if us is not None else []
        if pos[0] == 'k':
            for i, k in enumerate(ks):
                if st.facts.decide(I.same(st, k, pos[1])) is True and i + d >= 0:
                    return ('it', it[1], ('k', ks[i + d]) if i + d < len(ks) else ('end',))
        elif pos[0] == 'end' and d == -1 and ks:
            return ('it', it[1], ('k', ks[-1]))
    st.imprecise('iterator')
    return ('it', it[1], ('end',))


def seq_size(I, st, lv):
    v = I.load(st, lv)
    return Q.seqlen(v) if v[0] == 'seq' else None


# ------------------------------------------------------------------------ ctors
def ctor(I, st, t, fn, args, e):
    tn = t.get('tn') if t['k'] == 'rec' else None
    one = lambda v: [(st, v)]
    val = lambda i=0: I.val(st, args[i])
    if tn == 'modbus::Expected':
        if not args:
            return one(('exp', 0, NULL))
        v = val()
        if (fn.get('cp') or fn.get('mv')):
            return one(v)
        return one(('exp', 1, v))
    if fn.get('cp') or fn.get('mv'):
        v = val()
        if fn.get('mv') and tn in ('std::unique_ptr',) and is_lv(args[0]):
            I.store(st, args[0], NULL)
        elif fn.get('mv') and tn in ('std::shared_ptr',) and is_lv(args[0]) and args[0][1][0] != 't':
            I.store(st, args[0], NULL)
        elif fn.get('mv') and is_lv(args[0]) and args[0][1][0] != 't' and isinstance(v, tuple) and v[0] in ('seq', 'clo', 'sfn', 'bind', 'str', 'map') and tn not in ('std::array', 'ser4cpp::StaticBuffer', 'ser4cpp::RSeq', 'ser4cpp::WSeq'):
            I.store(st, args[0], ('opq', 'moved-from', None) if v[0] not in ('seq', 'map') else (Q.EMPTY if v[0] == 'seq' else ('map', None, v[2], ())))
        return one(v)
    if tn in Q.PTRS:
        if not args:
            return one(NULL)
        v = val()
        if v[0] in ('null', 'ptr', 'sptr'):
            # converting move out of a unique_ptr / shared_ptr
            if tn != 'std::weak_ptr' and is_lv(args[0]) and I.P.types[strip_ref(fn['pt'][0])].get('tn') in ('std::unique_ptr', 'std::shared_ptr') and ty(fn['pt'][0])['k'] == 'rref':
                I.store(st, args[0], NULL)
            return one(v)
        return one(v)
    if tn == 'std::function':
        if not args:
            return one(('nofn',))
        v = val()
        return one(('nofn',) if v[0] == 'null' else v)
    if tn == 'std::basic_string':
        if not args:
            return one(('str', ''))
        return one(val())
    if tn == 'std::array':
        return one(default_from(I, st, t))
    if tn in Q.SEQS:
        if not args:
            return one(Q.EMPTY)
        v = val()
        if is_int(v):
            if len(args) >= 2 and (is_lv(args[1]) or is_int(args[1])) and tname(fn['pt'][1]) != 'std::allocator':
                x = val(1)
            else:
                et = t['ta'][0]
                x = I.zero(et, st)
            d = Q.inner_depth((('one', x),)) + 1
            return one(Q.norm(('seq', (('comp', v, (('one', x),)),))))
        if isinstance(v, tuple) and v[0] == 'seq':
            return one(v)
        if isinstance(v, tuple) and v[0] == 'it' and len(args) > 1:
            w = val(1)
            if w[0] == 'it' and is_int(v[2]) and is_int(w[2]):
                q = I.load(st, v[1])
                r = Q.seq_slice(q, v[2], sub(w[2], v[2]), st.facts)
                if r is not None:
                    return one(r)
        st.imprecise('container constructor')
        return one(('seq', (('sl', ('sb', ('unk', st.fresh()), t['ta'][0]), 0, sym(('n', st.fresh()), 0, None)),)))
    if tn in Q.MAPS:
        tid = tid_of(I, t)
        return one(('map', None, tid, ()))
    if tn == 'std::pair':
        a = [I.val(st, x) for x in args]
        if not a:
            return one(('rec', 'std::pair', (('first', 0), ('second', 0))))
        if len(a) == 1:
            return one(a[0])
        return one(('rec', 'std::pair', (('first', a[0]), ('second', a[1]))))
    if tn in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock'):
        if args and is_lv(args[0]):
            st.emit('lock', args[0], I.loc(e))
            return one(('lock', args[0], 1))
        return one(('lock', None, 0))
    if tn == 'std::__exception_ptr::exception_ptr':
        return one(val() if args else NULL)
    if tn in ('std::invalid_argument', 'std::out_of_range', 'std::runtime_error', 'std::logic_error'):
        return one(('stdexc', t['c']))
    if tn == 'std::error_code':
        if not args:
            return one(('ec', None))
        if len(args) == 1:
            v = val()
            if isinstance(v, tuple) and v[0] == 'ec':
                return one(v)
            if isinstance(v, int):
                return one(ec_num(strip_ref(fn['params'][0]['t']) if fn.get('params') else None, v))
        return one(('opq', 'ec', None))
    if tn in ('std::atomic', 'std::__atomic_base'):
        return one(val() if args else 0)
    if tn == 'std::optional':
        if not args:
            return one(('none',))
        v = val()
        return one(v if isinstance(v, tuple) and v[0] in ('none', 'some') else ('some', v))
    if tn == 'ser4cpp::RSeq':
        if not args:
            return one(('rseq', ('sb', ('nobytes',), None), 0, 0))
        p, n = val(0), val(1)
        return one(mkrseq(I, st, p, n))
    if tn == 'ser4cpp::WSeq':
        if not args:
            return one(('wseq', LV(('nobuf',)), 0, 0))
        p, n = flat(val(0)), val(1)
        if p[0] == 'decay':
            return one(('wseq', p[1], p[2], n))
        if p[0] == 'rp' and is_lv(p[1]):
            return one(('wseq', p[1], p[2], n))
        st.imprecise('wseq')
        return one(('wseq', LV(('wbuf', ('w', st.fresh()))), 0, n))
    if tn == 'ser4cpp::StaticBuffer':
        return one(default(I, st, tid_of(I, t)))
    if tn == 'ser4cpp::Buffer':
        if args:
            v = val()
            if isinstance(v, tuple) and v[0] == 'rseq':
                c = content(I, st, v)
                return one(c if c is not None else ('opq', v, None))
            if is_int(v):
                return one(('seq', (('sl', ('sb', ('uninit', st.fresh()), None), 0, v),)))
        return one(Q.EMPTY)
    if tn == 'exe4cpp::Timer':
        if not args:
            return one(('notimer',))
        v = val()
        return one(('notimer',) if v[0] == 'null' else v)
    if tn == 'std::basic_ostringstream':
        return one(('oss', ()))
    if tn == 'std::chrono::duration':
        v = val() if args else 0
        return one(v)
    if tn in ('std::allocator',):
        return one(('opq', 'allocator', None))
    if t['k'] in ('int', 'bool', 'enum', 'ptr'):
        return one(val() if args else 0)
    if tn in ('__gnu_cxx::__normal_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_const_iterator') and args:
        return one(val())
    vals = tuple(snapshot(I, st, I.val(st, a)) for a in args)
    st.emit('new', t.get('c'), vals, I.loc(e))
    if str(t.get('tn')).startswith('asio::ip::'):
        return one(('obj', t.get('tn'), st.fresh(), vals))
    return one(('obj', t.get('tn'), st.fresh()))


def default_from(I, st, t):
    return default(I, st, tid_of(I, t))


def tid_of(I, t):
    for k, v in I.P.types.items():
        if v is t:
            return k
    return None


def flat(p):
    """a pointer to an element of an array is a position in the array"""
    if isinstance(p, tuple) and p[0] == 'ptr' and is_lv(p[1]) and p[1][2] and p[1][2][-1][0] == 'i':
        return ('decay', ('lv', p[1][1], p[1][2][:-1]), p[1][2][-1][1])
    return p


def mkrseq(I, st, p, n):
    p = flat(p)
    if isinstance(p, tuple):
        if p[0] == 'rp':
            return ('rseq', p[1], p[2], n)
        if p[0] == 'decay':
            return ('rseq', p[1], p[2], n)
        if p[0] == 'null':
            return ('rseq', ('sb', ('nobytes',), None), 0, n)
        if p[0] == 'sptr':
            return ('rseq', ('sb', ('mem', p[1]), None), 0, n)
        if p[0] == 'ptr':
            return ('rseq', p[1], 0, n)
    st.imprecise('byte pointer')
    return ('rseq', ('sb', ('unk', st.fresh()), None), 0, n)


# ------------------------------------------------------------------------ calls
def call(I, st, fn, o, args, e):
    """library semantics, None when the callee is not a library operation"""
    ct = fn.get('ct') or (fn['q'].rsplit('::', 1)[0] if '::' in fn['q'] else '')
    n = fn['n']
    if ct == 'modbus::Expected':
        return expected(I, st, fn, o, args, e) if NATIVE_EXPECTED[0] else None
    if ct == 'modbus::Logger' and NATIVE_LOGGER[0]:
        if n == 'clone':
            st.emit('logger-clone', tuple(snapshot(I, st, I.val(st, a)) for a in args), I.loc(e))
            return [(st, ('sptr', ('logger', st.fresh()), None))]
        return [(st, None)]
    f = TABLE.get((ct, n))
    if f is None:
        f = BYNAME.get(n) if not fn.get('repo') and not fn.get('c') else None
        if f is None:
            g = GROUP.get(ct)
            if g is None:
                return None
            return g(I, st, fn, o, args, e)
    return f(I, st, fn, o, args, e)


TABLE = {}
BYNAME = {}
GROUP = {}


def reg(*keys):
    def d(f):
        for k in keys:
            TABLE[k] = f
        return f
    return d


def byname(*keys):
    def d(f):
        for k in keys:
            BYNAME[k] = f
        return f
    return d


def group(*keys):
    def d(f):
        for k in keys:
            GROUP[k] = f
        return f
    return d


def expected(I, st, fn, o, args, e):
    n = fn['n']
    if n == 'from_exception':
        v = I.val(st, args[0])
        if isinstance(v, tuple) and v[0] == 'excptr':
            v = v[1]
        return [(st, ('exp', 0, v))]
    v = I.load(st, o)
    if n == 'is_valid':
        if v[0] == 'exp':
            return [(st, v[1])]
        if v[0] == 'sexp':
            return [(st, bval(('p', ('ok', v[1]))))]
        return [(st, bval(('p', ('ok', v))))]

    def split():
        if v[0] == 'exp':
            return [(st, bool(v[1]), v[2])]
        nm = v[1] if v[0] == 'sexp' else v
        return [(s, t, ('sexc', nm)) for s, t in I.branch(st, ('p', ('ok', nm)))]
    out = []
    if n == 'get':
        for s, ok, x in split():
            if ok:
                out.append((s, ('lv', o[1], o[2] + (('x',),))))
            else:
                s.emit('get-invalid', I.loc(e), I.where())
                s.exc = ('exc', x)
                out.append((s, None))
        return out
    if n in ('has_exception', 'get_exception'):
        fta = fn.get('fta')
        cls = ty(strip_ref(fta[0])).get('c') if fta else None
        for s, ok, x in split():
            if n == 'has_exception':
                out.append((s, 0 if ok else bval(exc_is(I, s, x, cls))))
                continue
            if ok:
                s.emit('exception-of-value', I.loc(e), I.where())
                s.exc = ('exc', ('stdexc', 'std::invalid_argument'))
                out.append((s, None))
                continue
            if cls is None:
                out.append((s, ('excptr', x)))
                continue
            for s2, t in I.branch(s, exc_is(I, s, x, cls)):
                if t:
                    out.append((s2, ('srec', cls, ('exc', x[1])) if x[0] == 'sexc' else x))
                else:
                    s2.exc = ('exc', ('stdexc', 'std::invalid_argument'))
                    out.append((s2, None))
        return out
    if n == 'operator=':
        I.store(st, o, I.val(st, args[0]))
        return [(st, o)]
    if n.startswith('~'):
        return [(st, None)]
    st.imprecise('Expected::' + n)
    return [(st, I.unknown(st, fn['rt'], n))]


# ---- ser4cpp
def _take(I, st, v, n):
    """first min(len, n)"""
    out = []
    for s, t in I.branch(st, ge(sub(v[3], n))):
        out.append((s, (v[0], v[1], v[2], n if t else v[3])))
    return out


def _skip(I, st, v, n):
    out = []
    for s, t in I.branch(st, ge(sub(v[3], n))):
        k = n if t else v[3]
        out.append((s, (v[0], v[1], add(v[2], k), sub(v[3], k))))
    return out


@group('ser4cpp::RSeq', 'ser4cpp::WSeq', 'ser4cpp::HasLength')
def _seqcls(I, st, fn, o, args, e):
    n = fn['n']
    v = I.load(st, o) if o is not None else None
    if n == 'empty' and o is None:
        return [(st, ('rseq', ('sb', ('nobytes',), None), 0, 0))]
    if n == 'operator=':
        I.store(st, o, I.val(st, args[0]))
        return [(st, o)]
    if n.startswith('~'):
        return [(st, None)]
    if v is None or v[0] not in ('rseq', 'wseq'):
        if v is not None and v[0] == 'seq' and n == 'length':
            return [(st, Q.seqlen(v))]
        st.imprecise('byte sequence')
        return [(st, I.unknown(st, fn['rt'], n))]
    if n == 'length':
        return [(st, v[3])]
    if n in ('is_empty', 'is_not_empty'):
        c = eq(v[3])
        return [(st, bval(c if n == 'is_empty' else notc(c)))]
    if n == 'take':
        return _take(I, st, v, I.val(st, args[0]))
    if n == 'skip':
        return _skip(I, st, v, I.val(st, args[0]))
    if n == 'advance':
        k = I.val(st, args[0])
        out = []
        for s, r in _skip(I, st, v, k):
            I.store(s, o, r)
            out.append((s, sub(v[3], r[3]) if v[0] == 'wseq' else None))
        return out
    if n == 'make_empty':
        I.store(st, o, (v[0], v[1], v[2], 0))
        return [(st, None)]
    if n == 'readonly':
        return [(st, ('rseq', v[1], v[2], v[3]))]
    if n in ('copy_from', 'move_from'):
        src = I.val(st, args[0])
        out = []
        for s, t in I.branch(st, ge(sub(v[3], src[3]))):
            if not t:
                s.emit('copy-rejected', v[3], src[3], I.loc(e), I.where())
                out.append((s, ('rseq', ('sb', ('nobytes',), None), 0, 0)))
                continue
            c = content(I, s, src)
            write_bytes(I, s, v, c, src[3])
            I.store(s, o, ('wseq', v[1], add(v[2], src[3]), sub(v[3], src[3])))
            out.append((s, ('rseq', v[1], v[2], src[3])))
        return out
    if n == 'put':
        return write_int(I, st, o, I.val(st, args[0]), 1)
    if n.startswith('operator') and ('char' in n or 'uint8' in n):
        return [(st, ('rp', v[1], v[2]) if v[0] == 'rseq' else (('decay', v[1], v[2]) if is_lv(v[1]) else ('rp', v[1], v[2])))]
    if n == 'operator[]':
        return [(st, byte_lv(I, st, v, I.val(st, args[0]), e))]
    if n == 'equals':
        w = I.val(st, args[0])
        return [(st, bval(('p', ('bytes-equal', snapshot(I, st, v), snapshot(I, st, w)))))]
    st.imprecise('ser4cpp ' + n)
    return [(st, I.unknown(st, fn['rt'], n))]


def write_bytes(I, st, w, c, n):
    """overwrite n bytes of the buffer behind w with content c"""
    if n == 0:
        return
    lv, off = w[1], w[2]
    b = I.load(st, lv)
    if c is None or b[0] != 'seq':
        st.imprecise('buffer write')
        return
    tot = Q.seqlen(b)
    pre = Q.seq_slice(b, 0, off, st.facts)
    post = Q.seq_slice(b, add(off, n), sub(sub(tot, off), n), st.facts)
    if pre is None or post is None:
        st.imprecise('buffer write')
        I.store(st, lv, ('seq', (('sl', ('sb', ('havoc', st.fresh()), None), 0, tot),)))
        return
    I.store(st, lv, Q.norm(('seq', pre[1] + c[1] + post[1])))


def write_int(I, st, o, v, k):
    if not is_int(v):
        st.imprecise('written value')
        v = sym(('written', st.fresh()), 0, (1 << (8 * k)) - 1)
    w = I.load(st, o)
    out = []
    for s, t in I.branch(st, ge(sub(w[3], k))):
        if not t:
            s.emit('write-rejected', I.where())
            out.append((s, 0))
            continue
        v2 = wrap(8 * k, v, s.facts)
        if k == 1:
            c = ('seq', (('one', v2),))
        else:
            c = ('seq', (('one', div(v2, 256)), ('one', mod(v2, 256))))
        write_bytes(I, s, w, c, k)
        I.store(s, o, ('wseq', w[1], add(w[2], k), sub(w[3], k)))
        out.append((s, 1))
    return out


def read_int(I, st, o, dst, k):
    v = I.load(st, o)
    out = []
    for s, t in I.branch(st, ge(sub(v[3], k))):
        if not t:
            out.append((s, 0))
            continue
        x = 0
        for i in range(k):
            x = add(mulc(x, 256), byte_at(I, s, v, i))
        I.store(s, dst, x)
        I.store(s, o, ('rseq', v[1], add(v[2], k), sub(v[3], k)))
        out.append((s, 1))
    return out


for _c, _k in (('UInt8', 1), ('UInt16', 2), ('UInt32', 4)):
    TABLE[('ser4cpp::' + _c, 'write_to')] = lambda I, st, fn, o, a, e, k=_k: write_int(I, st, a[0], I.val(st, a[1]), k)
    TABLE[('ser4cpp::' + _c, 'read_from')] = lambda I, st, fn, o, a, e, k=_k: read_int(I, st, a[0], a[1], k)


@group('ser4cpp::StaticBuffer', 'ser4cpp::Buffer')
def _buf(I, st, fn, o, args, e):
    n = fn['n']
    v = I.load(st, o)
    ln = Q.seqlen(v) if v[0] == 'seq' else atom(('f', 'buflen', v, 0, None))
    if n in ('as_seq', 'as_rslice'):
        r = ('rseq', o, 0, ln)
        return _take(I, st, r, I.val(st, args[0])) if args else [(st, r)]
    if n in ('as_wseq', 'as_wslice'):
        r = ('wseq', o, 0, ln)
        return _take(I, st, r, I.val(st, args[0])) if args else [(st, r)]
    if n in ('length', 'size'):
        return [(st, ln)]
    if n == 'operator=':
        I.store(st, o, I.val(st, args[0]))
        return [(st, o)]
    if n == 'operator[]':
        return [(st, ('lv', o[1], o[2] + (('i', I.val(st, args[0])),)))]
    st.imprecise('buffer ' + n)
    return [(st, I.unknown(st, fn['rt'], n))]


# ---- pointers
def free(I, st, v):
    if isinstance(v, tuple) and v[0] == 'ptr' and not v[1][2] and v[1][1][0] == 'o':
        o = st.mem.get(v[1][1])
        if isinstance(o, tuple) and o[0] == 'obj' and 'ThreadPool' in str(o[1]):
            st.emit('joined', v[1][1], I.where())
        st.dead = st.dead | {v[1][1]}


@group('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::__weak_ptr', 'std::__uniq_ptr_impl')
def _ptr(I, st, fn, o, args, e):
    n = fn['n']
    v = I.load(st, o)
    uniq = 'unique' in (fn.get('ct') or '') or 'uniq' in (fn.get('ct') or '')
    if n in ('operator->', 'get'):
        return [(st, v)]
    if n == 'operator*':
        lv = I.deref(st, v)
        if lv is None:
            return [(I.crash(st, 'null dereference', e), None)]
        return [(st, lv)]
    if n == 'operator bool':
        return [(st, bval(I.cond(st, v)))]
    if n == 'operator=':
        x = I.val(st, args[0])
        if isinstance(x, tuple) and x[0] == 'opq':
            pass
        if uniq and v != x:
            free(I, st, v)
        pt = ty(fn['pt'][0]) if fn.get('pt') else {}
        if is_lv(args[0]) and pt.get('k') == 'rref' and args[0] != o:
            I.store(st, args[0], NULL)
        I.store(st, o, x)
        return [(st, o)]
    if n == 'reset':
        x = I.val(st, args[0]) if args else NULL
        if uniq:
            free(I, st, v)
        I.store(st, o, x)
        return [(st, None)]
    if n == 'release':
        I.store(st, o, NULL)
        return [(st, v)]
    if n == 'remove_if' and len(args) == 1 and all(x[0] == 'one' for x in v[1]):
        todo = [(st, 0, Q.EMPTY)]
        for i, _ in enumerate(v[1]):
            nxt = []
            for s, _, kept in todo:
                x = ('lv', o[1], o[2] + (('i', i),))
                for s2, r in I.invoke(s, I.val(s, args[0]), [x], e):
                    if s2.exc is not None:
                        nxt.append((s2, 0, kept))
                        continue
                    for s3, t in truths(I, s2, r):
                        nxt.append((s3, 0, kept if t else Q.norm(('seq', kept[1] + (('one', I.val(s3, x)),)))))
            todo = nxt
        for s, _, kept in todo:
            if s.exc is None:
                I.store(s, o, kept)
        return [(s, None) for s, _, _ in todo]
    if n == 'swap':
        w = I.val(st, args[0])
        I.store(st, args[0], v)
        I.store(st, o, w)
        return [(st, None)]
    if n == 'lock':
        h = I.hooks.get('<lock>')
        if h is not None:
            return h(I, st, v)
        return [(st, v)]
    if n == 'expired':
        return [(st, bval(notc(I.cond(st, v))))]
    if n.startswith('~'):
        return [(st, None)]
    if n == 'use_count':
        return [(st, sym(('use', st.fresh()), 0, None))]
    st.imprecise('pointer ' + n)
    return [(st, I.unknown(st, fn['rt'], n))]


@group('std::enable_shared_from_this')
def _esft(I, st, fn, o, args, e):
    return [(st, ('ptr', o))]


@byname('make_shared', 'make_unique')
def _make(I, st, fn, o, args, e):
    if not fn.get('fta'):
        return None
    tid = fn['fta'][0]
    t = ty(tid)
    out = []
    if t['k'] == 'rec' and t['c'] in I.P.records and not native(t):
        # aggregate or constructor taking these arguments
        c = pick_ctor(I, t['c'], args, st, fn)
        lv = I.new_obj(st, ('rec', t['c'], ()))
        if c is None:
            if len(args) == 1:
                v = I.val(st, args[0])
                if isinstance(v, tuple) and v[0] in ('rec', 'srec') and v[1] == t['c']:
                    st.mem[lv[1]] = v
                    return [(st, ('ptr', lv))]
            if not args:
                rs = I.default_fields(st, t['c'], lv, set())
            else:
                st.mem[lv[1]] = ('rec', t['c'], tuple((f, I.val(st, a)) for (f, _), a in zip(fields_of(t['c']), args)))
                rs = [(st, None)]
        else:
            if c.get('df') and (c['fn'].get('cp') or c['fn'].get('mv')):
                st.mem[lv[1]] = I.val(st, args[0])
                rs = [(st, None)]
            else:
                rs = I.call(st, c, lv, [conv(I, st, c, i, a) for i, a in enumerate(args)], e)
        for s, _ in rs:
            out.append((s, ('ptr', lv) if s.exc is None else None))
        return out
    v = ctor(I, st, t, {'pt': [], 'n': t.get('c')}, args, e)
    return [(s, ('ptr', I.new_obj(s, x))) for s, x in v]


def conv(I, st, c, i, a):
    """implicit conversion of a forwarded argument to a parameter"""
    if i >= len(c['params']):
        return a
    t = ty(strip_ref(c['params'][i]['t']))
    v = I.val(st, a)
    if t['k'] == 'rec' and t['c'] in I.P.records and is_int(v):
        for f in I.P.functions.values():
            if f['fn'].get('c') == t['c'] and 'inits' in f and len(f['params']) == 1 and not f['fn'].get('cp') and not f['fn'].get('mv'):
                lv = I.temp(st, ('rec', t['c'], ()))
                rs = I.call(st, f, lv, [v], {})
                return lv
    return a


def pick_ctor(I, cls, args, st, fn):
    best = None
    for f in I.P.functions.values():
        if f['fn'].get('c') != cls or 'inits' not in f or len(f['params']) != len(args):
            continue
        score = 0
        ok = True
        for p, a in zip(f['params'], args):
            t = ty(strip_ref(p['t']))
            v = I.val(st, a)
            if isinstance(v, tuple) and v[0] in ('rec', 'srec') and v[1] in I.P.records:
                if t.get('c') == v[1]:
                    score += 2
                elif t.get('c') in I.P.records and I.P.is_a(v[1], t['c']):
                    score += 1
                else:
                    ok = False
            elif is_int(v):
                if t['k'] not in ('int', 'bool', 'enum') and not (t['k'] == 'rec'):
                    ok = False
                elif t['k'] == 'rec' and t.get('c') == cls:
                    ok = False
            elif isinstance(v, tuple) and v[0] in ('ptr', 'sptr', 'null'):
                if t['k'] == 'rec' and t.get('tn') not in Q.PTRS and t.get('tn') != 'std::function':
                    ok = False
        if ok and (best is None or score > best[0]):
            best = (score, f)
    return best[1] if best else None


@byname('dynamic_pointer_cast', 'static_pointer_cast', 'const_pointer_cast')
def _dpc(I, st, fn, o, args, e):
    v = I.val(st, args[0])
    tid = fn['fta'][0]
    cls = ty(tid).get('c')
    if v[0] == 'ptr':
        x = I.load(st, v[1])
        if x[0] in ('rec', 'srec') and x[1] in I.P.records and cls in I.P.records and fn['n'].startswith('dyn'):
            if not I.P.is_a(x[1], cls):
                if x[0] == 'srec' and not (isinstance(x[2], tuple) and x[2][0] == 'self'):
                    return [(st, v)]
                return [(st, NULL)]
        return [(st, v)]
    if v[0] == 'sptr':
        return [(st, ('sptr', v[1], tid))]
    return [(st, v)]


@byname('move', 'forward', 'ref', 'cref', 'as_const', 'addressof')
def _move(I, st, fn, o, args, e):
    if len(args) != 1:
        return None
    if fn['n'] == 'addressof':
        return [(st, ('ptr', I.as_lv(st, args[0])))]
    return [(st, args[0])]


@byname('bind')
def _bind(I, st, fn, o, args, e):
    f = I.val(st, args[0])
    ts = tuple(strip_ref(x['t']) if isinstance(x, dict) and isinstance(x.get('t'), int) else None for x in (e or {}).get('a', ())[1:])
    return [(st, ('bind', f, tuple(I.val(st, a) for a in args[1:]), ts if len(ts) == len(args) - 1 else None))]


@byname('min', 'max')
def _minmax(I, st, fn, o, args, e):
    if len(args) != 2:
        return None
    a, b = I.val(st, args[0]), I.val(st, args[1])
    if not (is_int(a) and is_int(b)):
        return None
    out = []
    lo, hi = (b, a) if fn['n'] == 'min' else (a, b)
    for s, t in I.branch(st, ge(sub(sub(hi, lo), 1))):
        out.append((s, I.temp(s, b if t else a)))
    return out


@byname('swap')
def _swap(I, st, fn, o, args, e):
    if len(args) != 2:
        return None
    a, b = I.val(st, args[0]), I.val(st, args[1])
    I.store(st, args[0], b)
    I.store(st, args[1], a)
    return [(st, None)]


@byname('exchange')
def _exchange(I, st, fn, o, args, e):
    a = I.val(st, args[0])
    I.store(st, args[0], I.val(st, args[1]))
    return [(st, a)]


@byname('make_exception_ptr')
def _mep(I, st, fn, o, args, e):
    v = I.val(st, args[0])
    return [(st, v if v[0] == 'excptr' else ('excptr', v))]


@byname('current_exception')
def _ce(I, st, fn, o, args, e):
    c = st.mem.get(('curexc',))
    return [(st, ('excptr', c[1]) if c else NULL)]


@byname('rethrow_exception')
def _re(I, st, fn, o, args, e):
    v = I.val(st, args[0])
    return raise_(I, st, v[1] if v[0] == 'excptr' else ('sexc', v))


@byname('make_pair')
def _mkpair(I, st, fn, o, args, e):
    return [(st, ('rec', 'std::pair', (('first', I.val(st, args[0])), ('second', I.val(st, args[1])))))]


@byname('to_string', 'hardware_concurrency', 'setw', 'setfill', 'duration_cast', 'hex', 'uppercase')
def _pure(I, st, fn, o, args, e):
    a = tuple(snapshot(I, st, I.val(st, x)) for x in args)
    return [(st, pure(fn['n'], a, fn['rt']))]


@byname('stdout_color_mt', 'stderr_color_mt', 'stdout_color_st', 'stderr_color_st', 'stdout_logger_mt', 'stderr_logger_mt')
def _console(I, st, fn, o, args, e):
    n = (fn['n'], tuple(snapshot(I, st, I.val(st, x)) for x in args))
    st.facts.preds[('null', n)] = False
    t = ty(strip_ref(fn['rt'])).get('ta')
    return [(st, ('sptr', n, t[0] if t else None))]


def pure(name, a, rt):
    t = ty(strip_ref(rt))
    if t['k'] in ('int', 'bool', 'enum') and 'w' in t:
        lo, hi = Q.int_range(t)
        return atom(('f', name) + a + (lo, hi))
    return ('opq', (name,) + a, rt)


@reg(('std::chrono::duration', 'count'))
def _count(I, st, fn, o, args, e):
    v = I.load(st, o)
    return [(st, v if is_int(v) else pure('count', (v,), fn['rt']))]


# ---- containers
def _iter(o, pos):
    return ('it', o, pos)


@group('std::vector', 'std::deque', 'std::list', 'std::array', 'std::queue', 'std::stack', 'std::initializer_list')
def _seqc(I, st, fn, o, args, e):
    n = fn['n']
    v = I.load(st, o)
    if v[0] != 'seq':
        if n == 'operator=':
            I.store(st, o, I.val(st, args[0]))
            return [(st, o)]
        st.imprecise('container')
        return [(st, I.unknown(st, fn['rt'], n))]
    ln = Q.seqlen(v)
    vt = None
    if n == 'size':
        return [(st, ln)]
    if n == 'empty':
        return [(st, bval(eq(ln)))]
    if n in ('push_back', 'emplace_back', 'push', 'emplace', 'push_front', 'emplace_front') and not (n == 'emplace' and len(args) and isinstance(I.val(st, args[0]), tuple) and I.val(st, args[0])[0] == 'it'):
        for s, x in element(I, st, fn, o, args, e):
            if s.exc is not None:
                return [(s, None)]
            if is_lv(args[0] if args else None) and ty(fn['pt'][0])['k'] == 'rref' and fn['n'].startswith(('push', 'emplace')) and isinstance(x, tuple) and x[0] in ('ptr', 'sptr') and args[0][1][0] != 't' and tname(e_elt(fn, o, I, st)) == 'std::unique_ptr':
                I.store(s, args[0], NULL)
            q = I.load(s, o)
            if n.endswith('front'):
                q = Q.norm(('seq', (('one', x),) + q[1]))
                I.store(s, o, q)
                return [(s, ('lv', o[1], o[2] + (('i', 0),)))]
            I.store(s, o, Q.push(q, x))
            return [(s, ('lv', o[1], o[2] + (('i', Q.seqlen(q)),)))]
    if n in ('pop_front', 'pop', 'pop_back'):
        d = st.facts.decide(ge(sub(ln, 1)))
        if d is False:
            st.emit('crash', n + ' on empty container', I.loc(e), I.where())
            st.exc = ('crash', n)
            return [(st, None)]
        first = n != 'pop_back' and 'stack' not in fn['ct']
        if tname(elt_of(fn)) == 'std::unique_ptr':
            x = Q.seq_get(v, 0 if first else sub(ln, 1), st.facts)
            if x is not None:
                free(I, st, x)
        r = Q.seq_slice(v, 1, sub(ln, 1), st.facts) if first else Q.seq_slice(v, 0, sub(ln, 1), st.facts)
        if r is None:
            st.imprecise(n)
            return [(st, None)]
        I.store(st, o, r)
        return [(st, None)]
    if n in ('front', 'back', 'top'):
        if st.facts.decide(ge(sub(ln, 1))) is False:
            st.emit('crash', n + ' of empty container', I.loc(e), I.where())
            st.exc = ('crash', n)
            return [(st, None)]
        return [(st, ('lv', o[1], o[2] + (('i', 0 if n == 'front' else sub(ln, 1)),)))]
    if n in ('operator[]', 'at'):
        i = I.val(st, args[0])
        c = andc(ge(i), ge(sub(sub(ln, 1), i)))
        if n == 'at':
            out = []
            for s, t in I.branch(st, c):
                if t:
                    out.append((s, ('lv', o[1], o[2] + (('i', i),))))
                else:
                    out += raise_(I, s, ('stdexc', 'std::out_of_range'))
            return out
        d = st.facts.decide(c)
        if d is False:
            st.emit('crash', 'index out of range', I.loc(e), I.where())
            st.exc = ('crash', 'index')
            return [(st, None)]
        if d is None:
            st.emit('maybe-oob', i, ln, I.loc(e), I.where())
        return [(st, ('lv', o[1], o[2] + (('i', i),)))]
    if n in ('begin', 'cbegin'):
        return [(st, _iter(o, 0))]
    if n in ('end', 'cend'):
        return [(st, _iter(o, ln))]
    if n == 'clear':
        if tname(elt_of(fn)) == 'std::unique_ptr':
            for s_ in v[1]:
                if s_[0] == 'one':
                    free(I, st, s_[1])
        I.store(st, o, Q.EMPTY)
        return [(st, None)]
    if n == 'erase':
        it = I.val(st, args[0])
        if it[0] == 'it' and is_int(it[2]):
            if len(args) == 1:
                a = Q.seq_slice(v, 0, it[2], st.facts)
                b = Q.seq_slice(v, add(it[2], 1), sub(sub(ln, it[2]), 1), st.facts)
            else:
                it2 = I.val(st, args[1])
                a = Q.seq_slice(v, 0, it[2], st.facts)
                b = Q.seq_slice(v, it2[2], sub(ln, it2[2]), st.facts) if is_int(it2[2]) else None
            if a is not None and b is not None:
                I.store(st, o, Q.concat(a, b))
                return [(st, it)]
    if n in ('reserve', 'shrink_to_fit'):
        return [(st, None)]
    if n == 'resize':
        k = I.val(st, args[0])
        if ln == 0:
            x = I.val(st, args[1]) if len(args) > 1 else I.zero(elt_of(fn), st)
            I.store(st, o, Q.norm(('seq', (('comp', k, (('one', x),)),))))
            return [(st, None)]
    if n == 'assign' and len(args) == 2:
        a, b = I.val(st, args[0]), I.val(st, args[1])
        if is_int(a):
            I.store(st, o, Q.norm(('seq', (('comp', a, (('one', b),)),))))
            return [(st, None)]
    if n == 'data':
        return [(st, ('decay', o, 0))]
    if n == 'fill':
        x = I.val(st, args[0])
        I.store(st, o, Q.norm(('seq', (('comp', ln, (('one', x),)),))))
        return [(st, None)]
    if n == 'operator=':
        x = I.val(st, args[0])
        I.store(st, o, x)
        return [(st, o)]
    if n in ('insert', 'emplace') and len(args) == 2:
        it, x = I.val(st, args[0]), I.val(st, args[1])
        if it[0] == 'it' and is_int(it[2]):
            a = Q.seq_slice(v, 0, it[2], st.facts)
            b = Q.seq_slice(v, it[2], sub(ln, it[2]), st.facts)
            if a is not None and b is not None:
                I.store(st, o, Q.norm(('seq', a[1] + (('one', x),) + b[1])))
                return [(st, it)]
    if n == 'remove' and len(args) == 1:
        x = I.val(st, args[0])
        keep = []
        ok = True
        for s_ in v[1]:
            d = st.facts.decide(I.same(st, s_[1], x)) if s_[0] == 'one' else None
            if d is None:
                ok = False
                break
            if not d:
                keep.append(s_)
        if ok:
            I.store(st, o, Q.norm(('seq', tuple(keep))))
            return [(st, None)]
    if n == 'remove_if' and len(args) == 1 and all(x[0] == 'one' for x in v[1]):
        todo = [(st, 0, Q.EMPTY)]
        for i, _ in enumerate(v[1]):
            nxt = []
            for s, _, kept in todo:
                x = ('lv', o[1], o[2] + (('i', i),))
                for s2, r in I.invoke(s, I.val(s, args[0]), [x], e):
                    if s2.exc is not None:
                        nxt.append((s2, 0, kept))
                        continue
                    for s3, t in truths(I, s2, r):
                        nxt.append((s3, 0, kept if t else Q.norm(('seq', kept[1] + (('one', I.val(s3, x)),)))))
            todo = nxt
        for s, _, kept in todo:
            if s.exc is None:
                I.store(s, o, kept)
        return [(s, None) for s, _, _ in todo]
    if n == 'swap':
        w = I.val(st, args[0])
        I.store(st, args[0], v)
        I.store(st, o, w)
        return [(st, None)]
    if n.startswith('~'):
        return [(st, None)]
    st.imprecise('container ' + n)
    I.store(st, o, ('seq', (('sl', ('sb', ('havoc', st.fresh()), elt_of(fn)), 0, sym(('n', st.fresh()), 0, None)),)))
    return [(st, I.unknown(st, fn['rt'], n))]


def elt_of(fn):
    for k, t in Q.P.types.items():
        if t['k'] == 'rec' and t.get('c') == fn.get('c') and t.get('ta'):
            return t['ta'][0]
    return None


def e_elt(fn, o, I, st):
    return elt_of(fn)


_tname = tname


def tname(tid):
    return None if tid is None else _tname(tid)


def element(I, st, fn, o, args, e):
    """value of an element constructed from the arguments"""
    et = elt_of(fn)
    if len(args) == 1:
        v = I.val(st, args[0])
        t = ty(et) if et is not None else None
        if t is not None and is_int(v) and t['k'] in ('int', 'bool', 'enum') and 'w' in t:
            v = I.cast(st, v, et)
        if t is not None and t.get('tn') == 'ser4cpp::Buffer' and not (isinstance(v, tuple) and v[0] == 'seq'):
            return ctor(I, st, t, fn, args, e)
        return [(st, v)]
    if et is not None:
        t = ty(et)
        if t['k'] == 'rec' and t['c'] in I.P.records:
            c = pick_ctor(I, t['c'], args, st, fn)
            if c is not None:
                lv = I.temp(st, ('rec', t['c'], ()))
                return [(s, s.mem.get(lv[1])) for s, _ in I.call(st, c, lv, args, e)]
            return [(st, ('rec', t['c'], tuple((f, I.val(st, a)) for (f, _), a in zip(fields_of(t['c']), args))))]
        if not args:
            return [(st, I.zero(et, st))]
    return [(st, ('opq', ('element', tuple(I.val(st, a) for a in args)), None))]


def _bound(I, st, m, o, us, k, strict):
    """first entry not less (strict: greater) than k"""
    out = []
    cur = [st]
    for u in us:
        nxt = []
        for s in cur:
            x = sub(k, u[1]) if descending(m) else sub(u[1], k)
            for s2, t in I.branch(s, ge(sub(x, strict))):
                if t:
                    out.append((s2, ('it', o, ('k', u[1]))))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, ('it', o, ('end',))) for s in cur]


@group('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')
def _map(I, st, fn, o, args, e):
    n = fn['n']
    m = I.load(st, o)
    if m[0] != 'map':
        st.imprecise('map')
        return [(st, I.unknown(st, fn['rt'], n))]
    if n == 'operator=':
        I.store(st, o, I.val(st, args[0]))
        return [(st, o)]
    ordered = fn['ct'] in ('std::map', 'std::set')
    if n in ('find', 'count', 'contains', 'at', 'operator[]', 'erase', 'lower_bound', 'upper_bound', 'equal_range'):
        k = I.val(st, args[0])
        if n == 'erase' and isinstance(k, tuple) and k[0] == 'it':
            pos = k[2]
            if pos[0] == 'k':
                nx = it_step(I, st, k, 1)
                I.store(st, o, map_del(I, st, m, pos[1]))
                return [(st, nx)]
            st.imprecise('erase')
            return [(st, ('it', o, ('end',)))]
        if n in ('lower_bound', 'upper_bound', 'equal_range'):
            us = map_sets(st, m) if m[1] is None and is_int(k) and ordered and descending(m) is not None else None
            if us is not None:
                out = []
                lo = _bound(I, st, m, o, us, k, 0) if n != 'upper_bound' else _bound(I, st, m, o, us, k, 1)
                if n != 'equal_range':
                    return lo
                for s, x in lo:
                    out += [(s2, ('rec', 'std::pair', (('first', x), ('second', y)))) for s2, y in _bound(I, s, m, o, us, k, 1)]
                return out
            st.imprecise(n)
            return [(st, ('it', o, ('end',)))]
        out = []
        for s, t, v in map_lookup(I, st, m, k):
            if n == 'find':
                if not t:
                    out.append((s, ('it', o, ('end',))))
                elif ordered and m[1] is not None and not m[3]:
                    r = atom(('f', 'rank', m[1], k, 0, None))
                    s.facts.add(eq(sub(rank_key(I, s, m, r), k)))
                    s.facts.add(ge(sub(sub(map_size(I, s, m), 1), r)))
                    out.append((s, ('it', o, ('r', r))))
                else:
                    out.append((s, ('it', o, ('k', k))))
            elif n in ('count', 'contains'):
                out.append((s, 1 if t else 0))
            elif n == 'at':
                if t:
                    out.append((s, ('lv', o[1], o[2] + (('mv', k),))))
                else:
                    out += raise_(I, s, ('stdexc', 'std::out_of_range'))
            elif n == 'operator[]':
                if not t:
                    kt, vt = map_types(m)
                    I.store(s, o, map_put(I, s, m, k, I.zero(vt, s) if ty(vt)['k'] != 'rec' else default(I, s, vt)))
                out.append((s, ('lv', o[1], o[2] + (('mv', k),))))
            else:
                if t:
                    I.store(s, o, map_del(I, s, m, k))
                out.append((s, 1 if t else 0))
        return out
    if n in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
        a = [I.val(st, x) for x in args]
        if len(a) == 2 and isinstance(a[0], tuple) and a[0][0] == 'it':
            a = a[1:]
        if len(a) == 1:
            p = a[0]
            if isinstance(p, tuple) and p[0] == 'rec':
                k, v = p[2][0][1], p[2][1][1]
            elif isinstance(p, tuple) and p[0] == 'seq' and len(p[1]) == 2 and all(s_[0] == 'one' for s_ in p[1]):
                k, v = p[1][0][1], p[1][1][1]
            else:
                st.imprecise('insert')
                return [(st, I.unknown(st, fn['rt'], n))]
        elif len(a) == 2:
            k, v = a
        else:
            k, v = a[0], 0
        out = []
        for s, t, old in map_lookup(I, st, m, k):
            if not t or n == 'insert_or_assign':
                I.store(s, o, map_put(I, s, m, k, v))
            out.append((s, ('rec', 'std::pair', (('first', ('it', o, ('k', k))), ('second', 0 if t else 1)))))
        return out
    if n in ('end', 'cend'):
        return [(st, ('it', o, ('end',)))]
    if n in ('begin', 'cbegin'):
        if m[1] is None:
            out = []
            for s in map_orders(I, st, m):
                us = map_sets(s, m)
                if us is None:
                    s.imprecise('map order')
                out.append((s, ('it', o, ('k', us[0][1]) if us else ('end',))))
            return out
        if ordered and not m[3]:
            return [(st, ('it', o, ('r', 0)))]
    if n == 'size':
        return [(st, map_size(I, st, m))]
    if n == 'empty':
        return [(st, bval(eq(map_size(I, st, m))))]
    if n == 'clear':
        I.store(st, o, ('map', None, m[2], ()))
        return [(st, None)]
    if n == 'reserve' or n == 'rehash' or n.startswith('~'):
        return [(st, None)]
    if n == 'swap':
        b = I.load(st, args[0])
        I.store(st, o, b)
        I.store(st, args[0], m)
        return [(st, None)]
    st.imprecise('map ' + n)
    return [(st, I.unknown(st, fn['rt'], n))]


ITS = ('__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
       'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base', 'std::_Bit_iterator', 'std::_Bit_const_iterator', 'std::_Bit_iterator_base')


@group(*ITS)
def _its(I, st, fn, o, args, e):
    n = fn['n']
    v = I.load(st, o)
    if v[0] != 'it':
        st.imprecise('iterator')
        return [(st, I.unknown(st, fn['rt'], n))]
    if n in ('operator*', 'operator->'):
        lv = it_deref(I, st, v)
        if st.exc is not None:
            return [(st, None)]
        return [(st, lv if n == 'operator*' else ('ptr', lv))]
    if n in ('operator++', 'operator--'):
        w = it_step(I, st, v, 1 if n == 'operator++' else -1)
        I.store(st, o, w)
        return [(st, v if args else o)]
    if n in ('operator+', 'operator-', 'operator+=', 'operator-='):
        k = I.val(st, args[0])
        if is_int(k) and is_int(v[2]):
            w = ('it', v[1], add(v[2], k if '+' in n else neg(k)))
            if n.endswith('='):
                I.store(st, o, w)
                return [(st, o)]
            return [(st, w)]
    if n == 'operator=':
        I.store(st, o, I.val(st, args[0]))
        return [(st, o)]
    if n in ('operator==', 'operator!='):
        c = it_eq(I, st, v, I.val(st, args[0]))
        return [(st, bval(c if n == 'operator==' else notc(c)))]
    st.imprecise('iterator ' + n)
    return [(st, I.unknown(st, fn['rt'], n))]


@byname('operator==', 'operator!=')
def _eqops(I, st, fn, o, args, e):
    a = [I.val(st, x) for x in (([o] if o is not None else []) + list(args))]
    if len(a) != 2:
        return None
    x, y = a
    if isinstance(x, tuple) and x[0] == 'ec' or isinstance(y, tuple) and y[0] == 'ec':
        z = [ec_num(strip_ref(p['t']), v) if isinstance(v, int) else v for p, v in zip([None] * (o is not None) + fn['params'], a)] if fn.get('params') and len(fn['params']) + (o is not None) == 2 else a
        c = ec_eq(*z)
    elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'it' and y[0] == 'it':
        c = it_eq(I, st, x, y)
    else:
        c = I.same(st, x, y)
    return [(st, bval(c if fn['n'] == 'operator==' else notc(c)))]


@byname('operator<', 'operator-', 'operator+')
def _arithops(I, st, fn, o, args, e):
    a = [I.val(st, x) for x in args]
    if len(a) == 2 and all(isinstance(x, tuple) and x[0] == 'it' and is_int(x[2]) for x in a):
        if fn['n'] == 'operator-':
            return [(st, sub(a[0][2], a[1][2]))]
    if fn['n'] == 'operator+' and len(a) == 2:
        return [(st, ('opq', ('cat', a[0], a[1]), None))]
    return [(st, I.unknown(st, fn['rt'], fn['n']))]


@byname('find')
def _find(I, st, fn, o, args, e):
    a = [I.val(st, x) for x in args]
    if len(a) == 3 and a[0][0] == 'it' and is_int(a[0][2]) and is_int(a[1][2]):
        q = I.load(st, a[0][1])
        out = []
        cur = [st]
        if q[0] == 'seq' and all(s_[0] == 'one' for s_ in q[1]) and isinstance(a[0][2], int):
            for i in range(a[0][2], len(q[1])):
                nxt = []
                for s in cur:
                    for s2, t in I.branch(s, I.same(s, q[1][i][1], a[2])):
                        if t:
                            out.append((s2, ('it', a[0][1], i)))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, a[1]) for s in cur]
    st.imprecise('find')
    return [(st, I.unknown(st, fn['rt'], 'find'))]


def span(I, st, a, b):
    """the iterators from a up to b, one path per number of elements:
    [(state, iterators)], None when that is not known"""
    if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'it' and b[0] == 'it'):
        return None
    out = []
    todo = [(st, a, ())]
    while todo:
        s, it, got = todo.pop()
        if len(got) > 40:
            return None
        for s2, t in I.branch(s, it_eq(I, s, it, b)):
            if t:
                out.append((s2, got))
            elif s2.imp != s.imp:
                return None
            else:
                todo.append((s2, it_step(I, s2, it, 1), got + (it,)))
    return out


def truths(I, st, v):
    return I.branch(st, I.cond(st, v))


@byname('for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'transform', 'accumulate', 'copy', 'copy_if', 'remove_if', 'fill', 'generate', 'count', 'remove')
def _algo(I, st, fn, o, args, e):
    n = fn['n']
    a = [I.val(st, x) for x in args]
    sp = span(I, st.copy(), a[0], a[1]) if len(a) >= 3 else None
    if sp is None and len(a) >= 3:
        r = algo_loop(I, st, fn, a, e)
        if r is not None:
            return r
    if sp is None or (n == 'transform' and len(a) != 4):
        return external(I, st, fn, o, args, e)
    out = []
    for s0, its in sp:
        # (state, done?, value)
        val = {'accumulate': a[2], 'count_if': 0, 'count': 0}.get(n)
        cur = [(s0, False, val, a[2] if n in ('copy', 'copy_if', 'transform') else a[0])]
        for it in its:
            nxt = []
            for s, done, v, dst in cur:
                if done or s.exc is not None:
                    nxt.append((s, done, v, dst))
                    continue
                x = it_deref(I, s, it)
                if n == 'for_each':
                    for s2, _ in I.invoke(s, a[2], [x], e):
                        nxt.append((s2, False, None, dst))
                elif n in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'copy_if', 'remove_if'):
                    for s2, r in I.invoke(s, a[3] if n == 'copy_if' else a[2], [x], e):
                        if s2.exc is not None:
                            nxt.append((s2, False, None, dst))
                            continue
                        for s3, t in truths(I, s2, r):
                            if n == 'count_if':
                                nxt.append((s3, False, add(v, 1 if t else 0), dst))
                            elif n == 'copy_if':
                                d2 = dst
                                if t:
                                    d2 = put_it(I, s3, dst, I.val(s3, x))
                                nxt.append((s3, False, None, d2))
                            elif n == 'remove_if':
                                d2 = dst
                                if not t:
                                    d2 = put_it(I, s3, dst, I.val(s3, x))
                                nxt.append((s3, False, None, d2))
                            elif n in ('find_if', 'find_if_not'):
                                hit = t == (n == 'find_if')
                                nxt.append((s3, hit, it if hit else None, dst))
                            else:
                                hit = t != (n == 'all_of')
                                nxt.append((s3, hit, (1 if n == 'any_of' else 0) if hit else None, dst))
                elif n == 'remove':
                    for s3, t in I.branch(s, I.same(s, I.val(s, x), a[2])):
                        nxt.append((s3, False, None, dst if t else put_it(I, s3, dst, I.val(s3, x))))
                elif n == 'count':
                    for s3, t in I.branch(s, I.same(s, I.val(s, x), a[2])):
                        nxt.append((s3, False, add(v, 1 if t else 0), dst))
                elif n == 'transform':
                    for s2, r in I.invoke(s, a[3], [x], e):
                        d2 = put_it(I, s2, dst, I.val(s2, r)) if s2.exc is None else dst
                        nxt.append((s2, False, None, d2))
                elif n == 'copy':
                    nxt.append((s, False, None, put_it(I, s, dst, I.val(s, x))))
                elif n == 'fill':
                    I.store(s, x, a[2])
                    nxt.append((s, False, None, dst))
                elif n == 'generate':
                    for s2, r in I.invoke(s, a[2], [], e):
                        if s2.exc is None:
                            I.store(s2, x, I.val(s2, r))
                        nxt.append((s2, False, None, dst))
                elif len(a) > 3:
                    for s2, r in I.invoke(s, a[3], [v, x], e):
                        nxt.append((s2, False, I.val(s2, r) if s2.exc is None else None, dst))
                else:
                    w = I.val(s, x)
                    nxt.append((s, False, I.cast(s, add(v, w), fn['rt']) if is_int(v) and is_int(w) else I.unknown(s, fn['rt'], n), dst))
            cur = nxt
        for s, done, v, dst in cur:
            if n in ('any_of', 'all_of', 'none_of') and not done:
                v = 0 if n == 'any_of' else 1
            elif n in ('find_if', 'find_if_not') and not done:
                v = a[1]
            elif n == 'for_each':
                v = a[2]
            elif n in ('transform', 'copy', 'copy_if', 'remove_if', 'remove'):
                v = dst
            out.append((s, v))
    return out


def algo_loop(I, st, fn, a, e):
    """the algorithm as a loop over a range of symbolic length"""
    n = fn['n']
    if n not in ('for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'transform', 'copy', 'fill', 'generate'):
        return None
    b, t = a[0], a[1]
    if not all(isinstance(x, tuple) and x[0] == 'it' and is_int(x[2]) for x in (b, t)) or b[1] != t[1]:
        return None
    root = ('v', 'L%d' % I.depth, ('alg', I.loc(e)))
    dst = a[2] if n in ('transform', 'copy') else None
    if dst is not None and (len(a) != (4 if n == 'transform' else 3) or not (dst[0] == 'inserter' or dst[0] == 'it' and is_int(dst[2]))):
        return None
    st.mem[root] = 0

    def at(s, it):
        return ('it', it[1], add(it[2], s.mem[root]))

    def head(s):
        return [(s, bval(ge(sub(sub(sub(t[2], b[2]), 1), s.mem[root]))))]

    def put(s, v):
        put_it(I, s, dst if dst[0] == 'inserter' else at(s, dst), v)

    def body(s):
        x = it_deref(I, s, at(s, b))
        if n == 'copy':
            put(s, I.val(s, x))
            return [('n', s, None)]
        if n == 'fill':
            I.store(s, x, a[2])
            return [('n', s, None)]
        out = []
        for s2, r in I.invoke(s, a[3] if n == 'transform' else a[2], [] if n == 'generate' else [x], e):
            if s2.exc is not None:
                out.append(('exc', s2, None))
            elif n == 'for_each':
                out.append(('n', s2, None))
            elif n == 'transform':
                put(s2, I.val(s2, r))
                out.append(('n', s2, None))
            elif n == 'generate':
                I.store(s2, x, I.val(s2, r))
                out.append(('n', s2, None))
            else:
                for s3, yes in truths(I, s2, r):
                    hit = yes == (n in ('any_of', 'find_if', 'none_of'))
                    out.append(('hit' if hit else 'n', s3, at(s3, b) if n.startswith('find') else int(n == 'any_of')))
        return out

    def inc(s):
        s.mem[root] = add(s.mem[root], 1)
        return [(s, None)]
    out = []
    for k, s, v in I.loop(st, head, body, inc, {'l': e.get('l')}):
        if k == 'hit' or k == 'exc':
            out.append((s, v))
        elif n in ('transform', 'copy'):
            out.append((s, dst if dst[0] == 'inserter' else ('it', dst[1], add(dst[2], sub(t[2], b[2])))))
        elif n in ('for_each', 'fill', 'generate'):
            out.append((s, a[2] if n == 'for_each' else None))
        else:
            out.append((s, t if n.startswith('find') else int(n != 'any_of')))
    return out


def put_it(I, st, it, v):
    """*it++ = v, for iterators and insert iterators"""
    if it[0] == 'inserter':
        q = I.load(st, it[1])
        if q[0] == 'seq':
            I.store(st, it[1], Q.norm(('seq', q[1] + (('one', v),))))
        else:
            st.imprecise('back_inserter')
        return it
    if it[0] == 'it':
        I.store(st, it_deref(I, st, it), v)
        return it_step(I, st, it, 1)
    st.imprecise('output iterator')
    return it


@byname('back_inserter')
def _backins(I, st, fn, o, args, e):
    if args and is_lv(args[0]):
        return [(st, ('inserter', args[0]))]
    return external(I, st, fn, o, args, e)


@byname('begin', 'end', 'cbegin', 'cend', 'distance', 'next', 'prev', 'advance')
def _begin(I, st, fn, o, args, e):
    n = fn['n']
    if n in ('next', 'prev'):
        v = I.val(st, args[0])
        k = I.val(st, args[1]) if len(args) > 1 else 1
        if v[0] == 'it' and k == 1:
            return [(st, it_step(I, st, v, 1 if n == 'next' else -1))]
        if v[0] == 'it' and is_int(v[2]) and is_int(k):
            return [(st, ('it', v[1], add(v[2], k if n == 'next' else neg(k))))]
    if n == 'distance':
        a, b = I.val(st, args[0]), I.val(st, args[1])
        if a[0] == 'it' and b[0] == 'it' and is_int(a[2]) and is_int(b[2]):
            return [(st, sub(b[2], a[2]))]
        x, y = map_pos(I, st, a), map_pos(I, st, b)
        if x is not None and y is not None and a[1] == b[1] and x <= y:
            return [(st, y - x)]
    if n == 'advance' and is_lv(args[0]):
        v, k = I.val(st, args[0]), I.val(st, args[1])
        if v[0] == 'it' and is_int(v[2]) and is_int(k):
            I.store(st, args[0], ('it', v[1], add(v[2], k)))
            return [(st, None)]
        if isinstance(k, int) and abs(k) <= 70000 and v[0] == 'it':
            for _ in range(abs(k)):
                v = it_step(I, st, v, 1 if k > 0 else -1)
            I.store(st, args[0], v)
            return [(st, None)]
    if n in ('begin', 'cbegin', 'end', 'cend') and len(args) == 1 and is_lv(args[0]):
        v = I.load(st, args[0])
        if v[0] == 'seq':
            return [(st, ('it', args[0], 0 if 'begin' in n else Q.seqlen(v)))]
    st.imprecise(n)
    return [(st, I.unknown(st, fn['rt'], n))]


@group('std::_Bit_reference')
def _bitref(I, st, fn, o, args, e):
    n = fn['n']
    if n == 'operator bool':
        return [(st, I.load(st, o))]
    if n == 'operator=':
        v = I.val(st, args[0])
        I.store(st, o, v)
        return [(st, o)]
    if n == 'flip':
        I.store(st, o, sub(1, I.load(st, o)))
        return [(st, None)]
    return [(st, I.load(st, o))]


@group('std::atomic', 'std::__atomic_base')
def _atomic(I, st, fn, o, args, e):
    n = fn['n']
    v = I.load(st, o)
    if n.startswith('operator') and n[8:].strip() not in ('=', '++', '--', '+=', '-='):
        return [(st, v)]
    if n == 'load':
        return [(st, v)]
    if n in ('store', 'operator='):
        x = I.val(st, args[0])
        I.store(st, o, x)
        return [(st, x)]
    if n == 'exchange':
        x = I.val(st, args[0])
        I.store(st, o, x)
        return [(st, v)]
    if n in ('operator++', 'operator--') and is_int(v):
        t = ty(strip_ref(fn['rt']))
        w = I.fit(st, add(v, 1 if n == 'operator++' else -1), t) if 'w' in t else add(v, 1)
        I.store(st, o, w)
        return [(st, v if args else w)]
    if n in ('fetch_add', 'fetch_sub', 'operator+=', 'operator-=') and is_int(v):
        k = I.val(st, args[0])
        w = add(v, k if n in ('fetch_add', 'operator+=') else neg(k))
        t = ty(strip_ref(fn['rt']))
        if 'w' in t:
            w = I.fit(st, w, t)
        I.store(st, o, w)
        return [(st, v if n.startswith('fetch') else w)]
    if n in ('compare_exchange_strong', 'compare_exchange_weak'):
        exp = I.val(st, args[0])
        new = I.val(st, args[1])
        out = []
        for s, t in I.branch(st, I.same(st, v, exp)):
            if t:
                I.store(s, o, new)
            else:
                I.store(s, args[0], v)
            out.append((s, 1 if t else 0))
        return out
    st.imprecise('atomic ' + n)
    return [(st, I.unknown(st, fn['rt'], n))]


@group('std::function')
def _function(I, st, fn, o, args, e):
    n = fn['n']
    v = I.load(st, o)
    if n == 'operator()':
        return I.invoke(st, v, args, e)
    if n == 'operator bool':
        return [(st, bval(I.cond(st, v)))]
    if n == 'operator=':
        x = I.val(st, args[0])
        I.store(st, o, ('nofn',) if isinstance(x, tuple) and x[0] == 'null' else x)
        return [(st, o)]
    return [(st, None)]


@group('std::optional')
def _opt(I, st, fn, o, args, e):
    n = fn['n']
    v = I.load(st, o)
    if n in ('has_value', 'operator bool'):
        return [(st, bval(I.cond(st, v)))]
    if n in ('value', 'operator*'):
        return [(st, ('lv', o[1], o[2] + (('x',),)))]
    if n == 'operator->':
        return [(st, ('ptr', ('lv', o[1], o[2] + (('x',),))))]
    if n == 'reset':
        I.store(st, o, ('none',))
        return [(st, None)]
    if n == 'operator=':
        x = I.val(st, args[0])
        I.store(st, o, x if isinstance(x, tuple) and x[0] in ('some', 'none') else ('some', x))
        return [(st, o)]
    st.imprecise('optional ' + n)
    return [(st, I.unknown(st, fn['rt'], n))]


@group('std::unique_lock', 'std::lock_guard', 'std::mutex', 'std::recursive_mutex', 'std::shared_mutex')
def _lockm(I, st, fn, o, args, e):
    n = fn['n']
    v = I.load(st, o)
    mtx = o
    if isinstance(v, tuple) and v[0] == 'lock':
        mtx = v[1]
        if n in ('lock', 'unlock') and mtx is not None:
            I.store(st, o, ('lock', mtx, 1 if n == 'lock' else 0))
    if n in ('lock', 'unlock', 'lock_shared', 'unlock_shared') and mtx is not None:
        st.emit('lock' if n.startswith('lock') else 'unlock', mtx, I.loc(e))
    return [(st, 1 if n == 'try_lock' else None)]


def unlock(I, st, var, node):
    lv = st.env.get(var)
    if lv is None:
        return
    v = st.mem.get(lv[1])
    if isinstance(v, tuple) and v[0] == 'ptr':
        # a thread pool owned by a local variable ends with it
        free(I, st, v)
    if isinstance(v, tuple) and v[0] == 'lock' and v[1] is not None and v[2]:
        st.emit('unlock', v[1], I.loc(node))
        st.mem[lv[1]] = ('lock', v[1], 0)


# ---- strings and streams
@group('std::basic_string', 'std::__cxx11::basic_string')
def _string(I, st, fn, o, args, e):
    n = fn['n']
    v = I.load(st, o) if o is not None else None
    if n == 'operator=':
        I.store(st, o, I.val(st, args[0]))
        return [(st, o)]
    if n == 'empty' and v is not None:
        if v[0] == 'str' and isinstance(v[1], str):
            return [(st, 0 if v[1] else 1)]
        return [(st, bval(('p', ('emptystr', v))))]
    if n in ('size', 'length') and v is not None:
        if v[0] == 'str' and isinstance(v[1], str):
            return [(st, len(v[1]))]
    if n == 'compare':
        a, b = v, I.val(st, args[0])
        c = I.same(st, a, b)
        d = st.facts.decide(c)
        if d is True:
            return [(st, 0)]
        return [(s, 0 if t else atom(('f', 'strcmp', a, b, None, None))) for s, t in I.branch(st, c)]
    if n == 'operator+=':
        I.store(st, o, ('opq', ('cat', v, I.val(st, args[0])), None))
        return [(st, o)]
    if n.startswith('~'):
        return [(st, None)]
    a = tuple(I.val(st, x) for x in args)
    return [(st, pure('str.' + n, (v,) + a, fn['rt']))]


@byname('operator<<')
def _shl(I, st, fn, o, args, e):
    return stream(I, st, args[0], args[1:], e)


@group('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_ios', 'std::ios_base', 'std::basic_stringstream')
def _os(I, st, fn, o, args, e):
    if fn['n'] == 'operator<<':
        return stream(I, st, o, args, e)
    if fn['n'] == 'str':
        v = I.load(st, o)
        if isinstance(v, tuple) and v[0] == 'oss' and all(isinstance(x, tuple) and x[0] == 'str' and isinstance(x[1], str) for x in v[1]):
            return [(st, ('str', ''.join(x[1] for x in v[1])))]
        return [(st, ('str', ('stream', st.fresh())))]
    st.emit('stream', fn['n'], tuple(snapshot(I, st, I.val(st, a)) for a in args))
    return [(st, I.unknown(st, fn['rt'], fn['n']))]


def stream(I, st, s, args, e):
    v = I.val(st, s)
    if not (isinstance(v, tuple) and v[0] == 'oss'):
        for a in args:
            st.emit('out', snapshot(I, st, I.val(st, a)))
    elif is_lv(s):
        I.store(st, s, ('oss', v[1] + tuple(snapshot(I, st, I.val(st, a)) for a in args)))
    return [(st, s)]


# ---- executors and timers
@group('exe4cpp::IExecutor', 'exe4cpp::StrandExecutor')
def _exec(I, st, fn, o, args, e):
    n = fn['n']
    if n == 'post':
        st.emit('post', I.val(st, args[0]), I.loc(e), I.objname(st, o))
        return [(st, None)]
    if n == 'start':
        f = I.val(st, args[1])
        i = st.fresh()
        st.emit('start', i, snapshot(I, st, I.val(st, args[0])), f, I.loc(e))
        return [(st, ('timer', i))]
    if n == 'wrap':
        return [(st, ('wrapped', I.val(st, args[0])))]
    if n == 'get_context':
        t = ty(strip_ref(fn['rt'])).get('ta')
        nm = ('io', I.objname(st, o))
        st.facts.preds[('null', nm)] = False
        return [(st, ('sptr', nm, t[0] if t else None))]
    return [(st, I.unknown(st, fn['rt'], n))]


@group('exe4cpp::Timer')
def _timer(I, st, fn, o, args, e):
    n = fn['n']
    v = I.load(st, o)
    if n == 'cancel':
        st.emit('cancel', v[1] if v[0] == 'timer' else None, I.loc(e))
        return [(st, 1)]
    if n == 'operator=':
        x = I.val(st, args[0])
        I.store(st, o, ('notimer',) if isinstance(x, tuple) and x[0] == 'null' else x)
        return [(st, o)]
    if n == 'operator bool':
        return [(st, 1 if v[0] == 'timer' else 0)]
    return [(st, pure('timer.' + n, (v,), fn['rt']))]


# ---- error codes / asio
def ec_eq(x, y):
    a, b = (x, y) if isinstance(x, tuple) and x[0] == 'ec' else (y, x)
    if isinstance(b, int) and not isinstance(b, bool):
        b = ec_num(None, b)
    if isinstance(b, tuple) and b[0] == 'ec':
        if a[1] == b[1]:
            return True
        if a[1] is None or b[1] is None:
            return notc(ec_cond(b if a[1] is None else a))
        k = [z[1] for z in (a[1], b[1]) if z[0] == 'code']
        if len(k) == 2 and set(k) & {'eof', 'aborted'} and not set(k) - {'eof', 'aborted', 'failed'}:
            return False
        return ('p', ('eceq', a[1], b[1]))
    if a[1] is None:
        return False
    return ('p', ('eceq', a[1], b))


def ec_num(t, v):
    """the error code made of an enumerator"""
    s = ty(t)['s'] if t is not None else ''
    if v == 2 and 'misc_errors' in s:
        return ('ec', ('code', 'eof'))
    if v == 125 and 'misc_errors' not in s:
        return ('ec', ('code', 'aborted'))
    return ('ec', ('code', (s, v))) if v else ('ec', None)


@group('std::error_code', 'asio::error_code', 'std::system_error')
def _ec(I, st, fn, o, args, e):
    n = fn['n']
    v = I.load(st, o)
    if n == 'operator bool':
        return [(st, bval(ec_cond(v)))]
    if n == 'message':
        return [(st, ('opq', ('message', v), None))]
    if n == 'operator=':
        I.store(st, o, I.val(st, args[0]))
        return [(st, o)]
    if n in ('clear',):
        I.store(st, o, ('ec', None))
        return [(st, None)]
    return [(st, I.unknown(st, fn['rt'], n))]


def ec_cond(v):
    if v[0] == 'ec':
        return False if v[1] is None else True if v[1][0] == 'code' else ('p', ('ec', v[1]))
    return ('p', ('ec', v))


def set_ec(I, st, args):
    """operation reports through its error_code argument -> [(st, failed?)]"""
    for a in args:
        if is_lv(a):
            v = I.load(st, a)
            if isinstance(v, tuple) and (v[0] == 'ec' or (v[0] == 'opq' and v[1] == 'ec')):
                nm = ('op', st.fresh())
                I.store(st, a, ('ec', nm))
                return I.branch(st, ('p', ('ec', nm)))
    return [(st, False)]


SOCK = ('asio::basic_socket', 'asio::basic_stream_socket', 'asio::basic_socket_acceptor', 'asio::ip::basic_resolver')
SOCKS = ('g', 'socks')
# asynchronous operations: kind of completion
ASYNC = {'async_resolve': 'resolve', 'async_connect': 'connect', 'async_read_some': 'read', 'async_receive': 'read', 'async_send': 'send',
         'async_write_some': 'send', 'async_write': 'write', 'async_read': 'readall', 'async_accept': 'accept', 'async_wait': 'wait'}


def sock_state(st, lv):
    """1 open, 0 closed"""
    for k, v in st.mem.get(SOCKS, ()):
        if k == lv:
            return v
    return 0


def sock_set(st, lv, v):
    d = dict(st.mem.get(SOCKS, ()))
    d[lv] = v
    st.mem[SOCKS] = tuple(sorted(d.items(), key=repr))


def is_handler(v):
    return isinstance(v, tuple) and v and v[0] in ('clo', 'fn', 'bind', 'wrapped', 'sfn')


def async_op(I, st, fn, o, args, e):
    """an operation that completes later: recorded for the world model"""
    vals = [I.val(st, a) for a in args]
    hs = [i for i, v in enumerate(vals) if is_handler(v)]
    if not hs:
        st.imprecise('asynchronous operation without handler')
        return [(st, None)]
    kind = ASYNC[fn['n']]
    h = vals[hs[-1]]
    buf = next((v for v in vals if isinstance(v, tuple) and v and v[0] == 'abuf'), None)
    peer = args[0] if kind == 'accept' and is_lv(args[0]) else None
    content = None
    if kind in ('send', 'write') and buf is not None:
        content = abuf_content(I, st, buf)
    st.emit('aio-args', kind, o, tuple(snapshot(I, st, v) for i, v in enumerate(vals) if i != hs[-1]), tuple(a for a in args if is_lv(a)), I.loc(e))
    st.emit('aio', st.fresh(), kind, o, h, buf, content, peer, sock_state(st, o) if kind not in ('resolve',) else 1, I.loc(e))
    return [(st, None)]


def abuf_content(I, st, b):
    """bytes an asio buffer refers to now"""
    if b[1] is None or not is_int(b[3]):
        return None
    base = b[1]
    v = I.load(st, base) if is_lv(base) else base
    if not (isinstance(v, tuple) and v and v[0] in ('seq', 'arr')):
        return None
    try:
        return Q.seq_slice(v, b[2], b[3], st.facts)
    except Exception:
        return None


@group(*SOCK)
def _sock(I, st, fn, o, args, e):
    n = fn['n']
    if n in ASYNC:
        return async_op(I, st, fn, o, args, e)
    if n == 'is_open':
        return [(st, sock_state(st, o))]
    a = tuple(snapshot(I, st, I.val(st, x)) for x in args)
    st.emit('asio', n, o, a, I.loc(e))
    if n in ('close', 'cancel'):
        st.emit('aio-cancel', o, n)
    out = []
    was = sock_state(st, o)
    for s, failed in set_ec(I, st, args):
        if n == 'open':
            if was and not failed:
                # opening an open socket fails
                if not any(is_lv(x) for x in args):
                    out += raise_(I, s, ('stdexc', 'std::system_error'))
                continue
            if not failed:
                sock_set(s, o, 1)
            else:
                s.emit('asio-failed', n, o)
        elif n == 'close':
            sock_set(s, o, 0)
        elif failed and n in ('bind', 'connect', 'listen'):
            s.emit('asio-failed', n, o)
        out.append((s, None if ty(fn['rt'])['k'] == 'void' else ('ec', None) if ty(fn['rt']).get('tn') == 'std::error_code' else I.unknown(s, fn['rt'], n)))
    return out


@byname('async_connect', 'async_write', 'async_read')
def _aconn(I, st, fn, o, args, e):
    return async_op(I, st, fn, args[0] if is_lv(args[0]) else None, args[1:], e)


@byname('buffer')
def _abuf(I, st, fn, o, args, e):
    a = [I.val(st, x) for x in args]
    raw = args[0]
    if is_int(a[1]) if len(a) > 1 else False:
        p = flat(a[0])
        if isinstance(p, tuple) and p[0] in ('rp', 'decay'):
            return [(st, ('abuf', p[1], p[2], a[1]))]
        if isinstance(p, tuple) and p[0] == 'rseq':
            return [(st, ('abuf', p[1], p[2], a[1]))]
        if isinstance(p, tuple) and p[0] == 'seq' and is_lv(raw):
            return [(st, ('abuf', raw, 0, a[1]))]
    if isinstance(a[0], tuple) and a[0][0] == 'seq' and is_lv(raw):
        return [(st, ('abuf', raw, 0, Q.seqlen(a[0])))]
    return [(st, ('abuf', None, 0, ('opq', tuple(a))))]


@byname('from_string', 'make_address')
def _addr(I, st, fn, o, args, e):
    a = tuple(snapshot(I, st, I.val(st, x)) for x in args[:1])
    out = []
    for s, failed in set_ec(I, st, args[1:]):
        if failed:
            s.emit('asio-failed', 'address', None)
        out.append((s, ('opq', ('address',) + a, None)))
    return out


TABLE[('asio::ip::address', 'from_string')] = _addr


@group('asio::ip::basic_endpoint', 'asio::ip::tcp', 'asio::ip::address')
def _ep(I, st, fn, o, args, e):
    a = tuple(snapshot(I, st, I.val(st, x)) for x in args)
    if o is not None and args:
        I.store(st, o, ('opq', (fn['n'], I.load(st, o)) + a, None))
        return [(st, None)]
    return [(st, pure(fn['n'], a, fn['rt']) if ty(fn['rt'])['k'] != 'void' else None)]


@group('std::type_info')
def _ti(I, st, fn, o, args, e):
    a, b = I.load(st, o), I.val(st, args[0])
    if fn['n'] in ('operator==', 'operator!='):
        c = True if a == b else (False if isinstance(a[1], str) and isinstance(b[1], str) else ('p', ('sametype', a, b)))
        return [(st, bval(c if fn['n'] == 'operator==' else notc(c)))]
    return [(st, I.unknown(st, fn['rt'], fn['n']))]


@group('std::hash')
def _hash(I, st, fn, o, args, e):
    return [(st, pure('hash', (I.val(st, args[0]),), fn['rt']))]


def external(I, st, fn, o, args, e):
    """a callee nothing is known about"""
    n = fn['n']
    if n.startswith('~'):
        return [(st, None)]
    if n == 'operator=' and o is not None and len(args) == 1:
        I.store(st, o, I.val(st, args[0]))
        return [(st, o)]
    pt = fn.get('pt', [])
    pure_call = (o is None or fn.get('cm'))
    for i, a in enumerate(args):
        if i < len(pt) and ty(pt[i])['k'] == 'ref' and not ty(pt[i]).get('cq', False) and is_lv(a) and not ty(ty(pt[i])['e']).get('const'):
            s = I.P.types[pt[i]]['s']
            if not s.startswith('const '):
                pure_call = False
    a = tuple(snapshot(I, st, I.val(st, x)) for x in args)
    if any(isinstance(x, tuple) and x and x[0] in ('clo', 'fn', 'bind', 'wrapped', 'it', 'inserter') for x in a):
        # it may call or write through what it is given
        pure_call = False
        st.imprecise('external ' + fn['q'])
    ov = I.load(st, o) if o is not None else None
    st.emit('ext', fn['q'], I.objname(st, o), a, I.loc(e))
    if pure_call:
        if ty(fn['rt'])['k'] == 'void':
            return [(st, None)]
        return [(st, pure(fn['q'], ((ov,) if ov is not None else ()) + a, fn['rt']))]
    for i, x in enumerate(args):
        if i < len(pt) and ty(pt[i])['k'] == 'ref' and is_lv(x) and not I.P.types[pt[i]]['s'].startswith('const '):
            I.store(st, x, I.unknown(st, pt[i], n))
    st.imprecise('external ' + fn['q'])
    return [(st, I.unknown(st, fn['rt'], n))]
