"""C01-C08: the PDU/ADU codec.  Every message class' transfer function is computed
for all requests/byte strings at once and compared with the protocol."""
import os

from sa import seqs as Q
from sa import terms as T
from sa.interp import Interp, St, Stuck
from sa.model import bound, models, same_value, same_segs, NoVal
from sa.report import Broken
from sa.seqs import init_sym, strip_ref, fields_of

NS = 'modbus::'
# public message type -> (function code, kind)
REQ = {
    'ReadCoilsRequest': (1, 'read', 2000), 'ReadDiscreteInputsRequest': (2, 'read', 2000),
    'ReadHoldingRegistersRequest': (3, 'read', 125), 'ReadInputRegistersRequest': (4, 'read', 125),
    'WriteSingleCoilRequest': (5, 'coil', None), 'WriteSingleRegisterRequest': (6, 'reg', None),
    'WriteMultipleCoilsRequest': (15, 'coils', 1968), 'WriteMultipleRegistersRequest': (16, 'regs', 123),
}
RSP = {
    'ReadCoilsResponse': (1, 'bits', 2000), 'ReadDiscreteInputsResponse': (2, 'bits', 2000),
    'ReadHoldingRegistersResponse': (3, 'words', 125), 'ReadInputRegistersResponse': (4, 'words', 125),
    'WriteSingleCoilResponse': (5, 'coil', None), 'WriteSingleRegisterResponse': (6, 'reg', None),
    'WriteMultipleCoilsResponse': (15, 'echo', None), 'WriteMultipleRegistersResponse': (16, 'echo', None),
}


SECONDS = 15 if os.environ.get("SA_TIER", "quick") == "quick" else 120


def impls(P):
    """public message type -> implementation class: the classes derived from IMessage
    that are constructible from exactly that type"""
    out = {}
    for c in P.all_derived(NS + 'IMessage'):
        for f in P.functions.values():
            if f['fn'].get('c') == c and 'inits' in f and len(f['params']) == 1:
                t = P.types[strip_ref(f['params'][0]['t'])]
                n = t.get('c', '')
                if n.startswith(NS) and n[len(NS):] in list(REQ) + list(RSP):
                    out.setdefault(n[len(NS):], (c, f))
    return out


def need(P):
    m = impls(P)
    for n in list(REQ) + list(RSP):
        if n not in m:
            raise Broken('no message class for ' + n)
    return m


def one(P, cls, name, n=None):
    r = []
    for c in P.ancestors(cls):
        r = P.method(c, name, n)
        if r:
            break
    if not r:
        raise Broken('%s::%s not found' % (cls, name))
    return r[0]


def build_object(P, I, st, cls, ctor, msg):
    """construct the message from public message value `msg` -> [(state, lvalue)]"""
    lv = ('lv', ('obj', cls), ())
    st.mem[lv[1]] = ('rec', cls, tuple((n, None) for n, _ in fields_of(cls)))
    arg = ('lv', ('msg',), ())
    st.mem[('msg',)] = msg
    return [(s, lv) for s, _ in I.call(st, ctor, lv, [arg], {})]


def outbuf(st, cap=260):
    st.mem[('out',)] = ('seq', (('sl', ('sb', ('old',), None), 0, cap),))
    st.mem[('w',)] = ('wseq', ('lv', ('out',), ()), 0, cap)
    return ('lv', ('w',), ())


# ---------------------------------------------------------------- specification
def pack(bits):
    out = []
    for i in range(0, len(bits), 8):
        out.append(sum((1 if b else 0) << j for j, b in enumerate(bits[i:i + 8])))
    return out


def hl(x):
    return [x >> 8 & 255, x & 255]


def spec_pdu(n, v):
    """bytes of a PDU for the (concrete) public message v"""
    if n in REQ:
        fc, k, _ = REQ[n]
        if k == 'read':
            q = v['qty_of_bits'] if 'qty_of_bits' in v else v['qty_of_registers']
            return [fc] + hl(v['starting_address']) + hl(q)
        if k == 'coil':
            return [fc] + hl(v['value']['address']) + ([255, 0] if v['value']['value'] else [0, 0])
        if k == 'reg':
            return [fc] + hl(v['value']['address']) + hl(v['value']['value'])
        if k == 'coils':
            b = pack(v['values'])
            return [fc] + hl(v['starting_address']) + hl(len(v['values'])) + [len(b)] + b
        b = [y for x in v['values'] for y in hl(x)]
        return [fc] + hl(v['starting_address']) + hl(len(v['values'])) + [len(b) & 255] + b
    fc, k, _ = RSP[n]
    if k == 'bits':
        b = pack([x['value'] for x in v['values']])
        return [fc, len(b) & 255] + b
    if k == 'words':
        b = [y for x in v['values'] for y in hl(x['value'])]
        return [fc, len(b) & 255] + b
    if k == 'coil':
        return [fc] + hl(v['value']['address']) + ([255, 0] if v['value']['value'] else [0, 0])
    if k == 'reg':
        return [fc] + hl(v['value']['address']) + hl(v['value']['value'])
    q = v['qty_of_coils'] if 'qty_of_coils' in v else v['qty_of_registers']
    return [fc] + hl(v['starting_address']) + hl(q)


def shl(x):
    return [('one', T.div(x, 256)), ('one', T.mod(x, 256))]


def sym_fields(P, cls):
    """field name -> symbolic value of public message ('msg')"""
    return {n: init_sym(t, ('fld', ('msg',), n)) for n, t in fields_of(cls)}


def sub(v, f):
    return init_sym(dict(fields_of(v[1]))[f], ('fld', v[2], f))


def spec_sym(P, n, F):
    """symbolic bytes of a PDU, or None when the path does not fix the last byte's width"""
    cls = NS + n
    fv = sym_fields(P, cls)
    fc, k, _ = REQ[n] if n in REQ else RSP[n]
    o = [('one', fc)]
    if k in ('read', 'echo'):
        q = [v for x, v in fv.items() if x.startswith('qty')][0]
        return o + shl(fv['starting_address']) + shl(q)
    if k in ('coil', 'reg'):
        a, v = sub(fv['value'], 'address'), sub(fv['value'], 'value')
        if k == 'coil':
            return o + shl(a) + [('one', T.mulc(v, 255)), ('one', 0)]
        return o + shl(a) + shl(v)
    vals = fv['values']
    N = Q.seqlen(vals)
    base = vals[1][0][1]

    def el(i):
        x = Q.elem(base, i)
        return sub(x, 'value') if isinstance(x, tuple) else x
    H = T.sym(('pos', 'spec'), 0, None)
    hid = H.t[0][0]
    if k in ('regs', 'words'):
        body = [Q.comp(N, tuple(shl(el(H))), hid)]
        nb = T.mulc(N, 2)
    else:
        q = T.div(N, 8)
        lo, hi = bound(F, N, False), bound(F, N, True)
        if lo == hi:
            N = lo
            q = lo // 8
        r = None
        for x in range(8):
            if F.entails(T.eq(T.sub(T.sub(N, T.mulc(q, 8)), x))):
                r = x
        if r is None:
            return None
        full = 0
        for j in range(8):
            full = T.add(full, T.mulc(el(T.add(T.mulc(H, 8), j)), 1 << j))
        part = 0
        for j in range(r):
            part = T.add(part, T.mulc(el(T.add(T.mulc(q, 8), j)), 1 << j))
        body = [Q.comp(q, (('one', full),), hid)] + ([('one', part)] if r else [])
        nb = T.add(q, 1 if r else 0)
    if k in ('bits', 'words'):
        return o + [('one', nb)] + body
    return o + shl(fv['starting_address']) + shl(N) + [('one', nb)] + body


def spec_len(n, v):
    return len(spec_pdu(n, v))


def limits(P, n, st):
    """facts: the message is one the protocol can carry"""
    ent = REQ.get(n) or RSP.get(n)
    if ent[2] is None:
        return
    fv = sym_fields(P, NS + n)
    if ent[1] == 'read':
        q = [v for x, v in fv.items() if x.startswith('qty')][0]
    elif ent[1] == 'echo':
        return
    else:
        q = Q.seqlen(fv['values'])
    st.facts.add(T.ge(T.sub(q, 1)))
    st.facts.add(T.ge(T.sub(ent[2], q)))


SIZES = (1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 40, 122, 123, 124, 125, 255, 256, 1960, 1967, 1968, 1999, 2000)


def runs(P, n, sized=False):
    """(label, state, message value): all sizes at once, or particular sizes"""
    cls = NS + n
    msg = ('srec', cls, ('msg',))
    if not sized:
        st = St()
        limits(P, n, st)
        yield '', st, msg
        return
    ent = REQ.get(n) or RSP.get(n)
    fv = sym_fields(P, cls)
    if 'values' not in fv:
        return
    base = fv['values'][1][0][1]
    for k in SIZES:
        if k > ent[2]:
            continue
        st = St()
        yield ' [size %d]' % k, st, ('rec', cls, tuple((x, v if x != 'values' else ('seq', (('sl', base, 0, k),))) for x, v in fv.items()))


def each_build(P, R, names, judge):
    """interpret construct+is_valid+length+build of every class; judge(n, state, info)"""
    m = need(P)
    for n in names:
        cls, ctor = m[n]
        for sized in (False, True):
            complete = True
            for label, st, msg in runs(P, n, sized):
                I = Interp(P, budget=3000000, seconds=SECONDS)
                try:
                    for s, o in build_object(P, I, st, cls, ctor, msg):
                        for s1, valid in I.call(s, one(P, cls, 'is_valid', 0), o, [], {}):
                            for s2, ln in I.call(s1, one(P, cls, 'get_message_length', 0), o, [], {}):
                                w = outbuf(s2)
                                for s3, _ in I.call(s2, one(P, cls, 'build_message', 1), o, [w], {}):
                                    judge(n, cls, label, s3, valid, ln, w, msg)
                except Stuck as e:
                    complete = False
                if I.ncut or I.cuts:
                    complete = False
                R.used(I)
            if complete:
                break
            if sized:
                R.undec('%s: only sizes %s were analysed' % (n, (SIZES,)))


def written(st, w):
    v = st.mem[w[1]]
    buf = st.mem[('out',)]
    pos = v[2]
    r = Q.seq_slice(buf, 0, pos, st.facts)
    return pos, r


def where(P, cls, name):
    f = one(P, cls, name)
    from sa.lib import REPO
    return '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), f['line'], f['disp'].split('::')[-1] if '<' not in f['disp'] else name)


def check_encoding(P, R, names, prop):
    def judge(n, cls, label, s, valid, ln, w, msg):
        where_ = where(P, cls, 'build_message')
        R.count('paths')
        if s.exc is not None:
            if not s.imp:
                R.violate('%s:%s:throws' % (prop, n), where_, '%s::build_message does not return for a message within the protocol limits (%s)' % (cls, s.exc))
            return
        pos, got = written(s, w)
        spec = spec_sym(P, n, s.facts) if not label else None
        if got is not None and spec is not None and not s.imp and same_segs(s.facts, list(got[1]), spec):
            R.ok()
            R.sample('%s: all bytes equal the protocol layout on the path class %s' % (n, [T.show(c) for c in s.facts.cs][:4]))
            return
        bad = None
        tried = 0
        if not s.imp and got is not None:
            for m in models(s, R.seed, 6):
                try:
                    v = m.value(msg)
                    a = m.value(got)
                    e = spec_pdu(n, v)
                except NoVal:
                    continue
                tried += 1
                if a != e:
                    bad = (v, a, e)
                    break
        if bad:
            v, a, e = bad
            i = next((i for i in range(max(len(a), len(e))) if i >= len(a) or i >= len(e) or a[i] != e[i]), 0)
            R.violate('%s:%s:bytes' % (prop, n), where_,
                      '%s encodes byte %d as %s, the protocol says %s' % (cls, i, a[i] if i < len(a) else 'nothing', e[i] if i < len(e) else 'nothing'),
                      {'message': short(v), 'got': a[:24], 'expected': e[:24]})
        elif label and tried:
            R.ok()
        else:
            R.undec('%s%s: %s' % (n, label, sorted(s.imp) or 'equality not established'))
    each_build(P, R, names, judge)


def short(v):
    s = str(v)
    return s if len(s) < 300 else s[:300] + '...'


# ------------------------------------------------------------------------- C01
def c01(P, R):
    R.rule('For each request class the abstract interpreter derives, for all field values and all list sizes within the protocol limits, the closed form of the bytes written by build_message (loops generalised inductively) and compares it with the protocol layout; a difference is reported only with concrete field values on which the two forms differ.')
    check_encoding(P, R, list(REQ), 'C01')


def c02(P, R):
    R.rule('Same as C01 for the response classes and ExceptionResponse.')
    check_encoding(P, R, list(RSP), 'C02')
    exc_response(P, R)


def exc_response(P, R):
    cls = NS + 'ExceptionResponse'
    if cls not in P.records:
        raise Broken('ExceptionResponse not found')
    ctor = [f for f in P.functions.values() if f['fn'].get('c') == cls and 'inits' in f and len(f['params']) == 2 and not f['fn'].get('cp')]
    if not ctor:
        raise Broken('ExceptionResponse constructor not found')
    I = Interp(P)
    st = St()
    lv = ('lv', ('obj',), ())
    st.mem[('obj',)] = ('rec', cls, ())
    fc = T.sym(('fc',), 1, 127)
    ex = T.sym(('code',), 0, 255)
    st.mem[('ex',)] = ex
    for s, _ in I.call(st, ctor[0], lv, [fc, ('lv', ('ex',), ())], {}):
        w = outbuf(s)
        for s2, _ in I.call(s, one(P, cls, 'build_message', 1), lv, [w], {}):
            pos, got = written(s2, w)
            spec = [('one', T.add(fc, 128)), ('one', ex)]
            if got is not None and not s2.imp and same_segs(s2.facts, list(got[1]), spec):
                R.ok()
                continue
            bad = None
            if got is not None and not s2.imp:
                for m in models(s2, R.seed, 6, also=(('ge', fc),)):
                    a, e = m.value(got), [m.num(fc) + 128, m.num(ex)]
                    if a != e:
                        bad = (a, e)
                        break
            if bad:
                R.violate('%s:ExceptionResponse:bytes' % R.prop, where(P, cls, 'build_message'), 'exception response is encoded as %s, expected %s' % bad)
            else:
                R.undec('ExceptionResponse')
    R.used(I)


# ------------------------------------------------------------------------- C03
def mbap_build(P):
    f = [f for f in P.method(NS + 'MbapMessage', 'build_message')]
    if not f:
        raise Broken('MbapMessage::build_message not found')
    return f[0]


def c03(P, R):
    R.rule('For every message class: get_message_length() equals the number of bytes build_message() writes, for all field values and sizes; MbapMessage::build_message writes transaction id, protocol 0, length = PDU length + 1, unit id, and returns exactly header + PDU of the same buffer.')
    m = need(P)
    mb = mbap_build(P)

    def judge_len(n, cls, label, s, valid, ln, w, msg):
        R.count('paths')
        if s.exc is not None:
            return
        pos, got = written(s, w)
        where_ = where(P, cls, 'get_message_length')
        if not s.imp and T.is_int(ln) and s.facts.entails(T.eq(T.sub(pos, ln))):
            R.ok()
            return
        bad = None
        tried = 0
        if not s.imp and T.is_int(ln):
            for mm in models(s, R.seed, 6):
                tried += 1
                try:
                    if mm.num(ln) != mm.num(pos):
                        bad = (mm.num(ln), mm.num(pos), short(mm.value(msg)))
                        break
                except NoVal:
                    pass
        if bad:
            R.violate('C03:%s:length' % n, where_, '%s announces %d bytes but writes %d' % (cls, bad[0], bad[1]), {'message': bad[2]})
        elif label and tried:
            R.ok()
        else:
            R.undec('%s%s length: %s' % (n, label, sorted(s.imp)))
    each_build(P, R, list(REQ) + list(RSP), judge_len)
    exc_len(P, R)
    any_message(P, R, mb)
    for n in list(REQ) + list(RSP):
        cls, ctor = m[n]
        for sized in (False, True):
            complete = True
            for label, st, msg in runs(P, n, sized):
                I = Interp(P, budget=3000000, seconds=SECONDS)
                try:
                    for s, o in build_object(P, I, st, cls, ctor, msg):
                        frame(P, R, I, mb, n, cls, label, s, o, msg)
                except Stuck:
                    complete = False
                if I.ncut:
                    complete = False
                R.used(I)
            if complete:
                break


def exc_len(P, R):
    cls = NS + 'ExceptionResponse'
    f = one(P, cls, 'get_message_length')
    I = Interp(P)
    st = St()
    st.mem[('obj',)] = ('srec', cls, ('self', 'x'))
    for s, v in I.call(st, f, ('lv', ('obj',), ()), [], {}):
        if v == 2:
            R.ok()
        elif isinstance(v, int):
            R.violate('C03:ExceptionResponse:length', where(P, cls, 'get_message_length'), 'exception response announces %d bytes instead of 2' % v)
        else:
            R.undec('ExceptionResponse length')
    R.used(I)


def ident(P, name, val):
    """value of an identifier class holding `val`"""
    cls = NS + name
    fs = fields_of(cls)
    if len(fs) != 1:
        return ('srec', cls, ('id', name))
    return ('rec', cls, ((fs[0][0], val),))


def any_message(P, R, mb):
    """header and slice for a message of any length up to the protocol's 253 bytes"""
    L = T.sym(('pdu length',), 1, 253)

    def body(I, st, name, obj, args, e):
        w = args[0]
        v = st.mem[w[1]]
        st.mem[w[1]] = ('wseq', v[1], T.add(v[2], L), T.sub(v[3], L))
        return [(st, None)]
    I = Interp(P, hooks={'get_message_length': lambda I, st, name, obj, args, e: [(st, L)], 'build_message': body})
    st = St()
    o = ('lv', ('anymsg',), ())
    st.mem[('anymsg',)] = ('srec', NS + 'IMessage', ('anymsg',))
    tx = T.sym(('tx',), 0, 65535)
    un = T.sym(('unit',), 0, 255)
    w = outbuf(st)
    where_ = '%s:%s (MbapMessage::build_message)' % (mb['file'].split('/repo/')[-1], mb['line'])
    for s, r in I.call(st, mb, None, frame_args(P, mb, tx, un, o, w), {}):
        R.count('frame_paths')
        if s.exc is not None or s.imp or not (isinstance(r, tuple) and r[0] == 'rseq' and r[1] == ('lv', ('out',), ())):
            R.undec('frame of any message')
            continue
        head = Q.seq_slice(s.mem[('out',)], r[2], 7, s.facts)
        spec = shl(tx) + [('one', 0), ('one', 0)] + shl(T.add(L, 1)) + [('one', un)]
        if head is not None and same_segs(s.facts, list(head[1]), spec) and s.facts.entails(T.eq(T.sub(r[3], T.add(L, 7)))):
            R.ok()
            continue
        bad = None
        for m in models(s, R.seed, 8, also=(('ge', tx), ('ge', un), ('ge', L))):
            try:
                e = m.value(('seq', tuple(spec)))
                a = m.value(head) if head is not None else None
                n = m.num(r[3])
            except NoVal:
                continue
            if a is not None and (a != e or n != m.num(L) + 7):
                bad = (m.num(L), a, n, e)
                break
        if bad:
            R.violate('C03:frame:any', where_, 'the frame of a %d byte PDU has header %s and %d bytes, expected header %s and %d bytes' % (bad[0], bad[1], bad[2], bad[3], bad[0] + 7))
        else:
            R.undec('frame of any message')
    R.used(I)


def frame_args(P, mb, tx, un, o, w):
    args = []
    for q in mb['params']:
        t = P.types[strip_ref(q['t'])]
        c = t.get('c') or ''
        if c == NS + 'UnitIdentifier':
            args.append(ident(P, 'UnitIdentifier', un))
        elif c == NS + 'TransactionIdentifier':
            args.append(ident(P, 'TransactionIdentifier', tx))
        elif c == NS + 'IMessage':
            args.append(o)
        elif t.get('tn') == 'ser4cpp::WSeq':
            args.append(w)
        else:
            raise Broken('unexpected parameter of MbapMessage::build_message')
    return args


def frame(P, R, I, mb, n, cls, label, st, o, msg):
    tx = T.sym(('tx',), 0, 65535)
    un = T.sym(('unit',), 0, 255)
    w = outbuf(st)
    args = frame_args(P, mb, tx, un, o, w)
    where_ = '%s:%s (MbapMessage::build_message)' % (mb['file'].split('/repo/')[-1], mb['line'])
    for s, r in I.call(st, mb, None, args, {}):
        R.count('frame_paths')
        if s.exc is not None:
            if not s.imp:
                R.violate('C03:frame:throws', where_, 'framing %s fails: %s' % (n, s.exc))
            continue
        buf = s.mem[('out',)]
        got = None
        if isinstance(r, tuple) and r[0] == 'rseq' and r[1] == ('lv', ('out',), ()):
            got = Q.seq_slice(buf, r[2], r[3], s.facts)
        pdu = spec_sym(P, n, s.facts) if not label else None
        ok = False
        if got is not None and pdu is not None and not s.imp:
            L = 0
            for x in pdu:
                L = T.add(L, Q.seglen(x))
            spec = shl(tx) + [('one', 0), ('one', 0)] + shl(T.add(L, 1)) + [('one', un)] + pdu
            ok = same_segs(s.facts, list(got[1]), spec)
        if ok:
            R.ok()
            continue
        bad = None
        tried = 0
        if got is not None and not s.imp:
            for m in models(s, R.seed, 6, also=(('ge', tx), ('ge', un))):
                try:
                    p = spec_pdu(n, m.value(msg))
                    e = hl(m.num(tx)) + [0, 0] + hl(len(p) + 1) + [m.num(un)] + p
                    a = m.value(got)
                except NoVal:
                    continue
                tried += 1
                # the PDU content itself is C01/C02: compare header and length
                if a[:7] != e[:7] or len(a) != len(e):
                    bad = (a, e)
                    break
        if bad:
            R.violate('C03:frame:%s' % n, where_, 'frame of %s is %s... (%d bytes), expected %s... (%d bytes)' % (n, bad[0][:8], len(bad[0]), bad[1][:8], len(bad[1])))
        elif tried:
            R.ok()
        else:
            R.undec('frame of %s%s %s' % (n, label, sorted(s.imp)))


# ------------------------------------------------------------------------- C04
def spec_parse_req(n, b):
    """(kind, value): 'ok' fields | 'idv' | 'bad' | 'rej' (either rejection)"""
    fc, k, lim = REQ[n]
    if k in ('read', 'coil', 'reg'):
        if len(b) != 5 or b[0] != fc:
            return 'bad', None
        a, v = b[1] * 256 + b[2], b[3] * 256 + b[4]
        if k == 'read':
            if not 1 <= v <= lim:
                return 'idv', None
            return 'ok', {'starting_address': a, 'qty': v}
        if k == 'coil':
            if v not in (0, 0xFF00):
                return 'idv', None
            return 'ok', {'address': a, 'value': int(v != 0)}
        return 'ok', {'address': a, 'value': v}
    if len(b) < 6 or b[0] != fc:
        return 'bad', None
    a, q, c = b[1] * 256 + b[2], b[3] * 256 + b[4], b[5]
    nb = (q + 7) // 8 if k == 'coils' else 2 * q
    good = 1 <= q <= lim and nb == c
    if not good:
        return ('idv', None) if len(b) - 6 == c else ('rej', None)
    if len(b) - 6 != c:
        return 'bad', None
    d = b[6:]
    if k == 'coils':
        return 'ok', {'starting_address': a, 'values': [d[i // 8] >> (i % 8) & 1 for i in range(q)]}
    return 'ok', {'starting_address': a, 'values': [d[2 * i] * 256 + d[2 * i + 1] for i in range(q)]}


def flat(n, v):
    """comparable form of a public message value"""
    out = {}
    for k, x in v.items():
        if isinstance(x, dict):
            out.update(x)
        elif k.startswith('qty'):
            out['qty'] = x
        else:
            out[k] = x
    return out


def outcome(P, m, s, v, msgcls):
    """concrete outcome of a parser path under a model"""
    if s.exc is not None:
        return ('throws', str(s.exc)[:80])
    if not isinstance(v, tuple) or v[0] != 'exp':
        raise NoVal(v)
    if v[1] in (0, False):
        x = v[2]
        if x[0] in ('rec', 'srec'):
            c = x[1]
            if P.is_a(c, NS + 'ModbusException') and c == NS + 'ModbusException':
                t = None
                for f, y in x[2]:
                    if T.is_int(y):
                        t = m.num(y)
                return ('modbus', t)
            return ('exc', c)
        raise NoVal(x)
    return ('ok', flat(msgcls, m.value(v[2])))


MALREQ = NS + 'MalformedModbusRequestException'
MALRSP = NS + 'MalformedModbusResponseException'


def lens(n):
    if n in REQ and REQ[n][1] in ('coils', 'regs'):
        return tuple(range(0, 14)) + (251, 252, 253)
    return tuple(range(0, 9))


def run_parser(P, R, f, mk, data, st, judge):
    """mk(st) -> args"""
    I = Interp(P, budget=3000000, seconds=SECONDS)
    complete = True
    try:
        for s, v in I.call(st, f, None, mk(st), {}):
            judge(s, v)
    except Stuck:
        complete = False
    if I.ncut or I.cuts:
        complete = False
    R.used(I)
    return complete


QTY = (1, 7, 8, 9, 16, 17, 100, 123, 250, 255, 256, 257, 258, 260, 263, 264, 265, 300, 511, 512, 513, 1000, 1024, 1025, 1961, 1968, 1993, 2000)


def fixed_bytes(st, bs):
    """a byte string some of whose bytes are fixed: (argument, value to evaluate)"""
    b = ('sb', ('bytes', ('data',)), None)
    v = ('seq', tuple(('one', x if x is not None else Q.elem(b, i)) for i, x in enumerate(bs)))
    st.mem[('fixed',)] = v
    return ('rseq', ('lv', ('fixed',), ()), 0, len(bs)), v


def run_concrete(P, R, f, bs, judge):
    st = St()
    D, v = fixed_bytes(st, bs)
    run_parser(P, R, f, lambda st: [('lv', putv(st, D), ())], D, st, lambda s, r: judge(s, r, v))


def rseq(name='data', n=None):
    b = ('sb', ('bytes', (name,)), None)
    return ('rseq', b, 0, T.sym(('len', name), 0, 253) if n is None else n), b


def c04(P, R):
    R.rule('For each request parser the path classes over an arbitrary byte string of at most 253 bytes are derived; on each one the outcome (accepted fields, IllegalDataValue, malformed) is compared with the protocol, by normal forms where both agree symbolically and by witness search otherwise.')
    m = need(P)
    idv = enum_value(P, 'IllegalDataValue')
    for n in REQ:
        cls, _ = m[n]
        f = one(P, cls, 'parse', 1)
        where_ = where(P, cls, 'parse')
        stats = [0, 0]

        def judge(s, v, D):
            R.count('paths')
            if s.imp:
                R.undec('%s parse: %s' % (n, sorted(s.imp)))
                return
            bad = None
            tried = 0
            for mm in models(s, R.seed, 8):
                try:
                    b = mm.value(D)
                    got = outcome(P, mm, s, v, n)
                except NoVal:
                    continue
                tried += 1
                k, want = spec_parse_req(n, b)
                if k == 'ok':
                    good = got == ('ok', want)
                elif k == 'idv':
                    good = got == ('modbus', idv)
                elif k == 'bad':
                    good = got == ('exc', MALREQ)
                else:
                    good = got in (('modbus', idv), ('exc', MALREQ))
                if not good:
                    bad = (b, got, k, want)
                    break
            if bad:
                b, got, k, want = bad
                exp = {'ok': 'accepted as %s' % short(want), 'idv': 'rejected with IllegalDataValue', 'bad': 'rejected as malformed', 'rej': 'rejected'}[k]
                R.violate('C04:%s:%s' % (n, k), where_, '%s: bytes %s (length %d) give %s, should be %s' % (cls, b[:16], len(b), short(got), exp))
            elif tried:
                R.ok()
                stats[0] += 1
            else:
                R.undec('%s parse: no witness for a path class' % n)

        D, base = rseq()
        ok = run_parser(P, R, f, lambda st: [('lv', putv(st, D), ())], D, St(), lambda s, v: judge(s, v, D))
        if not ok:
            for k in lens(n):
                D2, _ = rseq(n=k)
                run_parser(P, R, f, lambda st: [('lv', putv(st, D2), ())], D2, St(), lambda s, v: judge(s, v, D2))
            if REQ[n][1] in ('coils', 'regs'):
                for q in QTY:
                    if q <= REQ[n][2]:
                        k = (q + 7) // 8 if REQ[n][1] == 'coils' else 2 * q
                        run_concrete(P, R, f, [REQ[n][0], None, None, q >> 8, q & 255, k] + [None] * k, judge)
            R.undec('%s parse: lengths %s and quantities %s only' % (n, lens(n), QTY))


def putv(st, v, root=('dataarg',)):
    st.mem[root] = v
    return root


def enum_value(P, name):
    e = P.enums.get(NS + 'ExceptionType')
    if e is None:
        raise Broken('ExceptionType not found')
    for k, v in e['v']:
        if k == name:
            return int(v)
    raise Broken('ExceptionType::%s not found' % name)


# ------------------------------------------------------------------------- C05
CODES = {1: 'IllegalFunction', 2: 'IllegalDataAddress', 3: 'IllegalDataValue', 4: 'ServerDeviceFailure', 5: 'Acknowledge', 6: 'ServerDeviceBusy', 8: 'MemoryParityError', 10: 'GatewayPathUnavailable', 11: 'GatewayTargetDeviceFailedToRespond'}


def spec_parse_rsp(P, n, req, b):
    fc, k, lim = RSP[n]
    if len(b) < 1 or b[0] & 127 != fc:
        return 'bad', None
    if b[0] & 128:
        if len(b) != 2:
            return 'bad', None
        return 'exc', enum_value(P, CODES.get(b[1], 'Unknown'))
    if k in ('coil', 'reg', 'echo'):
        if len(b) != 5:
            return 'bad', None
        a, v = b[1] * 256 + b[2], b[3] * 256 + b[4]
        if k == 'coil':
            if v not in (0, 0xFF00):
                return 'bad', None
            return 'ok', {'address': a, 'value': int(v != 0)}
        if k == 'reg':
            return 'ok', {'address': a, 'value': v}
        return 'ok', {'starting_address': a, 'qty': v}
    q = req['qty_of_bits'] if 'qty_of_bits' in req else req['qty_of_registers']
    nb = (q + 7) // 8 if k == 'bits' else 2 * q
    if len(b) < 2 or len(b) - 2 != b[1] or b[1] != nb:
        return 'bad', None
    d = b[2:]
    a = req['starting_address']
    if k == 'bits':
        return 'ok', {'values': [{'address': (a + i) & 65535, 'value': d[i // 8] >> (i % 8) & 1} for i in range(q)]}
    return 'ok', {'values': [{'address': (a + i) & 65535, 'value': d[2 * i] * 256 + d[2 * i + 1]} for i in range(q)]}


def c05(P, R):
    R.rule('For each response parser the path classes over an arbitrary request within the limits and an arbitrary byte string are derived and every outcome (typed values with addresses counted from the requested start, ModbusException with the mapped code, malformed) is compared with the protocol.')
    m = need(P)
    # first with some fixed quantities for every class, then for all of them
    for n, first in [(n, True) for n in RSP] + [(n, False) for n in RSP]:
        if first and RSP[n][1] not in ('bits', 'words'):
            continue
        if not first and any(':%s:' % n in v[0] for v in R.viol):
            continue
        cls, _ = m[n]
        rq = n.replace('Response', 'Request')
        rcls, rctor = m[rq]
        f = one(P, cls, 'parse', 2)
        where_ = where(P, cls, 'parse')
        reqv = ('srec', NS + rq, ('msg',))

        def judge(s, v, D, reqv=reqv):
            R.count('paths')
            if s.imp:
                R.undec('%s parse: %s' % (n, sorted(s.imp)))
                return
            bad = None
            tried = 0
            for mm in models(s, R.seed, 8):
                try:
                    b = mm.value(D)
                    got = outcome(P, mm, s, v, n)
                    rv = mm.value(reqv)
                except NoVal:
                    continue
                tried += 1
                k, want = spec_parse_rsp(P, n, rv, b)
                if k == 'ok':
                    good = got == ('ok', want)
                elif k == 'exc':
                    good = got == ('modbus', want)
                else:
                    good = got == ('exc', MALRSP)
                if not good:
                    bad = (b, got, k, want, rv)
                    break
            if bad:
                b, got, k, want, rv = bad
                exp = {'ok': 'accepted as %s' % short(want), 'exc': 'a ModbusException with code %s' % want, 'bad': 'rejected as malformed'}[k]
                R.violate('C05:%s:%s' % (n, k), where_, '%s: bytes %s (length %d) for request %s give %s, should be %s' % (cls, b[:12], len(b), short(rv), short(got), exp))
            elif tried:
                R.ok()
            else:
                R.undec('%s parse: no witness for a path class' % n)

        def go(D, st, q=None, D2=None):
            limits(P, rq, st)
            I = Interp(P, budget=3000000, seconds=SECONDS)
            complete = True
            rv = reqv
            if q is not None:
                fv = sym_fields(P, NS + rq)
                rv = ('rec', NS + rq, tuple((x, q if x.startswith('qty') else y) for x, y in fv.items()))
            try:
                for s, o in build_object(P, I, st, rcls, rctor, rv):
                    for s2, v in I.call(s, f, None, [o, ('lv', putv(s, D), ())], {}):
                        judge(s2, v, D2 or D, rv)
            except Stuck:
                complete = False
            R.used(I)
            return complete and not I.ncut and not I.cuts
        def fixed(q):
            if RSP[n][1] in ('bits', 'words') and q <= RSP[n][2]:
                k = (q + 7) // 8 if RSP[n][1] == 'bits' else 2 * q
                st = St()
                D2, v = fixed_bytes(st, [RSP[n][0], k] + [None] * k)
                go(D2, st, q, v)

        if first:
            for q in (3, 9):
                fixed(q)
            continue
        D, base = rseq()
        if not go(D, St()):
            for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12):
                D2, _ = rseq(n=k)
                go(D2, St())
            for q in QTY:
                fixed(q)
            R.undec('%s parse: short lengths and quantities %s only' % (n, QTY))


# ------------------------------------------------------------------------- C07
def c07(P, R):
    R.rule('The transfer functions of parse_exception_type and of the exception encoder are derived for all byte values and compared with the protocol\'s code table; encode-then-decode is the identity on every named exception and no other code maps to a named exception.')
    fs = [f for f in P.functions.values() if f['fn']['n'] == 'parse_exception_type']
    if not fs:
        raise Broken('parse_exception_type not found')
    f = fs[0]
    where_ = '%s:%s (parse_exception_type)' % (f['file'].split('/repo/')[-1], f['line'])
    I = Interp(P)
    e = P.enums[NS + 'ExceptionType']
    names = {int(v): k for k, v in e['v']}
    vals = {k: int(v) for k, v in e['v']}
    where_e = 'lib/include/modbus/messages/ExceptionType.h (ExceptionType)'
    for code, nm in CODES.items():
        if nm not in vals:
            raise Broken('ExceptionType::%s not found' % nm)
        if vals[nm] == code:
            R.ok()
        else:
            R.violate('C07:encode:%s' % nm, where_e, 'ExceptionType::%s is sent as code 0x%02X, the protocol code is 0x%02X' % (nm, vals[nm] & 255, code))
    b = T.sym(('byte',), 0, 255)
    st = St()
    for s, v in I.call(st, f, None, [b], {}):
        R.count('paths')
        bad = None
        n = 0
        for code in range(256):
            G = s.facts.copy()
            if not G.add(T.eq(T.sub(b, code))):
                continue
            n += 1
            got = v
            if isinstance(v, T.Lin):
                from sa.subst import subst
                got = subst(v, {b.t[0][0]: code})
            want = vals[CODES.get(code, 'Unknown')]
            if s.exc is not None or (isinstance(got, int) and got != want):
                bad = (code, names.get(got, got), CODES.get(code, 'Unknown'))
                R.violate('C07:decode:%02x' % code, where_, 'exception code 0x%02X is decoded as %s instead of %s' % bad)
            elif not isinstance(got, int):
                R.undec('code %d' % code)
            else:
                R.ok()
    if vals.get('Unknown') in CODES:
        R.violate('C07:unknown', where_e, 'ExceptionType::Unknown has the wire value of %s' % CODES[vals['Unknown']])
    R.used(I)
    exc_response(P, R)


# ------------------------------------------------------------------------- C06
def c06(P, R):
    R.rule('In every decoder (message parsers, frame parser) each value that reaches a decision, an output field or a delivered frame comes from bytes of the received input: a read that can fail leaves the destination tainted "not received", and no tainted value may be used; every element access is within the received length.')
    m = need(P)
    targets = []
    for n in REQ:
        cls, _ = m[n]
        targets.append((one(P, cls, 'parse', 1), cls, None))
    for n in RSP:
        cls, _ = m[n]
        targets.append((one(P, cls, 'parse', 2), cls, n.replace('Response', 'Request')))
    for f, cls, rq in targets:
        st = St()
        D, base = rseq()
        I = Interp(P, budget=3000000, seconds=SECONDS)
        where_ = where(P, cls, 'parse')
        try:
            if rq is None:
                res = I.call(st, f, None, [('lv', putv(st, D), ())], {})
            else:
                limits(P, rq, st)
                rcls, rctor = m[rq]
                res = []
                for s, o in build_object(P, I, st, rcls, rctor, ('srec', NS + rq, ('msg',))):
                    res += I.call(s, f, None, [o, ('lv', putv(s, D), ())], {})
        except Stuck:
            R.undec(cls)
            continue
        for s, v in res:
            R.count('paths')
            bad = unread(s, v, base, D[3])
            if bad and not s.imp:
                ms = models(s, R.seed, 3)
                if ms:
                    b = ms[0].value(D)
                    R.violate('C06:%s' % cls, where_, '%s uses %s on a message of %d bytes' % (cls, bad, len(b)), {'bytes': b[:16]})
                    continue
            if s.imp:
                R.undec(cls + ' ' + str(sorted(s.imp)))
            else:
                R.ok()
        R.used(I)


def unread(s, v, base, n):
    """an uninitialised value or an element outside the received bytes that the path uses"""
    found = []

    def walk(x, depth=0):
        if found or depth > 60:
            return
        if isinstance(x, T.Lin):
            for i, _ in x.t:
                a = T.ATOMS[i]
                if a[0] == 'el' and a[1] == base:
                    if T.max_free(a[2]) if hasattr(T, 'max_free') else False:
                        continue
                    if Q.max_bv(a[2]) == 0 and not s.facts.entails_ge(T.sub(T.sub(n, 1), a[2])):
                        found.append('byte %s which was not received' % T.show(a[2]))
                        return
                elif a[0] == 's' and isinstance(a[1], tuple) and a[1] and a[1][0] == 'uninit':
                    found.append('the uninitialised value of %s' % (a[1][1],))
                    return
                walk(a, depth + 1)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, (T.Lin, tuple)):
                    walk(y, depth + 1)
    for c in s.facts.cs:
        walk(c)
    walk(v)
    return found[0] if found else None


# ------------------------------------------------------------------------- C08
def c08(P, R):
    R.rule('For each request class is_valid() is true exactly on requests within the protocol limits (for all quantities / list sizes).')
    m = need(P)
    for n in REQ:
        cls, ctor = m[n]
        ent = REQ[n]
        st = St()
        msg = ('srec', NS + n, ('msg',))
        fv = sym_fields(P, NS + n)
        q = None
        if ent[2] is not None:
            q = [v for x, v in fv.items() if x.startswith('qty')][0] if ent[1] == 'read' else Q.seqlen(fv['values'])
        I = Interp(P)
        where_ = where(P, cls, 'is_valid')
        for s, o in build_object(P, I, st, cls, ctor, msg):
            for s1, v in I.call(s, one(P, cls, 'is_valid', 0), o, [], {}):
                if s1.imp:
                    R.undec(n)
                    continue
                for s2, t in I.branch(s1, I.cond(s1, v)):
                    R.count('paths')
                    if q is None:
                        if t:
                            R.ok()
                        else:
                            R.violate('C08:%s' % n, where_, '%s::is_valid rejects a legal request' % cls)
                        continue
                    inside = T.andc(T.ge(T.sub(q, 1)), T.ge(T.sub(ent[2], q)))
                    d = s2.facts.decide(inside)
                    if d is t:
                        R.ok()
                        continue
                    bad = None
                    for s3, u in I.branch(s2.copy(), inside):
                        if u != t:
                            ms = models(s3, R.seed, 3, also=(('ge', q),))
                            if ms:
                                bad = ms[0].num(q)
                    if bad is not None:
                        R.violate('C08:%s' % n, where_, '%s::is_valid is %s for quantity %d (limits 1..%d)' % (cls, 'true' if t else 'false', bad, ent[2]))
                    else:
                        R.undec(n)
        R.used(I)


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08}
