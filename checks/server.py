"""C20, C21, C24: the server channel - dispatch of requests, answers, sessions"""
from sa import seqs as Q
from sa import terms as T
from sa import lib
from sa.interp import Interp, St, LV, NULL
from sa.report import Broken
from sa.seqs import init_sym, strip_ref, fields_of, ty
from sa.world import World, O
from sa.world import Q as QUEUE
from checks import codec, values
from checks.client import NS, PDULEN, concrete, method, loc_of, make, ident, num
from checks.codec import REQ, RSP, impls, one, enum_value

CH = ('chan',)
EXC = NS + 'ExceptionResponse'
ANSWER = {a: b for a, b in zip(REQ, RSP)}


def record_type(P, t):
    """class named in the first template argument"""
    ti = ty(strip_ref(t))
    for a in ti.get('ta') or ():
        if isinstance(a, int) and ty(a).get('c'):
            return ty(a)['c']
    return None


class Server:
    def __init__(self, P, R, nadd=2, nmsg=2):
        self.P, self.R, self.nadd, self.nmsg = P, R, nadd, nmsg
        self.cls = concrete(P, 'IServerChannel', ['start', 'shutdown', 'add_session', 'on_mbap'])[0]
        self.m = {n: method(P, self.cls, n) for n in ('start', 'shutdown', 'add_session', 'on_mbap')}
        self.I = Interp(P, maxvisits=8, generalise=False, hooks={'on_request': self.h_request})
        self.impl = impls(P)
        self.illegal = enum_value(P, 'IllegalFunction')
        seen = set()
        for n in list(REQ) + list(RSP) + [None]:
            cls = self.impl[n][0] if n else EXC
            if n in REQ:
                f = one(P, cls, 'parse', 1)
                self.I.opaque[f['fn']['u']] = lambda I, st, fn, o, a, e, n=n: self.o_parse(I, st, fn, o, a, e, n)
                continue
            f = one(P, cls, 'build_message', 1)
            self.I.opaque[f['fn']['u']] = lambda I, st, fn, o, a, e, n=n: self.o_build(I, st, fn, o, a, e, n)
            f = one(P, cls, 'get_message_length', 0)
            self.I.opaque[f['fn']['u']] = lambda I, st, fn, o, a, e: [(st, PDULEN)]

    # ------------------------------------------------------ environment model
    def exception(self, st, key):
        """a ModbusException with an arbitrary exception type"""
        fs = []
        for n, t in fields_of(NS + 'ModbusException'):
            ti = ty(strip_ref(t))
            fs.append((n, T.sym(('exception', key), 0, 255) if ti['k'] == 'enum' else init_sym(t, ('exc', n, key))))
        return ('rec', NS + 'ModbusException', tuple(fs))

    def o_parse(self, I, st, fn, o, args, e, n):
        k = st.fresh()
        st.emit('parse', n, I.snap(st, args[0]), k, I.loc(e))
        b, c = st.copy(), st.copy()
        b.emit('parsed', 'modbus')
        c.emit('parsed', 'malformed')
        st.emit('parsed', 'ok')
        return [(st, ('exp', 1, ('srec', NS + n, ('parsed', k)))), (b, ('exp', 0, self.exception(b, k))),
                (c, ('exp', 0, ('srec', NS + 'MalformedModbusRequestException', ('bad', k))))]

    def h_request(self, I, st, fn, o, args, e):
        k = st.fresh()
        c = record_type(I.P, fn['rt'])
        b, d = st.copy(), st.copy()
        b.emit('answered', 'modbus', k)
        d.emit('answered', 'other', k)
        st.emit('answered', 'ok', k)
        return [(st, ('exp', 1, ('srec', c, ('answer', k)))), (b, ('exp', 0, self.exception(b, k))),
                (d, ('exp', 0, ('srec', NS + 'TimeoutException', ('other', k))))]

    def o_build(self, I, st, fn, o, args, e, n):
        k = st.fresh()
        st.emit('built', n, lib.snapshot(I, st, I.load(st, o)), k, I.loc(e))
        seg = ('seq', (('sl', ('sb', ('pdu', k), None), 0, PDULEN),))
        w = args[0]
        v = st.mem.get(w[1]) if isinstance(w, tuple) and w[0] == 'lv' and not w[2] else None
        b = st.mem.get(v[1][1]) if isinstance(v, tuple) and v[0] == 'wseq' else None
        if b is None or b[0] != 'seq' or v[1][2]:
            st.imprecise('message buffer')
            return [(st, None)]
        a, c = Q.seq_slice(b, 0, v[2], st.facts), Q.seq_slice(b, T.add(v[2], PDULEN), T.sub(Q.seqlen(b), T.add(v[2], PDULEN)), st.facts)
        if a is None or c is None:
            st.imprecise('message buffer')
        else:
            st.mem[v[1][1]] = Q.norm(('seq', a[1] + seg[1] + c[1]))
        st.mem[w[1]] = ('wseq', v[1], T.add(v[2], PDULEN), T.sub(v[3], PDULEN))
        return [(st, None)]

    def init(self):
        st = St()
        # registered: (request of the session, was it added before shutdown), phase, starts
        st.mem[O] = ('obs', (), 0, 0, 0, 0, ())
        f, rs = make(self.P, self.I, st, self.cls, CH)
        self.ctor = f
        out = []
        for s, _ in rs:
            if s.exc is not None:
                raise Broken('constructor of %s fails' % self.cls)
            s.ev = ()
            out.append(s)
        return out

    def session(self, x, k):
        for p in self.m['add_session']['params']:
            ti = ty(strip_ref(p['t']))
            if ti.get('tn') in Q.PTRS:
                n = ('session', k)
                x.facts.preds[('null', n)] = False
                return ('sptr', n, ti['ta'][0])
        raise Broken('add_session')

    def actions(self, w, s):
        I, P = self.I, self.P
        o = s.mem[O]
        out = []
        if len(o[1]) < self.nadd:
            k = len(o[1])

            def add(x, k=k):
                a = []
                for p in self.m['add_session']['params']:
                    ti = ty(strip_ref(p['t']))
                    a.append(I.temp(x, ident(P, 'UnitIdentifier', T.sym(('unit', k), 0, 255)) if ti.get('c') == NS + 'UnitIdentifier' else self.session(x, k)))
                r = I.call(x, self.m['add_session'], LV(CH), a, {})
                for y, _ in r:
                    y.dead = y.dead | {v[1] for v in a}
                return r
            out.append(('add_session #%d' % k, add))
        if o[3] < 1:
            out.append(('start', lambda x: I.call(x, self.m['start'], LV(CH), [], {})))
        if o[2] == 0:
            out.append(('shutdown', lambda x: I.call(x, self.m['shutdown'], LV(CH), [], {})))
        out += w.run_posted(s)

        def message(x):
            # every message has names of its own, so that what an earlier one
            # left behind is never taken for the present one's
            i = self.i = x.fresh()
            fs = []
            for n, t in fields_of(NS + 'MbapMessage'):
                c = ty(strip_ref(t)).get('c')
                v = ident(P, 'UnitIdentifier', T.sym(('msg unit', self.i), 0, 255)) if c == NS + 'UnitIdentifier' else \
                    ident(P, 'TransactionIdentifier', T.sym(('msg tx', self.i), 0, 65535)) if c == NS + 'TransactionIdentifier' else init_sym(t, ('msg data', self.i))
                fs.append((n, v))
            a = []
            for p in self.m['on_mbap']['params']:
                ti = ty(strip_ref(p['t']))
                if ti.get('c') == NS + 'MbapMessage':
                    a.append(I.temp(x, ('rec', NS + 'MbapMessage', tuple(fs))))
                else:
                    root = ('sym', ('connection', i), strip_ref(p['t']))
                    x.mem[root] = ('srec', ti.get('c'), ('connection', i))
                    a.append(LV(root))
            return I.call(x, self.m['on_mbap'], LV(CH), a, {})
        if len(retained(s)) < 2:
            out.append(('message received', message))
        return out

    # -------------------------------------------------------------- observers
    def observe(self, w, label, pre, s):
        o = s.mem[O]
        regs, phase, starts, started, stopped, ends = list(o[1]), o[2], o[3], o[4], o[5], list(o[6])
        done = phase == 1 and not pre.mem.get(QUEUE)      # shutdown is complete
        if label.startswith('add_session'):
            regs.append(phase == 0)
            ends.append(0)
        elif label == 'start':
            starts += 1
        elif label == 'shutdown':
            phase = 1
        sl = loc_of(self.m['shutdown'])
        for e in s.ev:
            if e[0] == 'vcall' and e[1] == 'start' and self.server(e[2]):
                started += 1
                if done:
                    w.flag(s, ('C24', 'start-after-shutdown'), 'the server is started although the channel was shut down', e[4])
            elif e[0] == 'vcall' and e[1] == 'shutdown' and self.server(e[2]):
                stopped += 1
            elif e[0] == 'vcall' and e[1] == 'shutdown' and isinstance(e[2], tuple) and e[2][0] == 'session':
                ends[e[2][1]] += 1
                if ends[e[2][1]] > 1:
                    w.flag(s, ('C24', 'session-shutdown-twice'), 'a session is shut down twice', e[4])
                if phase == 0:
                    # replaced sessions may be shut down; others not
                    if not any(j > e[2][1] for j in range(len(regs))):
                        w.flag(s, ('C24', 'session-shutdown-early'), 'a session is shut down while the channel is in use', e[4])
        if label == 'message received':
            self.received(w, pre, s, regs, phase, done)
        elif any(e[0] == 'vcall' and (e[1] == 'on_request' or e[1] == 'send') for e in s.ev):
            w.flag(s, ('C20', 'unprompted'), 'a request is dispatched or a response is sent without a message', loc_of(self.m['on_mbap']))
        q = list(pre.mem.get(QUEUE, ()))
        if label == 'run posted handler':
            q = q[1:]
        q += [e for e in s.ev if e[0] == 'post']
        if not q:
            if phase == 1:
                for k, r in enumerate(regs):
                    if r and not ends[k] and self.current(s, regs, k):
                        w.flag(s, ('C24', 'session-not-shut-down'), 'session #%d is not shut down with the channel' % k, sl)
                if started and not stopped:
                    w.flag(s, ('C24', 'server-not-shut-down'), 'the server is not shut down with the channel', sl)
            elif starts and not started:
                w.flag(s, ('C24', 'not-started'), 'start does not start the server', loc_of(self.m['start']))
        s.mem[O] = ('obs', tuple(regs), phase, starts, min(started, 2), min(stopped, 2), tuple(ends))
        return [s]

    def server(self, nm):
        return isinstance(nm, tuple) and nm[0] == 'arg' and isinstance(nm[1], str) and nm[1].endswith('IServer')

    def unit(self, k):
        return T.sym(('unit', k), 0, 255)

    def current(self, s, regs, k):
        """is session #k certainly the one registered for its unit?"""
        return all(s.facts.decide(T.eq(T.sub(self.unit(j), self.unit(k)))) is False for j in range(len(regs)) if j > k and regs[j])

    def target(self, s, regs):
        """('session', k) / ('none',) / None (not decided on this path)"""
        u = T.sym(('msg unit', self.i), 0, 255)
        for k in reversed(range(len(regs))):
            if not regs[k]:
                continue
            d = s.facts.decide(T.eq(T.sub(u, self.unit(k))))
            if d is None:
                return None
            if d:
                return ('session', k)
        return ('none',)

    def received(self, w, pre, s, regs, phase, done):
        ev = s.ev
        on = loc_of(self.m['on_mbap'])
        req = [e for e in ev if e[0] == 'vcall' and e[1] == 'on_request']
        snd = [e for e in ev if e[0] == 'vcall' and e[1] == 'send']
        parse = [e for e in ev if e[0] == 'parse']
        if done:
            if req or snd:
                w.flag(s, ('C24', 'message-after-shutdown'), 'a message is answered or dispatched although the channel was shut down', (req + snd)[0][4])
            return
        if len(snd) > 1:
            w.flag(s, ('C20', 'two-responses'), 'one message is answered twice', snd[1][4])
        if len(req) > 1:
            w.flag(s, ('C20', 'dispatched-twice'), 'one message is dispatched twice', req[1][4])
        quiet = not pre.mem.get(QUEUE)
        tgt = self.target(s, regs)
        D = init_sym(next(t for n, t in fields_of(NS + 'MbapMessage') if ty(strip_ref(t)).get('c') not in (NS + 'UnitIdentifier', NS + 'TransactionIdentifier')), ('msg data', self.i))
        for e in req:
            k = e[2][1] if isinstance(e[2], tuple) and e[2][0] == 'session' else None
            if k is None:
                w.flag(s, ('C20', 'foreign-session'), 'a request is dispatched to an object that was not registered', e[4])
                return
            if s.facts.decide(T.eq(T.sub(T.sym(('msg unit', self.i), 0, 255), self.unit(k)))) is False:
                w.flag(s, ('C20', 'wrong-unit'), 'a request is dispatched to the session of another unit', e[4])
                return
        for e in snd:
            if e[2] != ('connection', self.i):
                w.flag(s, ('C20', 'wrong-connection'), 'the response is not sent on the connection the request came from', e[4])
        if not quiet or phase:
            return
        if tgt is None:
            if req:
                w.undec.add('registered session not decided')
            return
        if tgt[0] == 'none':
            if req or snd:
                w.flag(s, ('C20', 'unknown-unit'), 'a message for a unit without session is dispatched or answered', (req + snd)[0][4])
            return
        for e in req:
            if e[2] != tgt:
                w.flag(s, ('C24', 'not-replaced'), 'a request is dispatched to a session that was replaced by a later add_session for the same unit', e[4])
                return
        # the function code
        n = D[3] if isinstance(D, tuple) and D[0] == 'rseq' else None
        if n is None:
            w.undec.add('message data')
            return
        empty = s.facts.decide(T.ge(T.sub(n, 1)))
        if empty is False:
            if req or snd:
                w.flag(s, ('C20', 'empty'), 'a message without function code is dispatched or answered', (req + snd)[0][4])
            return
        fc = first_byte(self.I, s, D)
        if fc is None:
            w.undec.add('function code')
            return
        hit = None
        for nme, ent in REQ.items():
            d = s.facts.decide(T.eq(T.sub(fc, ent[0])))
            if d is True:
                hit = nme
            elif d is None and empty is not False:
                hit = hit or '?'
        if hit == '?':
            if snd or req:
                w.undec.add('function code not decided')
                return
            # nothing happened: would any function code have required something?
            f = s.facts.copy()
            f.add(T.ge(T.sub(n, 1)))
            f.add(T.eq(T.sub(fc, 0x63)))
            if T.feasible(f.cs):
                w.flag(s, ('C21', 'unsupported-silent'), 'an unsupported function code is not answered', on)
            else:
                w.undec.add('function code not decided')
            return
        if hit is None:
            if req:
                w.flag(s, ('C20', 'unsupported-dispatched'), 'a request with an unsupported function code is dispatched', req[0][4])
            elif not snd:
                w.flag(s, ('C21', 'unsupported-silent'), 'an unsupported function code is not answered', on)
            else:
                self.answer(w, s, snd[0], None, fc, self.illegal)
            return
        what = 'function code 0x%02x' % REQ[hit][0]
        if not parse:
            w.flag(s, ('C20', 'not-parsed'), '%s: the request is not parsed' % what, on)
            return
        if len(parse) > 1:
            w.undec.add('parsed more than once')
            return
        p = parse[0]
        if p[1] != hit:
            w.flag(s, ('C20', 'wrong-parser'), '%s is parsed as %s' % (what, p[1]), p[4])
            return
        b = p[2]
        if not same_bytes(self.I, s, b, D):
            w.flag(s, ('C20', 'other-bytes'), '%s: other bytes than those of the message are parsed' % what, p[4])
        res = next((e[1] for e in ev if e[0] == 'parsed'), None)
        if res != 'ok':
            if req:
                w.flag(s, ('C20', 'invalid-dispatched'), '%s: a request that was rejected is dispatched' % what, req[0][4])
            elif res == 'modbus':
                if not snd:
                    w.flag(s, ('C21', 'rejected-silent'), '%s: a request rejected with an exception code is not answered' % what, on)
                else:
                    self.answer(w, s, snd[0], None, fc, T.sym(('exception', p[3]), 0, 255))
            elif snd:
                built = [e for e in ev if e[0] == 'built']
                if built and built[-1][1] is not None:
                    w.flag(s, ('C21', 'malformed-answered'), '%s: a malformed request gets a normal response' % what, snd[0][4])
            return
        if not req:
            w.flag(s, ('C20', 'not-dispatched'), '%s: the request is not dispatched to the session' % what, on)
            return
        v = req[0][3][0] if req[0][3] else None
        if not (isinstance(v, tuple) and v[1] == NS + hit and snap_of(v) == ('parsed', p[3])):
            w.flag(s, ('C20', 'other-request'), '%s: the session is not given the request that was parsed' % what, req[0][4])
        a = next((e for e in ev if e[0] == 'answered'), None)
        if a[1] == 'ok':
            if not snd:
                w.flag(s, ('C20', 'no-response'), '%s: the answer of the session is not sent' % what, on)
            else:
                self.answer(w, s, snd[0], hit, ('answer', a[2]), None)
        elif a[1] == 'modbus':
            if not snd:
                w.flag(s, ('C21', 'exception-silent'), '%s: a ModbusException of the session is not answered' % what, on)
            else:
                self.answer(w, s, snd[0], None, fc, T.sym(('exception', a[2]), 0, 255))
        elif snd:
            built = [e for e in ev if e[0] == 'built']
            if built and built[-1][1] is not None:
                w.flag(s, ('C21', 'failure-answered'), '%s: a failed request gets a normal response' % what, snd[0][4])

    def answer(self, w, s, e, req, x, code):
        """the bytes sent are the frame of the expected response"""
        b = e[3][0] if e[3] else None
        if not (isinstance(b, tuple) and b[0] == 'bytes' and isinstance(b[1], tuple) and b[1][0] == 'seq'):
            w.undec.add('bytes given to the connection are not understood')
            return
        pdu = None
        for g in b[1][1]:
            if g[0] == 'sl' and isinstance(g[1], tuple) and g[1][0] == 'sb' and isinstance(g[1][1], tuple) and g[1][1][0] == 'pdu':
                pdu = g
        built = [z for z in s.ev if z[0] == 'built']
        rule = 'C20' if req else 'C21'
        bt = next((z for z in built if pdu is not None and z[3] == pdu[1][1][1]), None)
        if bt is None:
            w.flag(s, (rule, 'foreign-bytes'), 'the bytes given to the connection do not hold a response', e[4])
            return
        h = [Q.seq_get(b[1], i, s.facts) for i in range(7)]
        if any(not T.is_int(z) for z in h):
            w.undec.add('frame header is not understood')
            return
        if s.facts.decide(T.eq(T.sub(T.add(T.mulc(h[0], 256), h[1]), T.sym(('msg tx', self.i), 0, 65535)))) is not True:
            w.flag(s, ('C20', 'transaction'), 'the response does not carry the transaction identifier of the request', e[4])
        if s.facts.decide(T.eq(T.sub(h[6], T.sym(('msg unit', self.i), 0, 255)))) is not True:
            w.flag(s, ('C20', 'unit'), 'the response does not carry the unit identifier of the request', e[4])
        if T.sub(Q.seqlen(b[1]), T.add(PDULEN, 7)) != 0 or s.facts.decide(T.eq(T.sub(T.add(T.mulc(h[4], 256), h[5]), T.add(PDULEN, 1)))) is not True or h[2] != 0 or h[3] != 0:
            w.flag(s, (rule, 'frame'), 'the response is not framed as its header says', e[4])
        obj = bt[2]
        if req:
            if bt[1] != ANSWER[req]:
                w.flag(s, ('C20', 'wrong-response'), '%s is answered with a %s' % (req, bt[1] or 'exception response'), e[4])
                return
            if not holds(obj, NS + ANSWER[req], x):
                w.flag(s, ('C20', 'other-response'), '%s: the response sent is not the one the session returned' % req, e[4])
            return
        if bt[1] is not None:
            w.flag(s, ('C21', 'normal-response'), 'a failure is answered with a normal response', e[4])
            return
        fc = ex = None
        if isinstance(obj, tuple) and obj[0] == 'rec':
            for n, v in obj[2]:
                t = next((t for m, t in fields_of(EXC) if m == n), None)
                if t is not None and ty(strip_ref(t))['k'] == 'enum':
                    ex = v
                elif t is not None and ty(strip_ref(t))['k'] == 'int':
                    fc = v
        if not (T.is_int(fc) and T.is_int(ex)):
            w.undec.add('exception response is not understood')
            return
        d = s.facts.decide(T.eq(T.sub(fc, x)))
        if d is not True:
            # 0x80 may have been added already
            w.flag(s, ('C21', 'function-code'), 'the exception response does not carry the function code of the request', e[4])
        if s.facts.decide(T.eq(T.sub(ex, code))) is not True:
            w.flag(s, ('C21', 'exception-code'), 'the exception response does not carry the exception code %s' % ('of the failure' if not isinstance(code, int) else 'IllegalFunction'), e[4])


def first_byte(I, s, D):
    """first byte of a sequence"""
    c = lib.content(I, s.copy(), D)
    x = Q.seq_get(c, 0, s.facts) if c is not None else None
    return x if T.is_int(x) else None


def snap_of(v):
    return v[2] if v[0] == 'srec' else None


def holds(obj, cls, name):
    """does a snapshot hold the symbolic record (cls, name)?"""
    if isinstance(obj, tuple):
        if obj[:1] == ('srec',) and obj[1] == cls and obj[2] == name:
            return True
        return any(holds(x, cls, name) for x in obj)
    return False


def same_bytes(I, s, snap, D):
    x = s.copy()
    return snap == lib.snapshot(I, x, D)


def retained(s):
    """the messages something of which is still stored"""
    seen, got = set(), set()

    def walk(x):
        if isinstance(x, T.Lin):
            for i, _ in x.t:
                walk(T.ATOMS[i])
        elif isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], str) and (x[0].startswith('msg ') or x[0] == 'connection'):
                got.add(x[1])
                return
            if id(x) in seen:
                return
            seen.add(id(x))
            for y in x:
                walk(y)
    for k, v in s.mem.items():
        walk(v)
    return got


def run_server(P, R, nadd):
    S = Server(P, R, nadd)
    w = World(S.I, R, [CH], S.actions, S.observe, limit=6000)
    w.explore(S.init())
    R.used(S.I)
    return w


def check(prop, text):
    def f(P, R):
        R.rule(text)
        w = run_server(P, R, 2 if R.tier == 'quick' else 3)
        w.report(prop)
        if w.nact:
            R.ok(sum(w.nact.values()))
        if prop == 'C21':
            codec.exc_response(P, R)
        else:
            R.part(values.units, P)
    return f


CHECKS = {
    'C20': check('C20', 'typestate over the server channel under every order of calls, messages and posted handlers: a request for a '
                 'registered unit is parsed by the class of its function code, handed exactly once to the session of that unit, and the '
                 'answer of the session is framed with the ids of the request and sent once on the connection it came from'),
    'C21': check('C21', 'same state space: an unsupported function code, a request rejected with a ModbusException and a ModbusException of '
                 'the session are each answered with an exception response of that function code and that exception code; other failures '
                 'never yield a normal response'),
    'C24': check('C24', 'same state space: the latest session of a unit is the one used, start starts the server, nothing is dispatched, sent '
                 'or started once the shutdown ran, and the shutdown reaches the started server and every current session exactly once'),
}
