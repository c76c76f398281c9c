"""C10-C15, C18: the client channel as a typestate machine (see sa/world.py)"""
from sa import seqs as Q
from sa import terms as T
from sa.interp import Interp, St, LV, NULL
from sa.report import Broken
from sa.seqs import init_sym, strip_ref, fields_of, ty
from sa import lib
from sa.subst import subst
from sa.terms import Facts
from sa.world import World, O

NS = 'modbus::'
CH = ('ch',)


def concrete(P, base, what):
    """the classes of the library deriving from an interface that define `what`"""
    out = []
    for c in P.all_derived(NS + base):
        if all(P.method(c, m) for m in what) and any(f['fn'].get('c') == c and 'inits' in f for f in P.functions.values()):
            out.append(c)
    if not out:
        raise Broken('no class implements %s' % base)
    return out


def ctors(P, cls):
    return [f for f in P.functions.values() if f['fn'].get('c') == cls and 'inits' in f and not f['fn'].get('cp') and not f['fn'].get('mv') and f['params']]


def method(P, cls, name, n=None):
    for c in P.ancestors(cls):
        r = P.method(c, name, n)
        if r:
            return r[0]
    raise Broken('%s::%s not found' % (cls, name))


def loc_of(f):
    return '%s:%s (%s)' % (f['file'].split('/repo/')[-1], f['line'], f['disp'])


def make(P, I, st, cls, root, given=None):
    """construct an object; parameters are symbolic and named after their types"""
    f = ctors(P, cls)
    if not f:
        raise Broken('no constructor of ' + cls)
    f = f[0]
    st.mem[root] = ('rec', cls, tuple((n, None) for n, _ in fields_of(cls)))
    args = []
    for p in f['params']:
        t = strip_ref(p['t'])
        s = P.types[t]['s']
        a = None
        for k, v in (given or {}).items():
            if k in s:
                a = v
        if a is None:
            a = param(P, st, t)
        args.append(a)
    return f, I.call(st, f, LV(root), args, {})


def param(P, st, t):
    """symbolic constructor argument: never null"""
    ti = P.types[t]
    if ti['k'] == 'rec' and ti.get('tn') in Q.PTRS:
        n = ('arg', P.types[ti['ta'][0]].get('c') or P.types[ti['ta'][0]]['s'])
        st.facts.preds[('null', n)] = False
        return ('sptr', n, ti['ta'][0])
    return init_sym(t, ('arg', ti.get('c') or ti['s']))


def ident(P, name, val):
    fs = fields_of(NS + name)
    if len(fs) != 1:
        return ('srec', NS + name, ('id', val))
    return ('rec', NS + name, ((fs[0][0], val),))


def num(v):
    """value of an identifier object"""
    if isinstance(v, tuple) and v[0] == 'rec' and len(v[2]) == 1:
        return v[2][0][1]
    if isinstance(v, tuple) and v[0] == 'srec':
        fs = fields_of(v[1])
        if len(fs) == 1:
            return init_sym(fs[0][1], ('fld', v[2], fs[0][0]))
    return v if T.is_int(v) else None


def find_field(P, cls, pred):
    """path of the first data member satisfying pred(type), searching nested repo classes"""
    out = []

    def walk(c, path, depth):
        for n, t in fields_of(c):
            ti = ty(strip_ref(t))
            if pred(ti):
                out.append(path + (('f', n),))
            elif ti['k'] == 'rec' and ti.get('c') in P.records and depth < 2:
                walk(ti['c'], path + (('f', n),), depth + 1)
    walk(cls, (), 0)
    return out


PDULEN = T.sym(("pdu length",), 1, 253)
NEXT = ('next id',)


def only_id(c):
    """condition about the next-identifier counter alone"""
    names = set()

    def walk(x):
        if isinstance(x, T.Lin):
            for i, _ in x.t:
                walk(T.ATOMS[i])
        elif isinstance(x, tuple):
            if x and x[0] == 's' and len(x) == 4:
                names.add(x[1])
            else:
                for z in x:
                    walk(z)
    walk(c)
    return names == {NEXT}


def at(x, n):
    """x with the counter replaced by the number n"""
    i = T.aid(('s', NEXT, 0, 65535))
    return subst(x, {i: n})


def cond_at(c, n):
    r = at(c, n)
    return r is True or (r is not False and Facts().decide(r) is not False)


def num_at(x, n):
    r = at(x, n)
    return r if isinstance(r, int) else None


class Client:
    """the most general environment of a client channel and the observers"""

    def __init__(self, P, R, K=2, nses=0):
        self.P, self.R, self.K, self.nses = P, R, K, nses
        cls = [c for c in concrete(P, 'IClientChannel', ['send_request', 'shutdown', 'on_error', 'on_mbap_message'])]
        self.cls = cls[0]
        self.steps = {}
        self.m = {n: method(P, self.cls, n) for n in ('send_request', 'shutdown', 'on_error', 'on_receive', 'on_mbap_message', 'create_session')}
        self.I = Interp(P, maxvisits=K + 4, generalise=False, hooks={
            'is_valid': self.h_valid, 'clone': self.h_clone,
            'get_message_length': lambda I, st, fn, o, a, e: [(st, PDULEN)],
            'build_message': self.h_build})
        for f in P.functions.values():
            if f['fn'].get('c') == NS + 'MbapParser' and f['fn']['n'] == 'parse':
                self.I.opaque[f['fn']['u']] = self.o_parse
            if f['fn'].get('c') == NS + 'MbapParser' and f['fn']['n'] == 'reset':
                self.I.opaque[f['fn']['u']] = self.o_reset

    # ------------------------------------------------------- environment model
    def reqno(self, I, st, o):
        v = I.load(st, o)
        n = v[2] if v[0] == 'srec' else None
        while isinstance(n, tuple) and n and n[0] == 'clone':
            n = n[1]
        return n[1] if isinstance(n, tuple) and n and n[0] == 'req' else None

    def h_valid(self, I, st, fn, o, args, e):
        k = self.reqno(I, st, o)
        if k is None:
            return None
        return [(st, T.bval(('p', ('valid', k))))]

    def h_clone(self, I, st, fn, o, args, e):
        v = I.load(st, o)
        k = self.reqno(I, st, o)
        if k is None:
            return None
        r = ('o', st.fresh())
        st.mem[r] = ('srec', v[1], ('clone', ('req', k)))
        return [(st, ('ptr', LV(r)))]

    def h_build(self, I, st, fn, o, args, e):
        k = self.reqno(I, st, o)
        seg = ('seq', (('sl', ('sb', ('pdu', k), None), 0, PDULEN),))
        w = args[0]
        v = st.mem[w[1]]
        b = st.mem.get(v[1][1]) if v[0] == 'wseq' else None
        if b is None or b[0] != 'seq' or v[1][2]:
            st.imprecise('message buffer')
            return [(st, None)]
        a, c = Q.seq_slice(b, 0, v[2], st.facts), Q.seq_slice(b, T.add(v[2], PDULEN), T.sub(Q.seqlen(b), T.add(v[2], PDULEN)), st.facts)
        if a is None or c is None:
            st.imprecise('message buffer')
        else:
            st.mem[v[1][1]] = Q.norm(('seq', a[1] + seg[1] + c[1]))
        st.mem[w[1]] = ('wseq', v[1], T.add(v[2], PDULEN), T.sub(v[3], PDULEN))
        return [(st, None)]

    def o_reset(self, I, st, fn, o, args, e):
        st.emit('parser-reset', o)
        return [(st, None)]

    def o_parse(self, I, st, fn, o, args, e):
        """the parser delivers no frame, or one frame, to its sink"""
        st.emit('parse', o, lib.snapshot(I, st, I.val(st, args[0])))
        sink = None
        v = I.load(st, o)
        if v[0] == 'rec':
            for n, x in v[2]:
                if isinstance(x, tuple) and x[0] in ('ptr', 'sptr', 'null'):
                    sink = x
        b = st.copy()
        if sink is None or sink[0] != 'ptr':
            b.imprecise('parser sink')
            return [(st, None), (b, None)]
        return [(st, None)] + [(s, None) for s, _ in self.deliver(b, sink[1])]

    def message(self, st):
        i = st.fresh()
        fs = []
        for n, t in fields_of(NS + 'MbapMessage'):
            c = ty(strip_ref(t)).get('c')
            if c == NS + 'UnitIdentifier':
                v = ident(self.P, 'UnitIdentifier', T.sym(('msg unit', i), 0, 255))
            elif c == NS + 'TransactionIdentifier':
                v = ident(self.P, 'TransactionIdentifier', T.sym(('msg tx', i), 0, 65535))
            else:
                v = init_sym(t, ('msg data', i))
            fs.append((n, v))
        st.emit('message', T.sym(('msg tx', i), 0, 65535), T.sym(('msg unit', i), 0, 255), ('msg data', i))
        return st.temp_ if False else self.I.temp(st, ('rec', NS + 'MbapMessage', tuple(fs)))

    def deliver(self, st, lv):
        m = self.message(st)
        return self.I.call(st, self.m['on_mbap_message'], lv, [m], {})

    def init(self):
        I = self.I
        st = St()
        st.mem[O] = ('obs', (), (), 0, 0, 0)
        f, rs = make(self.P, I, st, self.cls, CH)
        self.ctor = f
        out = []
        for s, _ in rs:
            if s.exc is not None:
                raise Broken('constructor of %s fails' % self.cls)
            p = find_field(self.P, self.cls, lambda t: t.get('c') == NS + 'TransactionIdentifier')
            for path in p:
                s.mem[CH] = I.upd(s, s.mem[CH], path, ident(self.P, 'TransactionIdentifier', T.sym(('next id',), 0, 65535)))
            s.ev = ()
            out.append(s)
        return out

    # observer state: ('obs', requests, sessions, shutdown phase, current, lis)
    #   requests: per submitted request (phase, tx, timer)
    def actions(self, w, s):
        I = self.I
        o = s.mem[O]
        out = []
        k = len(o[1])
        if k < self.K:
            def send(x, k=k):
                root = ('sym', ('req', k), self.reqtid)
                x.mem[root] = ('srec', NS + 'IMessage', ('req', k))
                args = self.send_args(x, k)
                r = I.call(x, self.m['send_request'], LV(CH), args, {})
                for y, _ in r:
                    y.dead = y.dead | {root}
                return r
            out.append(('send_request #%d' % k, send))
        out += w.run_posted(s)
        out += w.fire_timers(s)

        def receive(x):
            d = init_sym(strip_ref(self.m['on_receive']['params'][0]['t']), ('chunk', x.fresh()))
            return I.call(x, self.m['on_receive'], LV(CH), [I.temp(x, d)], {})
        out.append(('data received', receive))

        def error(x):
            return I.call(x, self.m['on_error'], LV(CH), [I.temp(x, ('str', ('errmsg', x.fresh())))], {})
        out.append(('connection error', error))
        if len(o[2]) < self.nses:
            def session(x):
                f = self.m['create_session']
                a = [param(self.P, x, strip_ref(p['t'])) for p in f['params']]
                r = I.call(x, f, LV(CH), [I.temp(x, v) for v in a], {})
                for y, v in r:
                    y.emit('ret', v)
                return r
            out.append(('create_session', session))
        if o[3] == 0:
            out.append(('shutdown', lambda x: I.call(x, self.m['shutdown'], LV(CH), [], {})))
        return out

    @property
    def reqtid(self):
        for p in self.m['send_request']['params']:
            t = strip_ref(p['t'])
            if ty(t).get('c') == NS + 'IMessage':
                return t
        return None

    def send_args(self, x, k):
        args = []
        for p in self.m['send_request']['params']:
            t = strip_ref(p['t'])
            ti = ty(t)
            c = ti.get('c') or ''
            if c == NS + 'IMessage':
                args.append(LV(('sym', ('req', k), self.reqtid)))
            elif c == NS + 'UnitIdentifier':
                args.append(self.I.temp(x, ident(self.P, 'UnitIdentifier', T.sym(('unit', k), 0, 255))))
            elif ti.get('tn') == 'std::function':
                args.append(('sfn', ('h', k)))
                x.facts.preds[('nullfn', ('h', k))] = False
            else:
                args.append(self.I.temp(x, init_sym(t, ('timeout', k))))
        return args

    # -------------------------------------------------------------- observers
    def opaque_sessions(self):
        P = self.P
        for c in P.all_derived(NS + 'IClientSession'):
            for f in P.method(c, 'shutdown'):
                def h(I, st, fn, o, args, e):
                    st.emit('session-shutdown', o)
                    return [(st, None)]
                self.I.opaque[f['fn']['u']] = h

    def conn(self, nm):
        return isinstance(nm, tuple) and nm[0] == 'arg' and isinstance(nm[1], str) and nm[1].endswith('ITcpConnection')

    def outcome(self, v):
        """classify the argument a response handler was given"""
        if not isinstance(v, tuple):
            return ('?',)
        if v[0] == 'exp':
            if v[1] in (1, True):
                return ('value', v[2])
            x = v[2]
            if isinstance(x, tuple) and x[0] in ('rec', 'srec'):
                return ('exc', x[1].split('::')[-1], x)
        return ('?',)

    def observe(self, w, label, pre, s):
        o = s.mem[O]
        reqs = [list(r) for r in o[1]]
        sessions, phase, lis = o[2], o[3], o[5]
        F = s.facts
        pre_done = o[3] == 2
        if label.startswith('send_request'):
            reqs.append([0, None, None])
        if label == 'shutdown':
            phase = 1
        ntimer = [t for t in pre.mem.get(('g', 'timers'), ())]
        fired = None
        stale = False
        if 'fires #' in label:
            t = ntimer[int(label.split('#')[1])]
            stale = t[3] != 'armed'
            for k, r in enumerate(reqs):
                if r[2] == t[0]:
                    fired = k
            if fired is None or reqs[fired][0] != 1:
                stale = True
        msg = None
        starts = []
        newsent = []
        sd = set()
        lastloc = '?'
        out_at = next((k for k, r in enumerate(reqs) if r[0] == 1), None)
        handled = False
        for e in s.ev:
            if e[0] == 'message':
                msg = e
                if out_at is None:
                    out_at = next((k for k, r in enumerate(reqs) if r[0] == 1), None)
            elif e[0] == 'start':
                starts.append(e)
                if pre_done:
                    w.flag(s, ('C15', 'timer-after-shutdown'), 'a timer is started although the channel was shut down', e[4])
            elif e[0] == 'session-shutdown':
                sd.add(e[1])
            elif e[0] == 'vcall' and e[1] == 'set_listener' and self.conn(e[2]):
                if e[3] and isinstance(e[3][0], tuple) and e[3][0] == ('ptr', LV(CH)):
                    lis = 1
            elif e[0] == 'vcall' and e[1] == 'shutdown' and self.conn(e[2]):
                phase = max(phase, 2)
                sd.add('conn')
            elif e[0] == 'vcall' and e[1] == 'send' and self.conn(e[2]):
                if pre_done:
                    w.flag(s, ('C15', 'send-after-shutdown'), 'a request is sent although the channel was shut down', e[4])
                k, tx = self.frame(w, s, e)
                if k is None or k >= len(reqs):
                    continue
                self.sent(w, s, e, reqs, k, tx)
                newsent.append(k)
            elif e[0] == 'hcall' and isinstance(e[1], tuple) and e[1][0] == 'h':
                handled = True
                self.completed(w, s, e, reqs, e[1][1], msg, label, fired, stale, pre_done)
        # timers started in this step belong to the requests sent in it, in order
        for k, st_ in zip(newsent, starts):
            reqs[k][2] = st_[1]
            d = st_[2]
            want = self.timeout(k)
            if d != want and not (isinstance(d, tuple) and isinstance(want, tuple) and d[:2] == want[:2]):
                w.flag(s, ('C14', 'wrong-duration'), 'the response timer of request #%d runs for %s instead of the timeout given with the request' % (k, T.show(d)), st_[4])
        for k in newsent[len(starts):]:
            w.flag(s, ('C14', 'no-timer'), 'request #%d is sent but no timer is started for it' % k, loc_of(self.m['send_request']))
        if newsent and not lis:
            w.flag(s, ('C12', 'no-listener'), 'a request is sent while the channel is not the connection\'s listener', loc_of(self.m['send_request']))
        # the message that answers the outstanding request completes it
        if msg is not None and not pre_done and out_at is not None and not any(e[0] == 'hcall' and e[1] == ('h', out_at) for e in s.ev):
            if phase < 2 and reqs[out_at][1] is not None:
                G = F.copy()
                if G.add(T.eq(T.sub(msg[1], reqs[out_at][1]))) and G.add(T.eq(T.sub(msg[2], self.unit(out_at)))):
                    w.flag(s, ('C12', 'match-ignored'), 'a message with the transaction and unit identifier of the outstanding request does not complete it', loc_of(self.m['on_mbap_message']))
        q0 = pre.mem.get(('g', 'queue'), ())
        if label == 'connection error' and not pre_done:
            if not any(e[0] == 'parser-reset' for e in s.ev):
                w.flag(s, ('C18', 'no-reset'), 'the frame parser is not reset when the connection fails', loc_of(self.m['on_error']))
            if not q0:
                for k, r in enumerate(reqs):
                    if r[0] != 2 and F.preds.get(('p', ('valid', k))) is not False:
                        w.flag(s, ('C13', 'error-incomplete'), 'request #%d is not completed when the connection fails' % k, loc_of(self.m['on_error']))
        if label == 'data received' and not pre_done and not any(e[0] == 'parse' for e in s.ev):
            w.flag(s, ('C12', 'not-parsed'), 'received data is not handed to the frame parser', loc_of(self.m['on_receive']))
        if label == 'data received':
            for e in s.ev:
                if e[0] == 'parse' and not (isinstance(e[2], tuple) and e[2][0] == 'bytes' and 'chunk' in repr(e[2])):
                    w.flag(s, ('C12', 'not-parsed'), 'the frame parser is given other bytes than those received', loc_of(self.m['on_receive']))
        if fired is not None and not stale and not pre_done and not any(e[0] == 'hcall' and e[1] == ('h', fired) for e in s.ev):
            w.flag(s, ('C14', 'timeout-ignored'), 'the timer of the outstanding request fires but the request is not completed', loc_of(self.ctor))
        if stale and any(e[0] == 'hcall' or (e[0] == 'vcall' and e[1] == 'send' and self.conn(e[2])) for e in s.ev):
            w.flag(s, ('C14', 'stale-timer'), 'the expiry of an earlier request\'s timer completes or sends another request', next(e[3] for e in s.ev if e[0] == 'hcall') if any(e[0] == 'hcall' for e in s.ev) else None)
        if label == 'create_session':
            v = next((e[1] for e in s.ev if e[0] == 'ret'), NULL)
            if o[3] == 0 and (v is None or v == NULL):
                w.flag(s, ('C15', 'no-session'), 'create_session gives no session although the channel was not shut down', loc_of(self.m['create_session']))
            elif o[3] == 0 and v in sessions:
                w.flag(s, ('C15', 'shared-session'), 'create_session gives a session that was given out before', loc_of(self.m['create_session']))
            sessions = sessions + (v,)
        if phase == 2 and o[3] < 2:
            for x in sessions:
                if isinstance(x, tuple) and x[0] == 'ptr' and x[1] not in sd:
                    w.flag(s, ('C15', 'session-not-shut-down'), 'a session of the channel is not shut down with it', loc_of(self.m['shutdown']))
        s.mem[O] = ('obs', tuple(tuple(r) for r in reqs), sessions, phase, 0, lis)
        return [s]

    def timeout(self, k):
        for p in self.m['send_request']['params']:
            t = strip_ref(p['t'])
            ti = ty(t)
            if ti.get('tn') != 'std::function' and ti.get('c') not in (NS + 'IMessage', NS + 'UnitIdentifier'):
                return init_sym(t, ('timeout', k))
        return None

    def unit(self, k):
        return T.sym(('unit', k), 0, 255)

    def frame(self, w, s, e):
        """(request, transaction id) of the bytes given to the connection"""
        b = e[3][0] if e[3] else None
        if not (isinstance(b, tuple) and b[0] == 'bytes' and isinstance(b[1], tuple) and b[1][0] == 'seq'):
            w.undec.add('bytes given to the connection are not understood')
            return None, None
        k = None
        for g in b[1][1]:
            if g[0] == 'sl' and isinstance(g[1], tuple) and g[1][0] == 'sb' and isinstance(g[1][1], tuple) and g[1][1][0] == 'pdu':
                k = g[1][1][1]
        h = [Q.seq_get(b[1], i, s.facts) for i in range(7)]
        if k is None:
            w.flag(s, ('C12', 'foreign-bytes'), 'the bytes given to the connection do not hold the encoded request', e[4])
            return None, None
        if any(not T.is_int(x) for x in h):
            w.undec.add('frame header is not understood')
            return k, None
        tx = T.add(T.mulc(h[0], 256), h[1])
        d = s.facts.decide(T.eq(T.sub(h[6], self.unit(k))))
        if d is not True:
            w.flag(s, ('C12', 'wrong-unit'), 'request #%d is sent with a unit identifier other than its own' % k, e[4])
        return k, tx

    def sent(self, w, s, e, reqs, k, tx):
        r = reqs[k]
        for j, q in enumerate(reqs):
            if j != k and q[0] == 1:
                w.flag(s, ('C10', 'two-outstanding'), 'request #%d is sent while request #%d is still outstanding' % (k, j), e[4])
            if j < k and q[0] == 0 and s.facts.preds.get(('valid', j)) is not False:
                w.flag(s, ('C10', 'out-of-order'), 'request #%d is sent before the earlier request #%d' % (k, j), e[4])
        if r[0] == 1:
            w.flag(s, ('C10', 'sent-twice'), 'request #%d is sent twice' % k, e[4])
        if r[0] == 2:
            w.flag(s, ('C10', 'sent-after-completion'), 'request #%d is sent after its handler was called' % k, e[4])
        if s.facts.preds.get(('valid', k)) is not True:
            w.flag(s, ('C13', 'invalid-sent'), 'a request that is not valid is sent', e[4])
        if tx is not None:
            prev = [j for j, q in enumerate(reqs) if j != k and q[1] is not None]
            for j in prev:
                between = [i for i in range(j + 1, k) if s.facts.preds.get(('valid', i)) is not False]
                self.distinct(w, s, e, tx, reqs[j][1], k, j, not between)
        r[0] = 1
        r[1] = tx

    def distinct(self, w, s, e, a, b, k, j, adjacent):
        """identifiers of different requests differ; successive requests step
        through all 65536 identifiers"""
        F = s.facts
        d = T.wrap(16, T.sub(a, b), F)
        if isinstance(d, int):
            if d == 0 or (adjacent and d % 2 == 0):
                w.flag(s, ('C11', 'ids'), 'the identifiers of successive requests differ by %d: two requests less than 65536 apart share an identifier' % d, e[4])
            return
        if F.decide(T.eq(T.sub(a, b))) is not False:
            G = F.copy()
            if G.add(T.eq(T.sub(a, b))):
                w.flag(s, ('C11', 'ids'), 'requests #%d and #%d can carry the same transaction identifier' % (j, k), e[4])
                return
        if adjacent and not s.imp:
            # the step is not one constant: tabulate it over the 65536 identifiers
            self.steps.setdefault((a, b, tuple(c for c in F.cs if only_id(c))), e[4])

    def cycles(self, w, st):
        """do the tabulated steps visit every identifier?"""
        if not self.steps:
            return
        nxt = {}
        for (a, b, cs), loc in self.steps.items():
            for n in range(65536):
                if all(cond_at(c, n) for c in cs):
                    x, y = num_at(b, n), num_at(a, n)
                    if x is None or y is None or nxt.get(x, y) != y:
                        w.undec.add('step of the transaction identifier')
                        return
                    nxt[x] = y
        if len(nxt) != 65536:
            w.undec.add('step of the transaction identifier is not defined for every identifier')
            return
        seen = {}
        x = 0
        while x not in seen:
            seen[x] = len(seen)
            x = nxt[x]
        if len(seen) != 65536 or x != 0:
            w.cur = None
            w.flag(st, ('C11', 'ids'), 'starting from identifier 0 the %dth following request carries identifier %d again' % (len(seen), x), loc)

    def completed(self, w, s, e, reqs, k, msg, label, fired, stale, pre_done):
        F = s.facts
        loc = e[3]
        if k >= len(reqs):
            return
        r = reqs[k]
        oc = self.outcome(e[2][0]) if e[2] else ('?',)
        if r[0] == 2:
            w.flag(s, ('C13', 'twice'), 'the handler of request #%d is called twice' % k, loc)
        valid = F.preds.get(('valid', k))
        if valid is False:
            if oc[0] != 'exc' or oc[1] != 'MalformedModbusRequestException':
                w.flag(s, ('C13', 'invalid-outcome'), 'an invalid request is not reported as a malformed request', loc)
        else:
            if pre_done:
                w.flag(s, ('C15', 'handler-after-shutdown'), 'a response handler is called although the channel was shut down', loc)
            if oc[0] == 'value':
                if msg is None:
                    w.flag(s, ('C12', 'no-message'), 'request #%d is completed with data although no message arrived' % k, loc)
                else:
                    if r[0] != 1:
                        w.flag(s, ('C12', 'not-outstanding'), 'a message completes request #%d which is not outstanding' % k, loc)
                    for what, m, own in (('transaction', msg[1], r[1]), ('unit', msg[2], self.unit(k))):
                        if own is None:
                            continue
                        if F.decide(T.eq(T.sub(m, own))) is not True:
                            w.flag(s, ('C12', 'wrong-' + what), 'a message with another %s identifier completes request #%d' % (what, k), loc)
                    x = oc[1]
                    want = Q.norm(('seq', (('sl', ('sb', ('bytes', msg[3]), None), 0, T.sym(('len', msg[3]), 0, None)),)))
                    if not (isinstance(x, tuple) and x[0] == 'bytes' and x[1] == want):
                        w.flag(s, ('C12', 'wrong-data'), 'request #%d is completed with other data than the message carries' % k, loc)
            elif oc[0] == 'exc':
                if label == 'connection error':
                    if oc[1] != 'ConnectionException':
                        w.flag(s, ('C13', 'error-outcome'), 'a connection failure is reported as %s' % oc[1], loc)
                elif fired is not None and not stale:
                    if oc[1] != 'TimeoutException':
                        w.flag(s, ('C13', 'timeout-outcome'), 'a timeout is reported as %s' % oc[1], loc)
                    elif k != fired:
                        w.flag(s, ('C14', 'wrong-request'), 'the timer of request #%d completes request #%d' % (fired, k), loc)
                elif stale:
                    pass        # reported as a stale timer
                else:
                    w.flag(s, ('C13', 'spurious-exception'), 'request #%d is completed with %s during "%s"' % (k, oc[1], label), loc)
            else:
                w.undec.add('outcome given to a handler is not understood')
        r[0] = 2

    def final(self, w, label, pre, s):
        o = s.mem[O]
        q = s.mem.get(('g', 'queue'), ())
        ts = s.mem.get(('g', 'timers'), ())
        reqs = o[1]
        F = s.facts
        out = [k for k, r in enumerate(reqs) if r[0] == 1]
        if o[3] < 2:
            for k in out:
                if reqs[k][2] is not None and not any(t[0] == reqs[k][2] and t[3] == 'armed' for t in ts):
                    w.flag(s, ('C14', 'timer-lost'), 'request #%d is outstanding without a running timer' % k, loc_of(self.m['on_mbap_message']))
        for k, r in enumerate(reqs):
            if r[0] == 2 and r[2] is not None and any(t[0] == r[2] and t[3] == 'armed' for t in ts):
                w.flag(s, ('C14', 'not-cancelled'), 'request #%d is completed but its timer keeps running' % k, loc_of(self.m['on_mbap_message']))
        if not q:
            if o[3] == 1:
                w.flag(s, ('C15', 'no-shutdown'), 'the connection is not shut down with the channel', loc_of(self.m['shutdown']))
            if o[3] == 2 and any(t[3] == 'armed' for t in ts):
                w.flag(s, ('C15', 'timer-running'), 'a timer keeps running after shutdown', loc_of(self.m['shutdown']))
            if o[3] == 0:
                left = [k for k, r in enumerate(reqs) if r[0] == 0]
                for k in left:
                    v = F.preds.get(('valid', k))
                    if v is False:
                        w.flag(s, ('C13', 'invalid-lost'), 'the handler of an invalid request is never called', loc_of(self.m['send_request']))
                    elif not out:
                        w.flag(s, ('C13', 'not-started'), 'request #%d waits although no request is outstanding' % k, loc_of(self.m['on_mbap_message']))


def run_client(P, R, K, nses=0):
    C = Client(P, R, K, nses)
    C.opaque_sessions()
    w = World(C.I, R, [CH], C.actions, C.observe, final=C.final, limit=6000)
    w.explore(C.init())
    C.cycles(w, St())
    R.used(C.I)
    R.count('requests_in_flight_bound', K)
    return w


def done_more(pre, post):
    return sum(1 for r in post.mem[O][1] if r[0] == 2) > sum(1 for r in pre.mem[O][1] if r[0] == 2)


def accepted(pre, post):
    k = len(post.mem[O][1]) - 1
    return post.facts.preds.get(('valid', k)) is not False


def long_scripts(N):
    send, post = ('send_request', accepted), ('run posted', accepted)
    answer, expire, fail = ('data received', done_more), ('timer fires', done_more), ('connection error', None)
    yield [send] * N + [post] * N + [answer] * N
    yield [send] * N + [post] * N + [expire] * N
    yield [send, post, send, post, answer] * (N // 2) + [answer] * N
    yield [send, post, answer] * N
    yield [send, post, expire] * (N - 1) + [send, post, answer]
    yield [send, post, fail] * (N - 1) + [send, post, answer]
    yield [send] * (N - 1) + [post] * (N - 1) + [fail] + [send, post, answer]
    yield [send] * N + [post] * N + [answer, expire] * (N // 2)
    yield [send] * N + [post] * N + [answer, ('shutdown', None)] + [post] + [answer, expire]


def long_client(P, R, N, width):
    """the same rules along long histories"""
    ws = []
    for script in long_scripts(N):
        C = Client(P, R, N, 0)
        C.I.maxvisits = 2 * N + 8
        w = World(C.I, R, [CH], C.actions, C.observe, final=C.final)
        w.follow(C.init(), script, width)
        R.used(C.I)
        ws.append(w)
    R.rule('The same rules are checked along long histories (queues of many requests answered, timing out and failing; many requests one after the other).')
    R.count('long_histories', len(ws))
    R.count('longest_history_requests', N) if N > 50 else None
    return ws


def check(prop, text):
    def f(P, R):
        R.rule(text)
        q = R.tier == 'quick'
        w = run_client(P, R, *((2, 2) if prop == 'C15' else (3, 0)) if q else ((3, 2) if prop == 'C15' else (4, 0)))
        w.report(prop)
        if w.nact:
            R.ok(sum(w.nact.values()))
        for N, width in ((10, 6), (70, 1)) if q else ((12, 12), (40, 6), (70, 2), (200, 1)):
            for w in long_client(P, R, N, width):
                w.report(prop)
                R.ok(sum(w.nact.values()))
        if prop == 'C18':
            from . import parser
            parser.resets(P, R)
        if prop == 'C13':
            from . import session
            R.part(session.typed, P, ':calls$|:exception$|:outcome$')
    return f


CHECKS = {
    'C10': check('C10', 'Typestate of the client channel under its most general environment (send_request, posted handlers, received data, timer expiry - including one already queued when the timer was cancelled - connection errors and shutdown in every order): a request is given to the connection only while no other request is outstanding, in the order of submission and once.'),
    'C11': check('C11', 'The transaction identifiers of the requests sent differ; the step from one request to the next is derived symbolically and, when it is not constant, tabulated over all 65536 identifiers to show that they are all visited.'),
    'C12': check('C12', "In every reachable abstract state: a handler gets data only in the step in which a message arrived whose transaction and unit identifier equal those of the outstanding request, and it gets exactly that message's bytes; such a message always completes it; the bytes sent are the framed encoding of the request with its own unit; received bytes reach the frame parser."),
    'C13': check('C13', 'In every reachable abstract state: no handler is called twice, an invalid request is completed as malformed and never sent, a timeout and a connection failure are reported as such, a connection failure completes all accepted requests, and no accepted request is left waiting when nothing is outstanding.'),
    'C14': check('C14', 'In every reachable abstract state: each request sent has one running timer armed with its own timeout, its expiry completes exactly that request, completion cancels it, and the late expiry of a cancelled timer has no effect.'),
    'C15': check('C15', 'In every reachable abstract state after shutdown: nothing is sent, no timer is started or left running, no handler of a valid request is called, and the connection and every session made by the channel were shut down.'),
    'C18': check('C18', 'In every reachable abstract state: a connection error resets the frame parser.'),
}
