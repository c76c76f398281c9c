"""C19, C27 (and C22, C23): TCP connections and the server as typestate machines
over the completions of their asynchronous operations"""
from sa import seqs as Q
from sa import terms as T
from sa import lib, own
from sa.interp import Interp, St, LV, NULL, is_lv
from sa.report import Broken
from sa.seqs import init_sym, strip_ref, fields_of, ty
from sa.world import World, O, A
from sa.world import Q as QUEUE
from checks import parser
from checks.client import NS, concrete, ctors, method, loc_of, make, param, find_field

CONN = ('conn',)


def sent(k):
    return ('seq', (('sl', ('sb', ('sent', k), None), 0, sent_len(k)),))


def sent_len(k):
    return T.sym(('sent length', k), 1, 260)


class Conn:
    """shared by the client and the server connection"""

    def arg_bytes(self, x, k):
        root = ('caller', k)
        x.mem[root] = sent(k)
        return root, ('rseq', LV(root), 0, sent_len(k))

    def match(self, s, c, k):
        """0: not these bytes; otherwise (offset) the part of send #k that c is; None: unknown"""
        if c is None:
            return None
        c = Q.norm(c)
        if c == Q.norm(sent(k)):
            return ('all',)
        if len(c[1]) == 1 and c[1][0][0] == 'sl' and c[1][0][1] == ('sb', ('sent', k), None):
            return ('part', c[1][0][2], c[1][0][3])
        return 0

    # buffers of outstanding operations (C27)
    def buffers(self, w, s, prop='C27'):
        for op in s.mem.get(A, ()):
            self.buffer(w, s, op, prop)

    def buffer(self, w, s, op, prop='C27'):
        kind, buf, content = op[1], op[4], op[5]
        if buf is None or not is_lv(buf[1]):
            return
        if buf[1][1] in s.dead:
            w.flag(s, (prop, 'freed-' + kind), 'the buffer of an outstanding asynchronous %s is destroyed' % ('read' if kind.startswith('read') else 'write'), loc_of(self.m['send']))
            return
        r = buf[1][1]
        if r[0] not in ('sym', 'static', 'g') and r not in own.owned(self.I, s, op[3]):
            w.flag(s, (prop, 'unowned-' + kind), 'nothing that lives until an asynchronous %s ends keeps its buffer alive' % ('read' if kind.startswith('read') else 'write'), loc_of(self.m['send']))
            return
        gone = self.removed(s, buf[1])
        if gone:
            w.flag(s, (prop, 'freed-' + kind), 'the buffer of an outstanding asynchronous %s is destroyed' % ('read' if kind.startswith('read') else 'write'), loc_of(self.m['send']))
        elif content is not None:
            now = lib.abuf_content(self.I, s, buf)
            if now is not None and Q.norm(now) != Q.norm(content):
                w.flag(s, (prop, 'changed-' + kind), 'the bytes of an outstanding asynchronous write are changed', loc_of(self.m['send']))


    def removed(self, s, lv):
        """an element that is no longer in its container"""
        for k, x in enumerate(lv[2]):
            if x[0] == 'i':
                v = self.I.load(s.copy(), (lv[0], lv[1], lv[2][:k]))
                if v[0] == 'seq' and s.facts.decide(T.ge(T.sub(T.sub(Q.seqlen(v), 1), x[1]))) is False:
                    return True
        return False

    def delivered(self, s, e, got):
        v = e[3][0] if e[3] else None
        if isinstance(v, tuple) and v and v[0] == 'bytes':
            v = v[1]
        return isinstance(v, tuple) and v and v[0] == 'seq' and Q.norm(v) == Q.norm(got[1])


class Client(Conn):
    nclose = 1

    def __init__(self, P, R, nsend=2, gone=False):
        self.P, self.R, self.nsend, self.gone = P, R, nsend, gone
        cs = [c for c in concrete(P, 'ITcpConnection', ['send', 'close', 'shutdown', 'set_listener']) if any(p for f in P.functions.values() if f['fn'].get('c') == c and 'inits' in f for p in f['params'] if 'Ipv4Endpoint' in P.types[strip_ref(p['t'])]['s'])]
        if not cs:
            raise Broken('no client connection')
        self.cls = cs[0]
        self.m = {n: method(P, self.cls, n) for n in ('send', 'close', 'shutdown', 'set_listener')}
        self.I = Interp(P, maxvisits=8, generalise=False)

    def init(self):
        st = St()
        st.mem[O] = ('obs', (), 0, 0, 0, (), 0, 0, 0)
        f, rs = make(self.P, self.I, st, self.cls, CONN)
        out = []
        for s, _ in rs:
            if s.exc is not None:
                continue
            for s2, _ in self.listen(s):
                s2.ev = ()
                out.append(s2)
        return out

    def listen(self, s):
        n = ('listener',)
        s.facts.preds[('null', n)] = False
        p = self.m['set_listener']['params'][0]
        return self.I.call(s, self.m['set_listener'], LV(CONN), [self.I.temp(s, ('sptr', n, ty(strip_ref(p['t']))['ta'][0]))], {})

    def actions(self, w, s):
        I = self.I
        sends, closes, phase = s.mem[O][1], s.mem[O][2], s.mem[O][3]
        out = []
        if len(sends) < self.nsend:
            def send(x):
                root, v = self.arg_bytes(x, len(sends))
                r = I.call(x, self.m['send'], LV(CONN), [I.temp(x, v)], {})
                for y, _ in r:
                    y.dead = y.dead | {root}
                return r
            out.append(('send #%d' % len(sends), send))
        if closes < self.nclose:
            out.append(('close', lambda x: I.call(x, self.m['close'], LV(CONN), [], {})))
        if phase == 0 and sends:
            out.append(('shutdown', lambda x: I.call(x, self.m['shutdown'], LV(CONN), [], {})))
        if self.gone and sends and s.facts.preds.get(('null', ('listener',))) is False:
            def gone(x):
                x.facts.preds[('null', ('listener',))] = True
                return [(x, None)]
            out.append(('listener destroyed', gone))
        out += w.run_posted(s)
        out += w.complete(s)
        return out

    def observe(self, w, label, pre, s):
        o = s.mem[O]
        sends, closes, phase, owed, old, up, closing = list(o[1]), o[2], o[3], o[4], set(o[5]), o[6], o[7]
        broken = o[8]
        done = phase == 1 and not pre.mem.get(QUEUE)
        loc = loc_of(self.m['send'])
        if label.startswith('send #'):
            sends.append('w')
        elif label == 'close':
            # takes effect at the latest when the handlers it posted have run
            closes += 1
            closing = 1 + len(pre.mem.get(QUEUE, ())) + sum(1 for e in s.ev if e[0] == 'post')
        elif label == 'shutdown':
            phase = 1
        if closing and (label.startswith('run') or label == 'close'):
            closing -= 1
            if closing <= (len(pre.mem.get(QUEUE, ())) if label == 'close' else 0):
                closing = 0
                sends = ['x' if z in 'wo' else z for z in sends]
                owed = 0
        comp = next((e for e in s.ev if e[0] == 'completed'), None)
        ops = [op for op in s.mem.get(A, ())]
        if comp is not None:
            op = comp[3]
            if op[7] == 'pending' and op[0] not in old and not comp[2].startswith('succe'):
                owed = 1
                broken = 1
                if op[1] in ('read', 'connect', 'resolve'):
                    up = 0
            if op[1] == 'connect' and comp[2] == 'succeeds' and op[7] == 'pending' and op[0] not in old:
                up = 1
            if op[1] in ('write', 'send') and comp[2] == 'succeeds':
                k = self.which(s, op[5])
                if k is not None and sends[k] == 'o':
                    sends[k] = 'd'
        stale = comp is not None and (comp[3][7] == 'cancelled' or comp[3][0] in old)
        older = comp is not None and comp[3][0] in old
        nread = sum(1 for op in ops if op[1] == 'read' and op[7] == 'pending')
        got = [e for e in s.ev if e[0] == 'received']
        dl = [e for e in s.ev if e[0] == 'vcall' and e[1] == 'on_receive']
        opened = any(v == 1 for _, v in pre.mem.get(lib.SOCKS, ()))
        for e in s.ev:
            if e[0] == 'vcall' and e[1] in ('on_error', 'on_receive', 'on_write_done') and done:
                w.flag(s, ('C19', 'callback-after-shutdown'), 'the listener is called after the shutdown', e[4])
            if e[0] == 'vcall' and e[1] == 'on_error':
                if older:
                    w.flag(s, ('C19', 'stale-error'), 'an operation of an earlier connection that ends late is reported as an error of the present one', e[4])
                elif not owed and not closing and not done:
                    w.flag(s, ('C19', 'spurious-error'), 'an error is reported although nothing failed since the last report', e[4])
                sends = ['e' if z in 'wod' else z for z in sends]
                owed = 0
            elif e[0] == 'asio-failed' and e[1] == 'open' and opened:
                w.flag(s, ('C19', 'opened-twice'), 'a connection is set up although one is being set up or established', loc)
            elif e[0] == 'aio-cancel':
                up = 0
                opened = opened and e[2] != 'close'
                if e[2] == 'close':
                    broken = 0
                if e[2] == 'close' and lib.sock_state(pre, e[1]):
                    old |= {op[0] for op in ops}
                if older and e[2] == 'close' and lib.sock_state(pre, e[1]):
                    w.flag(s, ('C19', 'stale-close'), 'an operation of an earlier connection that ends late closes the present one', loc)
            elif e[0] == 'asio-failed' and e[1] in ('open', 'bind', 'address'):
                owed = 1
            elif e[0] == 'aio':
                kind, sock, h, buf, content, peer, st_open, at = e[2:10]
                if done:
                    w.flag(s, ('C19', 'start-after-shutdown'), 'an asynchronous %s is started after the shutdown' % kind, at)
                if broken and kind not in ('resolve', 'connect') and not done:
                    w.flag(s, ('C19', 'used-after-failure'), 'an asynchronous %s is started on a connection that failed and was not closed since' % kind, at)
                if kind == 'read':
                    nread += 1
                    if nread > 1:
                        w.flag(s, ('C19', 'two-reads'), 'two reads are outstanding on the connection', at)
                if kind in ('send', 'write'):
                    if any(x[1] in ('send', 'write') and x[7] == 'pending' for x in ops):
                        w.flag(s, ('C19', 'overlapping-writes'), 'a write is started while another one is outstanding on the connection', at)
                    k = self.which(s, content)
                    if content is None:
                        w.undec.add('bytes of a write are not understood')
                    elif k is None:
                        w.flag(s, ('C19', 'foreign-bytes'), 'bytes are written that were not given to send', at)
                    elif sends[k] != 'w':
                        w.flag(s, ('C19', 'written-again'), 'the bytes of a send are written %s' % {'o': 'twice', 'd': 'twice', 'e': 'although its failure was reported', 'x': 'although the connection was closed since'}[sends[k]], at)
                    else:
                        sends[k] = 'o'
                        if kind == 'send':
                            self.partial(w, s, at)
        if got:
            if not done and not stale:
                if len(dl) != 1 or not self.delivered(s, dl[0], got[0]):
                    w.flag(s, ('C19', 'not-delivered'), 'received bytes are not handed to the listener exactly once and complete', dl[0][4] if dl else loc)
            elif stale and dl:
                w.flag(s, ('C19', 'stale-data'), 'bytes of a connection that was closed are handed to the listener', dl[0][4])
        elif dl:
            w.flag(s, ('C19', 'foreign-data'), 'the listener is given bytes that were not received', dl[0][4])
        s.mem[O] = ('obs', tuple(sends), closes, phase, owed, tuple(sorted(old & {op[0] for op in ops}, key=repr)), up, closing, broken)
        return [s]

    def which(self, s, content):
        if content is None:
            return None
        for k in range(self.nsend):
            if self.match(s, content, k) == ('all',):
                return k
        return None

    def partial(self, w, s, at):
        w.flag(s, ('C19', 'short-write'), 'the bytes are given to an operation that may write only some of them, and the rest is not written', at)

    def final(self, w, label, pre, s):
        """nothing is due any more"""
        o = s.mem[O]
        sends, closes, phase, owed, old, up, closing, broken = o[1:]
        loc = loc_of(self.m['send'])
        self.buffers(w, s)
        if s.mem.get(QUEUE):
            return
        ops = s.mem.get(A, ())
        if phase == 1:
            for op in ops:
                if op[7] == 'pending' and op[1] in ('read', 'connect', 'write', 'send'):
                    w.flag(s, ('C19', 'not-cancelled'), 'an asynchronous %s is not cancelled by the shutdown' % op[1], loc_of(self.m['shutdown']))
            return
        if owed:
            w.flag(s, ('C19', 'error-not-reported'), 'a failure of the connection is not reported to the listener', loc)
        if any(op[1] != 'read' or op[7] == 'cancelled' for op in ops):
            return
        if 'w' in sends or 'o' in sends:
            k = max(i for i, z in enumerate(sends) if z in 'wo')
            if not any(z in 'de' for z in sends[k + 1:]) or sends[k] == 'o':
                w.flag(s, ('C19', 'lost'), 'bytes given to send are neither written nor is a failure reported', loc)
        reads = sum(1 for op in ops if op[1] == 'read' and op[7] == 'pending')
        if up and reads == 0:
            w.flag(s, ('C19', 'not-reading'), 'nothing is read from an established connection', loc)


def run_client(P, R, nsend, gone=False):
    S = Client(P, R, nsend, gone=gone)
    w = World(S.I, R, [CONN], S.actions, S.observe, final=S.final, limit=20000)
    w.explore(S.init())
    R.used(S.I)
    return w


SRV = ('server',)


class Server(Conn):
    """the server and its connections; connection #k is the one the k-th listener
    was built for"""

    def __init__(self, P, R, cap, naccept, nfail, nsend, nclose, outcomes):
        self.P, self.R = P, R
        self.cap, self.naccept, self.nfail, self.nsend, self.nclose, self.outcomes = cap, naccept, nfail, nsend, nclose, outcomes
        self.cls = concrete(P, 'IServer', ['start', 'shutdown'])[0]
        self.ccls = [c for c in concrete(P, 'ITcpConnection', ['send', 'close', 'shutdown', 'set_listener']) if not any(p for f in P.functions.values() if f['fn'].get('c') == c and 'inits' in f for p in f['params'] if 'Ipv4Endpoint' in P.types[strip_ref(p['t'])]['s'])]
        if len(self.ccls) != 1:
            raise Broken('no server connection')
        self.ccls = self.ccls[0]
        self.m = {n: method(P, self.cls, n) for n in ('start', 'shutdown')}
        self.cm = {n: method(P, self.ccls, n) for n in ('send', 'close', 'shutdown')}
        self.m['send'] = self.cm['send']
        self.count = next(iter(P.method(self.cls, 'get_num_connections', 0)), None)
        self.I = Interp(P, maxvisits=8, generalise=False, hooks={'build': self.h_build})

    # ghost: (listeners built: (connection pointer, state)), ...)
    def h_build(self, I, st, fn, o, args, e):
        g = st.mem[O]
        c = I.val(st, args[0])
        k = len(g[1])
        n = ('listener', k)
        st.facts.preds[('null', n)] = False
        st.emit('built', k, c, I.loc(e))
        st.mem[O] = g[:1] + (g[1] + ((c, 'new', ()),),) + g[2:]
        t = ty(strip_ref(fn['rt']))
        return [(st, ('sptr', n, t['ta'][0]))]

    def init(self):
        st = St()
        # connections, accepts failed, started, phase, sends, closes
        st.mem[O] = ('obs', (), 0, 0, 0, 0, ())
        f = make_args(self.P, self.I, st, self.cls)
        given = []
        for p in f['params']:
            t = strip_ref(p['t'])
            ti = self.P.types[t]
            given.append(self.cap if ti['k'] == 'int' else self.I.temp(st, ep(self.P, st, t)))
        st.mem[SRV] = ('rec', self.cls, tuple((n, None) for n, _ in fields_of(self.cls)))
        out = []
        for s, _ in self.I.call(st, f, LV(SRV), given, {}):
            if s.exc is not None:
                continue
            for n, t in fields_of(self.cls):
                if 'acceptor' in (ty(strip_ref(t)).get('tn') or ''):
                    lib.sock_set(s, ('lv', SRV, (('f', n),)), 1)
                    self.acceptor = ('lv', SRV, (('f', n),))
            s.ev = ()
            out.append(s)
        return out

    def sock(self, s, c):
        """the socket of a connection"""
        for n, t in fields_of(self.ccls):
            if 'socket' in (ty(strip_ref(t)).get('tn') or ''):
                return ('lv', c[1][1], c[1][2] + (('f', n),))

    def opened(self, s, k):
        c = s.mem[O][1][k][0]
        return lib.sock_state(s, self.sock(s, c)) if c[0] == 'ptr' else None

    def actions(self, w, s):
        I = self.I
        _, conns, failed, started, phase, closes, sends = s.mem[O]
        out = []
        if not started:
            def start(x):
                p = self.m['start']['params'][0]
                return I.call(x, self.m['start'], LV(SRV), [I.temp(x, param(self.P, x, strip_ref(p['t'])))], {})
            return [('start', start)]
        for k, (c, state, _) in enumerate(conns):
            if c[0] != 'ptr':
                continue
            if len(sends) < self.nsend and state != 'gone':
                def send(x, c=c):
                    root, v = self.arg_bytes(x, len(sends))
                    r = I.call(x, self.cm['send'], c[1], [I.temp(x, v)], {})
                    for y, _ in r:
                        y.dead = y.dead | {root}
                    return r
                out.append(('send #%d on connection #%d' % (len(sends), k), send))
            if closes < self.nclose and state != 'gone':
                out.append(('close connection #%d' % k, lambda x, c=c: I.call(x, self.cm['close'], c[1], [], {})))
                if self.nsend:
                    out.append(('shut connection #%d down' % k, lambda x, c=c: I.call(x, self.cm['shutdown'], c[1], [], {})))
        if phase == 0:
            out.append(('shutdown', lambda x: I.call(x, self.m['shutdown'], LV(SRV), [], {})))
        out += w.run_posted(s)

        def allowed(op, r):
            if op[1] == 'accept':
                return (len(conns) < self.naccept) if r.startswith('succe') else (r.startswith('is') or failed < self.nfail)
            return self.outcomes is None or r in self.outcomes
        out += w.complete(s, allowed)
        return out

    def observe(self, w, label, pre, s):
        g = s.mem[O]
        conns, failed, started, phase, closes, sends = list(g[1]), g[2], g[3], g[4], g[5], list(g[6])
        done = phase == 1 and not pre.mem.get(QUEUE)
        loc = loc_of(self.m['start'])
        sloc = loc_of(self.m['shutdown'])
        if label == 'start':
            started = 1
        elif label == 'shutdown':
            phase = 1
        elif label.startswith(('close conn', 'shut conn')):
            closes += 1
            k = int(label.split('#')[1].split()[0])
            conns[k] = (conns[k][0], 'closing' if label.startswith('close') else 'shutting', len(pre.mem.get(QUEUE, ())) + sum(1 for e in s.ev if e[0] == 'post'))
        elif label.startswith('send #'):
            sends.append((int(label.split('#')[2]), 'w'))
        comp = next((e for e in s.ev if e[0] == 'completed'), None)
        ops = list(s.mem.get(A, ()))
        who = None
        if comp is not None:
            op = comp[3]
            who = self.conn_of(s, conns, op)
            if op[1] == 'accept':
                built = [e for e in s.ev if e[0] == 'built']
                if not comp[2].startswith('succe'):
                    failed += 1
                    if built:
                        w.flag(s, ('C22', 'served-failed'), 'a connection that was not accepted is served', built[0][3])
                elif not done and phase == 0:
                    # who may be ended to make room: the oldest of those still open
                    live = [k for k in range(len(pre.mem[O][1])) if self.opened(pre, k) and conns[k][2] != 'room']
                    for k in live[:max(0, len(live) + 1 - self.cap)]:
                        if conns[k][1] == 'new':
                            conns[k] = conns[k][:2] + ('room',)
                    if len(built) != 1:
                        w.flag(s, ('C23', 'no-listener'), 'an accepted connection gets %d listeners' % len(built), loc)
                    elif built[0][2][0] != 'ptr' or self.sock(s, built[0][2]) != op[6]:
                        w.flag(s, ('C23', 'wrong-listener'), 'the listener is built for another connection than the accepted one', built[0][3])
            else:
                if op[1] in ('write', 'send', 'read') and who is not None and op[7] == 'pending' and not comp[2].startswith('succe'):
                    c = conns[who]
                    if c[1] == 'new':
                        conns[who] = (c[0], 'failed', c[2])
                        if not done and not any(e[0] == 'vcall' and e[1] == 'on_error' and self.listener(e) == who for e in s.ev):
                            w.flag(s, ('C23', 'error-not-reported'), 'the failure of a %s is not reported to the listener of the connection' % op[1], loc_of(self.cm['send']))
                if op[1] in ('write', 'send') and comp[2].startswith('succe'):
                    k = self.which(s, op[5])
                    if k is not None and k < len(sends) and sends[k][1] == 'o':
                        sends[k] = (sends[k][0], 'd')
        elif any(e[0] == 'built' for e in s.ev):
            w.flag(s, ('C22', 'served-failed'), 'a connection that was not accepted is served', loc)
        got = [e for e in s.ev if e[0] == 'received']
        dl = [e for e in s.ev if e[0] == 'vcall' and e[1] == 'on_receive']
        for e in s.ev:
            if e[0] == 'vcall' and e[1] in ('on_receive', 'on_error', 'on_write_done'):
                k = self.listener(e)
                if comp is None or k != who or comp[3][1] == 'accept':
                    if e[1] != 'on_error' or k is None:
                        w.flag(s, ('C23', 'wrong-listener'), 'the listener of another connection is called', e[4])
                elif conns[k][1] == 'shut':
                    w.flag(s, ('C23', 'callback-after-shutdown'), 'the listener is called after the shutdown of its connection', e[4])
            elif e[0] == 'aio':
                kind, sock, h, buf, content, peer, st_open, at = e[2:10]
                if done:
                    w.flag(s, ('C22', 'start-after-shutdown'), 'an asynchronous %s is started after the shutdown' % kind, at)
                if kind == 'accept' and any(x[1] == 'accept' and x[7] == 'pending' for x in ops):
                    w.flag(s, ('C22', 'two-accepts'), 'two accepts are outstanding', at)
                if kind == 'read' and any(x[1] == 'read' and x[7] == 'pending' and x[2] == sock for x in ops):
                    w.flag(s, ('C23', 'two-reads'), 'two reads are outstanding on a connection', at)
                if kind in ('send', 'write'):
                    if any(x[1] in ('send', 'write') and x[7] == 'pending' and x[2] == sock for x in ops):
                        w.flag(s, ('C23', 'overlapping-writes'), 'a write is started while another one is outstanding on the connection', at)
                    k = self.which(s, content)
                    if content is None:
                        w.undec.add('bytes of a write are not understood')
                    elif k is None or k >= len(sends):
                        w.flag(s, ('C23', 'foreign-bytes'), 'bytes are written that were not given to send', at)
                    elif self.sock(s, conns[sends[k][0]][0]) != sock:
                        w.flag(s, ('C23', 'wrong-connection'), 'bytes are written to another connection', at)
                    elif sends[k][1] != 'w':
                        w.flag(s, ('C23', 'written-again'), 'the bytes of a send are written twice', at)
                    else:
                        if any(z == (sends[k][0], 'w') for z in sends[:k]):
                            w.flag(s, ('C23', 'out-of-order'), 'bytes are written before those of an earlier send', at)
                        sends[k] = (sends[k][0], 'o')
                        if kind == 'send':
                            w.flag(s, ('C23', 'short-write'), 'the bytes are given to an operation that may write only some of them, and the rest is not written', at)
                ops.append(e[1:8] + ('pending',))
        if got and who is not None and comp[3][7] == 'pending' and conns[who][1] == 'new':
            if len(dl) != 1 or self.listener(dl[0]) != who or not self.delivered(s, dl[0], got[0]):
                w.flag(s, ('C23', 'not-delivered'), 'received bytes are not handed to the listener of the connection exactly once and complete', dl[0][4] if dl else loc_of(self.cm['send']))
        elif dl and not got:
            w.flag(s, ('C23', 'foreign-data'), 'the listener is given bytes that were not received', dl[0][4])
        # which connections were ended by this step
        if not s.exc:
            for k, c in enumerate(conns):
                # takes effect at the latest when the handlers posted so far have run
                if c[1] in ('shutting', 'closing'):
                    n = c[2] - (1 if c[2] and label.startswith('run') else 0)
                    conns[k] = (c[0], 'shut' if c[1] == 'shutting' and not n else c[1], n)
        # the cap: a step that brings the server above it must end the oldest one
        s.mem[O] = ('obs', tuple(conns), failed, started, phase, closes, tuple(sends))
        return [s]

    nsend_max = 4

    def which(self, s, content):
        if content is None:
            return None
        for k in range(self.nsend):
            if self.match(s, content, k) == ('all',):
                return k
        return None

    def listener(self, e):
        n = e[2]
        return n[1] if isinstance(n, tuple) and n and n[0] == 'listener' else None

    def conn_of(self, s, conns, op):
        for k, c in enumerate(conns):
            if c[0][0] == 'ptr' and self.sock(s, c[0]) == op[2]:
                return k
        return None

    def final(self, w, label, pre, s):
        _, conns, failed, started, phase, closes, sends = s.mem[O]
        ops = s.mem.get(A, ())
        for op in ops:
            self.buffer(w, s, op, 'C27')
        if s.mem.get(QUEUE) or not started:
            return
        loc = loc_of(self.m['start'])
        up = [self.opened(s, k) for k in range(len(conns))]
        if phase:
            sl = loc_of(self.m['shutdown'])
            if any(op[1] == 'accept' and op[7] == 'pending' for op in ops):
                w.flag(s, ('C22', 'accepts-after-shutdown'), 'connections are still accepted after the shutdown', sl)
            for k, o in enumerate(up):
                if o and conns[k][1] not in ('shut', 'shutting'):
                    w.flag(s, ('C22', 'open-after-shutdown'), 'a connection is left open by the shutdown', sl)
            return
        n = sum(1 for op in ops if op[1] == 'accept' and op[7] == 'pending')
        if n != 1:
            w.flag(s, ('C22', 'not-accepting'), 'no connection is accepted any more although the server is not shut down', loc)
        live = [k for k, o in enumerate(up) if o and conns[k][1] != 'shut']
        if len(live) > self.cap:
            w.flag(s, ('C22', 'above-cap'), 'more connections are open than the configured maximum', loc)
        ended = [k for k in range(len(conns)) if conns[k][1] == 'new' and not up[k]]
        for k in ended:
            if conns[k][2] != 'room':
                w.flag(s, ('C22', 'evicted-early'), 'a connection is ended although it did not fail and is not the oldest one of more than the maximum', loc)
        for k, c in enumerate(conns):
            if c[1] in ('failed', 'closing') and up[k]:
                w.flag(s, ('C23', 'not-closed'), 'a connection is left open after %s' % ('it failed' if c[1] == 'failed' else 'it was closed'), loc_of(self.cm['close']))
        if self.count is not None and closes == 0:
            x = s.copy()
            x.ev = ()
            for y, v in self.I.call(x, self.count, LV(SRV), [], {}):
                v = self.I.val(y, v) if not isinstance(v, int) else v
                if not isinstance(v, int):
                    w.undec.add('number of connections is not constant')
                elif v != len(live):
                    w.flag(s, ('C22', 'count'), 'the number of connections is %d while %d are open' % (v, len(live)), loc_of(self.count))
        for k in live:
            if conns[k][1] != 'new':
                continue
            sk = self.sock(s, conns[k][0])
            mine = [op for op in ops if op[2] == sk and op[7] == 'pending']
            if not any(op[1] == 'read' for op in mine):
                w.flag(s, ('C23', 'not-reading'), 'nothing is read from an established connection', loc)
            if not any(op[1] in ('write', 'send') for op in mine) and any(z == (k, 'w') or z == (k, 'o') for z in sends):
                w.flag(s, ('C23', 'lost'), 'bytes given to send are not written', loc_of(self.cm['send']))


def make_args(P, I, st, cls):
    from checks.client import ctors
    f = ctors(P, cls)
    if not f:
        raise Broken('no constructor of ' + cls)
    return f[0]


def ep(P, st, t):
    return param(P, st, t)


def run_server(P, R, **kw):
    S = Server(P, R, **kw)
    w = World(S.I, R, [SRV], S.actions, S.observe, final=S.final, limit=20000)
    w.explore(S.init())
    R.used(S.I)
    return w


def sound(pre, post):
    # nothing failed before the operation was started
    return post.mem[O][4] == 0


def client_scripts(N):
    send, post = ('send #', sound), ('run posted', None)
    res, con = ('resolve succeeds', None), ('connect succeeds', None)
    wr, rd = ('write succeeds|send succeeds', None), ('read succeeds', None)
    up = [send, post, res, con]
    yield up + [wr, rd] + [send, post, wr, rd] * (N - 1)
    yield [send] * N + [post, res, con] + [wr] * 2
    yield up + [send] * (N - 1) + [wr] * 2 + [rd] * N
    for bad in ([('resolve fails', None)], [res, ('connect fails', None)], [res, con, wr, ('read fails', None)],
                [res, con, wr, ('read meets', None)], [res, con, ('write fails', None)], [res, con, ('close', None), post],
                [res, con, wr, ('read meets', None), ('.* is aborted', None)]):
        yield ([send, post] + bad + [post, post]) * (N - 1) + up + [wr, rd]


def long_client(P, R, N, width):
    out = []
    for script in client_scripts(N):
        S = Client(P, R, N)
        S.nclose = N
        S.I.maxvisits = N + 8
        w = World(S.I, R, [CONN], S.actions, S.observe, final=S.final)
        w.follow(S.init(), script, width)
        R.used(S.I)
        out.append(w)
    return out


def server_scripts(N):
    """(maximum, script)"""
    post, acc, start = ('run posted', None), ('accept succeeds', None), ('start', None)
    fail, rd = ('read fails', None), ('read succeeds', None)
    new = [acc] + [post] * 3
    end = [('shutdown', None)] + [post] * (N + 2) + [('.* is aborted', None)] * (2 * N)
    for cap in (1, 3, N - 2, N):
        yield cap, [start, post] + new * N + end
    yield 3, [start, post] + (new * 2 + [fail, post, post]) * (N // 2) + end
    yield 2, [start, post] + (new + [rd, ('read meets', None), post, post]) * N
    yield N, [start, post] + new * N + [fail, post, post] * N
    yield 2, [start, post] + [('accept fails', None), post, post] * N + new * 3


def long_server(P, R, N, width):
    out = []
    for cap, script in server_scripts(N):
        S = Server(P, R, cap=cap, naccept=N, nfail=N, nsend=0, nclose=0, outcomes=None)
        S.I.maxvisits = 2 * N + 8
        w = World(S.I, R, [SRV], S.actions, S.observe, final=S.final)
        w.follow(S.init(), script, width)
        R.used(S.I)
        out.append(w)
    return out


def long_sends(P, R, N, width):
    post, send, wr, rd = ('run posted', None), ('send #', None), ('write succeeds|send succeeds', None), ('read succeeds', None)
    up = [('start', None), post, ('accept succeeds', None)] + [post] * 3
    out = []
    for script in ([send] * N + [post] * N + [wr, post] * N, [send, post, wr, post] * N, [send, post, send, post, wr, post] * (N // 2) + [wr, post] * N,
                   [rd, post] * N, [send, rd, post] * N + [wr, rd, post] * N, [send] * N + [post] * N + [wr, post, ('write fails|send fails', None)] + [post] * 3):
        S = Server(P, R, cap=2, naccept=1, nfail=0, nsend=N, nclose=0, outcomes=None)
        S.I.maxvisits = 2 * N + 8
        w = World(S.I, R, [SRV], S.actions, S.observe, final=S.final)
        w.follow(S.init(), up + script, width)
        R.used(S.I)
        out.append(w)
    return out


SOME = ('succeeds', 'fails')
FAILS = ('fails', 'is aborted', 'meets the end of the stream')


def cap_world(P, R, cap):
    return run_server(P, R, cap=cap, naccept=cap + 2 if R.tier == 'thorough' else cap + 1, nfail=1, nsend=0, nclose=0, outcomes=FAILS)


def conn_worlds(P, R):
    if R.tier == 'thorough':
        yield run_server(P, R, cap=2, naccept=1, nfail=0, nsend=3, nclose=0, outcomes=None)
        yield run_server(P, R, cap=2, naccept=1, nfail=0, nsend=2, nclose=1, outcomes=None)
    else:
        yield run_server(P, R, cap=2, naccept=1, nfail=0, nsend=2, nclose=0, outcomes=None)
        yield run_server(P, R, cap=2, naccept=1, nfail=0, nsend=1, nclose=1, outcomes=None)
    yield run_server(P, R, cap=2, naccept=2, nfail=0, nsend=0, nclose=0, outcomes=SOME)


LONG = ' The same rules are checked along long histories (many sends, reconnections, accepted connections).'


def long_worlds(P, R, fs):
    n, width = (40, 2) if R.tier == 'quick' else (120, 4)
    for f in fs:
        for w in f(P, R, n, width):
            yield w
            R.count('long_histories')


def done(R, w, prop):
    w.report(prop)
    if w.nact:
        R.ok(sum(w.nact.values()))


def forwarding(P, R):
    """what the listener of a server connection does with what it is told"""
    bcls = concrete(P, 'IServerConnectionListenerBuilder', ['build'])[0]
    build = method(P, bcls, 'build')
    CHAN, PEER = ('channel of the server',), ('the accepted connection',)
    log = []
    I = Interp(P, maxvisits=4, generalise=False)

    def opq(kind):
        def h(I, st, fn, o, a, e):
            st.emit('parser', kind, o, lib.snapshot(I, st, I.val(st, a[0])) if a else None, I.loc(e))
            return [(st, None)]
        return h
    for f in P.functions.values():
        if f['fn'].get('c') == NS + 'MbapParser' and f['fn']['n'] in ('parse', 'reset'):
            I.opaque[f['fn']['u']] = opq(f['fn']['n'])
    st = St()
    root = ('builder',)

    def ptr(t, n):
        ti = ty(strip_ref(t))
        return ('sptr', n, ti['ta'][0])
    f = ctors(P, bcls)[0]
    st.mem[root] = ('rec', bcls, tuple((n, None) for n, _ in fields_of(bcls)))
    for n in (CHAN, PEER):
        st.facts.preds[('null', n)] = False
    objs = []
    for s, _ in I.call(st, f, LV(root), [I.temp(st, ptr(f['params'][0]['t'], CHAN))], {}):
        for s2, v in I.call(s, build, LV(root), [I.temp(s, ptr(build['params'][0]['t'], PEER))], {}):
            v = I.val(s2, v)
            if v[0] != 'ptr':
                R.undec('the listener of a server connection is not understood')
                return
            s2.ev = ()
            objs.append((s2, v[1]))
    R.used(I)

    def cls_of(s, lv):
        v = I.load(s, lv)
        return v[1]
    for s0, lv in objs:
        cls = cls_of(s0, lv)
        m = {n: method(P, cls, n) for n in ('on_receive', 'on_error', 'on_mbap_message')}
        own_parser = [(lv[1], lv[2] + q) for q in find_field(P, cls, lambda t: t.get('c') == NS + 'MbapParser')]

        def ends(name, args, dead):
            s = s0.copy()
            I.hooks['<lock>'] = lambda I, st, v: [(st, NULL if v[0] == 'sptr' and v[1] in dead else v)]
            return [s2 for s2, _ in I.call(s, m[name], lv, args(s), {})]

        def bad(s, rule, text, at=None, name='on_receive'):
            if s.imp:
                R.undec(text)
            else:
                R.violate('C23:' + rule, at or loc_of(m[name]), text)

        def own_(e):
            return (e[2][1], e[2][2]) in own_parser
        data = ('seq', (('sl', ('sb', ('received',), None), 0, T.sym(('received length',), 0, 260)),))

        def rx(s):
            s.mem[('rx',)] = data
            return [I.temp(s, ('rseq', LV(('rx',)), 0, Q.seqlen(data)))]
        for s in ends('on_receive', rx, ()):
            R.ok(1)
            ps = [e for e in s.ev if e[0] == 'parser']
            if len(ps) != 1 or ps[0][1] != 'parse' or not own_(ps[0]) or ps[0][3] != ('bytes', data):
                bad(s, 'not-parsed', 'received bytes do not reach the frame parser of their connection exactly once, complete and in order', ps[0][4] if ps else None)
        for s in ends('on_error', lambda s: [I.temp(s, init_sym(strip_ref(m['on_error']['params'][0]['t']), ('message',)))], ()):
            R.ok(1)
            ps = [e for e in s.ev if e[0] == 'parser']
            if not any(e[1] == 'reset' and own_(e) for e in ps) or any(e[1] == 'parse' for e in ps):
                bad(s, 'not-reset', 'the frame parser of a connection is not emptied by an error of the connection', None, 'on_error')

        def msg(s):
            fs = tuple((n, init_sym(t, ('message', n))) for n, t in fields_of(NS + 'MbapMessage'))
            s.mem[('msg',)] = ('rec', NS + 'MbapMessage', fs)
            return [LV(('msg',))]
        for dead in ((), (CHAN,), (PEER,), (CHAN, PEER)):
            for s in ends('on_mbap_message', msg, dead):
                R.ok(1)
                vs = [e for e in s.ev if e[0] == 'vcall']
                if dead:
                    if vs:
                        bad(s, 'dead', 'a frame is passed on although the channel or the connection is gone', vs[0][4], 'on_mbap_message')
                    if any(e[0] == 'crash' for e in s.ev):
                        bad(s, 'dead', 'a channel or connection that is gone is used', None, 'on_mbap_message')
                    continue
                ok = len(vs) == 1 and vs[0][1] == 'on_mbap' and vs[0][2] == CHAN and vs[0][3][0] == lib.snapshot(I, s, s.mem[('msg',)]) and vs[0][3][1:2] and vs[0][3][1][0] == 'srec' and vs[0][3][1][2] == PEER
                if not ok:
                    log.append(vs)
                    bad(s, 'not-passed-on', 'a frame is not passed to the channel exactly once with the connection it came from', vs[0][4] if vs else None, 'on_mbap_message')
    R.used(I)
    return log


def c22(P, R):
    R.rule('fixpoint over all orders of accepts (success, failure, abort), reads failing, posted handlers and shutdown for maxima 1 and 2: one accept outstanding, open connections at most the maximum, only the oldest ended, count equals the open connections, everything closed after shutdown.' + LONG)
    for cap in (1, 2):
        done(R, cap_world(P, R, cap), 'C22')
    for w in long_worlds(P, R, (long_server,)):
        done(R, w, 'C22')


def c23(P, R):
    R.rule('fixpoint over all orders of sends, close, shutdown, posted handlers and completions of the server connections: one read, bytes delivered to the own listener, writes whole/once/in order, failures reported and closed; and all paths of the connection listener: bytes to its own parser, frames with the own connection to the channel, reset on error.' + LONG)
    forwarding(P, R)
    parser.resets(P, R)
    for w in conn_worlds(P, R):
        done(R, w, 'C23')
    for w in long_worlds(P, R, (long_sends, long_server)):
        done(R, w, 'C23')


def c19(P, R):
    R.rule('fixpoint over all orders of send, close, shutdown, posted handlers and completions of the client connection; every asynchronous operation started, its bytes and handler are observed (written whole/once/not overlapping, one read, failures reported once, late completions ignored, nothing after shutdown).' + LONG)
    done(R, run_client(P, R, 2 if R.tier == 'quick' else 3), 'C19')
    for w in long_worlds(P, R, (long_client,)):
        done(R, w, 'C19')


def c27(P, R):
    R.rule('in every state of the client and server connection fixpoints, the buffer of each outstanding operation is reachable from what its handler owns, not freed or removed, and its bytes are those given when the operation started.' + LONG)
    done(R, run_client(P, R, 2 if R.tier == 'quick' else 3), 'C27')
    for w in conn_worlds(P, R):
        done(R, w, 'C27')
    for w in long_worlds(P, R, (long_client, long_sends)):
        done(R, w, 'C27')


CHECKS = {
    'C22': c22,
    'C23': c23,
    'C19': c19,
    'C27': c27,
}
