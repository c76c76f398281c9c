"""C16, C17: typed client sessions and scheduled polling (end to end from a session
made by the channel; the channel's own queue is the subject of C10-C15)"""
from sa import seqs as Q
from sa import terms as T
from sa.interp import Interp, St, LV, NULL
from sa.report import Broken
from sa.seqs import init_sym, strip_ref, fields_of, ty
from sa import lib
from sa.world import World, O, Q as QUEUE
from checks.client import NS, concrete, method, loc_of, make, param, ident, num
from checks.codec import REQ, RSP, impls, one

CH = ('ch',)
SES = ('g', 'session')
SCH = ('g', 'sched')


def dur_t(ti):
    return ti.get('c') not in (NS + 'IMessage', NS + 'UnitIdentifier') and ti.get('tn') not in ('std::function',) + tuple(Q.PTRS) and not (ti.get('c') or '').startswith(NS)


class Session:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.ch = concrete(P, 'IClientChannel', ['send_request', 'shutdown', 'create_session'])[0]
        self.create = method(P, self.ch, 'create_session')
        self.I = Interp(P, maxvisits=8, generalise=False)
        self.impl = impls(P)
        for f in P.functions.values():
            if f['fn'].get('c') and f['fn']['n'] == 'send_request' and f['fn'].get('c') == self.ch:
                self.I.opaque[f['fn']['u']] = self.o_send
                self.nsend = len(f['params'])
            if f['fn']['n'] == 'parse' and f['fn'].get('c') and len(f['params']) == 2:
                for n in RSP:
                    if n in self.impl and f['fn']['c'] in P.ancestors(self.impl[n][0]):
                        self.I.opaque[f['fn']['u']] = lambda I, st, fn, o, a, e, n=n: self.o_parse(I, st, fn, o, a, e, n)

    def o_send(self, I, st, fn, o, args, e):
        d = {}
        f = I.P.functions[fn['u']]
        for p, a in zip(f['params'], args):
            ti = ty(strip_ref(p['t']))
            v = I.val(st, a)
            if ti.get('c') == NS + 'IMessage':
                d['m'] = lib.snapshot(I, st, I.load(st, a) if isinstance(a, tuple) and a[0] == 'lv' else v)
            elif ti.get('c') == NS + 'UnitIdentifier':
                d['u'] = num(v)
            elif ti.get('tn') == 'std::function':
                d['f'] = v
            else:
                d['d'] = lib.snapshot(I, st, v)
        st.emit('request', d.get('m'), d.get('u'), d.get('d'), d.get('f'), I.loc(e))
        return [(st, None)]

    def o_parse(self, I, st, fn, o, args, e, n):
        k = st.fresh()
        st.emit('parsed', n, I.snap(st, args[0]), I.snap(st, args[1]), k, I.loc(e))
        b = st.copy()
        return [(st, ('exp', 1, ('srec', NS + n, ('parsed', k)))), (b, ('exp', 0, ('srec', NS + 'ModbusException', ('parsed', k))))]

    def world_root(self, unit='unit', dflt='default'):
        """a session made by the channel: [(state, session lvalue)]"""
        I, P = self.I, self.P
        st = St()
        f, rs = make(P, I, st, self.ch, CH)
        out = []
        for s, _ in rs:
            args = []
            for p in self.create['params']:
                t = strip_ref(p['t'])
                ti = ty(t)
                if ti.get('c') == NS + 'UnitIdentifier':
                    args.append(I.temp(s, ident(P, 'UnitIdentifier', T.sym((unit,), 0, 255))))
                else:
                    self.durt = t
                    args.append(I.temp(s, init_sym(t, (dflt,))))
            for x, v in I.call(s, self.create, LV(CH), args, {}):
                if x.exc is not None or not (isinstance(v, tuple) and v[0] in ('ptr', 'sptr')):
                    raise Broken('create_session is not followed')
                x.ev = x.ev
                out.append((x, I.deref(x, v) if v[0] == 'ptr' else v))
        return out

    def duration(self, name):
        return init_sym(self.durt, (name,))

    def overloads(self, cls, name, msg):
        """{number of durations: function} of the overloads taking request type msg"""
        out = {}
        for c in self.P.ancestors(cls):
            for f in self.P.method(c, name):
                ts = [ty(strip_ref(p['t'])) for p in f['params']]
                if f.get('body') is None or not any(t.get('c') == NS + msg for t in ts):
                    continue
                k = sum(1 for t in ts if t.get('c') != NS + msg and t.get('tn') != 'std::function')
                if k not in out:
                    out[k] = f
        return out

    def args(self, s, f, msg, durs, req=('request',), h=('h',)):
        a = []
        durs = list(durs)
        for p in f['params']:
            t = strip_ref(p['t'])
            ti = ty(t)
            if ti.get('c') == NS + msg:
                root = ('rq', s.fresh())
                s.mem[root] = ('rec', NS + msg, tuple((n, init_sym(x, ('fld', req, n))) for n, x in fields_of(NS + msg)))
                a.append(LV(root))
            elif ti.get('tn') == 'std::function':
                a.append(('sfn', h))
                s.facts.preds[('nullfn', h)] = False
            else:
                r = ('dur', s.fresh())
                s.mem[r] = self.duration(durs.pop(0))
                a.append(LV(r))
        return a

    def enter(self, s, f, ses, args):
        return self.I.call(s, f, ses, args, {})

    def drop(self, s, args):
        """the caller's arguments are gone after the call"""
        for a in args:
            if isinstance(a, tuple) and a[0] == 'lv':
                s.dead = s.dead | {a[1]}

    def canonical(self, msg, req=('request',)):
        """the implementation object of the request, as its constructor makes it"""
        cls, ctor = self.impl[msg]
        st = St()
        root = ('canon',)
        st.mem[root] = ('rec', cls, tuple((n, None) for n, _ in fields_of(cls)))
        st.mem[('cm',)] = ('rec', NS + msg, tuple((n, init_sym(x, ('fld', req, n))) for n, x in fields_of(NS + msg)))
        rs = self.I.call(st, ctor, LV(root), [LV(('cm',))], {})
        return [lib.snapshot(self.I, s, s.mem[root]) for s, _ in rs if s.exc is None]

    def drain(self, s, limit=6):
        """run posted handlers in order"""
        q = [e[1] for e in s.ev if e[0] == 'post']
        evs = s.ev
        todo = [(s, q, 0)]
        out = []
        while todo:
            x, q, k = todo.pop()
            if not q or k > limit:
                out.append(x)
                continue
            n0 = len(x.ev)
            for y, _ in self.I.invoke(x, q[0], []):
                more = [e[1] for e in y.ev[n0:] if e[0] == 'post']
                todo.append((y, q[1:] + more, k + 1))
        return out


def trouble(s):
    for e in s.ev:
        if e[0] == 'crash':
            return e[1], e[2]
        if e[0] == 'uaf':
            return 'a destroyed object is used', e[2]
    return None


def judge_request(S, s, msg, ev, unit, dur, loc, what):
    """violations of one recorded request"""
    R = S.R
    m, u, d, f, at = ev[1:]
    out = []
    cls = S.impl[msg][0]
    can = S.canonical(msg)
    if not (isinstance(m, tuple) and m[0] == 'rec'):
        return None
    if m[1] != cls:
        out.append(('wrong-type', '%s: a %s is sent' % (what, m[1])))
    elif m not in can:
        out.append(('wrong-request', '%s: the request sent differs from the one given' % what))
    F = s.facts
    if u is None or not T.is_int(u):
        return None
    if F.decide(T.eq(T.sub(u, T.sym((unit,), 0, 255)))) is not True:
        out.append(('wrong-unit', '%s: the request is sent with another unit identifier than the session\'s' % what))
    if d != lib.snapshot(S.I, s, S.duration(dur)):
        out.append(('wrong-timeout', '%s: the request is sent with %s instead of the %s timeout' % (what, named(d), dur)))
    return out


def named(d):
    if isinstance(d, tuple):
        for k in ('default', 'explicit', 'frequency', 'F1'):
            if repr((k,)) in repr(d) or repr(k) in repr(d):
                return 'the %s duration' % k
    return 'another duration'


def hname(a):
    if isinstance(a, tuple) and a[0] == 'exp':
        return ('value' if a[1] in (1, True) else 'exception'), a[2]
    return None, None


def judge_callback(S, s0, f, msg, key, what, flag):
    """the function given to the channel, called with data and with a failure"""
    R, I = S.R, S.I
    rsp = msg[:-len('Request')] + 'Response'
    n = T.sym(('len', ('answer',)), 0, None)
    data = ('rseq', ('sb', ('answer',), None), 0, n)
    can = S.canonical(msg)
    for kind in ('data', 'TimeoutException', 'ConnectionException', 'MalformedModbusRequestException'):
        s = s0.copy()
        s.ev = ()
        v = ('exp', 1, data) if kind == 'data' else ('exp', 0, ('srec', NS + kind, ('failure',)))
        arg = I.temp(s, v)
        for x, _ in I.invoke(s, f, [arg]):
            R.count('callback_paths')
            if x.imp:
                R.undec('%s: imprecise (%s)' % (what, ', '.join(sorted(map(str, x.imp)))[:100]))
                continue
            t = trouble(x)
            if t:
                flag(key + ':lifetime', t[1], '%s: %s when the answer arrives' % (what, t[0]))
                continue
            if x.exc is not None:
                flag(key + ':escape', what, '%s: an exception escapes when the answer arrives' % what)
                continue
            calls = [e for e in x.ev if e[0] == 'hcall' and e[1] == ('h',)]
            if len(calls) != 1:
                flag(key + ':calls', what, '%s: the response handler is called %d times for %s' % (what, len(calls), kind))
                continue
            c = calls[0]
            k, val = hname(c[2][0]) if c[2] else (None, None)
            if kind == 'data':
                ps = [e for e in x.ev if e[0] == 'parsed']
                mine = [e for e in ps if isinstance(val, tuple) and len(val) > 2 and val[2] == ('parsed', e[4])]
                if not mine:
                    if k is None:
                        R.undec('%s: what the handler gets is not understood' % what)
                    else:
                        flag(key + ':not-parsed', c[3], '%s: the handler is not given the parsed response' % what)
                    continue
                e = mine[0]
                if e[1] != rsp:
                    flag(key + ':wrong-parser', e[5], '%s: the answer is parsed as %s' % (what, e[1]))
                elif k != ('value' if val[1] == NS + rsp else 'exception'):
                    flag(key + ':outcome', c[3], '%s: the outcome of parsing is not handed on' % what)
                elif e[2] not in can and not (isinstance(e[2], tuple) and e[2][0] == 'lv'):
                    flag(key + ':wrong-request-parsed', e[5], '%s: the answer is parsed against another request than the one sent' % what)
                elif not (isinstance(e[3], tuple) and e[3][0] == 'bytes' and e[3][1] == Q.norm(('seq', (('sl', ('sb', ('answer',), None), 0, n),)))):
                    flag(key + ':wrong-bytes', e[5], '%s: other bytes than those received are parsed' % what)
                else:
                    R.ok()
            elif k != 'exception' or not (isinstance(val, tuple) and len(val) > 1 and val[1] == NS + kind):
                flag(key + ':exception', c[3], '%s: %s is not handed to the handler as such' % (what, kind))
            else:
                R.ok()


def c16(P, R):
    typed(P, R)


def typed(P, R, see=None):
    R.rule('For every typed send_request and schedule_request overload of a session made by the channel: exactly one request reaches the channel, it is the implementation object of the given request, carries the session\'s unit identifier and the given timeout (the session\'s default where none is given); the function given to the channel is then interpreted for data and for each failure: the handler is called exactly once, with the parse of exactly the received bytes against that request by the matching response class, or with the failure itself; every object it uses is alive.')
    S = Session(P, R)

    def flag(key, loc, text):
        R.violate('C16:' + key, loc, text)
    roots = S.world_root()
    for s0, ses in roots:
        cls = s0.mem[ses[1]][1] if isinstance(s0.mem.get(ses[1]), tuple) else None
        if cls is None:
            raise Broken('session class')
        base = list(s0.ev)
        for msg in REQ:
            for name in ('send_request', 'schedule_request'):
                ov = S.overloads(cls, name, msg)
                for k, f in sorted(ov.items()):
                    sched = name == 'schedule_request'
                    explicit = k == (2 if sched else 1)
                    what = '%s(%s%s)' % (name, msg, ', timeout' if explicit else '')
                    durs = (['explicit'] if explicit else []) + (['frequency'] if sched else [])
                    s = s0.copy()
                    s.ev = ()
                    a = S.args(s, f, msg, durs)
                    R.count('overloads')
                    for x, _ in S.enter(s, f, ses, a):
                        S.drop(x, a)
                        if x.exc is not None:
                            flag('%s:throws' % name, loc_of(f), '%s throws' % what)
                            continue
                        for y in S.drain(x):
                            R.count('paths')
                            t = trouble(y)
                            if t and not y.imp:
                                flag('%s:lifetime' % name, t[1], '%s: %s' % (what, t[0]))
                                continue
                            if y.imp:
                                R.undec('%s: imprecise (%s)' % (what, ', '.join(sorted(map(str, y.imp)))[:100]))
                                continue
                            if see:
                                see(S.I, y)
                            ev = [e for e in y.ev if e[0] == 'request']
                            if len(ev) != 1:
                                flag('%s:requests' % name, loc_of(f), '%s: %d requests reach the channel' % (what, len(ev)))
                                continue
                            j = judge_request(S, y, msg, ev[0], 'unit', 'explicit' if explicit else 'default', loc_of(f), what)
                            if j is None:
                                R.undec('%s: the request sent is not understood' % what)
                                continue
                            for key, text in j:
                                flag('%s:%s' % (name, key), ev[0][5], text)
                            if not j:
                                R.ok()
                            judge_callback(S, y, ev[0][4], msg, name, what, flag)
    R.used(S.I)


READS = ['ReadCoilsRequest', 'ReadDiscreteInputsRequest', 'ReadHoldingRegistersRequest', 'ReadInputRegistersRequest']


class Polling:
    """a scheduled request under its most general environment.

    ghost: ('poll', labels of the posted handlers, operations used, running,
            current frequency, outstanding (function, of the current run),
            timer of the current run, session shut down)"""

    def __init__(self, P, R, msg, ops):
        self.S = Session(P, R)
        self.P, self.R, self.msg, self.ops = P, R, msg, ops
        self.I = self.S.I

    def init(self):
        out = []
        for s0, ses in self.S.world_root():
            cls = s0.mem[ses[1]][1]
            f = self.S.overloads(cls, 'schedule_request', self.msg).get(2)
            if f is None:
                raise Broken('schedule_request(%s)' % self.msg)
            s0.ev = ()
            a = self.S.args(s0, f, self.msg, ['explicit', 'frequency'])
            for x, v in self.I.call(s0, f, ses, a, {}):
                self.S.drop(x, a)
                if x.exc is not None or not (isinstance(v, tuple) and v[0] == 'ptr'):
                    raise Broken('schedule_request is not followed')
                x.mem[SES] = ses
                x.mem[SCH] = v[1]
                self.cls = x.mem[v[1][1]][1]
                n = sum(1 for e in x.ev if e[0] == 'post')
                x.mem[QUEUE] = tuple(e[1] for e in x.ev if e[0] == 'post')
                # of the handlers posted by schedule_request one starts the polling
                x.mem[O] = ('poll', ('begin',) * n, (), 0, 'frequency', (), None, 0)
                x.ev = ()
                out.append(x)
        self.m = {n: method(self.P, self.cls, n) for n in ('start', 'stop', 'set_frequency', 'is_running', 'get_frequency')}
        self.shutdown = method(self.P, cls, 'shutdown')
        return out

    def actions(self, w, s):
        I = self.I
        o = s.mem[O]
        out = []
        sch = s.mem[SCH]
        used = o[2]
        begun = 'begin' not in o[1]
        if begun and len(o[1]) < 2:
            for nm in ('start', 'stop'):
                if used.count(nm) < self.ops and not (nm == 'start' and o[7]):
                    out.append((nm, lambda x, nm=nm: I.call(x, self.m[nm], sch, [], {})))
            if 'set_frequency' not in used:
                def setf(x):
                    r = ('dur', x.fresh())
                    x.mem[r] = self.S.duration('F1')
                    res = I.call(x, self.m['set_frequency'], sch, [LV(r)], {})
                    for y, _ in res:
                        y.dead = y.dead | {r}
                    return res
                out.append(('set_frequency', setf))
            if not o[7]:
                out.append(('session shutdown', lambda x: I.call(x, self.shutdown, s.mem[SES], [], {})))
        out += w.run_posted(s)
        out += w.fire_timers(s)
        for i, (f, cur) in enumerate(o[5]):
            for kind in ('data', 'TimeoutException'):
                def answer(x, f=f, kind=kind):
                    v = ('exp', 1, ('rseq', ('sb', ('answer',), None), 0, T.sym(('len', ('answer',)), 0, None))) if kind == 'data' else ('exp', 0, ('srec', NS + kind, ('failure',)))
                    return I.invoke(x, f, [I.temp(x, v)])
                out.append(('%s for request #%d' % ('response' if kind == 'data' else 'timeout', i), answer))
        return out

    def observe(self, w, label, pre, s):
        o = s.mem[O]
        labels, used, running, freq, outst, timer, down = list(o[1]), o[2], o[3], o[4], list(o[5]), o[6], o[7]
        loc = loc_of(self.m['start'])
        sends = [e for e in s.ev if e[0] == 'request']
        starts = [e for e in s.ev if e[0] == 'start']
        hcalls = [e for e in s.ev if e[0] == 'hcall' and e[1] == ('h',)]
        posts = sum(1 for e in s.ev if e[0] == 'post')
        for e in s.ev:
            # cancelled timers do not count any more
            if e[0] == 'cancel' and e[1] is not None and e[1] == timer:
                timer = None
        op = None
        spawned = None
        if label in ('start', 'stop', 'set_frequency', 'session shutdown'):
            used = used + (label,)
            spawned = label
            if label == 'session shutdown':
                down = 1
            op = label if not posts else None
        elif label == 'run posted handler':
            op = labels.pop(0)
            if op == 'begin':
                # the polling begins in whichever of these handlers sends the request
                op = 'start' if sends else 'nothing'
                spawned = 'begin'
                if op == 'nothing' and 'begin' not in labels and not posts and not running:
                    w.flag(s, ('C17', 'not-started'), 'scheduling a request does not start its polling', loc)
            elif op == 'session shutdown':
                spawned = 'stop'
                if not posts:
                    op = 'stop'
            else:
                spawned = op
                if posts:
                    op = 'nothing'
        if spawned is not None:
            labels += ['stop' if spawned == 'session shutdown' and label == 'run posted handler' else spawned] * posts
        elif posts:
            labels += ['nothing'] * posts
        expect_send = False
        expect_timer = False
        if op == 'start':
            if not running:
                running, expect_send = 1, True
                outst = [(f, 0) for f, _ in outst]
                timer = None
        elif op == 'stop':
            running = 0
            outst = [(f, 0) for f, _ in outst]
        elif op == 'set_frequency':
            freq = 'F1'
        elif 'fires #' in label:
            t = pre.mem[('g', 'timers')][int(label.split('#')[1])]
            cur = t[3] == 'armed' and t[0] == timer
            if cur:
                timer = None
                expect_send = bool(running)
        elif label.startswith('response') or label.startswith('timeout'):
            i = int(label.split('#')[1])
            f, cur = outst.pop(i)
            if len(hcalls) != 1:
                w.flag(s, ('C17', 'handler-calls'), 'a %s calls the handler %d times' % (label.split()[0], len(hcalls)), hcalls[0][3] if hcalls else loc)
            expect_timer = bool(running and cur)
        if not (label.startswith('response') or label.startswith('timeout')) and hcalls:
            w.flag(s, ('C17', 'spurious-handler'), 'the handler is called during "%s"' % label, hcalls[0][3])
        at = sends[0][5] if sends else loc
        if len(sends) > (1 if expect_send else 0):
            w.flag(s, ('C17', 'extra-request'), '%s sends a request%s' % (label if not label.startswith('run') else 'the posted %s' % op, ' although the polling is stopped' if not running else ' besides the running poll'), at)
        if expect_send and not sends:
            w.flag(s, ('C17', 'no-request'), 'no request is sent on %s' % (label if not label.startswith('run') else 'the posted %s' % op), loc)
        for e in sends:
            j = judge_request(self.S, s, self.msg, e, 'unit', 'explicit', loc, 'polling')
            for key, text in j or ():
                w.flag(s, ('C17', key), text, e[5])
            outst.append((e[4], 1 if running else 0))
        # another timer in the same run would be a second poll
        if len(starts) > (1 if expect_timer else 0):
            w.flag(s, ('C17', 'extra-timer'), 'a polling timer is started on %s%s' % (label if not label.startswith('run') else 'the posted %s' % op, ' although the polling is stopped' if not running else ' besides the running poll'), starts[-1][4])
        if expect_timer and not starts:
            w.flag(s, ('C17', 'no-timer'), 'after the %s no polling timer is started: the polling ends' % label.split()[0], loc)
        for e in starts:
            if e[2] != lib.snapshot(self.I, s, self.S.duration(freq)):
                w.flag(s, ('C17', 'wrong-period'), 'the polling timer runs for %s instead of the frequency set' % named(e[2]), e[4])
            timer = e[1]
        if len(outst) > 3:
            return []
        s.mem[O] = ('poll', tuple(labels), used, running, freq, tuple(outst), timer, down)
        return [s]

    def final(self, w, label, pre, s):
        o = s.mem[O]
        ts = s.mem.get(('g', 'timers'), ())
        armed = [t for t in ts if t[3] == 'armed']
        if o[3] == 0 and armed and 'begin' not in o[1]:
            w.flag(s, ('C17', 'timer-after-stop'), 'a polling timer keeps running after the polling was stopped', loc_of(self.m['stop']))
        if not o[1] and o[7] and o[3] and 'begin' not in o[1]:
            w.flag(s, ('C17', 'shutdown'), 'the polling keeps running after its session was shut down', loc_of(self.shutdown))
        if 'begin' in o[1]:
            return
        x = s.copy()
        x.ev = ()
        for y, v in self.I.call(x, self.m['is_running'], s.mem[SCH], [], {}):
            if T.is_int(v) and y.exc is None:
                d = y.facts.decide(T.eq(T.sub(v, o[3]))) if not isinstance(v, int) else v == o[3]
                if d is False:
                    w.flag(y, ('C17', 'is-running'), 'is_running() is %s although the polling is%s running' % (bool(v) if isinstance(v, int) else '?', '' if o[3] else ' not'), loc_of(self.m['is_running']))
        x = s.copy()
        x.ev = ()
        for y, v in self.I.call(x, self.m['get_frequency'], s.mem[SCH], [], {}):
            if y.exc is None and lib.snapshot(self.I, y, self.I.val(y, v)) != lib.snapshot(self.I, y, self.S.duration(o[4])):
                w.flag(y, ('C17', 'get-frequency'), 'get_frequency() is not the frequency set', loc_of(self.m['get_frequency']))


class Many:
    """several scheduled requests of one session.

    ghost: ('many', per scheduled request (object, function of the outstanding
            request, timer, state), session shut down); state: 0 scheduled,
            1 polling, 2 stopped"""

    def __init__(self, P, R, n):
        self.S = Session(P, R)
        self.P, self.R, self.n = P, R, n
        self.I = self.S.I

    def init(self):
        out = []
        for s, ses in self.S.world_root():
            s.mem[SES] = ses
            self.cls = s.mem[ses[1]][1]
            s.mem[O] = ('many', (), 0)
            s.ev = ()
            out.append(s)
        self.shutdown = method(self.P, self.cls, 'shutdown')
        return out

    def op(self, s, k, name):
        obj = s.mem[O][1][k][0]
        f = method(self.P, s.mem[obj[1][1]][1], name)
        return self.I.call(s, f, obj[1], [], {})

    def actions(self, w, s):
        I = self.I
        _, sch, down = s.mem[O]
        out = []
        k = len(sch)
        if k < self.n and not down:
            msg = READS[k % len(READS)]

            def schedule(x, k=k, msg=msg):
                f = self.S.overloads(self.cls, 'schedule_request', msg).get(2)
                if f is None:
                    raise Broken('schedule_request(%s)' % msg)
                a = self.S.args(x, f, msg, ['explicit%d' % k, 'frequency%d' % k], ('request', k), ('h', k))
                rs = I.call(x, f, x.mem[SES], a, {})
                for y, v in rs:
                    self.S.drop(y, a)
                    g = y.mem[O]
                    y.mem[O] = g[:1] + (g[1] + ((I.val(y, v), None, None, 1),),) + g[2:]
                return rs
            out.append(('schedule #%d' % k, schedule))
        if not down:
            out.append(('session shutdown', lambda x: I.call(x, self.shutdown, x.mem[SES], [], {})))
        for k, (obj, f, t, state) in enumerate(sch):
            if obj[0] != 'ptr':
                continue
            for name in ('stop', 'start'):
                out.append(('%s #%d' % (name, k), lambda x, k=k, name=name: self.op(x, k, name)))
            if f is not None:
                for kind in ('data', 'TimeoutException'):
                    def answer(x, f=f, kind=kind):
                        v = ('exp', 1, ('rseq', ('sb', ('answer',), None), 0, T.sym(('len', ('answer',)), 0, None))) if kind == 'data' else ('exp', 0, ('srec', NS + kind, ('failure',)))
                        return I.invoke(x, f, [I.temp(x, v)])
                    out.append(('%s for request #%d' % ('response' if kind == 'data' else 'timeout', k), answer))
        out += w.run_posted(s)
        out += w.fire_timers(s)
        return out

    def named(self, s, what, v):
        for k in range(self.n):
            if v == lib.snapshot(self.I, s, self.S.duration('%s%d' % (what, k))):
                return k
        return None

    def observe(self, w, label, pre, s):
        _, sch, down = s.mem[O]
        sch = [list(x) for x in sch]
        at = label.split('#')
        k0 = int(at[1]) if len(at) > 1 and 'fires' not in label else None
        busy = bool(pre.mem.get(QUEUE))
        loc = loc_of(self.shutdown)
        if label.startswith('stop'):
            sch[k0][3] = 2
        elif label.startswith('start') and not down:
            sch[k0][3] = 1
        elif label == 'session shutdown':
            down = 1
            for x in sch:
                x[3] = 2
        elif 'for request' in label:
            sch[k0][1] = None
            hs = [e for e in s.ev if e[0] == 'hcall']
            if [e[1] for e in hs] != [('h', k0)]:
                w.flag(s, ('C17', 'other-handler'), 'the answer of scheduled request #%d is not given to its own handler exactly once' % k0, hs[0][3] if hs else loc)
        for e in s.ev:
            if e[0] == 'request':
                k = self.named(s, 'explicit', e[3])
                if k is None or k >= len(sch):
                    w.flag(s, ('C17', 'wrong-timeout'), 'a poll is sent with the timeout of no scheduled request', e[5])
                    continue
                if sch[k][3] == 2 and not busy:
                    w.flag(s, ('C17', 'sent-after-stop'), 'a scheduled request is sent although it was stopped or its session shut down (several scheduled requests)', e[5])
                sch[k][1] = e[4]
            elif e[0] == 'start':
                k = self.named(s, 'frequency', e[2])
                if k is None or k >= len(sch):
                    w.flag(s, ('C17', 'wrong-period'), 'a polling timer runs for the frequency of no scheduled request', e[4])
                    continue
                if 'for request' in label and k != k0:
                    w.flag(s, ('C17', 'wrong-period'), 'the polling timer of a scheduled request runs for the frequency of another one', e[4])
                if sch[k][3] == 2 and not busy:
                    w.flag(s, ('C17', 'timer-after-stop'), 'a polling timer is started although the scheduled request was stopped or its session shut down (several scheduled requests)', e[4])
                sch[k][2] = e[1]
        s.mem[O] = ('many', tuple(tuple(x) for x in sch), down)
        return [s]

    def final(self, w, label, pre, s):
        _, sch, down = s.mem[O]
        if s.mem.get(QUEUE):
            return
        loc = loc_of(self.shutdown)
        armed = {t[0] for t in s.mem.get(('g', 'timers'), ()) if t[3] == 'armed'}
        for k, (obj, f, t, state) in enumerate(sch):
            if state == 2 and t in armed:
                w.flag(s, ('C17', 'timer-after-stop'), 'the polling timer of a scheduled request keeps running after it was stopped or its session shut down (several scheduled requests)', loc)
            if state == 1 and f is None and t not in armed and not down:
                w.flag(s, ('C17', 'polling-ends'), 'a scheduled request that was not stopped is not polled any more (several scheduled requests)', loc)
            if obj[0] == 'ptr' and state in (1, 2):
                x = s.copy()
                x.ev = ()
                for y, v in self.op(x, k, 'is_running'):
                    if isinstance(v, int) and y.exc is None and bool(v) != (state == 1):
                        w.flag(y, ('C17', 'is-running'), 'is_running() of one of several scheduled requests is %s although it is%s running' % (bool(v), '' if state == 1 else ' not'), loc)


def many_scripts(n):
    post, shut = ('run posted', None), ('session shutdown', None)
    add = [('schedule', None)] + [post] * 3
    answer = [('response for request #%d$' % k, None) for k in range(n)]
    late = [('timeout for request #%d$' % k, None) for k in range(n)]
    fire = [('timer fires', None)]
    yield add * n + [shut] + [post] * 3 + answer + fire * n
    yield add * n + answer + [shut] + [post] * 3 + fire * n + late
    yield add * n + answer + (fire + late[:1] + fire + answer) * 2 + [shut] + [post] * 3 + answer + fire * n
    yield add * n + answer[::2] + [shut] + [post] * 3 + answer[1::2] + fire * n
    for k in sorted({0, 1, n // 2, n - 1}):
        yield add * n + [('stop #%d$' % k, None), post, post] + answer + fire * n + answer + [('start #%d$' % k, None), post, post] + answer + [shut] + [post] * 3 + answer + fire * n
        yield add * n + [('stop #%d$' % k, None), post, post, shut] + [post] * 3 + answer + fire * n
    yield [('schedule', None)] * n + [post] * (3 * n) + answer + [shut] + [post] * 3 + fire * n + answer
    yield add * (n // 2) + answer + fire * n + add * (n - n // 2) + answer + [shut] + [post] * 3 + fire * n + answer


def poll_scripts(n):
    post, fire = ('run posted', None), ('timer fires', None)
    rs, to = ('response for', None), ('timeout for', None)
    yield [post] * 4 + [rs, fire] * n
    yield [post] * 4 + [to, fire] * n
    yield [post] * 4 + [rs, fire, to, fire] * (n // 2) + [('set_frequency', None), post, post] + [rs, fire] * n
    yield [post] * 4 + [rs, ('stop', None), post, post, ('start', None), post, post] * n
    yield [post] * 4 + [('stop', None), post, post, ('start', None), post, post, rs, rs, fire] * n
    yield [post] * 4 + [rs, fire] * n + [('stop', None), post, post, rs, fire]
    yield [post] * 4 + [rs, fire] * n + [('session shutdown', None), post, post, post, rs, fire]


def long_polls(P, R):
    q = R.tier == 'quick'
    for n in ((4, 10) if q else (4, 9, 24)):
        for script in many_scripts(n):
            p = Many(P, R, n)
            p.I.maxvisits = 2 * n + 8
            w = World(p.I, R, [CH, SES], p.actions, p.observe, final=p.final)
            w.follow(p.init(), script, 2)
            R.used(p.I)
            R.count('long_histories')
            yield w
    n = 20 if q else 60
    for msg in READS[:1] if q else READS:
        for script in poll_scripts(n):
            p = Polling(P, R, msg, n)
            w = World(p.I, R, [CH, SES, SCH], p.actions, p.observe, final=p.final)
            w.follow(p.init(), script, 2)
            R.used(p.I)
            R.count('long_histories')
            yield w


def c17(P, R):
    R.rule('Typestate of every scheduled request type under its most general environment (start, stop, set_frequency, session shutdown, responses, timeouts, timer expiries - also those already queued when cancelled - in every order): one poll runs exactly while started; each start of a stopped poll and each expiry of the current polling timer sends the request once with its timeout; each answer reaches the handler once and, for the current run, starts one timer with the current frequency; answers and expiries of earlier runs start nothing; stop and session shutdown leave no timer and send nothing.')
    deep = R.tier != 'quick'
    for msg in READS:
        p = Polling(P, R, msg, 2 if deep else 1)
        init = p.init()
        w = World(p.I, R, [CH, SES, SCH], p.actions, p.observe, final=p.final, limit=12000 if deep else 4000)
        w.explore(init)
        w.report('C17')
        R.ok(sum(w.nact.values()))
        R.used(p.I)
    R.rule('The same holds along long histories, and for each of several scheduled requests of one session.')
    for w in long_polls(P, R):
        w.report('C17')
        R.ok(sum(w.nact.values()))


CHECKS = {'C16': c16, 'C17': c17}
