"""C38: what the configuration given to channels and the manager reaches;
C35: logging"""
from sa import lib
from sa import terms as T
from sa.interp import Interp, St, LV, NULL, is_lv
from sa.report import Broken
from sa.seqs import init_sym, strip_ref, fields_of, ty
from checks.client import NS, concrete, method, loc_of, make
from checks.values import Obj


def mentions(v, x):
    if v == x:
        return True
    if isinstance(v, T.Lin):
        return any(mentions(T.ATOMS[i], x) for i, _ in v.t)
    if isinstance(v, tuple):
        return any(mentions(y, x) for y in v)
    return False


def literals(v):
    """string literals within a term"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'str' and isinstance(v[1], str):
            return [v[1]]
        return [z for y in v for z in literals(y)]
    return []


def endpoint(v):
    """(address term, port term) of an asio endpoint value, None when unknown"""
    if not isinstance(v, tuple):
        return None
    if v[0] == 'obj' and v[1] == 'asio::ip::basic_endpoint':
        a = v[3]
        if not a:
            return ('any', 0)
        if len(a) == 2:
            return (a[0], a[1])
        if len(a) == 1:
            return endpoint(a[0])
    if v[0] == 'opq' and isinstance(v[1], tuple) and len(v[1]) == 3 and v[1][0] in ('address', 'port'):
        e = endpoint(v[1][1])
        if e is None:
            return None
        return (v[1][2], e[1]) if v[1][0] == 'address' else (e[0], v[1][2])
    return None


def walk(v):
    if isinstance(v, tuple):
        yield v
        for y in v:
            yield from walk(y)


class Cfg:
    def __init__(self, prop, P, R):
        self.X = Obj(prop, P, R)
        self.P, self.R, self.I = P, R, self.X.I

    def client(self):
        from checks.conn import Client, CONN
        P, X = self.P, self.X
        C = Client(P, self.R)
        X.I = self.I = C.I
        f = method(P, C.cls, 'send')
        loc = loc_of(f)
        n = 0
        for s in C.init():
            host, port, adapter = self.given(C, C.cls)
            root, v = C.arg_bytes(s, 0)
            for x, _ in C.I.call(s, f, LV(CONN), [C.I.temp(s, v)], {}):
                if not X.good(x, f, 'a send'):
                    continue
                res = [e for e in x.ev if e[0] == 'aio-args' and e[1] == 'resolve']
                if not res:
                    continue
                n += 1
                self.R.ok()
                q = res[0][3]
                if not mentions(q, host):
                    X.bad('host', f, 'the client does not resolve the host name of its endpoint')
                ports = [t[1] for t in walk(q) if len(t) > 1 and t[0] == 'to_string']
                if any(X.differs(x, p, port) for p in ports if T.is_int(p)) or not mentions(q, port):
                    X.bad('port', f, 'the client does not resolve the port of its endpoint')
                b = [e for e in x.ev if e[0] == 'asio' and e[1] == 'bind']
                empty = x.facts.preds.get(('emptystr', adapter))
                if not b:
                    if empty is not True:
                        X.bad('adapter', f, 'the client connects without binding to the adapter it was given')
                else:
                    ep = endpoint(b[-1][3][0])
                    if ep is None:
                        X.undec.add('the endpoint bound to is not followed')
                    else:
                        used = mentions(ep[0], adapter)
                        if empty is not True and not used:
                            X.bad('adapter', f, 'the client does not bind to the adapter it was given')
                        if empty is not False and used:
                            X.bad('no-adapter', f, 'the client binds to an empty adapter name')
                        if empty is True and [z for z in literals(ep[0]) if z not in ('0.0.0.0', '')]:
                            X.bad('no-adapter', f, 'the client binds to %s when no adapter was given' % literals(ep[0])[0])
                        if X.differs(x, ep[1], 0):
                            X.bad('local-port', f, 'the client binds to a fixed local port')
                h = [e for e in x.ev if e[0] == 'aio' and e[2] == 'resolve'][0]
                r = ('opq', ('resolved',), None)
                y0 = x.copy()
                y0.ev = ()
                for y, _ in C.I.invoke(y0, h[4], [('ec', None), r], {}):
                    self.R.ok()
                    if not X.good(y, f, 'the resolve handler'):
                        continue
                    c = [e for e in y.ev if e[0] == 'aio-args' and e[1] == 'connect']
                    if not c:
                        X.bad('connect', f, 'the client does not connect to what its endpoint was resolved to')
                    elif not mentions(c[0][3], r):
                        X.bad('connect', f, 'the client connects to something else than what its endpoint was resolved to')
                    elif b and is_lv(c[0][2]) and c[0][2] != b[-1][2]:
                        X.bad('socket', f, 'the client connects another socket than the one it bound')
        self.R.used(X.I)
        if n == 0:
            X.undec.add('no connection attempt was found')

    def given(self, C, cls):
        """the terms of the endpoint and the adapter given to the constructor"""
        f = [f for f in self.P.functions.values() if f['fn'].get('c') == cls and 'inits' in f and f['params']][0]
        st = St()
        e = ('srec', NS + 'Ipv4Endpoint', ('arg', NS + 'Ipv4Endpoint'))
        st.mem[('e',)] = e
        out = []
        for n in ('get_hostname', 'get_port'):
            for x, v in self.I.call(st, method(self.P, NS + 'Ipv4Endpoint', n, 0), LV(('e',)), [], {}):
                out.append(self.I.val(x, v))
        ad = None
        for p in f['params']:
            if ty(strip_ref(p['t'])).get('tn') == 'std::basic_string':
                ti = ty(strip_ref(p['t']))
                ad = ('str', ('arg', ti.get('c') or ti['s']))
        return out[0], out[1], ad

    def server(self):
        P, X = self.P, self.X
        cls = concrete(P, 'IServer', ['start', 'shutdown'])[0]
        I = Interp(P, maxvisits=8, generalise=False)
        X.I = I
        st = St()
        f, rs = make(P, I, st, cls, ('srv',))
        self.I = I
        host, port, _ = self.given(None, cls)
        n = 0
        for s, _ in rs:
            if s.exc is not None:
                continue
            if not X.good(s, f, 'construction'):
                continue
            n += 1
            self.R.ok()
            eps = []
            for e in s.ev:
                if e[0] == 'new' and 'acceptor' in str(e[1]):
                    eps += [endpoint(a) for a in e[2] if endpoint(a)]
                if e[0] == 'asio' and e[1] == 'bind':
                    eps.append(endpoint(e[3][0]))
            # a server that opens its acceptor later is followed into start
            if not eps:
                X.undec.add('where the server listens is not followed')
                continue
            for a, p in eps:
                if not mentions(a, host):
                    X.bad('listen-host', f, 'the server does not listen at the address of its endpoint')
                z = s.copy()
                if T.is_int(p) and z.facts.add(T.ge(T.sub(65535, port))) and z.facts.decide(T.eq(T.sub(p, port))) is False:
                    X.bad('listen-port', f, 'the server does not listen at the port of its endpoint')
                elif T.is_int(p) and z.facts.decide(T.eq(T.sub(p, port))) is None:
                    bad = None
                    from sa.subst import subst
                    for k in (1, 502, 8502, 32768, 65535):
                        q = subst(p, {port.t[0][0]: k}) if not isinstance(p, int) else p
                        if isinstance(q, int) and q != k:
                            bad = k
                    if bad is not None:
                        X.bad('listen-port', f, 'the server does not listen at port %d of its endpoint' % bad)
        self.R.used(X.I)
        if n == 0:
            X.undec.add('no server was made')

    def threads(self):
        P, X = self.P, self.X
        I = Interp(P, maxvisits=8, generalise=False)
        X.I = I
        n = 0
        for f in P.method(NS + 'IModbusManager', 'create') or []:
            s = St()
            args, k = [], None
            for p in f['params']:
                t = strip_ref(p['t'])
                v = init_sym(t, ('given', len(args)))
                if T.is_int(v):
                    k = v
                if isinstance(v, tuple) and v[0] == 'sptr':
                    s.facts.preds[('null', v[1])] = False
                args.append(v)
            for case in ((0, 1), (1, None)) if k is not None else (None,):
                x = s.copy()
                if k is not None and not x.facts.add(T.eq(k) if case[0] == 0 else T.ge(T.sub(k, 1))):
                    continue
                for y, v in I.call(x, f, None, list(args), {}):
                    if not X.good(y, f, 'create'):
                        continue
                    tp = [e for e in y.ev if e[0] == 'new' and 'ThreadPool' in str(e[1])]
                    if not tp:
                        X.undec.add('the threads of the manager are not followed')
                        continue
                    n += 1
                    self.R.ok()
                    cnt = next((a for a in tp[0][2] if T.is_int(a)), None)
                    if cnt is None:
                        X.undec.add('the number of threads is not followed')
                        continue
                    if k is not None and case[0] == 1:
                        d = X.differs(y, cnt, k)
                        if d:
                            X.bad('threads', f, 'the manager does not use the number of threads given')
                        elif d is None:
                            X.undec.add('the number of threads is not decided')
                    else:
                        z = y.facts.copy()
                        if z.add(T.ge(T.sub(0, cnt))) and y.facts.decide(T.ge(T.sub(cnt, 1))) is not True:
                            X.bad('no-thread', f, 'the manager may run without a thread')
        self.R.used(X.I)
        if n == 0:
            X.undec.add('no manager was made')


def c38(P, R):
    R.rule('Where the configuration goes: the client resolves the host name and port of its endpoint, connects its socket to what they were resolved to, and binds it to the adapter it was given (to no particular address when there is none, and never to a fixed port); the server listens at the address and port of its endpoint; the manager runs the number of threads given, and at least one. Symbolic endpoint, adapter and thread count; every path.')
    C = Cfg('C38', P, R)
    C.client()
    C.server()
    C.threads()
    C.X.finish()



# ------------------------------------------------------------------ logging
SPD = {'trace': 0, 'debug': 1, 'info': 2, 'warn': 3, 'err': 4, 'error': 4, 'critical': 5}


class Log:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.X = Obj('C35', P, R)
        self.I = self.X.I
        e = P.enums.get(NS + 'LoggingLevel')
        if e is None:
            raise Broken('no LoggingLevel')
        self.levels = {k: int(v) for k, v in e['v']}

    def run(self, f, o=None):
        st = St()
        st.mem[('l',)] = ('srec', NS + 'Logger', ('l',))
        args = []
        for k, p in enumerate(f['params']):
            v = init_sym(p['t'], ('a', k))
            if isinstance(v, tuple) and v[0] == 'sptr':
                st.facts.preds[('null', v[1])] = False
            st.mem[('a', k)] = v
            args.append(LV(('a', k)) if ty(p['t'])['k'] in ('ref', 'rref') else v)
        vals = [st.mem[('a', k)] for k in range(len(args))]
        for x, v in self.I.call(st, f, LV(('l',)), args, {}):
            # what spdlog does itself is outside
            x.imp = frozenset(i for i in x.imp if not str(i).startswith('external spdlog'))
            if self.X.good(x, f, 'a call'):
                self.R.ok()
                yield x, v, vals

    def own(self, o):
        return o == ('fld', ('l',), 'm_logger_impl') or isinstance(o, tuple) and mentions(o, ('l',))

    def ext(self, x, n):
        return [e for e in x.ev if e[0] == 'ext' and e[1].startswith('spdlog::logger::') and (n is None or e[1].split('::')[-1] == n)]

    def methods(self):
        n = 0
        for f in self.P.functions.values():
            if f['fn'].get('c') != NS + 'Logger' or f['fn']['n'] not in SPD or f.get('body') is None or not f['params']:
                continue
            n += 1
            for x, v, vals in self.run(f):
                cs = [e for e in self.ext(x, None) if e[1].split('::')[-1] in SPD or e[1].endswith('::log')]
                name = f['fn']['n']
                if len(cs) != 1:
                    self.X.bad('calls', f, 'Logger::%s logs %d messages' % (name, len(cs)))
                    continue
                e = cs[0]
                lvl, args = SPD.get(e[1].split('::')[-1]), list(e[3])
                if e[1].endswith('::log'):
                    lvl = args.pop(0) if T.is_int(args[0]) else args.pop(1) if len(args) > 1 else None
                if not self.own(e[2]):
                    self.X.undec.add('the target of Logger::%s is not followed' % name)
                elif T.is_int(lvl) and lvl != SPD[name]:
                    self.X.bad('level', f, 'Logger::%s logs at another level' % name)
                want = vals[1:] if len(vals) > 1 else vals
                if len(vals) > 1:
                    if args and not mentions(args[0], vals[0]) and not any(z[0] == 'new' and mentions(z[2], vals[0]) for z in x.ev):
                        self.X.bad('format', f, 'Logger::%s does not pass on its format' % name)
                    args = args[1:]
                if [lib.snapshot(self.I, x, a) for a in want] != args and all(not (isinstance(a, tuple) and a[0] == 'opq' and a[1] != w[1]) for a, w in zip(args, want) if isinstance(w, tuple)):
                    self.X.bad('arguments', f, 'Logger::%s does not pass on its arguments' % name)
        if n < 6:
            self.X.undec.add('%d logging methods' % n)

    def logger_of(self, x, v):
        """the spdlog logger inside the Logger returned"""
        v = self.I.val(x, v)
        if not (isinstance(v, tuple) and v[0] == 'ptr'):
            return None
        r = self.I.load(x, v[1])
        if not (isinstance(r, tuple) and r[0] == 'rec' and len(r[2]) == 1):
            return None
        return r[2][0][1]

    def same_obj(self, o, impl):
        if impl[0] == 'ptr':
            return o == (impl[1][1], impl[1][2]) or o == impl[1]
        if impl[0] == 'sptr':
            return o == impl[1]
        return False

    def level(self, f, x, impl, given, what):
        sets = [e for e in self.ext(x, 'set_level') if self.same_obj(e[2], impl)]
        others = [e for e in self.ext(x, 'set_level') if not self.same_obj(e[2], impl)]
        if others:
            self.X.bad('level-of-another', f, '%s changes the level of another logger' % what)
        if not sets:
            self.X.bad('no-level', f, '%s does not set the level it was given' % what)
            return
        got = sets[-1][3][0]
        for n, v in self.levels.items():
            z = x.copy()
            if not z.facts.add(T.eq(T.sub(given, v))):
                continue
            self.R.ok()
            want = SPD.get(n.lower())
            if want is None or not T.is_int(got):
                self.X.undec.add('level %s of %s' % (n, what))
            elif z.facts.decide(T.eq(T.sub(got, want))) is False:
                self.X.bad('mapping', f, '%s logs level %s as another level' % (what, n))
            elif z.facts.decide(T.eq(T.sub(got, want))) is None:
                self.X.undec.add('level %s of %s' % (n, what))

    def whole(self, x, first, last):
        """does [first, last) cover a whole sequence? (two calls of sinks() have their own size symbol)"""
        if T.is_int(first) and x.facts.decide(T.eq(first)) is False:
            return False
        if not T.is_int(first) or x.facts.decide(T.eq(first)) is None or not T.is_int(last):
            return None
        if isinstance(last, int):
            return False
        k = last.t[0] if len(last.t) == 1 else None
        if k and k[1] == 1 and T.ATOMS[k[0]][0] in ('len', 'size') and 'sinks' in repr(T.ATOMS[k[0]]):
            return last.c == 0
        return None

    def clones(self):
        for f in self.P.method(NS + 'Logger', 'clone') or []:
            for x, v, vals in self.run(f):
                impl = self.logger_of(x, v)
                if impl is None or impl[0] != 'ptr':
                    self.X.undec.add('what Logger::clone returns is not followed')
                    continue
                mk = [e for e in x.ev if e[0] == 'new' and e[1] == 'spdlog::logger']
                if len(mk) != 1:
                    self.X.undec.add('how Logger::clone makes its logger is not followed')
                    continue
                a = mk[0][2]
                if not mentions(a, vals[0]):
                    self.X.bad('name', f, 'Logger::clone does not use the name given')
                sk = [e for e in self.ext(x, 'sinks') if self.own(e[2])]
                its = [z for z in a if isinstance(z, tuple) and z[0] == 'it']
                if not sk:
                    self.X.bad('sinks', f, 'Logger::clone does not keep the sinks of the original')
                elif len(its) == 2:
                    k = self.whole(x, its[0][2], its[1][2])
                    if k is False:
                        self.X.bad('sinks', f, 'Logger::clone does not keep all sinks of the original')
                    elif k is None:
                        self.X.undec.add('which sinks Logger::clone keeps')
                elif any(isinstance(z, tuple) and z[0] == 'sptr' and isinstance(z[1], tuple) and z[1][0] == 'at' for z in a):
                    self.X.bad('sinks', f, 'Logger::clone keeps a single sink of the original')
                elif len(a) > 1 or not any(not self.own(e[2]) for e in self.ext(x, 'sinks')):
                    self.X.undec.add('which sinks Logger::clone keeps')
                if len(vals) > 1:
                    self.level(f, x, impl, vals[1], 'Logger::clone')

    def factory(self):
        P = self.P
        c = NS + 'LoggerFactory'
        for n in ('create_console_logger', 'create_custom_logger', 'create_null_logger'):
            for f in P.method(c, n) or []:
                for x, v, vals in self.run(f):
                    impl = self.logger_of(x, v)
                    if impl is None:
                        self.X.undec.add('what %s returns is not followed' % n)
                        continue
                    if n == 'create_null_logger':
                        mk = [e for e in x.ev if e[0] == 'new']
                        if impl[0] == 'sptr' or [e for e in mk if 'sink' in e[1] and 'null' not in e[1]]:
                            self.X.bad('null', f, 'the null logger has a sink that writes')
                        continue
                    lv = next((z for z in vals if T.is_int(z)), None)
                    if lv is not None:
                        self.level(f, x, impl, lv, n)
                    if n == 'create_console_logger':
                        if impl[0] == 'sptr' and not mentions(impl, vals[0]):
                            self.X.bad('name', f, 'the console logger has not the name given')
                        if impl[0] == 'sptr' and str(impl[1][0]).endswith('_st'):
                            self.X.bad('console', f, 'the console logger is not safe for several threads')
                    if n == 'create_custom_logger' and impl != vals[0]:
                        self.X.bad('custom', f, 'create_custom_logger does not use the logger given')

    def manager(self):
        """the channels log at the level given"""
        P = self.P
        lib.NATIVE_LOGGER[0] = True
        cls = concrete(P, 'IModbusManager', ['create_client_tcp_channel', 'create_server_tcp_channel', 'shutdown'])[0]
        I = Interp(P, maxvisits=8, generalise=False)
        self.X.I = I
        st = St()
        _, rs = make(P, I, st, cls, ('mgr',))
        for s, _ in rs:
            for n in ('create_client_tcp_channel', 'create_server_tcp_channel'):
                f = method(P, cls, n)
                x = s.copy()
                x.ev = ()
                args, lv, nm = [], None, None
                for k, p in enumerate(f['params']):
                    t = strip_ref(p['t'])
                    v = init_sym(t, ('given', k))
                    if ty(t).get('k') == 'enum':
                        lv = v
                    if ty(t).get('tn') == 'std::basic_string' and nm is None:
                        nm = v
                    x.mem[('given', k)] = v
                    args.append(LV(('given', k)) if ty(p['t'])['k'] in ('ref', 'rref') else v)
                for y, r in I.call(x, f, LV(('mgr',)), args, {}):
                    if not self.X.good(y, f, 'a call'):
                        continue
                    cl = [e for e in y.ev if e[0] == 'logger-clone']
                    self.R.count('loggers', len(cl))
                    for e in cl:
                        self.R.ok()
                        ints = [a for a in e[1] if T.is_int(a)]
                        if lv is not None and (not ints or self.X.differs(y, ints[0], lv)):
                            self.X.bad('channel-level', f, '%s makes a logger that has not the level given' % n)
                        if nm is not None and not mentions(e[1], nm):
                            self.X.bad('channel-name', f, '%s makes a logger without the name given' % n)
        self.R.used(I)


def c35(P, R):
    R.rule('Logger, LoggerFactory and the channels the manager makes, interpreted on symbolic messages, names and levels: each logging method hands its format and all arguments to the spdlog logger at the level of its name, once; the factory and clone set the spdlog level of the same name as the LoggingLevel given (every enumerator) on the logger they return; a clone has the name given and the sinks of the original; the custom logger is the one given; the null logger has no sink that writes; the loggers of a channel have its name and level.')
    lib.NATIVE_LOGGER[0] = False
    try:
        L = Log(P, R)
        L.methods()
        L.clones()
        L.factory()
        R.used(L.I)
        L.manager()
        L.X.finish()
    finally:
        lib.NATIVE_LOGGER[0] = True


CHECKS = {'C35': c35, 'C38': c38}
