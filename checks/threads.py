"""C26: state shared between user threads and the executor; C28: the manager"""
from sa import lib, own
from sa import terms as T
from sa.interp import Interp, St, LV, NULL, is_lv
from sa.report import Broken
from sa.seqs import init_sym, strip_ref, fields_of, ty
from sa.world import World
from checks import client, conn, server, session
from checks.client import NS, concrete, ctors, method, loc_of, make
from checks.lifetime import Quiet

SYNC = ('atomic', 'mutex', 'condition_variable')
CONSTOPS = ('is_open', 'native_handle', 'local_endpoint', 'remote_endpoint', 'get_executor', 'available')
USER = {'send_request', 'create_session', 'start', 'stop', 'set_frequency', 'is_running', 'get_frequency', 'add_session', 'shutdown'}


class Recorder:
    """accesses to the data members of the components: (class, member) ->
    {(context, read or written, locks held): place}"""

    def __init__(self, P):
        self.P = P
        self.acc = {}
        self.calls = set()          # methods of other components called by a user thread
        self.ctx = None
        self.comp = {}
        self.imp = set()
        self.naio = 0
        self.unwrapped = {}
        self.order = {}             # (lock held, lock taken, same object): place
        self.calling = {}           # (place of a handler call, lock held)

    def component(self, c):
        if c not in self.comp:
            self.comp[c] = c in self.P.records and any('enable_shared_from_this' in (ty(b).get('s') or ty(b).get('c') or '') for a in self.P.ancestors(c) if a in self.P.records for b in self.P.records[a]['bases']) or 'Manager' in c
        return self.comp[c]

    def lockname(self, st, h):
        if not is_lv(h):
            return str(h)
        o = st.mem.get(h[1])
        return '%s::%s' % (o[1] if isinstance(o, tuple) and o[0] == 'rec' else h[1], h[2][-1][1] if h[2] else '')

    def locks(self, I, st):
        held = []
        for e in st.ev:
            if e[0] == 'lock':
                held.append(e[1])
            elif e[0] == 'unlock' and e[1] in held:
                held.remove(e[1])
        out = set()
        for h in held:
            if is_lv(h):
                v = st.mem.get(h[1])
                out.add((v[1] if isinstance(v, tuple) and v[0] == 'rec' else h[1], h[2]))
        return frozenset(out)

    def watch(self, I):
        def touch(st, lv, kind):
            if self.ctx is None or lv[2][0][0] != 'f':
                return
            v = st.mem.get(lv[1])
            if not (isinstance(v, tuple) and v[0] == 'rec') or not self.component(v[1]):
                return
            self.record(I, st, v[1], lv[2][0][1], kind, lv[1])
        return touch

    def record(self, I, st, cls, field, kind, root=None):
        t = dict(fields_of(cls)).get(field)
        if t is None or any(x in self.P.types[strip_ref(t)]['s'] for x in SYNC):
            return
        # an object under construction is not shared yet
        if any(f['fn'].get('c') in self.P.ancestors(cls) and 'inits' in f for f in I.stack):
            return
        k = (self.ctx, kind, self.locks(I, st))
        d = self.acc.setdefault((cls, field), {})
        if k not in d or d[k][1] and not st.imp:
            f = I.stack[-1] if I.stack else None
            d[k] = ((loc_of(f) if f else '?'), bool(st.imp))

    def run(self, I, ctx, run, x):
        self.ctx = ctx
        I.watcher = self.watch(I)
        try:
            res = run(x)
        finally:
            self.ctx = None
            I.watcher = None
        for r in res:
            s = r[0] if isinstance(r, tuple) else r
            self.events(I, ctx, s)
        return res

    def events(self, I, ctx, s):
        held = []
        for e in s.ev:
            lv = None
            if e[0] == 'lock':
                if is_lv(e[1]):
                    for h in held:
                        if is_lv(h):
                            self.order.setdefault((self.lockname(s, h), self.lockname(s, e[1]), h == e[1]), (e[2], bool(s.imp)))
                held.append(e[1])
            elif e[0] == 'unlock' and e[1] in held:
                held.remove(e[1])
            elif e[0] == 'hcall' and held:
                self.calling.setdefault((e[3], self.lockname(s, held[-1])), bool(s.imp))
            elif e[0] == 'asio':
                lv, kind, at = e[2], 'read' if e[1] in CONSTOPS else 'written', e[4]
            elif e[0] == 'aio':
                lv, kind, at = e[3], 'written', e[9]
                self.naio += 1
                if e[4][0] != 'wrapped':
                    self.unwrapped[at] = e[2]
            elif e[0] == 'vcall' and ctx == 'user':
                self.calls.add((e[5].split('::')[-1], e[1]))
            elif e[0] == 'session-shutdown' and ctx == 'user':
                self.calls.add(('session', 'shutdown'))
            if lv is not None and is_lv(lv):
                v = s.mem.get(lv[1])
                if isinstance(v, tuple) and v[0] == 'rec' and lv[2] and self.component(v[1]):
                    self.ctx = ctx
                    d = self.acc.setdefault((v[1], lv[2][0][1]), {})
                    L = set()
                    for h in held:
                        if is_lv(h):
                            o = s.mem.get(h[1])
                            L.add((o[1] if isinstance(o, tuple) and o[0] == 'rec' else h[1], h[2]))
                    d.setdefault((ctx, kind, frozenset(L)), (at, bool(s.imp)))
                    self.ctx = None

    def around(self, user):
        def f(w, label, run, x):
            name = label.split(' #')[0]
            return self.run(w.I, 'user' if name in user else 'strand', run, x)
        return f


def races(rec):
    for (cls, field), d in sorted(rec.acc.items()):
        ks = sorted(d.items(), key=str)
        bad = None
        for i, (a, (pa, ia)) in enumerate(ks):
            for b, (pb, ib) in ks[i:]:
                if 'user' not in (a[0], b[0]) or 'written' not in (a[1], b[1]) or a[2] & b[2]:
                    continue
                if a == b and a[1] != 'written':
                    continue
                if bad is None or (bad[4] and not (ia or ib)):
                    bad = (a, pa, b, pb, ia or ib)
        yield cls, field, d, bad


def c26(P, R):
    R.rule('Lockset and thread-confinement analysis of every component (classes managed by shared pointers, and the manager): each access to a data member in every reachable state is recorded with its context (public call of a user thread, or a handler of the executor) and the mutexes held; a member that a user thread and any other thread may access, one of them writing, must be atomic or always be accessed under a common mutex; every asynchronous operation completes through the strand of the executor, and a channel and its connection or server share one strand.')
    rec = Recorder(P)
    Qt = Quiet(R)
    deep = R.tier != 'quick'
    undec = set()

    def worlds(user, f):
        World.around = staticmethod(rec.around(user))
        try:
            w = f()
        finally:
            World.around = None
        R.count('abstract_states', w.states)
        for u in w.undec:
            if 'not followed' in u:
                undec.add(u)
    worlds(USER, lambda: client.run_client(P, Qt, 2, 1))
    worlds(USER, lambda: server.run_server(P, Qt, 1))

    # typed sends and polls of a session
    class Sess(session.Session):
        def enter(self, s, f, ses, args):
            return rec.run(self.I, 'user', lambda x: self.I.call(x, f, ses, args, {}), s)

        def drain(self, s, limit=6):
            rec.ctx, self.I.watcher = 'strand', rec.watch(self.I)
            try:
                return keep.drain(self, s, limit)
            finally:
                rec.ctx = self.I.watcher = None

    session.Session, keep = Sess, session.Session
    try:
        session.typed(P, Qt)
    finally:
        session.Session = keep

    def polling():
        p = session.Polling(P, Qt, session.READS[0], 1)
        init = p.init()

        def actions(w, s):
            out = p.actions(w, s)
            if 'begin' not in s.mem[conn.O][1]:
                for n in ('is_running', 'get_frequency'):
                    out.append((n, lambda x, n=n: [(y, None) for y, _ in p.I.call(x.copy(), p.m[n], s.mem[session.SCH], [], {})]))
            return out

        def observe(w, label, pre, s):
            return [] if label in ('is_running', 'get_frequency') else p.observe(w, label, pre, s)
        w = World(p.I, Qt, [session.CH, session.SES, session.SCH], actions, observe, limit=4000)
        w.explore(init)
        R.used(p.I)
        return w
    user = {'start', 'stop', 'set_frequency', 'is_running', 'get_frequency'}
    if ('session', 'shutdown') in rec.calls:
        user = user | {'session shutdown'}
    worlds(user, polling)
    # connections and the server run on the strand of their channel unless it calls them elsewhere
    cu = {n for c, n in rec.calls if c == 'ITcpConnection'}
    worlds(cu, lambda: conn.run_client(P, Qt, 2 if deep else 1))
    if 'set_listener' in cu:
        C = conn.Client(P, Qt)
        for s in C.init():
            rec.run(C.I, 'user', C.listen, s)
    su = {n for c, n in rec.calls if c == 'IServer'}
    worlds(su, lambda: conn.run_server(P, Qt, cap=1, naccept=1, nfail=1, nsend=1, nclose=1, outcomes=None))

    M = Manager(P, R)
    M.explore(2, rec)
    for key, ex in sorted(M.strands.items()):
        if ex != 1:
            R.violate('C26:strand', key[1], 'the %s made by the manager and what it uses run on %d strands instead of one' % (key[0], ex))
        else:
            R.ok()
    for u in sorted(undec):
        R.undec(u)
    for cls, field, d, bad in races(rec):
        R.count('accesses', len(d))
        if bad is None:
            R.ok()
            continue
        a, pa, b, pb, imp = bad
        text = '%s::%s is %s by a user thread (%s) and %s by %s (%s) without a common lock' % (
            (cls, field) + ((a[1], pa, b[1], 'the executor' if b[0] == 'strand' else 'another user thread', pb) if a[0] == 'user' else (b[1], pb, a[1], 'the executor', pa)))
        if imp:
            R.undec(text)
        else:
            R.violate('C26:race:%s:%s' % (cls.split('::')[-1], field), pa if a[0] == 'user' else pb, text)
    for at, kind in sorted(rec.unwrapped.items()):
        R.violate('C26:unwrapped', at, 'the completion handler of an asynchronous %s does not run through the strand of the executor' % kind)
    for (at, l), imp in sorted(rec.calling.items()):
        t = 'a handler of the user is called while %s is held: it cannot call what takes that lock' % l
        R.undec(t) if imp else R.violate('C26:handler-locked', at, t)
    for (a, b, same), (at, imp) in sorted(rec.order.items(), key=str):
        if same:
            t = '%s is locked again by the thread that holds it' % a
        elif (b, a, False) in rec.order and a <= b:
            t = '%s and %s are locked in both orders' % (a, b)
        else:
            R.ok()
            continue
        R.undec(t) if imp else R.violate('C26:deadlock', at, t)
    if not rec.naio:
        raise Broken('no asynchronous operation')
    R.count('asynchronous_operations', rec.naio)
    R.ok()


class Manager:
    """the manager under every short sequence of calls; the channels it makes
    are real objects, their shutdown is only recorded"""
    ROOT = ('manager',)
    CHANNELS = (('client channel', 'IClientChannel', 'create_client_tcp_channel'), ('server channel', 'IServerChannel', 'create_server_tcp_channel'))

    def __init__(self, P, R):
        self.P, self.R = P, R
        self.cls = concrete(P, 'IModbusManager', ['shutdown'])[0]
        self.I = Interp(P, maxvisits=8, generalise=False)
        self.m = {n: method(P, self.cls, n) for n in ('shutdown',) + tuple(x[2] for x in self.CHANNELS)}
        self.dtor = next((f for f in P.functions.values() if f['fn'].get('c') == self.cls and f['fn']['n'].startswith('~')), None)
        self.strands = {}
        self.down = set()
        for kind, base, _ in self.CHANNELS:
            for c in P.all_derived(NS + base):
                for f in P.method(c, 'shutdown'):
                    self.I.opaque[f['fn']['u']] = self.h_shutdown

    def h_shutdown(self, I, st, fn, o, args, e):
        st.emit('channel-shutdown', o, I.loc(e))
        return [(st, None)]

    def start(self):
        st = St()
        f, rs = make(self.P, self.I, st, self.cls, self.ROOT, {'int': T.sym(('number of threads',), 1, 64)})
        self.loc = loc_of(self.m['shutdown'])
        return [s for s, _ in rs if s.exc is None]

    def call(self, s, op, k):
        x = s.copy()
        x.ev = ()
        args = []
        if op == 'destroy':
            if self.dtor is None:
                return [(x, None)]
            return self.I.call(x, self.dtor, LV(self.ROOT), [], {})
        for p in self.m[op]['params']:
            v = init_sym(strip_ref(p['t']), ('param', k, p.get('n') or '?'))
            args.append(self.I.temp(x, v) if ty(p['t'])['k'] in ('ref', 'rref') else v)
        return self.I.call(x, self.m[op], LV(self.ROOT), args, {})

    def explore(self, depth, rec=None, visit=None):
        ops = [x[2] for x in self.CHANNELS] + ['shutdown', 'destroy']
        todo = [(s, (), ()) for s in self.start()]
        while todo:
            s, path, made = todo.pop()
            if len(path) >= depth or path[-1:] == ('destroy',):
                continue
            for op in ops:
                if path.count(op) >= 2 or 'shutdown' in path and op.startswith('create'):
                    continue
                run = lambda x, op=op: self.call(x, op, len(path))
                res = rec.run(self.I, 'user' if op != 'destroy' else None, run, s) if rec else run(s)
                for y, v in res:
                    v = self.I.val(y, v) if v is not None else None
                    m2 = made
                    if op.startswith('create') and y.exc is None:
                        m2 = made + ((op, v),)
                        for kind, base, o in self.CHANNELS:
                            if o == op and isinstance(v, tuple) and v[0] == 'ptr':
                                self.strands[(kind, loc_of(self.m[op]))] = max(self.strands.get((kind, loc_of(self.m[op])), 0), len(self.executors(y, v)))
                    if visit:
                        visit(s, y, op, path + (op,), m2, v, made)
                    if y.exc is None:
                        todo.append((y, path + (op,), m2))
        self.R.used(self.I)

    def executors(self, s, v):
        """the executors reachable from a channel"""
        seen, out = set(), set()

        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'lv' and isinstance(x[1], tuple):
                    r = x[1]
                    if r in seen:
                        return
                    seen.add(r)
                    o = s.mem.get(r)
                    if isinstance(o, tuple) and o[:1] == ('obj',) and 'Executor' in str(o[1]):
                        out.add(r)
                    walk(o)
                    return
                if x[:1] == ('sptr',) and 'xecutor' in str(x[1]):
                    out.add(x)
                for y in x:
                    walk(y)
        walk(v)
        return out


def c28(P, R):
    R.rule('Every sequence of up to %d calls of the manager (create client channel, create server channel, shutdown, destruction), on the real objects it makes: each create gives a new channel connected to the given endpoint, adapter and maximum; shutdown and destruction shut down every channel made, exactly once, before the threads are joined, join them, and do so without holding a lock; a second shutdown does nothing harmful.' % (3 if R.tier == 'quick' else 5))
    M = Manager(P, R)

    def bad(s, rule, text, loc=None):
        if s.imp:
            R.undec(text)
        else:
            R.violate('C28:' + rule, loc or M.loc, text)

    def visit(pre, s, op, path, made, v, before):
        R.ok()
        R.count('sequences')
        if s.exc is not None:
            bad(s, 'throws', '%s throws' % ' '.join(path))
            return
        for e in s.ev:
            if e[0] == 'crash':
                bad(s, 'crash', '%s during %s' % (e[1], ' '.join(path)), e[2])
            if e[0] == 'uaf':
                bad(s, 'use-after-free', 'a destroyed object is used during %s' % ' '.join(path), e[2])
        if op.startswith('create'):
            if not (isinstance(v, tuple) and v[0] == 'ptr') or any(v == w for _, w in before):
                bad(s, 'not-new', '%s does not give a new channel' % op, loc_of(M.m[op]))
                return
            k = len(path) - 1
            given = {p.get('n') or '?' for p in M.m[op]['params']}
            r = graph(s, v, s.ev)
            for p in M.m[op]['params']:
                t = ty(strip_ref(p['t']))
                if t.get('c') == NS + 'LoggingLevel' or t['k'] == 'enum' or t.get('tn') == 'std::basic_string' and p is M.m[op]['params'][0]:
                    continue        # logging only
                if ('param', k, p.get('n') or '?') not in r:
                    bad(s, 'argument', '%s does not use its argument %s' % (op, p.get('n')), loc_of(M.m[op]))
            return
        downs = [e for e in s.ev if e[0] == 'channel-shutdown']
        joins = [e for e in s.ev if e[0] == 'joined']
        first = not any(x in ('shutdown', 'destroy') for x in path[:-1])
        if first:
            for o, c in made:
                n = sum(1 for e in downs if isinstance(c, tuple) and c[0] == 'ptr' and e[1] == c[1])
                if n != 1:
                    bad(s, 'channel', 'a channel made by %s is shut down %s by the %s of the manager' % (o, 'not at all' if n == 0 else '%d times' % n, 'shutdown' if op == 'shutdown' else 'destruction'))
            if not joins:
                bad(s, 'threads', 'the %s of the manager does not end its threads' % ('shutdown' if op == 'shutdown' else 'destruction'))
        held = []
        joined = False
        for e in s.ev:
            if e[0] == 'lock':
                held.append(e[1])
            elif e[0] == 'unlock' and e[1] in held:
                held.remove(e[1])
            elif e[0] == 'joined':
                joined = True
                if held:
                    bad(s, 'join-locked', 'the threads are joined while a lock is held that their handlers may need')
            elif e[0] == 'channel-shutdown' and joined:
                bad(s, 'order', 'a channel is shut down after the threads were ended, so that its shutdown never runs', e[2])
        if held:
            bad(s, 'lock-kept', 'a lock is kept by %s' % op)

    M.explore(3 if R.tier == 'quick' else 5, None, visit)
    R.ok()


def graph(s, v, ev):
    """every name occurring in what is reachable from a value, and in what its
    construction did"""
    seen = set()
    todo = [v] + [e for e in ev if e[0] in ('new', 'asio')]
    while todo:
        x = todo.pop()
        if isinstance(x, T.Lin):
            todo.extend(T.ATOMS[i] for i, _ in x.t)
        elif isinstance(x, tuple):
            if x in seen:
                continue
            seen.add(x)
            if len(x) == 3 and x[0] == 'lv' and isinstance(x[1], tuple):
                todo.append(s.mem.get(x[1]))
            todo.extend(x)
    return seen


CHECKS = {'C26': c26, 'C28': c28}
