"""typestate analysis of event-driven components

The component is driven by the most general environment its interface admits:
from the state its constructor leaves, every handler that can run next is
interpreted abstractly, and the abstract states reached are collected to a
fixpoint.  States are compared up to renaming of allocation/unknown names.
Observers record the protocol-relevant effects of every handler and state the
typestate rules; a broken rule is reported with the path of handlers to it.
"""
from .interp import St, Fresh, Stuck, is_lv
from .terms import *
import re
from . import terms as TM
import signal
from .report import OutOfTime
from .subst import rebuild_atom


class Renamer:
    def __init__(self, mem):
        self.m = {}
        self.mem = mem
        self.roots = []
        self.seen = set()
        self.memo = {}

    def num(self, x):
        r = self.m.get(x)
        if r is None:
            r = self.m[x] = Fresh(len(self.m) + 1)
        return r

    def root(self, r):
        if r in self.mem and r not in self.seen:
            self.seen.add(r)
            self.roots.append(r)

    def ren(self, x):
        if isinstance(x, Fresh):
            return self.num(x)
        if isinstance(x, Lin):
            out = x.c
            for i, v in x.t:
                a = TM.ATOMS[i]
                na = self.ren(a)
                y = Lin(((i, 1),), 0) if na == a else rebuild_atom(na)
                out = add(out, mulc(y, v))
            return out
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'lv':
                self.root(x[1])
            elif len(x) == 3 and x[0] == 'sptr':
                self.root(('sym', x[1], x[2]))
            return tuple(self.ren(z) if isinstance(z, (tuple, Lin, Fresh)) else z for z in x)
        return x

    def known(self, x):
        """do all fresh names in x survive?"""
        if isinstance(x, Fresh):
            return x in self.m
        if isinstance(x, Lin):
            return all(self.known(TM.ATOMS[i]) for i, _ in x.t)
        if isinstance(x, tuple):
            return all(self.known(z) for z in x)
        return True


def canon(st, keep):
    """st reduced to what is reachable from the kept roots, names renumbered"""
    R = Renamer(st.mem)
    mem = {}
    for r in keep:
        R.root(r)
    i = 0
    while i < len(R.roots):
        r = R.roots[i]
        i += 1
        mem[R.ren(r)] = R.ren(st.mem[r])
    s = St()
    s.mem = mem
    cs = []
    for c in st.facts.cs:
        if R.known(c):
            cs.append(R.ren(c))
    s.facts.cs = tuple(cs)
    s.facts.preds = {R.ren(k): v for k, v in st.facts.preds.items() if R.known(k)}
    s.dead = frozenset(R.ren(r) for r in st.dead if r in R.seen or R.known(r))
    s.imp = st.imp
    s.n = len(R.m) + 1
    s.tag = st.tag
    return s


def key(s):
    return (frozenset(s.mem.items()), frozenset(s.facts.cs), frozenset(s.facts.preds.items()), s.dead, s.imp)


Q, T, O, A = ('g', 'queue'), ('g', 'timers'), ('g', 'obs'), ('g', 'aio')
SOCKS = ('g', 'socks')


def head(h):
    while h[0] == 'wrapped':
        h = h[1]
    return str(h[1])


class World:
    """keep: memory roots of the component.  actions(w, st) -> [(label, run)],
    run(st) -> [(st, value)].  observe(w, label, pre, st) updates st's ghost
    and flags broken rules."""

    around = None       # around(world, label, run, state): how an action is run

    def __init__(self, I, R, keep, actions, observe, final=None, limit=4000, late=True):
        self.I = I
        self.R = R
        self.keep = list(keep) + [Q, T, O, A, SOCKS]
        self.actions = actions
        self.observe = observe
        self.final = final
        self.limit = limit
        self.late = late            # a cancelled timer may already have expired
        self.parent = {}
        self.flags = {}
        self.transitions = 0
        self.handlers = set()
        self.truncated = False
        self.cur = None
        self.undec = set()
        self.nact = {}
        self.sites = set()

    # ------------------------------------------------------------ reporting
    def flag(self, st, key, text, loc=None):
        if st.imp:
            self.undec.add('%s: %s (imprecise: %s)' % (key, text, ', '.join(sorted(map(str, st.imp)))[:80]))
            return
        if key not in self.flags:
            self.flags[key] = (loc or '?', text, self.trace())

    def trace(self):
        out = [self.cur[1]] if self.cur else []
        k = self.cur[0] if self.cur else None
        while k is not None:
            p = self.parent.get(k)
            if p is None:
                break
            k, l = p
            if l:
                out.append(l)
        return ' -> '.join(reversed(out))

    # ---------------------------------------------------------- exploration
    expired = False     # the time is up: what was found so far is reported

    def explore(self, inits):
        return self.timed(self.explore_, inits)

    def follow(self, inits, script, width=6):
        return self.timed(self.follow_, inits, script, width)

    def timed(self, f, *a):
        self.states = 0
        if World.expired:
            self.truncated = True
            return self
        try:
            return f(*a)
        except OutOfTime:
            World.expired = self.truncated = True
            self.states = len(self.parent)
            signal.alarm(60)
            return self

    def explore_(self, inits):
        todo = []
        for s in inits:
            c = canon(s, self.keep)
            k = key(c)
            if k not in self.parent:
                self.parent[k] = None
                todo.append((k, c))
        n = 0
        while n < len(todo):
            k, s = todo[n]
            n += 1
            if n > self.limit:
                self.truncated = True
                break
            for label, run in self.actions(self, s):
                self.cur = (k, label)
                x = s.copy()
                x.ev = ()
                try:
                    self.I.budget = 400000
                    res = self.around(self, label, run, x) if self.around else run(x)
                except Stuck as e:
                    self.undec.add('%s: %s' % (label, e))
                    continue
                self.nact[label] = self.nact.get(label, 0) + 1
                for r in res:
                    r2 = r[0] if isinstance(r, tuple) else r
                    for s2 in self.settle(label, s, r2):
                        self.transitions += 1
                        c = canon(s2, self.keep)
                        c.ev = ()
                        k2 = key(c)
                        if k2 not in self.parent:
                            self.parent[k2] = (k, label)
                            todo.append((k2, c))
        self.states = len(self.parent)
        return self

    def follow_(self, inits, script, width):
        """long histories: script is a list of (label pattern, wanted or None);
        at each step only the matching actions are taken (none: the step is
        left out), and among the states they lead to those for which
        wanted(pre, post) holds are followed when there are any"""
        cur = []
        for s in inits:
            c = canon(s, self.keep)
            self.parent.setdefault(key(c), None)
            cur.append(c)
        for pat, wanted in script:
            nxt, seen = [], set()
            for s in cur:
                k = key(s)
                acts = [(l, r) for l, r in self.actions(self, s) if re.match(pat, l)]
                if not acts:
                    nxt.append((0, s))
                    continue
                label, run = acts[0]
                self.cur = (k, label)
                x = s.copy()
                x.ev = ()
                try:
                    self.I.budget = 400000
                    res = self.around(self, label, run, x) if self.around else run(x)
                except Stuck as e:
                    self.undec.add('%s: %s' % (label, e))
                    continue
                self.nact[label] = self.nact.get(label, 0) + 1
                for r in res:
                    r2 = r[0] if isinstance(r, tuple) else r
                    for s2 in self.settle(label, s, r2):
                        self.transitions += 1
                        c = canon(s2, self.keep)
                        c.ev = ()
                        k2 = key(c)
                        if k2 in seen:
                            continue
                        seen.add(k2)
                        if k2 not in self.parent:
                            self.parent[k2] = (k, label)
                        nxt.append((0 if wanted is None or wanted(s, c) else 1, c))
            best = min((b for b, _ in nxt), default=0)
            cur = [s for b, s in nxt if b == best][:width]
        self.states = len(self.parent)
        return cur

    def settle(self, label, pre, s):
        """observe the handler's effects, then update queue and timers"""
        if s.exc is not None:
            if s.exc[0] == 'cut':
                self.undec.add('%s: not followed to the end (%s)' % (label, s.exc[1]))
                return []
        for e in s.ev:
            if e[0] == 'crash':
                self.flag(s, 'crash', '%s during "%s"' % (e[1], label), e[2])
            elif e[0] == 'uaf':
                self.flag(s, 'use-after-free', 'a destroyed object is used during "%s"' % label, e[2])
        if s.exc is not None and s.exc[0] == 'crash':
            return []
        self.owners(s)
        exc = s.exc
        outs = self.observe(self, label, pre, s)
        if outs is None:
            outs = [s]
        if exc is not None:
            if exc[0] == 'exc' and any(e[0] != 'crash' for e in s.ev) is not None:
                self.flag(s, 'escaping-exception', 'an exception escapes from "%s"' % label)
            return []
        res = []
        for s in outs:
            q = list(s.mem.get(Q, ()))
            ts = list(s.mem.get(T, ()))
            alts = [ts]
            ops = list(s.mem.get(A, ()))
            for e in s.ev:
                if e[0] == 'post':
                    q.append(e[1])
                elif e[0] == 'aio':
                    # (id, kind, socket, handler, buffer, content, accepted socket, state)
                    ops.append(e[1:8] + ('pending',))
                elif e[0] == 'aio-cancel':
                    ops = [x[:7] + ('cancelled',) if x[2] == e[1] and x[7] == 'pending' else x for x in ops]
                elif e[0] == 'start':
                    for a in alts:
                        a.append((e[1], e[2], e[3], 'armed'))
                elif e[0] == 'cancel' and e[1] is not None:
                    new = []
                    for a in alts:
                        i = next((i for i, t in enumerate(a) if t[0] == e[1]), None)
                        if i is None or a[i][3] != 'armed':
                            new.append(a)
                            continue
                        new.append(a[:i] + a[i + 1:])
                        if self.late:
                            new.append(a[:i] + [a[i][:3] + ('late',)] + a[i + 1:])
                    alts = new
            for a in alts:
                s2 = s if len(alts) == 1 else s.copy()
                s2.mem[Q] = tuple(q)
                if ops or A in s2.mem:
                    s2.mem[A] = tuple(ops)
                s2.mem[T] = tuple(sorted(a, key=lambda t: t[0]))
                if self.final is not None:
                    self.final(self, label, pre, s2)
                s2.ev = ()
                res.append(s2)
        return res

    # ------------------------------------------------------------ ownership
    def owners(self, s):
        """a handler kept for later must own what it refers to"""
        from . import own
        for e in s.ev:
            bad = own.dangling(self.I, s, e)
            if bad is None:
                continue
            n, i, j = own.KINDS[e[0]]
            self.sites.add((n, e[j], head(e[i]) if isinstance(e[i], tuple) else str(e[i])))
            for rule, text, loc in bad:
                self.flag(s, ('C25', rule), text, loc)

    # ------------------------------------------------- standard environment
    def run_posted(self, s):
        q = s.mem.get(Q, ())
        if not q:
            return []

        def go(x):
            f = x.mem[Q][0]
            x.mem[Q] = x.mem[Q][1:]
            return self.I.invoke(x, f, [])
        return [('run posted handler', go)]

    def fire_timers(self, s):
        out = []
        for i, t in enumerate(s.mem.get(T, ())):
            def go(x, i=i):
                t = x.mem[T][i]
                x.mem[T] = x.mem[T][:i] + x.mem[T][i + 1:]
                return self.I.invoke(x, t[2], [])
            out.append((('timer fires' if t[3] == 'armed' else 'cancelled timer whose expiry was already queued fires') + ' #%d' % i, go))
        return out

    def complete(self, s, outcomes=None):
        """completions of the outstanding asynchronous operations"""
        out = []
        for i, op in enumerate(s.mem.get(A, ())):
            kind, state = op[1], op[7]
            if state == 'pending':
                res = ['succeeds', 'fails'] + (['meets the end of the stream'] if kind in ('read', 'readall') else [])
            else:
                # it may have been finished already when it was cancelled
                res = ['is aborted', 'succeeded before it was cancelled', 'failed before it was cancelled']
            for r in res:
                if outcomes is not None and not outcomes(op, r):
                    continue

                def go(x, i=i, r=r):
                    op = x.mem[A][i]
                    x.mem[A] = x.mem[A][:i] + x.mem[A][i + 1:]
                    return self.finish(x, op, r)
                out.append(('%s %s #%d' % (op[1], r, i), go))
        return out

    def finish(self, x, op, r):
        from . import seqs as Q_
        I = self.I
        _, kind, sock, h, buf, content, peer, state = op
        ok = r.startswith('succe')
        ec = ('ec', None) if ok else ('ec', ('code', 'eof' if 'stream' in r else 'aborted' if r == 'is aborted' else 'failed'))
        n = 0
        x.emit('completed', kind, r, op, None)
        if kind in ('read', 'readall', 'send', 'write') and ok:
            if buf is None or not TM.is_int(buf[3]):
                x.imprecise('asynchronous buffer')
            else:
                if kind in ('write', 'readall'):
                    n = buf[3]
                else:
                    n = TM.sym(('transferred', x.fresh()), 1, 65536)
                    x.facts.add(TM.ge(TM.sub(buf[3], n)))
                if kind in ('read', 'readall') and is_lv(buf[1]):
                    if buf[1][1] in x.dead:
                        x.emit('uaf', buf[1], 'read buffer')
                    seg = ('seq', (('sl', ('sb', ('received', x.fresh()), None), 0, n),))
                    old = I.load(x, buf[1])
                    if isinstance(old, tuple) and old[0] == 'seq':
                        end = TM.add(buf[2], n)
                        a = Q_.seq_slice(old, 0, buf[2], x.facts)
                        b = ('seq', (('sl', ('sb', ('earlier bytes', x.fresh()), None), 0, TM.sub(Q_.seqlen(old), end)),))
                        if a is None:
                            x.imprecise('read buffer')
                        else:
                            I.store(x, buf[1], Q_.norm(('seq', a[1] + seg[1] + b[1])))
                    else:
                        x.imprecise('read buffer')
                    x.emit('received', seg, n)
        if kind == 'accept' and ok and peer is not None:
            from . import lib
            lib.sock_set(x, peer, 1)
        args = [ec]
        if kind == 'resolve':
            args.append(('opq', 'endpoints', None))
        elif kind in ('read', 'readall', 'send', 'write'):
            args.append(n)
        elif kind == 'connect':
            args.append(('opq', 'endpoint', None))
        return I.invoke(x, h, [I.temp(x, a) if isinstance(a, tuple) else a for a in args])

    def report(self, prop, only=None):
        """hand the flagged rules to the report (rules are (property, name))"""
        R = self.R
        for k, (loc, text, tr) in sorted(self.flags.items(), key=str):
            nm = k if isinstance(k, str) else k[1]
            if not isinstance(k, str) and k[0] != prop:
                continue
            R.violate('%s:%s' % (prop, nm), loc, text, 'path: ' + tr)
        for u in sorted(self.undec):
            R.undec(u)
        R.count('abstract_states', self.states)
        R.count('transitions', self.transitions)
        if self.truncated:
            R.undec('time limit reached: the rest was not analysed' if World.expired else 'state limit %d reached' % self.limit)
