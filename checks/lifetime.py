"""C25: what handlers kept for later refer to"""
from sa import own
from sa.report import Broken
from sa.world import World
from checks import client, conn, server, session


class Quiet:
    """a report of which only the findings of this property are used"""
    tier = 'quick'

    def __init__(self, R):
        self.R = R
        self.tier = R.tier

    def used(self, I):
        self.R.used(I)

    def __getattr__(self, n):
        return lambda *a, **k: None


def worlds(P, R):
    """(name, explored world) of every component that keeps handlers for later"""
    Qt = Quiet(R)
    deep = R.tier != 'quick'
    yield 'client channel', client.run_client(P, Qt, 3 if deep else 2, 1)
    for msg in session.READS:
        p = session.Polling(P, Qt, msg, 1)
        w = World(p.I, Qt, [session.CH, session.SES, session.SCH], p.actions, p.observe, final=p.final, limit=4000)
        init = p.init()
        for s in init:
            w.cur = (None, 'schedule_request')
            w.owners(s)
        w.explore(init)
        R.used(p.I)
        yield 'scheduled ' + msg, w
    yield 'client connection', conn.run_client(P, Qt, 2 if deep else 1, gone=True)
    for kw in (dict(cap=1, naccept=1, nfail=1, nsend=1, nclose=1), dict(cap=1, naccept=2, nfail=0, nsend=0, nclose=0)):
        yield 'server and its connections', conn.run_server(P, Qt, outcomes=None, **kw)
    yield 'server channel', server.run_server(P, Qt, 2 if deep else 1)


def c25(P, R):
    R.rule('Every callable handed over for later execution (executor post, timer, completion handler of an asynchronous operation, response handler of a request) in every reachable state of every component: each object, local variable or byte view it refers to by this, reference or raw pointer is reachable from a shared or unique pointer (by static type) or a value that it holds itself.')
    sites = set()
    for name, w in worlds(P, R):
        for k, (loc, text, tr) in sorted(w.flags.items(), key=str):
            if isinstance(k, str):
                if k == 'use-after-free' or (k == 'crash' and name == 'client connection'):
                    R.violate('C25:' + k, loc, text, 'path: ' + tr)
            elif k[0] == 'C25':
                R.violate('C25:' + k[1], loc, text, '%s, path: %s' % (name, tr))
        for u in sorted(w.undec):
            if 'C25' in u or 'not followed' in u:
                R.undec(u)
        sites |= {x for x in w.sites}
        R.count('abstract_states', w.states)
        R.count('transitions', w.transitions)
    seen = set()

    def see(I, y):
        for e in y.ev:
            bad = own.dangling(I, y, e)
            if bad is None:
                continue
            n, i, j = own.KINDS[e[0]]
            seen.add((n, e[j]))
            for rule, text, loc in bad:
                if not y.imp:
                    R.violate('C25:' + rule, loc, text)
    session.typed(P, Quiet(R), see)
    sites = {(n, loc) for n, loc, _ in sites} | seen
    if not sites:
        raise Broken('no handler is kept for later')
    for n, loc in sorted(sites, key=str):
        R.ok()
        R.sample('%s at %s' % (n, loc))
    R.count('sites', len(sites))


CHECKS = {'C25': c25}
