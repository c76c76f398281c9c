"""C09: reassembly of MBAP frames from arbitrarily split chunks"""
from sa import seqs as Q
from sa import terms as T
from sa.interp import Interp, St, LV, Stuck
from sa.model import models, same_value, same_segs, NoVal
from sa.report import Broken
from sa.subst import subst
from sa.terms import Facts
from sa.seqs import fields_of
from checks.client import make, method, loc_of, num, NS

BASE = ('sb', ('stream',), None)
PA = ('p',)


def byte(i):
    return Q.elem(BASE, i)


def word(i):
    return T.add(T.mulc(byte(i), 256), byte(T.add(i, 1)))


def spec(I, st, start, end, limit=12):
    """frames of the stream bytes [start, end) -> [(state, [(tx, unit, off, len, end)])];
    only streams whose length fields are 0 or 2..254 are considered"""
    out = []

    def walk(s, pos, frames, k):
        if k > limit:
            return
        rest = T.sub(end, pos)
        for s1, full in I.branch(s, T.ge(T.sub(rest, 7))):
            if not full:
                out.append((s1, frames, ('head', pos)))
                continue
            L = word(T.add(pos, 4))
            for s2, zero in I.branch(s1, T.eq(L)):
                if zero:
                    walk(s2, T.add(pos, 7), frames, k + 1)
                    continue
                for s3, a in I.branch(s2, T.ge(T.sub(L, 2))):
                    if not a:
                        continue
                    for s4, b in I.branch(s3, T.ge(T.sub(254, L))):
                        if not b:
                            continue
                        nx = T.add(pos, T.add(L, 6))
                        for s5, whole in I.branch(s4, T.ge(T.sub(end, nx))):
                            if not whole:
                                out.append((s5, frames, ('body', pos)))
                                continue
                            for s6, mb in I.branch(s5, T.eq(word(T.add(pos, 2)))):
                                f = frames + [(word(pos), byte(T.add(pos, 6)), T.add(pos, 7), T.sub(L, 1))] if mb else frames
                                walk(s6, nx, f, k + 1)
    walk(st, start, [], 0)
    return out


class Parser:
    def __init__(self, P, R, visits):
        self.P, self.R = P, R
        self.I = Interp(P, maxvisits=visits, generalise=False, maxstates=20000, budget=3000000)
        self.cls = NS + 'MbapParser'
        self.parse = method(P, self.cls, 'parse')
        self.reset = method(P, self.cls, 'reset')
        self.where = loc_of(self.parse)

    def init(self):
        st = St()
        f, rs = make(self.P, self.I, st, self.cls, PA)
        return [s for s, _ in rs if s.exc is None]

    def feed(self, s, off, n):
        self.I.budget = 3000000
        return [x for x, _ in self.I.call(s, self.parse, LV(PA), [('rseq', BASE, off, n)], {})]

    def delivered(self, s):
        """messages given to the sink, as (tx, unit, data, location)"""
        out = []
        for e in s.ev:
            if e[0] == 'vcall' and e[1] == 'on_mbap_message' and e[3]:
                m = e[3][0]
                d = {}
                if isinstance(m, tuple) and m[0] == 'rec':
                    for n, v in m[2]:
                        t = v[1] if isinstance(v, tuple) and v[0] == 'rec' else None
                        if t == NS + 'UnitIdentifier':
                            d['u'] = num(v)
                        elif t == NS + 'TransactionIdentifier':
                            d['t'] = num(v)
                        elif isinstance(v, tuple) and v[0] == 'bytes':
                            d['d'] = v[1]
                out.append((d.get('t'), d.get('u'), d.get('d'), e[4]))
        return out

    def compare(self, key, what, s, start, end, also):
        """the messages of one path against the frames of the stream"""
        R = self.R
        got = self.delivered(s)
        for s2, want, tail in spec(self.I, s.copy(), start, end):
            R.count('path_obligations')
            F = s2.facts
            if len(got) == len(want) and all(
                    g[2] is not None and T.is_int(g[0]) and T.is_int(g[1]) and
                    F.entails(T.eq(T.sub(g[0], f[0]))) and F.entails(T.eq(T.sub(g[1], f[1]))) and
                    same_segs(F, list(g[2][1]) if g[2][0] == 'seq' else [], [('sl', BASE, f[2], f[3])]) for g, f in zip(got, want)):
                R.ok()
                continue
            if s.imp:
                R.undec('%s: imprecise path (%s)' % (what, ', '.join(sorted(map(str, s.imp)))[:80]))
                continue
            bad = None
            for m in models(s2, R.seed, 6, also=tuple(('ge', a) for a in also)):
                try:
                    w = [(m.num(f[0]), m.num(f[1]), m.value(('seq', (('sl', BASE, f[2], f[3]),)))) for f in want]
                    g = [(m.num(x[0]), m.num(x[1]), m.value(x[2])) for x in got]
                    lens = [m.num(a) for a in also]
                except (NoVal, TypeError, AttributeError):
                    continue
                if w != g:
                    bad = (lens, w, g)
                    break
            if bad:
                loc = got[-1][3] if got else self.where
                R.violate('C09:' + key, loc, '%s: the frames in the stream are %s but the parser delivers %s' % (what, short(bad[1]), short(bad[2])), 'chunk lengths %s' % bad[0])
            else:
                R.undec('%s: %d frames, %d delivered' % (what, len(want), len(got)))


def pinned(s, n):
    """a chunk length the path determines is replaced everywhere: (state, length)"""
    i = n.t[0][0]
    for c in s.facts.cs:
        if c[0] == 'eq' and isinstance(c[1], T.Lin):
            d = dict(c[1].t)
            if d.get(i) in (1, -1):
                k = d.pop(i)
                v = T.mulc(T.sub(c[1], T.mulc(n, k)), -k)
                m = {i: v}
                s.mem = {r: subst(x, m) for r, x in s.mem.items()}
                cs = s.facts.cs
                s.facts = Facts((), s.facts.preds)
                for c2 in cs:
                    s.facts.add(subst(c2, m))
                s.ev = tuple(subst(e, m) for e in s.ev)
                return s, v
    return s, n


def short(fr):
    return '[' + '; '.join('transaction %d unit %d %d data bytes%s' % (t, u, len(d), ' ' + str(list(d)[:6])) for t, u, d in fr) + ']'


def c09(P, R):
    R.rule('The parser is interpreted for a stream of symbolic bytes given to it in one, two or three chunks of symbolic length; on every path the messages it delivers are compared with the frames the stream contains. Chunk lengths, frame lengths and contents are unbounded; the number of frame boundaries one chunk crosses is bounded.')
    deep = R.tier != 'quick'
    constants(P, R)
    if R.viol:
        return
    one = Parser(P, R, 5 if deep else 4)
    n1, n2, n3 = (T.sym(('n', i), 1, None) for i in (1, 2, 3))
    for s in one.init():
        s.ev = ()
        for x in one.feed(s, 0, n1):
            R.count('paths')
            if x.exc is None:
                one.compare('single-chunk', 'one chunk', x, 0, n1, [n1])
    R.used(one.I)
    two = Parser(P, R, 3 if deep else 2)
    first = []
    for s in two.init():
        s.ev = ()
        for x in two.feed(s, 0, n1):
            if x.exc is None and legal(two, x, n1):
                first.append(pinned(x, n1))
    second = []
    for x, a in first:
        for y in two.feed(x.copy(), a, n2):
            R.count('paths')
            if y.exc is None:
                y, b = pinned(y, n2)
                if not y.facts.dead:
                    two.compare('two-chunks', 'two chunks', y, 0, T.add(a, b), [a, b])
                    second.append((y, a, b))
        # a reset forgets what was received before
        z = x.copy()
        z.ev = ()
        for z, _ in two.I.call(z, two.reset, LV(PA), [], {}):
            for y in two.feed(z, a, n2):
                R.count('paths')
                if y.exc is None:
                    y, b = pinned(y, n2)
                    two.compare('reset', 'a reset after the first chunk', y, a, T.add(a, b), [a, b])
    R.used(two.I)
    three = Parser(P, R, 2)
    for x, a, b in second:
        if len(x.ev) > (2 if deep else 1) or not legal(three, x, T.add(a, b)):
            continue
        for y in three.feed(x.copy(), T.add(a, b), n3):
            R.count('paths')
            if y.exc is None:
                y, c = pinned(y, n3)
                if not y.facts.dead:
                    three.compare('three-chunks', 'three chunks', y, 0, T.add(T.add(a, b), c), [a, b, c])
    R.used(three.I)


def frame(tx, unit, n, proto=0, length=None, salt=1):
    data = [(7 * i + salt) % 256 for i in range(n)]
    l = n + 1 if length is None else length
    return [tx >> 8, tx & 255, proto >> 8, proto & 255, l >> 8, l & 255, unit] + data


def frames_of(bs):
    out = []
    p = 0
    while p + 7 <= len(bs):
        l = bs[p + 4] * 256 + bs[p + 5]
        if l == 0:
            p += 7
            continue
        if p + 6 + l > len(bs):
            break
        if bs[p + 2] == 0 and bs[p + 3] == 0:
            out.append((bs[p] * 256 + bs[p + 1], bs[p + 6], tuple(bs[p + 7:p + 6 + l])))
        p += 6 + l
    return out


def witnesses():
    """(what, [chunk or None for a reset]) : constant streams and their splits"""
    a, b, c = frame(0x1234, 0x42, 2), frame(0xFFEE, 0xF7, 5, salt=9), frame(7, 1, 1, salt=3)
    big, mid = frame(0x0180, 255, 253, salt=5), frame(0x8001, 0, 130, salt=2)
    for what, s in (('two frames', a + b), ('a frame of another protocol, then a frame', frame(1, 2, 3, proto=1) + a),
                    ('a frame of protocol 0x0100, then a frame', frame(1, 2, 3, proto=0x100) + a),
                    ('a header announcing length 0, then a frame', frame(5, 6, 0, length=0) + b)):
        for k in range(1, len(s)):
            yield what, [s[:k], s[k:]]
        yield what, [[x] for x in s]
        for k in range(2, 8):
            yield what, [s[i:i + k] for i in range(0, len(s), k)]
    yield 'three frames', [a + b + c]
    yield 'four frames', [a + c + mid + b]
    s = mid + big + a
    for k in (1, 5, 6, 7, 8, 100, 135, 136, 137, 138, 140, 141, 143, 144, 145, 200, 300, 396, 397, 398, 404):
        yield 'frames of 130, 253 and 2 bytes', [s[:k], s[k:]]
        yield 'frames of 130, 253 and 2 bytes', [s[i:i + k] for i in range(0, len(s), k)] if k > 4 else [s]
    for pre in (a[:k] for k in range(1, len(a))):
        yield 'a partial frame, a reset, then two frames', [pre, None, b + c]
    for k in (1, 6, 7, 8, 100, 259):
        yield 'a partial frame, a reset, then two frames', [big[:k], None, b, c]


def constants(P, R):
    """constant propagation through the parser for witness streams"""
    p = Parser(P, R, 400)
    n = 0
    for what, chunks in witnesses():
        want = []
        run = []
        for c in chunks:
            if c is None:
                want += frames_of(run)
                run = []
            else:
                run = run + c
        want += frames_of(run)
        cur = p.init()
        ok = len(cur) == 1
        if not ok:
            R.undec('the parser constructor has several outcomes')
            return
        s = cur[0]
        s.ev = ()
        for c in chunks:
            p.I.budget = 3000000
            if c is None:
                r = [x for x, _ in p.I.call(s, p.reset, LV(PA), [], {})]
            else:
                root = ('chunk', n)
                n += 1
                s.mem[root] = ('seq', tuple(('one', x) for x in c))
                r = [x for x, _ in p.I.call(s, p.parse, LV(PA), [('rseq', LV(root), 0, len(c))], {})]
            if not r and p.I.cuts and c is not None and len(c) < 100 and not s.imp:
                R.violate('C09:endless', p.where, '%s: the parser has not finished a chunk of %d bytes after 400 rounds of its loop' % (what, len(c)))
                return
            if len(r) != 1 or r[0].exc is not None:
                ok = False
                break
            s = r[0]
        if not ok or s.imp:
            R.undec('witness stream %s is not followed precisely' % what)
            continue
        R.count('witness_streams')
        got = p.delivered(s)
        try:
            g = [(x[0], x[1], tuple(e[1] for e in x[2][1])) for x in got]
        except (TypeError, IndexError):
            g = None
        if g is not None and any(not isinstance(v, int) for f in g for v in (f[0], f[1]) + f[2]):
            g = None
        if g == want:
            R.ok()
        elif g is None:
            m = [(x[0], x[1]) for x in got]
            if len(m) != len(want):
                R.violate('C09:stream', p.where, '%s in chunks of %s bytes: %d frames are in the stream but %d are delivered' % (what, [len(c) if c else 'reset' for c in chunks][:12], len(want), len(m)))
            else:
                R.violate('C09:stream', p.where, '%s in chunks of %s bytes: a delivered frame holds bytes that are not in the stream' % (what, [len(c) if c else 'reset' for c in chunks][:12]))
        else:
            R.violate('C09:stream', p.where, '%s in chunks of %s bytes: the stream holds %s but the parser delivers %s' % (what, [len(c) if c else 'reset' for c in chunks][:12], short(want), short(g)))
            return


def play(p, chunks, n=[0]):
    """the frames delivered for constant chunks (None = reset); None when not followed"""
    cur = p.init()
    if len(cur) != 1:
        return None
    s = cur[0]
    s.ev = ()
    for c in chunks:
        p.I.budget = 3000000
        if c is None:
            s.ev = ()
            r = [x for x, _ in p.I.call(s, p.reset, LV(PA), [], {})]
        else:
            root = ('again', n[0])
            n[0] += 1
            s.mem[root] = ('seq', tuple(('one', x) for x in c))
            r = [x for x, _ in p.I.call(s, p.parse, LV(PA), [('rseq', LV(root), 0, len(c))], {})]
        if len(r) != 1 or r[0].exc is not None or r[0].imp:
            return None
        s = r[0]
    try:
        g = [(x[0], x[1], tuple(e[1] for e in x[2][1])) for x in p.delivered(s)]
    except (TypeError, IndexError):
        return None
    return None if any(not isinstance(v, int) for f in g for v in (f[0], f[1]) + f[2]) else g


def resets(P, R):
    """after a reset the parser behaves like a new one (for C18 and C23)"""
    R.rule('The frame parser is interpreted on constant streams: what it delivers after a partial frame and a reset is what a new parser delivers for the bytes after the reset.')
    p = Parser(P, R, 400)
    for what, chunks in witnesses():
        if None not in chunks:
            continue
        k = chunks.index(None)
        a, b = play(p, chunks), play(p, chunks[k + 1:])
        R.count('reset_streams')
        if a is None or b is None:
            R.undec('%s: not followed precisely' % what)
        elif a == b:
            R.ok()
        else:
            R.violate('%s:parser-reset' % R.prop, p.where, 'after %d bytes of a frame and a reset, the bytes of %s give %s, a new parser gives %s' % (len(chunks[0]), short(frames_of(sum(chunks[k + 1:], []))), short(a), short(b)))
            break
    R.used(p.I)


def legal(p, s, end):
    return bool(spec(p.I, s.copy(), 0, end))


CHECKS = {'C09': c09}
