"""ownership: which objects a value keeps alive

Smart pointers, closures capturing them and std::bind objects holding them own
what they point to; raw pointers, references, weak pointers and a captured
`this` do not.  Decided from the static type under which a value is held."""
from .interp import is_lv
from .seqs import strip_ref, fields_of, ty

SMART = ('std::shared_ptr', 'std::unique_ptr')


def owned(I, st, v, tid=None, acc=None):
    """roots kept alive by value v held under type tid (None: not known, then
    every pointer counts as owning)"""
    acc = set() if acc is None else acc
    walk(I, st, v, tid, acc)
    return acc


def target(I, st, p, acc):
    if p[0] == 'ptr' and is_lv(p[1]):
        r = p[1][1]
    elif p[0] == 'sptr':
        r = ('sym', p[1], p[2])
        acc.add(('sptr', p[1]))
    else:
        return
    if r in acc:
        return
    acc.add(r)
    o = st.mem.get(r)
    if o is not None:
        walk(I, st, o, None, acc)


def walk(I, st, v, tid, acc):
    if not isinstance(v, tuple) or not v:
        return
    t = ty(tid) if tid is not None else None
    if t is not None:
        if t['k'] in ('ptr', 'ref', 'rref', 'lref', 'int', 'bool', 'enum') or t.get('tn') == 'std::weak_ptr':
            return
    k = v[0]
    if k in ('ptr', 'sptr'):
        if t is None or t.get('tn') in SMART:
            target(I, st, v, acc)
        return
    if k == 'clo':
        lam = I.P.lambdas.get(v[1])
        for c, x in zip(lam['caps'] if lam else (), v[2]):
            if x[0] == 'val':
                walk(I, st, x[2], strip_ref(c['t']) if isinstance(c.get('t'), int) else None, acc)
        return
    if k == 'bind':
        ts = v[3] if len(v) > 3 and v[3] else (None,) * len(v[2])
        for x, tt in zip(v[2], ts):
            walk(I, st, x, tt, acc)
        return
    if k == 'wrapped':
        walk(I, st, v[1], None, acc)
        return
    if k in ('rec', 'srec') and len(v) > 2:
        ft = dict(fields_of(v[1])) if isinstance(v[1], str) else {}
        for z in v[2] if k == 'rec' and isinstance(v[2], tuple) else ():
            if isinstance(z, tuple) and len(z) == 2:
                walk(I, st, z[1], ft.get(z[0]), acc)
        return
    if k in ('lv', 'sl', 'sb', 'opq', 'str', 'ec', 'ph', 'fn', 'sfn', 'abuf', 'rseq', 'wseq', 'it', 'lock'):
        return
    for x in v[1:]:
        if isinstance(x, tuple):
            walk(I, st, x, None, acc) if x and isinstance(x[0], str) else [walk(I, st, y, None, acc) for y in x if isinstance(y, tuple)]


def refers(I, st, v, acc=None):
    """roots a handler may access without asking: this, pointers and references it holds"""
    acc = set() if acc is None else acc
    k = v[0] if isinstance(v, tuple) and v else None
    if k == 'clo':
        lam = I.P.lambdas.get(v[1])
        for n, x in enumerate(v[2]):
            c = lam['caps'][n] if lam and n < len(lam['caps']) else {}
            if x[0] == 'val' and isinstance(c.get('t'), int) and ty(strip_ref(c['t'])).get('tn') == 'std::weak_ptr':
                continue
            if x[0] == 'this' and is_lv(x[2]):
                acc.add(x[2][1])
            elif x[0] == 'ref' and is_lv(x[2]):
                acc.add(x[2][1])
            elif x[0] == 'val':
                refers(I, st, x[2], acc)
    elif k == 'bind':
        ts = v[3] if len(v) > 3 and v[3] else (None,) * len(v[2])
        for x, t in zip(v[2], ts):
            if t is None or ty(strip_ref(t)).get('tn') != 'std::weak_ptr':
                refers(I, st, x, acc)
    elif k == 'wrapped':
        refers(I, st, v[1], acc)
    elif k == 'ptr' and is_lv(v[1]):
        acc.add(v[1][1])
    elif k == 'lv':
        acc.add(v[1])
    elif k in ('rseq', 'wseq', 'abuf') and is_lv(v[1]):
        acc.add(v[1][1])
    return acc


KINDS = {'post': ('a posted handler', 1, 2), 'start': ('the action of a timer', 3, 4), 'aio': ('the handler of an asynchronous operation', 4, 9), 'request': ('the response handler of a request', 4, 5)}


def dangling(I, st, e):
    """[(rule, text, location)] for an event that keeps a handler for later; None: no such event"""
    if e[0] not in KINDS:
        return None
    name, i, j = KINDS[e[0]]
    h, loc = e[i], e[j]
    if h is None:
        return None
    refs = refers(I, st, h)
    if not refs:
        return []
    have = owned(I, st, h)
    out = []
    for r in refs:
        if not isinstance(r, tuple) or r in have or r[0] in ('g', 'static'):
            continue
        if r[0] == 'sym' and (len(r) < 2 or ('sptr', r[1]) in have or ('ref', r) not in captured(h)):
            continue
        if r[0] == 'v':
            out.append(('local', '%s refers to a local variable of the function that hands it over' % name, loc))
        else:
            out.append(('unowned', '%s refers to an object that it does not keep alive' % name, loc))
    return out


def captured(h, acc=None):
    """explicit captures by reference"""
    acc = set() if acc is None else acc
    k = h[0] if isinstance(h, tuple) and h else None
    if k == 'clo':
        for x in h[2]:
            if x[0] == 'ref' and is_lv(x[2]):
                acc.add(('ref', x[2][1]))
            elif x[0] == 'val':
                captured(x[2], acc)
    elif k == 'bind':
        for x in h[2]:
            captured(x, acc)
    elif k == 'wrapped':
        captured(h[1], acc)
    return acc
