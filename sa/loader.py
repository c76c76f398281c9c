"""runs the extractor on /repo's current tree and indexes the resulting program"""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import seqs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
FLAGS = ['-std=gnu++17', '-DFMT_DEPRECATED_OSTREAM', '-w', '-I' + VERIF + '/stubs']
RES = '/usr/lib/llvm-18/lib/clang/18/include'


class Broken(Exception):
    """the analysis cannot give an answer (anchor vanished, sources unreadable)"""


def extractor():
    for d in (VERIF + '/build', os.path.join(tempfile.gettempdir(), 'modbus-sa')):
        exe = d + '/dump'
        src = VERIF + '/extractor/dump.cpp'
        stamp = hashlib.sha256(open(src, 'rb').read()).hexdigest()
        try:
            if os.path.exists(exe) and open(exe + '.stamp').read() == stamp:
                return exe
        except OSError:
            pass
        try:
            os.makedirs(d, exist_ok=True)
            tmp = exe + '.%d' % os.getpid()
            r = subprocess.run(['bash', VERIF + '/extractor/build.sh', tmp], capture_output=True, text=True)
            if r.returncode:
                raise Broken('extractor does not build: ' + r.stderr[-2000:])
            os.replace(tmp, exe)
            with open(exe + '.stamp', 'w') as f:
                f.write(stamp)
            return exe
        except OSError:
            continue
    raise Broken('no place to build the extractor')


def sources():
    out = []
    for base, dirs, files in os.walk(REPO + '/lib/src'):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.cpp'):
                out.append(os.path.join(base, f))
    if not out:
        raise Broken('no sources under ' + REPO + '/lib/src')
    return out


def run_dump(exe, src, out):
    cmd = [exe, out, REPO + '/lib/', src, '--'] + FLAGS + ['-I' + REPO + '/lib/include', '-I' + REPO + '/lib/src', '-I' + RES]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if not os.path.exists(out):
        return None, r.stderr
    d = json.load(open(out))
    os.unlink(out)
    return d, r.stderr


class Program:
    def __init__(self, dumps, files):
        self.types = {}
        self.functions = {}     # usr -> function
        self.records = {}
        self.enums = {}
        self.globals = []
        self.files = files
        self.by_disp = {}
        tbase = 0
        vbase = 0
        seen_types = {}
        for d in dumps:
            remap = None
            if tbase:
                remap = {int(k): None for k in d['types']}
            if len(dumps) > 1:
                d = renumber(d, self, seen_types)
            else:
                self.types = {int(k): v for k, v in d['types'].items()}
            for f in d['functions']:
                self.functions.setdefault(f['fn']['u'], f)
            for r in d['records']:
                self.records.setdefault(r['c'], r)
            for e in d['enums']:
                self.enums.setdefault(e['c'], e)
            self.globals += d['globals']
            tbase = 1
        for f in self.functions.values():
            self.by_disp.setdefault(f['disp'], []).append(f)
        # class hierarchy
        self.bases = {}
        self.derived = {}
        for c, r in self.records.items():
            bs = [self.types[b].get('c') for b in r['bases']]
            self.bases[c] = bs
            for b in bs:
                self.derived.setdefault(b, []).append(c)
        self.overriders = {}
        for f in self.functions.values():
            for o in f.get('ov', ()):
                self.overriders.setdefault(o, []).append(f)
        self.lambdas = {}
        for f in self.functions.values():
            self._lam(f['body'], f)
            for i in f.get('inits', ()):
                self._lam(i.get('e'), f)

    def _lam(self, n, f):
        if isinstance(n, dict):
            if n.get('k') == 'lambda':
                n['_owner'] = f
                # one lambda class may occur in several template instances
                self.lambdas[(n['id'], f['fn']['u'])] = n
                n['_key'] = (n['id'], f['fn']['u'])
            for v in n.values():
                if isinstance(v, (dict, list)) and v is not f:
                    self._lam(v, f)
        elif isinstance(n, list):
            for v in n:
                self._lam(v, f)

    def is_a(self, c, base):
        if c == base:
            return True
        return any(self.is_a(b, base) for b in self.bases.get(c, ()) if b)

    def all_derived(self, c):
        out = []
        for d in self.derived.get(c, ()):
            out.append(d)
            out += self.all_derived(d)
        return out

    def ancestors(self, c):
        out = [c]
        for b in self.bases.get(c, ()):
            if b:
                out += self.ancestors(b)
        return out

    def resolve(self, fnref, cls):
        """final overrider of a virtual method in class cls (a function or None)"""
        u = fnref['u']
        for c in self.ancestors(cls):
            for f in self.functions.values():
                if f['fn'].get('c') == c and (f['fn']['u'] == u or self.overrides(f, u)):
                    return f
        return None

    def overrides(self, f, u):
        for o in f.get('ov', ()):
            if o == u:
                return True
            g = self.functions.get(o)
            if g is not None and self.overrides(g, u):
                return True
            # pure virtual in between
            for r in self.records.values():
                for m in r['methods']:
                    if m['fn']['u'] == o and u in m['ov']:
                        return True
        return False

    def fn(self, disp, n=None):
        """functions by displayed qualified name"""
        return self.by_disp.get(disp, [])

    def method(self, cls, name, nparams=None, pred=None):
        out = []
        for f in self.functions.values():
            if f['fn'].get('c') == cls and f['fn']['n'] == name and (nparams is None or len(f['params']) == nparams) and (pred is None or pred(f)):
                out.append(f)
        return out


def renumber(d, prog, seen):
    """merge another translation unit's type ids and variable ids into the program's"""
    m = {}
    for k in sorted(d['types'], key=int):
        t = d['types'][k]
        i = seen.get(t['s'])
        if i is None:
            i = len(seen)
            seen[t['s']] = i
            prog.types[i] = t
            t['_raw'] = True
        m[int(k)] = i
    for t in prog.types.values():
        if t.pop('_raw', None):
            if 'e' in t:
                t['e'] = m[t['e']]
            if 'ta' in t:
                t['ta'] = [m[a] if isinstance(a, int) else a for a in t['ta']]
    vb = getattr(prog, '_vb', 0)
    mx = [0]

    TK = {'t', 'rt', 'dt', 'at', 'ct', 'ty'}

    def walk(n):
        if isinstance(n, dict):
            isfn = 'u' in n and 'q' in n
            for k, v in list(n.items()):
                if k in TK and isinstance(v, int) and not isinstance(v, bool):
                    n[k] = m.get(v, v) if v >= 0 else v
                elif isfn and k in ('pt', 'fta'):
                    n[k] = [m.get(x, x) if isinstance(x, int) else x for x in v]
                elif k == 'bases':
                    n[k] = [m.get(x, x) for x in v]
                elif k == 'b' and isinstance(v, int):
                    n[k] = m.get(v, v)
                elif k == 'v' and isinstance(v, int) and n.get('k') not in ('int', 'float'):
                    if v >= 0:
                        mx[0] = max(mx[0], v)
                        n[k] = v + vb
                elif k in ('hv',) and isinstance(v, int):
                    n[k] = v + vb
                elif isinstance(v, (dict, list)):
                    walk(v)
        elif isinstance(n, list):
            for x in n:
                walk(x)
    walk(d['functions'])
    walk(d['records'])
    walk(d['globals'])
    prog._vb = vb + mx[0] + 1
    return d


def load():
    exe = extractor()
    srcs = sources()
    tmp = tempfile.mkdtemp(prefix='modbus-sa-')
    try:
        uni = tmp + '/unity.cpp'
        with open(uni, 'w') as f:
            for s in srcs:
                f.write('#include "%s"\n' % s)
            f.write(open(VERIF + '/extractor/driver.inc').read())
        d, err = run_dump(exe, uni, tmp + '/u.json')
        if d is not None and not d['errors']:
            dumps = [d]
        else:
            # one unit per source file (names may clash when merged)
            uni2 = tmp + '/driver.cpp'
            with open(uni2, 'w') as f:
                f.write(open(VERIF + '/extractor/driver.inc').read())
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(lambda p: run_dump(exe, p[1], tmp + '/%d.json' % p[0]), enumerate(srcs + [uni2])))
            dumps = []
            for (d, err), s in zip(rs, srcs + [uni2]):
                if d is None or d['errors']:
                    if s == uni2:
                        continue
                    raise Broken('cannot parse %s: %s' % (s, err[-1500:]))
                dumps.append(d)
    finally:
        for f in os.listdir(tmp):
            os.unlink(tmp + '/' + f)
        os.rmdir(tmp)
    p = Program(dumps, srcs)
    seqs.P = p
    return p
