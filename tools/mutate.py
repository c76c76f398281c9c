"""mutation run: small mechanical edits of the library, to find what no check
sees.  Prints the mutants that compile and that no listed check reports; each
is either equivalent or a gap.

  python3 tools/mutate.py [-j N] [-o OUT] [-n EVERY] FILE-REGEX"""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROUTE = [
    (r'messages/mbap/MbapParser', 'C09 C06 C18 C23'),
    (r'messages/mbap/', 'C03 C12 C20'),
    (r'messages/ExceptionType|exceptions/', 'C07 C34'),
    (r'messages/IMessage', 'C05 C06 C07'),
    (r'messages/', 'C01 C02 C03 C04 C05 C06 C08 C32'),
    (r'ClientChannelTcp|PendingRequest', 'C12 C13 C10 C11 C14 C15 C18 C25 C26 C27'),
    (r'AsioClientTcpConnection', 'C19 C38 C27 C25 C26'),
    (r'ClientSessionImpl|TimerWrapper', 'C16 C17 C36 C25 C26 C15'),
    (r'ScheduledRequest', 'C17 C16 C25 C26'),
    (r'ServerChannelTcp', 'C20 C21 C24 C25 C26'),
    (r'AsioServerTcpConnection', 'C23 C22 C27 C25 C26'),
    (r'AsioServer|IServer', 'C22 C38 C23 C27 C25 C26'),
    (r'ServerConnectionListener', 'C23 C25 C20 C26'),
    (r'ModbusManager', 'C28 C38 C35 C26'),
    (r'server/db|Database', 'C31 C30 C29'),
    (r'IServerSession', 'C37'),
    (r'Expected', 'C33'),
    (r'Identifier|Endpoint', 'C34 C11 C20'),
    (r'ogg', 'C35'),
    (r'.', 'C16 C28 C34')]


def code_lines(s):
    """(index, line) of the lines inside function bodies"""
    out = []
    depth = 0
    comment = False
    for i, l in enumerate(s):
        t = l.strip()
        if t.startswith('/*'):
            comment = True
        if comment:
            comment = '*/' not in t
            continue
        if t.startswith(('//', '#')) or not t:
            continue
        out.append((i, l))
    return out


def mutants(text):
    s = text.split('\n')
    res = []

    def put(i, new, what):
        if new != s[i]:
            res.append((what, '\n'.join(s[:i] + [new] + s[i + 1:]), i))
    lines = code_lines(s)
    for n, (i, l) in enumerate(lines):
        t = l.strip()
        if 'm_logger->' in t and t.endswith(';'):
            continue
        if re.match(r'(namespace|class|struct|template|using|public:|private:|virtual|typedef)', t):
            continue
        ind = l[:len(l) - len(l.lstrip())]
        if t.endswith(';') and not re.match(r'(return\b.+|break;|}.*)$', t) and l.startswith('  '):
            put(i, ind + ';', 'delete')
        if t == 'return;':
            put(i, ind + ';', 'delete')
        if t == 'break;':
            put(i, ind + ';', 'delete')
        m = re.match(r'(.*\bif ?\()(.*)(\))( return;| \{.*|)$', l)
        if m and m.group(2).count('(') == m.group(2).count(')'):
            put(i, m.group(1) + '!(' + m.group(2) + ')' + m.group(3) + m.group(4), 'negate')
            put(i, m.group(1) + 'true || ' + '(' + m.group(2) + ')' + m.group(3) + m.group(4), 'always')
            put(i, m.group(1) + 'false && ' + '(' + m.group(2) + ')' + m.group(3) + m.group(4), 'never')
        for a, b in [(' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '),
                     (' + ', ' - '), (' - ', ' + '), ('true', 'false'), ('false', 'true'), ('++', '--'), (' += ', ' -= '), (' -= ', ' += '), (' | ', ' & '), (' & ', ' | '),
                     ('>>', '<<'), (' % ', ' / '), (' / ', ' % '), ('front()', 'back()'), ('pop_front', 'pop_back'), ('push_back', 'push_front'), ('.begin()', '.end()'),
                     ('UInt16', 'UInt8'), ('UInt8', 'UInt16'), ('std::move(', '(')]:
            k = -1
            while True:
                k = l.find(a, k + 1)
                if k < 0:
                    break
                put(i, l[:k] + b + l[k + len(a):], a.strip() + '->' + b.strip())
        for m in re.finditer(r'(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])', l):
            v = int(m.group(1), 0)
            put(i, l[:m.start()] + str(v + 1) + l[m.end():], 'const+1')
            if v > 0:
                put(i, l[:m.start()] + str(v - 1) + l[m.end():], 'const-1')
        # drop an operand of && / ||
        for m in re.finditer(r'([^()&|]+?) (&&|\|\|) ([^()&|]+)', l):
            put(i, l[:m.start()] + m.group(3) + l[m.end():], 'drop-left')
            put(i, l[:m.start()] + m.group(1) + l[m.end():], 'drop-right')
        # exchange with the next statement
        if n + 1 < len(lines):
            j, l2 = lines[n + 1]
            if t.endswith(';') and l2.strip().endswith(';') and l.startswith('  ') and ind == l2[:len(l2) - len(l2.lstrip())] and 'return' not in t + l2 and 'm_logger->' not in l2:
                q = list(s)
                q[i], q[j] = l2, l
                res.append(('exchange', '\n'.join(q), i))
    return res


def run(job):
    f, what, text, i, old, new, no = job
    d = '/tmp/mut.%d.%d' % (os.getpid(), no)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '_build', 'examples', 'deps'), symlinks=True)
    try:
        open(d + '/' + f, 'w').write(text)
        props = next(p for r, p in ROUTE if re.search(r, f)).split()
        und = []
        for c in props:
            try:
                r = subprocess.run([sys.executable, V + '/run.py', c], env=dict(os.environ, SA_REPO=d, SA_LIMIT='200'), capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                und.append(c + '(time)')
                continue
            if r.returncode == 1:
                return 'killed', c, f, what, i, old, new
            if r.returncode == 2:
                return 'broken', r.stdout[-300:] + r.stderr[-200:], f, what, i, old, new
            if ' 0 undecided' not in r.stdout:
                und.append(c)
        return 'SURVIVED', 'undecided: ' + ' '.join(und) if und else 'silent', f, what, i, old, new
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j, out, every, rx = 7, None, 1, '.'
    while a:
        x = a.pop(0)
        if x == '-j':
            j = int(a.pop(0))
        elif x == '-o':
            out = a.pop(0)
        elif x == '-n':
            every = int(a.pop(0))
        else:
            rx = x
    files = subprocess.run(['git', '-C', '/repo', 'ls-files', 'lib/src', 'lib/include'], capture_output=True, text=True).stdout.split()
    jobs = []
    for f in files:
        if not re.search(rx, f):
            continue
        t = open('/repo/' + f).read()
        for what, new, i in mutants(t):
            jobs.append((f, what, new, i + 1, t.split('\n')[i].strip(), new.split('\n')[i].strip(), len(jobs)))
    jobs = jobs[::every]
    o = open(out, 'a') if out else sys.stdout
    print('%d mutants' % len(jobs), file=o, flush=True)
    n = {}
    with cf.ProcessPoolExecutor(j) as ex:
        for r in ex.map(run, jobs):
            n[r[0]] = n.get(r[0], 0) + 1
            if r[0] == 'SURVIVED':
                print('%s %s:%d %s | %s -> %s' % (r[1], r[2], r[4], r[3], r[5], r[6]), file=o, flush=True)
    print(n, file=o, flush=True)


main()
