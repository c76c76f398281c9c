"""run the edit corpus: bad edits must be reported by their property's check,
benign ones must leave the listed checks quiet.

  python3 tools/corpus.py [-j N] [module ...] [-k substring]
A corpus module defines EDITS = [(name, kind, 'C10 C12', [(file, old, new), ...])]
with kind 'bad' (each listed property must report) or 'ok' (none may)."""
import concurrent.futures as cf
import importlib.util
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(job):
    name, kind, props, edits = job
    d = '/tmp/corpus.%d.%s' % (os.getpid(), name)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '_build'), symlinks=True)
    try:
        for f, old, new in edits:
            p = d + '/' + f
            s = open(p).read()
            if old not in s:
                # tolerate blank lines and comments between the lines
                gap = r'[ \t]*(?://[^\n]*)?\n(?:\s*(?://[^\n]*)?\n)*\s*'
                m = re.search(gap.join(re.escape(l.strip()) for l in old.split('\n') if l.strip()), s)
                if not m:
                    return name, kind, 'edit does not apply: ' + old[:60]
                old = m.group(0)
                new = new.strip()
            open(p, 'w').write(s.replace(old, new, 1))
        out = []
        for c in props.split():
            r = subprocess.run([sys.executable, V + '/run.py', c], env=dict(os.environ, SA_REPO=d), capture_output=True, text=True)
            want = 1 if kind == 'bad' else 0
            if r.returncode != want:
                out.append('%s exit %d: %s' % (c, r.returncode, (r.stdout + r.stderr)[-500:].replace('\n', ' | ').replace('; ', ', ')))
            elif os.environ.get('SHOW'):
                out.append(('+' + c + ' ' + ' '.join(l.strip() for l in r.stdout.split('\n') if l.startswith('  ')))[:300].replace('; ', ', '))
        return name, kind, '; '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j = 4
    k = None
    mods = []
    while a:
        x = a.pop(0)
        if x == '-j':
            j = int(a.pop(0))
        elif x == '-k':
            k = a.pop(0)
        else:
            mods.append(x)
    mods = mods or sorted(f[:-3] for f in os.listdir(V + '/corpus') if f.endswith('.py'))
    jobs = []
    for m in mods:
        sp = importlib.util.spec_from_file_location(m, V + '/corpus/%s.py' % m)
        x = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(x)
        jobs += [(m + '.' + n, kd, p, e) for n, kd, p, e in x.EDITS if k is None or re.search(k, n)]
    bad = 0
    with cf.ProcessPoolExecutor(j) as ex:
        for name, kind, msg in ex.map(run, jobs):
            if msg and any(not m.startswith('+') for m in msg.split('; ')):
                bad += 1
                print('FAIL %-4s %s: %s' % (kind, name, msg))
            elif msg:
                print('ok   %-4s %s: %s' % (kind, name, msg))
    sys.stdout.flush()
    print('%d edits, %d unexpected' % (len(jobs), bad))
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
