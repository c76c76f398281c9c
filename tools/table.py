"""print the table of planted bugs and corpus counts for DESIGN.md section 9

  python3 tools/table.py          print it
  python3 tools/table.py --write  replace the section in DESIGN.md"""
import glob
import importlib.util
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    out = ['## 9. What catches what', '',
           'Generated by `tools/table.py --write`. Every planted bug is reported (exit 1) by',
           'the check of its property; confirmed with `tools/seed.py --recheck`.', '',
           '| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
    for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
        d = json.load(open(m))
        c = [x.strip().replace('|', '/') for x in (d['needs'], d['what_it_breaks'])]
        out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], *c))
    out += ['', 'Edits of the corpus (bad: must be reported, ok: must stay quiet), per property:', '',
            '| property | bad | ok |', '|---|---|---|']
    n = {}
    for f in sorted(glob.glob(V + '/corpus/*.py')):
        s = importlib.util.spec_from_file_location('m', f)
        k = importlib.util.module_from_spec(s)
        s.loader.exec_module(k)
        for e in k.EDITS:
            for p in e[2].split():
                n.setdefault(p, {'bad': 0, 'ok': 0})[e[1]] += 1
    for p in sorted(n):
        out.append('| %s | %d | %d |' % (p, n[p]['bad'], n[p]['ok']))
    t = '\n'.join(out) + '\n'
    if '--write' in sys.argv:
        s = open(V + '/DESIGN.md').read()
        open(V + '/DESIGN.md', 'w').write(s[:s.index('## 9. What')] + t)
    else:
        print(t)


main()
