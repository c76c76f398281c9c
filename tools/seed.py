#!/usr/bin/env python3
"""tools/seed.py ID PROP --edit edits.py --demo demo.cpp --srcs 'glob ...' --needs .. --breaks ..
make and confirm a planted bug in a scratch copy; store it in seeded/ID"""
import argparse
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# compiles demo.cpp (beside this file) with the library sources of the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
set -e
cd "$T"
S=""
for g in %s; do S="$S $(ls $R/$g)"; done
printf '%%s\\n' $S "$D/demo.cpp" | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O0 -w -DFMT_DEPRECATED_OSTREAM -DSPDLOG_FMT_EXTERNAL -DASIO_STANDALONE -I"'$D'/stubs" -I"'$R'/lib/include" -I"'$R'/lib/src" -c "{}" -o "'$T'/$(echo "{}" | cksum | cut -d" " -f1).o"'
g++ "$T"/*.o -o demo -lspdlog -lfmt -lpthread
timeout 60 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('id')
    a.add_argument('prop')
    a.add_argument('--edit', help='python file defining edits = [(file, old, new), ...]')
    a.add_argument('--demo')
    a.add_argument('--srcs', default='lib/src/*.cpp lib/src/*/*.cpp lib/src/*/*/*.cpp')
    a.add_argument('--needs', default='')
    a.add_argument('--breaks', default='')
    a.add_argument('--also', default='', help='further checks to run')
    a.add_argument('--recheck', action='store_true')
    o = a.parse_args()
    d = '%s/seeded/%s' % (V, o.id)
    w = '/tmp/seed.%d' % os.getpid()
    sh('cp -a /repo %s' % w)
    try:
        if not o.recheck:
            ns = {}
            exec(open(o.edit).read(), ns)
            os.makedirs(d, exist_ok=True)
            for f, old, new in ns['edits']:
                p = w + '/' + f
                s = open(p).read()
                if s.count(old) != 1:
                    sys.exit('%s: old text found %d times' % (f, s.count(old)))
                open(p, 'w').write(s.replace(old, new))
            open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE, text=True).stdout)
            sh('git -C %s checkout -- .' % w)
            shutil.copy(o.demo, d + '/demo.cpp')
            if os.path.exists(d + '/stubs'):
                shutil.rmtree(d + '/stubs')
            shutil.copytree(V + '/stubs', d + '/stubs')
            open(d + '/demo.sh', 'w').write(DEMO % o.srcs)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': o.prop, 'needs': o.needs, 'what_it_breaks': o.breaks}, open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % d, cwd=w)
        print('clean: exit', r.returncode, '' if r.returncode == 0 else r.stdout[-1500:])
        g = sh('git apply %s/patch.diff' % d, cwd=w)
        if g.returncode:
            sys.exit('patch: ' + g.stdout)
        r = sh('bash %s/demo.sh' % d, cwd=w)
        print('patched: exit', r.returncode, r.stdout[-400:])
        # stable tests of the part that builds
        b = '/tmp/seedb.%d' % os.getpid()
        r = sh('CC=gcc CXX=g++ cmake -S /opt/vp/cmake -B %s -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DREPO=%s && ninja -C %s' % (b, w, b))
        if r.returncode:
            print('BUILD FAILS', r.stdout[-1500:])
        else:
            t = sh('for t in $(find %s -maxdepth 2 -type f -executable -name "*test*"); do $t || exit 1; done' % b)
            print('tests:', t.returncode, t.stdout.strip().split('\n')[-1][:100])
        sh('rm -rf ' + b)
        for p in [o.prop] + o.also.split():
            r = sh('SA_REPO=%s python3 run.py %s' % (w, p), cwd=V)
            print('check %s: exit %d' % (p, r.returncode))
            print('\n'.join(x[:260] for x in r.stdout.strip().split('\n')[-5:]))
    finally:
        sh('rm -rf ' + w)


main()
