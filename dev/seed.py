#!/usr/bin/env python3
"""seed.py: writes /verif/seeded/<id> for every entry of dev/seed/*.txt (mutation table syntax with
name = id and property = the third column) that has a demonstration dev/seed/<id>.c; header comment
lines '# needs: ...' and '# breaks: ...' follow the @@ line of the entry"""
import sys, os, glob, subprocess, json, shutil
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
import mut

DEMO = r'''#!/bin/bash
# run in the root of the source tree; exit 0: the property holds, 1: it does not
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
INC="@INC@"
src() { for f in "$R"/src/*.c "$R"/arch/*.c; do case " $INC " in *" $(basename "$f") "*) ;; *) echo "$f";; esac; done; }
gcc -O0 -g -w -std=gnu11 -D_GNU_SOURCE -DJENT_CONF_ENABLE_INTERNAL_TIMER -I"$R" -I"$R/arch" -I"$R/src" "$D/demo.c" $(src) -o "$T/demo" -Wl,--allow-multiple-definition -lpthread @LINK@ || exit 2
timeout 240 "$T/demo"
'''


def meta(path):
    """needs / breaks / include lists: blocks '@@ id' with key: value lines"""
    out = {}
    cur = None
    for L in open(path):
        L = L.rstrip('\n')
        if L.startswith('@@ '):
            cur = out.setdefault(L[3:].split('|')[0].strip(), {})
        elif L.startswith('# ') and ': ' in L and cur is not None:
            k, v = L[2:].split(': ', 1)
            cur[k] = v
    return out


for t in sorted(glob.glob(D + '/seed/*.txt')):
    M = meta(t)
    for m in mut.load(t):
        i = m['name']
        if len(sys.argv) > 1 and i not in sys.argv[1:]:
            continue
        d = D + '/../seeded/' + i
        os.makedirs(d, exist_ok=True)
        T = '/tmp/seedtree'
        shutil.rmtree(T, ignore_errors=True)
        os.makedirs(T + '/a')
        subprocess.run('git -C /repo archive HEAD | tar x -C %s/a && cp -a %s/a %s/b' % (T, T, T), shell=True, check=True)
        for f, old, new in m['edits']:
            s = open(T + '/b/' + f).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(T + '/b/' + f, 'w').write(s.replace(old, new))
        p = subprocess.run('cd %s && git diff --no-index --no-prefix a b' % T, shell=True, capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(p)
        x = M[i]
        json.dump(dict(property=m['props'][0], needs=x['needs'], what_it_breaks=x['breaks']), open(d + '/meta.json', 'w'), indent=1)
        if os.path.exists(D + '/seed/%s.sh' % i):
            shutil.copy(D + '/seed/%s.sh' % i, d + '/demo.sh')
        else:
            c = x.get('demo', i) + '.c'
            inc = [L.split('"')[1] for L in open(D + '/seed/' + c) if L.startswith('#include "') and L.strip().endswith('.c"')]
            shutil.copy(D + '/seed/' + c, d + '/demo.c')
            open(d + '/demo.sh', 'w').write(DEMO.replace('@INC@', ' '.join(inc)).replace('@LINK@', x.get('link', '')))
        os.chmod(d + '/demo.sh', 0o755)
        # quick trial
        r = [subprocess.run(['bash', d + '/demo.sh'], cwd=T + '/' + k, capture_output=True, text=True) for k in 'ab']
        print(i, 'demo unchanged rc=%d changed rc=%d' % (r[0].returncode, r[1].returncode),
              '' if r[0].returncode == 0 and r[1].returncode == 1 else 'BAD ' + r[0].stdout[-300:] + r[0].stderr[-600:] + '|' + r[1].stdout[-300:] + r[1].stderr[-600:])
        shutil.rmtree(T)
