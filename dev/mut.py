#!/usr/bin/env python3
"""development aid: run checks against textual mutants / refactorings of /repo
  mut.py [-p C01[,C02]] [-k substring] [-a]      (table: dev/mutants.txt)
Table format, one block per change:
  @@ name | kind(bug|same) | properties (comma) | file
  <<<<
  old
  ====
  new
  >>>>
several <<<< >>>> pairs may follow one header (each may be preceded by "@file path")"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))


def load(path):
    out, cur, mode, file = [], None, None, None
    for L in open(path):
        if mode is None and L.startswith('@@ '):
            n, k, p, f = [x.strip() for x in L[3:].split('|')]
            cur = dict(name=n, kind=k, props=[x.strip() for x in p.split(',') if x.strip()], edits=[])
            file = f
            out.append(cur)
        elif mode is None and L.startswith('@file '):
            file = L[6:].strip()
        elif L.startswith('<<<<'):
            mode, old, new = 'old', [], []
        elif L.startswith('====') and mode == 'old':
            mode = 'new'
        elif L.startswith('>>>>') and mode == 'new':
            cur['edits'].append((file, ''.join(old).rstrip('\n'), ''.join(new).rstrip('\n')))
            mode = None
        elif mode == 'old':
            old.append(L)
        elif mode == 'new':
            new.append(L)
    return out


def run(m, props, evid):
    d = tempfile.mkdtemp(prefix='mut')
    res = {}
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % d, shell=True, check=True)
        for f, old, new in m['edits']:
            p = d + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                return {'*': 'APPLY-FAIL %d in %s' % (s.count(old), f)}
            open(p, 'w').write(s.replace(old, new))
        for q in props:
            r = subprocess.run([sys.executable, HERE + '/../check.py', q], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/ev'))
            res[q] = (r.returncode, r.stdout, r.stderr)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('-p', default='')
    ap.add_argument('-k', default='')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-a', action='store_true', help='run every check on every change')
    a = ap.parse_args()
    allp = sorted(x[:-3].upper() for x in os.listdir(HERE + '/../checks') if re.match(r'c\d+\.py$', x))
    want = [x for x in a.p.split(',') if x]
    jobs = []
    for t in sorted(os.listdir(HERE)):
        if not t.endswith('.txt'):
            continue
        for m in load(HERE + '/' + t):
            if a.k and a.k not in m['name']:
                continue
            props = [p for p in (allp if (a.a or m['kind'] == 'same' and not m['props']) else m['props'])
                     if p in allp and (not want or p in want)]
            if props:
                jobs.append((m, props))
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for (m, props), res in zip(jobs, ex.map(lambda j: run(j[0], j[1], None), jobs)):
            if '*' in res:
                print('%-42s %s' % (m['name'], res['*']))
                bad += 1
                continue
            for q, (rc, o, e) in res.items():
                exp = 1 if (m['kind'] == 'bug' and q in m['props']) else 0
                if m['kind'] == 'bug' and q not in m['props']:
                    tag = 'also ' + q if rc == 1 else 'ERR%d' % rc if rc else ''
                    if tag:
                        print('%-42s %s %s' % (m['name'], q, tag))
                    continue
                ok = rc == exp
                if not ok:
                    bad += 1
                print('%-42s %s rc=%d %s' % (m['name'], q, rc, 'ok' if ok else '<<<<<<<< expected %d' % exp))
                if a.v or not ok and rc:
                    print('\n'.join('      ' + x for x in (o + e).splitlines()[-12:] if ': in ' in x or 'ERROR' in x or 'Error' in x))
            sys.stdout.flush()
    print('unexpected: %d of %d changes' % (bad, len(jobs)))


if __name__ == "__main__":
    main()
