#!/usr/bin/env python3
"""mk.py NAME DIR: write the tree of one change of the tables to DIR"""
import sys, os, glob, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mut
for t in glob.glob(os.path.dirname(os.path.abspath(__file__)) + '/m_*.txt'):
    for m in mut.load(t):
        if m['name'] == sys.argv[1]:
            d = sys.argv[2]
            os.makedirs(d, exist_ok=True)
            subprocess.run('git -C /repo archive HEAD | tar x -C %s' % d, shell=True, check=True)
            for f, old, new in m['edits']:
                s = open(d + '/' + f).read()
                assert s.count(old) == 1
                open(d + '/' + f, 'w').write(s.replace(old, new))
