#!/usr/bin/env python3
"""check.py <property-id> : decide one property on the current /repo tree"""
import importlib
import os
import sys
import traceback
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main(pid):
    if pid == '--selfcheck':
        # the tools the checks need, and that the current tree compiles
        from sa import build
        for cfg in ('default', 'notimer'):
            print(cfg, len(build.build_user(cfg).funcs), 'functions')
        print('kernel', len(build.build_kernel().funcs), 'functions')
        return 0
    from sa.lib import Check
    mod = importlib.import_module('checks.' + pid.lower())
    c = Check(pid)
    mod.check(c)
    return c.finish()


rc = [3]


def run():
    pid = sys.argv[1]
    try:
        rc[0] = main(pid)
    except Exception as e:
        traceback.print_exc()
        print('ERROR property=%s: %s: %s' % (pid, type(e).__name__, e))
        rc[0] = 3


t = threading.Thread(target=run)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
