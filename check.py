#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]   decide one property on /repo's current source"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    from engine.framework import Ctx, Missing
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or 'thorough' in sys.argv[2:] else 'quick'
    mod = importlib.import_module('checks.' + pid.lower())
    ctx = Ctx(pid, tier)
    try:
        return mod.run(ctx)
    except Missing as e:
        print('ANALYSIS-BROKEN property=%s: %s is gone, the property cannot be located' % (pid, e))
        return 2
    except SyntaxError as e:
        print('ANALYSIS-BROKEN property=%s: the source does not parse: %s' % (pid, e))
        return 2


rc = [3]


def body():
    rc[0] = main()


t = threading.Thread(target=body)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
