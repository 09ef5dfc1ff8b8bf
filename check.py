#!/usr/bin/env python
"""check.py ID [--rebase] [--root DIR]: decide one property of the code in /repo by static analysis."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main(argv):
    pid = argv[1]
    root = argv[argv.index('--root') + 1] if '--root' in argv else '/repo'
    rebase = '--rebase' in argv
    from jptsa.ctx import Ctx
    from jptsa.rules import load
    ctx = Ctx(pid, root, HERE, rebase)
    t0 = time.time()
    try:
        rule = load(pid)
        rule(ctx)
        rc = ctx.finish(time.time() - t0)
    except Exception as e:
        traceback.print_exc()
        print('ERROR property=%s the analysis could not be carried out: %s: %s' % (pid, type(e).__name__, e))
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == '__main__':
    main(sys.argv)
