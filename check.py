#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current source."""
import importlib
import os
import sys
import threading
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore", DeprecationWarning)


def go(pid, out):
    # in a process of its own, whose main thread (which alone receives alarms) has a deep stack
    child = os.fork()
    if child:
        _, status = os.waitpid(child, 0)
        out.append(os.WEXITSTATUS(status) if os.WIFEXITED(status) else 3)
        return
    code = 3
    try:
        from sa import report
        mod = importlib.import_module('sa.checks.' + pid.lower())
        code = report.main(pid, mod.run)
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=go, args=(sys.argv[1], res))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(res[0] if res else 3)
