"""Run a function in a forked child of a process that never used a solver."""
import os
import pickle
import sys
import signal
import traceback


def isolated(fn, *args):
    """fn(*args) in a forked child; the result is pickled back.  An exception
    of the child is returned as ("exc", text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, 120)
            try:
                out = ("ok", fn(*args))
            except BaseException:
                out = ("exc", traceback.format_exc())
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
        except BaseException:
            code = 1
        finally:
            sys.stdout.flush()
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        return ("exc", "child died")
    return pickle.loads(data)
