"""Run a function in a process in which the code under test has been imported but never called.

`start` forks a template process, before the first case; `call` makes it fork a child that runs one function, so the
child knows nothing of the cases before, whatever the code under test has stored in its modules."""
import multiprocessing
import os
import pickle
import signal
import sys
import traceback

_link = None


def start():
    global _link
    if _link is not None:
        return
    here, there = multiprocessing.Pipe()
    pid = os.fork()
    if pid == 0:
        here.close()
        try:
            _serve(there)
        finally:
            os._exit(0)
    there.close()
    _link = here


def _serve(conn):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    while True:
        try:
            mod, name, args = conn.recv()
        except EOFError:
            return
        pid = os.fork()
        if pid == 0:
            signal.alarm(100)
            import numpy as np
            np.random.seed(20160929)
            np.seterr(all="ignore")
            try:
                out = ("ok", getattr(sys.modules[mod], name)(*args))
            except BaseException as e:
                out = ("error", "{}: {} | {}".format(type(e).__name__, e, " / ".join(
                    l.strip() for l in traceback.format_exc().splitlines()[-5:])))
            try:
                conn.send_bytes(pickle.dumps(out))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        conn.send_bytes(b"done")


def call(fun, *args):
    """("ok", result) or ("error", text)."""
    start()
    _link.send((fun.__module__, fun.__name__, args))
    a = _link.recv_bytes()
    if a == b"done":
        return ("error", "the process died")
    b = _link.recv_bytes()
    assert b == b"done"
    return pickle.loads(a)
