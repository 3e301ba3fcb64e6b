"""A process in which pxmcmc has been imported but never called: the model of "no earlier calls".

The server is forked once, before this process makes its first call into pxmcmc; each request is answered by a child forked
from it, so no answer ever depends on an earlier one, whatever the code keeps in modules, classes or caches."""
import multiprocessing as mp
import os
import signal
import traceback

_conn = None


def _serve(conn, fn):
    signal.setitimer(signal.ITIMER_REAL, 0)
    while True:
        try:
            req = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                import pickle

                try:
                    ans = ("ok", fn(req))
                except BaseException as e:  # what the fresh code does is the expected behaviour, exceptions included
                    ans = ("raised", type(e).__name__ + ": " + traceback.format_exc(limit=-1)[-300:])
                with os.fdopen(w, "wb") as f:
                    pickle.dump(ans, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            blob = f.read()
        os.waitpid(pid, 0)
        conn.send_bytes(blob)


def start(fn):
    """Call before anything else of pxmcmc is used in this process."""
    global _conn
    if _conn is None:
        import importlib

        for m in ("mcmc", "forward", "measurements", "transforms", "prior", "utils", "uncertainty", "saving"):
            importlib.import_module("pxmcmc." + m)
        a, b = mp.Pipe()
        pid = os.fork()
        if pid == 0:
            a.close()
            try:
                _serve(b, fn)
            finally:
                os._exit(0)
        b.close()
        _conn = a


def ask(req):
    import pickle

    _conn.send(req)
    return pickle.loads(_conn.recv_bytes())
