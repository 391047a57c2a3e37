"""Baselines: what a query returns in a process that has done nothing else.

A server process imports dreimac and forks for every request, so no call made elsewhere can have
left anything behind."""
import multiprocessing as mp
import os
import pickle


def _serve(conn, module, name):
    import ctypes
    import importlib
    import signal

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    import mc.env  # noqa: F401

    fn = getattr(importlib.import_module(module), name)
    while True:
        try:
            args = conn.recv()
        except EOFError:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                with os.fdopen(w, "wb") as f:
                    pickle.dump(fn(*args), f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        conn.send(data)


class Fresh:
    def __init__(self, module, name):
        self.module, self.name, self.conn, self.cache = module, name, None, {}

    def __call__(self, *args):
        if args not in self.cache:
            if self.conn is None:
                ctx = mp.get_context("spawn")
                self.conn, other = ctx.Pipe()
                self.proc = ctx.Process(target=_serve, args=(other, self.module, self.name), daemon=True)
                self.proc.start()
                other.close()
            self.conn.send(args)
            self.cache[args] = pickle.loads(self.conn.recv())
        return self.cache[args]
