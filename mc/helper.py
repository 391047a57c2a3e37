"""A child process that makes one call of the code under test at a time and can be killed.

For calls that may never return from compiled code (where no Python signal handler runs)."""
import multiprocessing as mp


def _serve(conn, fn_module, fn_name):
    import ctypes
    import importlib
    import signal
    import warnings

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # end with the parent

    import mc.env  # noqa: F401

    warnings.simplefilter("ignore")
    fn = getattr(importlib.import_module(fn_module), fn_name)
    while True:
        try:
            args = conn.recv()
        except EOFError:
            return
        try:
            conn.send((True, fn(*args, conn.send)))
        except Exception as e:
            conn.send((False, "%s: %s" % (type(e).__name__, " ".join(str(e).split()))))


class Timeout(Exception):
    pass


class Helper:
    """Calls module.name(*args, report); raises Timeout(last report) and kills the child if it is
    silent for some seconds."""

    def __init__(self, module, name):
        self.module, self.name, self.proc = module, name, None

    def _start(self):
        ctx = mp.get_context("spawn")
        self.conn, other = ctx.Pipe()
        self.proc = ctx.Process(target=_serve, args=(other, self.module, self.name), daemon=True)
        self.proc.start()
        other.close()

    def __call__(self, args, seconds):
        if self.proc is None:
            self._start()
            first = 30
        else:
            first = 0
        self.conn.send(args)
        where = None
        while True:
            if not self.conn.poll(seconds + first):
                self.proc.kill()
                self.proc.join()
                self.proc = None
                raise Timeout(where)
            try:
                ans = self.conn.recv()
            except EOFError:
                self.proc.join()
                self.proc = None
                raise RuntimeError("the helper process died")
            if isinstance(ans, tuple):
                return ans
            where = ans  # a progress report
