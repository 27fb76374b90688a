"""One forked process per job, at most n at a time; results come back through pipes."""
import ctypes
import os
import pickle
import selectors
import signal
import time
import traceback

import build


class Pool:
    def __init__(self, fn, todo, n):
        self.fn, self.todo, self.n = fn, list(reversed(todo)), n
        self.sel = selectors.DefaultSelector()
        self.live = {}
        self.fill()

    def fill(self):
        while self.todo and len(self.live) < self.n:
            self.start(self.todo.pop())

    def start(self, job):
        # no process may be spawned elsewhere meanwhile: the worker would keep its pipes open
        with build.SPAWN:
            r, w = os.pipe()
            pid = os.fork()
            if pid:
                os.close(w)
        if pid:
            self.live[r] = (pid, job, [])
            self.sel.register(r, selectors.EVENT_READ)
            return
        rc = 1
        try:
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
            os.close(r)
            try:
                out = (True, self.fn(job))
            except BaseException:
                out = (False, traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            rc = 0
        finally:
            os._exit(rc)

    def next(self, timeout):
        """(job, result) of a finished job, or None when the time is up; result is a text if the job failed"""
        end = time.time() + timeout
        while True:
            for key, _ in self.sel.select(max(0, end - time.time())):
                pid, job, buf = self.live[key.fd]
                d = os.read(key.fd, 1 << 20)
                if d:
                    buf.append(d)
                    continue
                self.sel.unregister(key.fd)
                os.close(key.fd)
                del self.live[key.fd]
                _, st = os.waitpid(pid, 0)
                self.fill()
                try:
                    ok, res = pickle.loads(b"".join(buf))
                except Exception:
                    return job, "worker ended with status %d" % st
                return job, res
            if time.time() >= end:
                return None

    def stop(self):
        self.todo = []
        for fd, (pid, _, _) in self.live.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(fd)
        self.live = {}
