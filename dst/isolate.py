"""
Pristine processes.

`Pristine` is a helper forked before the run has called anything in the code under
test.  For each request it forks once more, so every request is executed by a process
in which the code under test has been imported and nothing else has happened.  It
provides both the "call made alone" oracle and the simulated restart after a crash.
"""

import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from .core import HarnessError

LIMIT = 90.0  # real seconds for one request


def _write(fd, b):
    mv = memoryview(b)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


def _read_exact(fd, n, deadline=None):
    out = bytearray()
    while len(out) < n:
        if deadline is not None:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                raise TimeoutError
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return bytes(out)


def send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    _write(fd, struct.pack("<Q", len(b)) + b)


def recv(fd, deadline=None):
    (n,) = struct.unpack("<Q", _read_exact(fd, 8, deadline))
    return pickle.loads(_read_exact(fd, n, deadline))


class Pristine:
    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(w1)
                os.close(r2)
                self._serve(r1, w2)
                code = 0
            except BaseException:
                pass
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        self.requests = 0

    @staticmethod
    def _serve(r, w):
        os.setpgid(0, 0)
        while True:
            try:
                req = _read_exact(r, 8)
            except EOFError:
                return
            (n,) = struct.unpack("<Q", req)
            body = _read_exact(r, n)
            pid = os.fork()
            if pid == 0:
                try:
                    fn, payload = pickle.loads(body)
                    try:
                        res = ("ok", fn(payload))
                    except BaseException as e:
                        res = ("harness", f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
                    send(w, res)
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st != 0:
                send(w, ("died", st))

    def run(self, fn, payload):
        """Execute module-level fn(payload) in a pristine process."""
        self.requests += 1
        send(self.w, (fn, payload))
        try:
            kind, val = recv(self.r, time.monotonic() + LIMIT)
        except TimeoutError:
            raise HarnessError("pristine process exceeded its real-time limit") from None
        except EOFError:
            raise HarnessError("pristine helper vanished") from None
        if kind != "ok":
            raise HarnessError(f"pristine process: {kind} {val}")
        return val

    def close(self):
        try:
            os.close(self.w)
            os.close(self.r)
        except OSError:
            pass
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
