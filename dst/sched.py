"""
Deterministic thread scheduler.

The caller threads are real threads, but exactly one of them holds the token at any
time.  A trace function gives the scheduler control at every source line (or every
byte code) executed inside the code under test; there it decides, from its policy
alone, who runs next.  What is real is the execution; what is simulated is the choice
of who runs.  Abort faults ("cancel") are raised at the same points.
"""

import _thread
import ast
import os
import sys
import threading
import time

from .core import HarnessError
from .target import PKG

PKG_PREFIX = os.path.realpath(PKG) + os.sep
_RealLock = _thread.allocate_lock
_active = None  # the running Scheduler, if any

# ---------------------------------------------------------------- source map
_guard_cache = {}


def _guarded_lines(filename):
    """
    Lines at which an asynchronous abort is not injected: clean-up code (finally
    and except bodies) and the `try:` line itself.  No code can protect its own
    clean-up from being interrupted, so an abort there would only raise false alarms.
    """
    got = _guard_cache.get(filename)
    if got is None:
        got = set()
        try:
            tree = ast.parse(open(filename).read())
        except (OSError, SyntaxError):
            tree = None
        if tree is not None:
            for node in ast.walk(tree):
                if isinstance(node, ast.Try):
                    got.add(node.lineno)
                    for part in [*node.finalbody, *node.handlers]:
                        got.update(range(part.lineno, part.end_lineno + 1))
                elif isinstance(node, ast.With):
                    got.update(range(node.lineno, node.body[0].lineno))
        _guard_cache[filename] = got
    return got


_code_cache = {}


def _traced(code):
    r = _code_cache.get(code)
    if r is None:
        fn = code.co_filename
        r = os.path.realpath(fn).startswith(PKG_PREFIX) and code.co_name != "<module>"
        _code_cache[code] = r
    return r


def loc_of(frame):
    c = frame.f_code
    return (os.path.basename(c.co_filename), c.co_name, frame.f_lineno)


# ------------------------------------------------------------- lock seam
class SimLock:
    """A lock as the code under test sees it (also serves as RLock)."""

    def __init__(self, reentrant=False):
        self._real = threading._RealRLock() if reentrant else _RealLock()
        self._re = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = _thread.get_ident()
        if s is None or me not in s.by_ident:
            return self._real.acquire(blocking, timeout)
        while True:
            if self._owner is None or (self._re and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking or timeout >= 0:
                return False
            s.block_on(self)

    def release(self):
        s = _active
        if s is None or _thread.get_ident() not in s.by_ident:
            if self._owner is None:
                self._real.release()
                return
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if s is not None:
                s.wake(self)

    def locked(self):
        if self._owner is not None:
            return True
        return self._real.locked() if hasattr(self._real, "locked") else False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install_lock_seam():
    if hasattr(threading, "_RealRLock"):
        return
    threading._RealRLock = threading.RLock
    real_lock, real_rlock = threading.Lock, threading.RLock

    def _from_target():
        return sys._getframe(2).f_globals.get("__name__", "").split(".")[0] == "utide"

    def Lock():
        return SimLock() if _from_target() else real_lock()

    def RLock():
        return SimLock(True) if _from_target() else real_rlock()

    threading.Lock = Lock
    threading.RLock = RLock


# --------------------------------------------------------------- policies
class Policy:
    """Decides at each scheduling point which thread gets the token."""

    def start(self, n):
        return 0

    def decide(self, s, tid, loc):
        return tid

    def pick_next(self, s, tid):
        """tid cannot go on (finished or blocked): who is next?"""
        r = s.runnable()
        later = [x for x in r if x > tid]
        return (later or r)[0]


class RandomPolicy(Policy):
    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def decide(self, s, tid, loc):
        if self.rng.random() < self.p:
            r = s.runnable()
            return r[self.rng.randrange(len(r))]
        return tid

    def pick_next(self, s, tid):
        r = s.runnable()
        return r[self.rng.randrange(len(r))]


class RoundRobin(Policy):
    def __init__(self, k):
        self.k, self.c = k, 0

    def decide(self, s, tid, loc):
        self.c += 1
        if self.c >= self.k:
            self.c = 0
            return self.pick_next(s, tid)
        return tid


class Stall(Policy):
    """
    Thread `tid` is parked at its k-th scheduling point until another thread has
    completed `calls` calls (or nobody else can run): the slow-node fault.
    """

    def __init__(self, stalls, first=0):
        self.todo = {}
        for st in stalls:
            self.todo.setdefault(st["tid"], []).append(
                {"k": st["k"], "calls": st.get("calls", 1)},
            )
        self.parked = {}
        self.first = first
        self.fired = 0

    def start(self, n):
        return self.first % n

    def _choose(self, s, tid):
        done = s.calls_done
        for t, (goal, who) in list(self.parked.items()):
            if sum(done) - done[t] >= goal or s.state[t] != "ready":
                del self.parked[t]
        r = [x for x in s.runnable() if x not in self.parked]
        if not r:
            r = s.runnable()
            if r and r[0] in self.parked:
                del self.parked[r[0]]
        return r

    def decide(self, s, tid, loc):
        lst = self.todo.get(tid)
        if lst:
            for st in lst:
                if st["k"] == s.steps_of[tid]:
                    others = sum(s.calls_done) - s.calls_done[tid]
                    self.parked[tid] = (others + st["calls"], tid)
                    self.fired += 1
                    r = self._choose(s, tid)
                    later = [x for x in r if x > tid]
                    return (later or r)[0]
        if self.parked and (s.total % 16 == 0):
            before = set(self.parked)
            self._choose(s, tid)
            freed = before - set(self.parked)
            if freed:
                return min(freed)
        return tid

    def pick_next(self, s, tid):
        r = self._choose(s, tid)
        later = [x for x in r if x > tid]
        return (later or r)[0]


class Replay(Policy):
    """Follows a recorded list of [global step, next tid] decisions."""

    def __init__(self, switches, first=0):
        self.sw = {int(a): int(b) for a, b in switches}
        self.first = first

    def start(self, n):
        return self.first % n

    def decide(self, s, tid, loc):
        t = self.sw.get(s.total)
        if t is not None and t < s.n and s.state[t] == "ready":
            return t
        return tid


def make_policy(spec, rng):
    k = spec["kind"]
    if k == "rand":
        return RandomPolicy(rng, spec["p"])
    if k == "rr":
        return RoundRobin(spec["k"])
    if k == "stall":
        return Stall(spec["stalls"], spec.get("first", 0))
    if k == "replay":
        return Replay(spec["switches"], spec.get("first", 0))
    if k == "serial":
        return Policy()
    raise HarnessError(f"unknown policy {k}")


# ------------------------------------------------------------- scheduler
class StepLimit(BaseException):
    pass


class Scheduler:
    def __init__(self, policy, step_cap=4_000_000, opcodes=False):
        self.policy = policy
        self.step_cap = step_cap
        self.opcodes = opcodes
        self.total = 0
        self.switches = []  # [global step, next tid]
        self.switch_locs = []
        self.deadlock = False
        self.over = False

    # -- public: bodies is a list of callables(tid) executed under the token
    def run(self, bodies, real_limit=100.0):
        global _active
        self.n = n = len(bodies)
        self.state = ["ready"] * n
        self.waiting = [None] * n
        self.steps_of = [0] * n
        self.calls_done = [0] * n
        self.sem = [_RealLock() for _ in range(n)]
        for x in self.sem:
            x.acquire()
        self.by_ident = {}
        self.tid_abort = [None] * n
        self.fin = _RealLock()
        self.fin.acquire()
        self.errors = [None] * n
        ready = [_RealLock() for _ in range(n)]
        for x in ready:
            x.acquire()

        def body(tid):
            self.by_ident[_thread.get_ident()] = tid
            ready[tid].release()
            self.sem[tid].acquire()
            try:
                bodies[tid](tid)
            except BaseException as e:  # harness trouble
                self.errors[tid] = e
            finally:
                sys.settrace(None)
                self.state[tid] = "done"
                self._leave(tid)

        _active = self
        try:
            for tid in range(n):
                _thread.start_new_thread(body, (tid,))
            for x in ready:
                x.acquire()
            first = self.policy.start(n)
            self.sem[first].release()
            if not self.fin.acquire(True, real_limit):
                raise HarnessError("scheduled run exceeded its real-time limit")
        finally:
            _active = None
        for e in self.errors:
            if e is not None and not isinstance(e, StepLimit):
                raise e
        return self

    def runnable(self):
        return [i for i in range(self.n) if self.state[i] == "ready"]

    def _leave(self, tid):
        """current thread cannot continue: hand the token over."""
        r = self.runnable()
        if r:
            nxt = self.policy.pick_next(self, tid)
            self.switches.append([self.total, nxt])
            self.sem[nxt].release()
        else:
            if any(s == "blocked" for s in self.state):
                self.deadlock = True
            self.fin.release()

    def _switch(self, tid, nxt, loc):
        self.switches.append([self.total, nxt])
        if len(self.switch_locs) < 5000:
            self.switch_locs.append((tid, loc, nxt))
        self.sem[nxt].release()
        self.sem[tid].acquire()

    def block_on(self, lock):
        tid = self.by_ident[_thread.get_ident()]
        self.state[tid] = "blocked"
        self.waiting[tid] = lock
        r = self.runnable()
        if not r:
            self.deadlock = True
            self.fin.release()
            self.sem[tid].acquire()  # parked for good
        nxt = self.policy.pick_next(self, tid)
        self.switches.append([self.total, nxt])
        self.sem[nxt].release()
        self.sem[tid].acquire()

    def wake(self, lock):
        for i in range(self.n):
            if self.state[i] == "blocked" and self.waiting[i] is lock:
                self.state[i] = "ready"
                self.waiting[i] = None

    # -- tracing
    def enter(self, tid, abort=None):
        """called by a thread body just before a call into the code under test;
        abort = {"k": line-event index within this call, "exc": exception}"""
        self.tid_abort[tid] = dict(abort) if abort else None
        self.call_steps = getattr(self, "call_steps", [0] * self.n)
        self.call_steps[tid] = 0
        sys.settrace(self._global)

    def leave(self, tid):
        sys.settrace(None)
        self.calls_done[tid] += 1

    def _global(self, frame, event, arg):
        if event == "call" and _traced(frame.f_code):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            tid = self.by_ident[_thread.get_ident()]
            self.total += 1
            self.steps_of[tid] += 1
            if self.total > self.step_cap:
                self.over = True
                raise StepLimit
            ab = self.tid_abort[tid]
            if ab is not None and event == "line":
                self.call_steps[tid] += 1
                if self.call_steps[tid] >= ab["k"] and frame.f_lineno not in _guarded_lines(
                    frame.f_code.co_filename,
                ):
                    self.tid_abort[tid] = None
                    ab["fired"] = loc_of(frame)
                    self.last_abort = ab
                    self.fired_aborts = [*getattr(self, "fired_aborts", []), (tid, ab["fired"])]
                    raise ab["exc"]
            nxt = self.policy.decide(self, tid, None)
            if nxt != tid:
                self._switch(tid, nxt, loc_of(frame))
        return self._local


class LineProbe:
    """Single-threaded tracing: count or abort at line events of one call."""

    def __init__(self, k=None, exc=None, collect=False, cap=20_000_000):
        self.k, self.exc, self.collect, self.cap = k, exc, collect, cap
        self.count = 0
        self.locs = []
        self.fired = None
        self.over = False

    def _global(self, frame, event, arg):
        if event == "call" and _traced(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.collect:
                self.locs.append(loc_of(frame))
            if self.count > self.cap:
                self.over = True
                raise StepLimit
            if (
                self.k is not None
                and self.fired is None
                and self.count >= self.k
                and frame.f_lineno not in _guarded_lines(frame.f_code.co_filename)
            ):
                self.fired = loc_of(frame)
                raise self.exc
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


_ = time
