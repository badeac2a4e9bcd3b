"""
Core of the simulator: one integer decides everything.

* rng_for(...)   -- derives independent PRNG streams from VERIF_SEED.
* Ctx            -- what one simulated run records: an event log (its hash is the
                    identity of the execution), probes, fault counters, simulated
                    time, violations.
* EventLoop      -- discrete-event clock used by the gauge/telemetry simulations.
"""

import hashlib
import heapq
import json
import random
from collections import Counter


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, cls, detail, **info):
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = detail
        self.info = info


class HarnessError(Exception):
    """The harness itself cannot go on (never reported as a violation)."""


def rng_for(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def seed_for(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


class Ctx:
    def __init__(self, scenario):
        self.scenario = scenario
        self.events = []
        self._h = hashlib.sha256()
        self.faults = Counter()  # faults that actually fired, by kind
        self.probes = Counter()  # rare conditions reached
        self.sim_days = 0.0
        self.calls = Counter()  # real-code calls made
        self.states = set()  # hashes of interleavings / states reached
        self.nontrivial = False

    def log(self, *ev):
        """Append one event; must never draw randomness or read a real clock."""
        s = json.dumps(ev, default=str)
        self._h.update(s.encode())
        self._h.update(b"\n")
        if len(self.events) < 400:
            self.events.append(s)

    def log_hash(self):
        return self._h.hexdigest()[:24]

    def state(self, *parts):
        h = hashlib.sha256(json.dumps(parts, default=str).encode()).hexdigest()[:16]
        self.states.add(h)

    def fail(self, cls, detail, **info):
        self.log("violation", cls)
        raise Violation(cls, detail, **info)


class EventLoop:
    """Total order (time, seq); the only clock the simulated parties read."""

    def __init__(self):
        self.now = 0.0
        self.seq = 0
        self.q = []

    def at(self, when, fn):
        self.seq += 1
        heapq.heappush(self.q, (when, self.seq, fn))

    def after(self, delay, fn):
        self.at(self.now + delay, fn)

    def run(self, until=float("inf"), cap=2_000_000):
        n = 0
        while self.q and self.q[0][0] <= until:
            when, _, fn = heapq.heappop(self.q)
            self.now = when
            fn()
            n += 1
            if n > cap:
                raise HarnessError("event cap reached")
        return n
