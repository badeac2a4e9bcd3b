"""
The simulated observing system: ocean -> gauge -> lossy telemetry -> archive.

A discrete-event simulation.  The ocean is the reference model (its constants are the
truth).  The gauge samples it on its own clock (jitter, drifting clock, crashes and
restarts), sends one message per sample; the channel loses, delays, reorders,
duplicates and, when told so, corrupts; outages lose everything in a window.  The
archive keys by sample time: duplicates overwrite, late messages are sorted in, what
never came is either absent or a missing value.
"""

import numpy as np

from .core import EventLoop, rng_for


def gen_channel(rng, heavy=False):
    """Fault configuration of one run: a random subset of the fault kinds."""
    c = {
        "drop": rng.choice([0, 0, 0.02, 0.1, 0.25]) if not heavy else rng.choice([0.1, 0.3]),
        "dup": rng.choice([0, 0, 0.05, 0.3]),
        "delay": rng.choice([0, 0, 0.2, 5.0]),
        "outages": [],
        "crashes": [],
        "jitter": rng.choice([0, 0, 0, 0.1, 0.3]),
        "drift": rng.choice([0, 0, 0, 1e-4, -2e-4]),
        "seed": rng.randrange(1 << 30),
    }
    for _ in range(rng.choice([0, 0, 1, 2])):
        c["outages"].append([round(rng.uniform(0.05, 0.9), 3), round(rng.uniform(0.002, 0.08), 3)])
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        c["crashes"].append([round(rng.uniform(0.05, 0.9), 3), round(rng.uniform(0.002, 0.05), 3)])
    return c


def run(start, dt, n, chan, ctx, corrupt=0.0):
    """
    -> dict(t, received (bool per slot), spiked (bool), arrivals (slots, in order))
    Sample times depend on the gauge's clock; values are the caller's business, so the
    truth can be expressed about the reference time of what was received.
    """
    rng = rng_for("gauge", chan["seed"])
    loop = EventLoop()
    span = dt * (n - 1)
    times = []
    for k in range(n):
        x = k * dt * (1.0 + chan["drift"])
        if chan["jitter"] and 0 < k < n - 1:
            x += rng.uniform(-1, 1) * chan["jitter"] * dt
        times.append(start + x)
    outages = [(start + a * span, start + (a + b) * span) for a, b in chan["outages"]]
    crashes = [(start + a * span, start + (a + b) * span) for a, b in chan["crashes"]]
    received = [False] * n
    spiked = [False] * n
    arrivals = []

    def deliver(k, bad):
        if received[k]:
            ctx.faults["duplicate delivered"] += 1
        if arrivals and k < arrivals[-1]:
            ctx.faults["message out of order"] += 1
        received[k] = True
        spiked[k] = spiked[k] or bad
        arrivals.append(k)

    def sample(k):
        if any(a <= loop.now < b for a, b in crashes):
            ctx.faults["sample lost: gauge down"] += 1
            return
        if any(a <= loop.now < b for a, b in outages):
            ctx.faults["message lost: outage"] += 1
            return
        bad = corrupt > 0 and rng.random() < corrupt
        if rng.random() < chan["drop"]:
            ctx.faults["message lost"] += 1
            return
        d = rng.random() * chan["delay"]
        if d:
            ctx.faults["message delayed"] += 1
        if bad:
            ctx.faults["value corrupted undetected"] += 1
        loop.after(d, lambda: deliver(k, bad))
        if rng.random() < chan["dup"]:
            loop.after(d + rng.random() * (chan["delay"] + 0.1), lambda: deliver(k, bad))

    for k in range(n):
        loop.at(times[k], lambda k=k: sample(k))
    ctx.faults["gauge crash and restart"] += len(crashes)
    loop.run()
    ctx.sim_days += span
    r = np.array(received)
    ctx.log("gauge", n, int(r.sum()), int(np.sum(spiked)), len(arrivals))
    ctx.state("gauge", "".join("1" if x else "0" for x in received))
    return {
        "t": np.array(times),
        "received": r,
        "spiked": np.array(spiked),
        "arrivals": arrivals,
    }
