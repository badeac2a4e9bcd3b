"""
A simulated tide station: a known ocean, a lossy gauge, an archive.

gen()   draws the scenario (plain data);
build() runs the gauge simulation and returns the archive and the truth.
"""

import datetime
import math

import numpy as np

from . import gauge, refmodel as rm
from . import workload as wl

F0 = dict(zip(rm.NAMES, rm.freqs(735000.0), strict=True))
COMMON = "M2 S2 N2 K2 K1 O1 P1 Q1 M4 MS4 MN4 M6 2MS6 M3 MK3 MSF MF MM M8 2SM6 L2 2N2 MU2 J1 OO1".split()


def gen_names(rng, span, dt_h, k, pool=None, sep=1.25, cap=None):
    """k names separated by sep cycles over the record and below the Nyquist rate."""
    pool = list(pool or rm.NAMES)
    rng.shuffle(pool)
    out = []
    h = span * 24
    for n in pool:
        f = F0[n]
        if n in ("Z0", "M7") or f * h < 1.5 or f * dt_h > 0.42:
            continue
        if all(abs(f - F0[m]) * h >= sep for m in out):
            out.append(n)
        if len(out) == k:
            break
    return out


def gen_truth(rng, names, two, trend=True):
    lo = 0.15
    tr = {"names": list(names), "g": [angle(rng, 360) for _ in names]}
    amp = [round(math.exp(rng.uniform(math.log(lo), math.log(3.0))), 4) for _ in names]
    if two:
        tr["Lsmaj"] = amp
        tr["Lsmin"] = [round(a * rng.uniform(-0.9, 0.9), 4) for a in amp]
        tr["theta"] = [angle(rng, 180) for _ in names]
        tr.update(umean=r2(rng), vmean=r2(rng))
        s = [r2(rng) / 100 if trend else 0.0 for _ in range(2)]
        tr.update(uslope=s[0], vslope=s[1])
    else:
        tr["A"] = amp
        tr["mean"] = r2(rng)
        tr["slope"] = r2(rng) / 100 if trend else 0.0
    return tr


def r2(rng):
    return round(rng.uniform(-3, 3), 3)


def angle(rng, p):
    if rng.random() < 0.15:
        return rng.choice([0.0, p - 0.01, p / 2, 0.02])
    return round(rng.uniform(0, p), 3)


def infer_truth(truth, infer):
    """Truth of inferred constituents from that of their references."""
    nI = len(infer["inferred_names"])
    two = "Lsmaj" in truth
    out = {k: (list(v) if isinstance(v, list) else v) for k, v in truth.items()}
    for i, (nm, ref) in enumerate(
        zip(infer["inferred_names"], infer["reference_names"], strict=True),
    ):
        k = truth["names"].index(ref)
        rp, op = infer["amp_ratios"][i], infer["phase_offsets"][i]
        out["names"].append(nm)
        if not two:
            out["A"].append(truth["A"][k] * rp)
            out["g"].append((truth["g"][k] - op) % 360)
            continue
        rq, oq = infer["amp_ratios"][nI + i], infer["phase_offsets"][nI + i]
        L, S, th, g = (truth[x][k] for x in ("Lsmaj", "Lsmin", "theta", "g"))
        p, q = (L + S) * rp, (L - S) * rq
        a = th - g + op  # argument of the counter-clockwise part
        b = th + g - oq  # argument of the clockwise part
        out["Lsmaj"].append((p + q) / 2)
        out["Lsmin"].append((p - q) / 2)
        t = (a + b) / 2
        gg = (b - a) / 2
        # canonical: theta in [0, 180)
        if (t % 360) >= 180:
            gg += 180
        out["theta"].append(t % 180)
        out["g"].append(gg % 360)
    return out


def gen_lat(rng):
    r = rng.random()
    if r < 0.12:
        return rng.choice([0.0, 5.0, -5.0, 4.99, -4.99, 90.0, -90.0, -0.0, 1e-9, 26.56])
    return round(rng.uniform(-85, 85), 3)


EPOCHS = ["py", "py", "ml", "dt64", "ep:1992-03-01", "epd:2000-02-29", "epdt:1850-01-01", "dt64us"]


def epoch_arg(t, kind):
    """times in the given notation; arbitrary epochs keep fractions of a millisecond"""
    return wl.rep_time(t, kind)


def msround(t):
    return np.round(np.asarray(t) * 86400e3) / 86400e3


def values(t, truth, tref, lat, nodal, phase):
    return rm.synth(t, tref, truth, lat, nodal, phase)


def run_gauge(sc, ctx, corrupt=0.0):
    dt = sc["dt_h"] / 24
    n = int(round(sc["span"] / dt)) + 1
    sim = gauge.run(sc["start"], dt, n, sc["chan"], ctx, corrupt)
    sim["t"] = msround(sim["t"])
    if sc.get("ends", "kept") == "kept":
        sim["received"][0] = sim["received"][-1] = True
    return sim


def angdiff(a, b, p):
    return np.abs((np.asarray(a) - np.asarray(b) + p / 2) % p - p / 2)


def phasors(d, names, two):
    """constants -> complex pairs (ap, am), which have no wrap-around."""
    nm = list(d["name"] if "name" in d else d["names"])
    idx = [nm.index(n) for n in names]
    g = np.deg2rad(np.asarray(d["g"], float)[idx])
    if not two:
        a = np.asarray(d["A"], float)[idx] * np.exp(-1j * g)
        return a, np.conj(a)
    L = np.asarray(d["Lsmaj"], float)[idx]
    S = np.asarray(d["Lsmin"], float)[idx]
    th = np.deg2rad(np.asarray(d["theta"], float)[idx])
    return 0.5 * (L + S) * np.exp(1j * (th - g)), 0.5 * (L - S) * np.exp(1j * (th + g))


_ = datetime
