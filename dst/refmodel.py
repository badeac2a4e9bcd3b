"""
Reference model of the tide: a deliberately plain, from-the-formulas
implementation of the harmonic basis used by UTide (Codiga 2011; Pawlowicz et
al. 2002; Foreman 1977), written without looking anything up in the code under
test.  It plays the part of the *ocean* in the simulations: what the simulated
gauges sample is produced here, so the truth is known independently.

The constituent tables in tables.json were exported once from the distributed
Matlab file (ut_constants.mat) and are committed, so a change of the tables in
/repo does not change the truth.
"""

import json
import math
import os

import numpy as np

_T = json.load(open(os.path.join(os.path.dirname(__file__), "tables.json")))
NAMES = _T["names"]
INDEX = {n: i for i, n in enumerate(NAMES)}
NC = len(NAMES)
DF = _T["df"]

# Explanatory Supplement polynomials (degrees; argument days from 1899-12-31T12)
_POLY = {
    "s": (270.434164, 13.1763965268, -0.0000850, 0.000000039),
    "h": (279.696678, 0.9856473354, 0.00002267, 0.0),
    "p": (334.329556, 0.1114040803, -0.0007739, -0.00000026),
    "n": (-259.183275, 0.0529539222, -0.0001557, -0.000000050),
    "pp": (281.220844, 0.0000470684, 0.0000339, 0.000000070),
}
_EPOCH = 693595.5


def _terms(i):
    """(base index, coefficient) pairs of a shallow-water constituent or None."""
    i0, n = _T["ishallow"][i], _T["nshallow"][i]
    if i0 is None:
        return None
    i0, n = int(i0) - 1, int(n)
    return [
        (_T["shallow_iname"][k] - 1, _T["shallow_coef"][k]) for k in range(i0, i0 + n)
    ]


SHALLOW = [_terms(i) for i in range(NC)]
_SATS = [[] for _ in range(NC)]
for _k, _ic in enumerate(_T["sat_iconst"]):
    _SATS[_ic - 1].append(_k)


def _args(t):
    """tau, s, h, p, n', pp in cycles, at days t (array)."""
    t = np.asarray(t, float)
    d = t - _EPOCH
    D = d / 1e4
    out = {}
    for key, (a, b, c, e) in _POLY.items():
        out[key] = (a + b * d + c * D**2 + e * D**3) / 360.0
    tau = np.mod(t, 1.0) + out["h"] - out["s"]
    return [tau, out["s"], out["h"], out["p"], out["n"], out["pp"]]


def _rates(t):
    """time derivatives, cycles per day, of the above at scalar t."""
    D = (t - _EPOCH) / 1e4
    r = {
        # d(D^2)/dd = 2e-4 D, d(D^3)/dd = 3e-4 D^2
        k: (b + c * 2e-4 * D + e * 3e-4 * D * D) / 360.0
        for k, (a, b, c, e) in _POLY.items()
    }
    return [1.0 + r["h"] - r["s"], r["s"], r["h"], r["p"], r["n"], r["pp"]]


def freqs(tref):
    """frequencies (cycles/hour) linearised at tref, every constituent."""
    rates = _rates(float(tref))
    f = [0.0] * NC
    for i in range(NC):
        if SHALLOW[i] is None:
            f[i] = sum(a * b for a, b in zip(_T["doodson"][i], rates)) / 24.0
    for i in range(NC):
        if SHALLOW[i] is not None:
            f[i] = sum(f[j] * c for j, c in SHALLOW[i])
    return f


def _nodal_base(i, t, lat):
    """complex nodal factor of a non-shallow constituent at times t."""
    lat = float(lat)
    if abs(lat) < 5:
        lat = math.copysign(5.0, lat)
    sl = math.sin(math.radians(lat))
    a = _args(t)
    f = np.ones(len(t), complex)
    for k in _SATS[i]:
        amp = _T["sat_amprat"][k]
        il = _T["sat_ilatfac"][k]
        if il == 1:
            amp = amp * 0.36309 * (1.0 - 5.0 * sl * sl) / sl
        elif il == 2:
            amp = amp * 2.59808 * sl
        dd = _T["sat_deldood"][k]
        ph = dd[0] * a[3] + dd[1] * a[4] + dd[2] * a[5] + _T["sat_phcorr"][k]
        f = f + amp * np.exp(2j * np.pi * np.mod(ph, 1.0))
    return f


def nodal(i, t, lat):
    """(F, U[cycles]) at times t."""
    if SHALLOW[i] is None:
        f = _nodal_base(i, t, lat)
        return np.abs(f), np.angle(f) / (2 * np.pi)
    F = np.ones(len(t))
    U = np.zeros(len(t))
    for j, c in SHALLOW[i]:
        f = _nodal_base(j, t, lat)
        F = F * np.abs(f) ** abs(c)
        U = U + c * np.angle(f) / (2 * np.pi)
    return F, U


def _v_base(i, t):
    a = _args(t)
    v = np.zeros(len(t))
    for k in range(6):
        v = v + _T["doodson"][i][k] * np.mod(a[k], 1.0)
    return np.mod(v + _T["semi"][i], 1.0)


def astro(i, t):
    """astronomical argument V in cycles."""
    if SHALLOW[i] is None:
        return _v_base(i, t)
    v = np.zeros(len(t))
    for j, c in SHALLOW[i]:
        v = v + c * _v_base(j, t)
    return v


def basis(t, tref, names, lat, nodal_opt=True, phase_opt="Greenwich"):
    t = np.asarray(t, float)
    fr = freqs(tref)
    out = np.empty((len(t), len(names)), complex)
    one = np.array([float(tref)])
    for col, nm in enumerate(names):
        i = INDEX[nm]
        if not nodal_opt:
            F, U = 1.0, 0.0
        elif nodal_opt == "linear_time":
            F, U = nodal(i, one, lat)
        else:
            F, U = nodal(i, t, lat)
        lin = 24.0 * (t - tref) * fr[i]
        if phase_opt == "raw":
            V = lin
        elif phase_opt == "linear_time":
            V = astro(i, one) + lin
        else:
            V = astro(i, t)
        out[:, col] = F * np.exp(2j * np.pi * (U + V))
    return out


def synth(t, tref, truth, lat, nodal_opt=True, phase_opt="Greenwich"):
    """
    Truth series.  truth = {"names", "A", "g", "mean", "slope"} or
    {"names", "Lsmaj", "Lsmin", "theta", "g", "umean", "vmean", "uslope",
    "vslope"}; angles in degrees; slopes per day about tref.
    Returns (u, v) with v None for a scalar series.
    """
    t = np.asarray(t, float)
    E = basis(t, tref, truth["names"], lat, nodal_opt, phase_opt)
    g = np.deg2rad(np.asarray(truth["g"], float))
    if "A" in truth:
        c = np.asarray(truth["A"], float) * np.exp(-1j * g)
        h = (E * c).sum(axis=1).real
        return h + truth["mean"] + truth["slope"] * (t - tref), None
    th = np.deg2rad(np.asarray(truth["theta"], float))
    L = np.asarray(truth["Lsmaj"], float)
    S = np.asarray(truth["Lsmin"], float)
    ap = 0.5 * (L + S) * np.exp(1j * (th - g))
    am = 0.5 * (L - S) * np.exp(1j * (th + g))
    w = (E * ap).sum(axis=1) + (E.conj() * am).sum(axis=1)
    u = w.real + truth["umean"] + truth["uslope"] * (t - tref)
    v = w.imag + truth["vmean"] + truth["vslope"] * (t - tref)
    return u, v


def design(t, tref, names, lat, nodal_opt, phase_opt, trend, lor):
    """Real-valued design matrix, for conditioning estimates only."""
    E = basis(t, tref, names, lat, nodal_opt, phase_opt)
    cols = [E, E.conj(), np.ones((len(t), 1))]
    if trend:
        cols.append(((np.asarray(t) - tref) / lor)[:, None])
    return np.hstack(cols)


# proleptic Gregorian day number (1 == 0001-01-01), independent of numpy
def day_number(year, month, day):
    y = year - 1
    n = y * 365 + y // 4 - y // 100 + y // 400
    mdays = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    if (year % 4 == 0 and year % 100 != 0) or year % 400 == 0:
        mdays[1] = 29
    return n + sum(mdays[: month - 1]) + day
