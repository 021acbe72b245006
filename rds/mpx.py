"""Synthesises FM multiplex signals with RDS subcarriers (needs numpy: run with python3-vt)."""
import numpy as np
from . import bits as BT

BAUD = 1187.5
CARRIER = [57000.0, 66500.0, 71250.0, 76000.0]
SPB = 64            # baseband samples per bit


def _pulse():
    """impulse response of the data-shaping filter cos(pi f td/4), |f| < 2/td (IEC 62106), as biphase symbol"""
    td = 1.0
    t = (np.arange(-6 * SPB, 6 * SPB + 1) + 1e-6) / SPB
    a = np.pi * td / 4
    B = 2 / td
    w = 2 * np.pi * t
    h = np.sin((a - w) * B) / (a - w) + np.sin((a + w) * B) / (a + w)
    b = np.zeros(len(h) + SPB // 2)
    b[:len(h)] += h
    b[SPB // 2:] -= h
    return b / np.abs(b).max()


PULSE = _pulse()


def baseband(bits):
    """bits -> differentially encoded biphase waveform, SPB samples per bit"""
    d = np.array([int(c) for c in bits], dtype=np.int64)
    d = np.cumsum(d) % 2
    x = np.zeros(len(d) * SPB)
    x[::SPB] = 2.0 * d - 1
    return np.convolve(x, PULSE)


def signal(streams, rate, phase=0.0, timing=0.0, ppm=0.0, level=0.1, polarity=1, pilot=0.0, audio=0.0, noise=0.0, seed=1, dc=0.0, seconds=None):
    """streams: {n: bits}. Returns float samples, full scale 1.0."""
    n = 0
    for b in streams.values():
        n = max(n, int(len(b) / BAUD * rate))
    if seconds is not None:
        n = int(seconds * rate)
    rng = np.random.default_rng(seed)
    tt = np.arange(n) / rate
    t = tt * (1 + ppm * 1e-6)
    out = np.zeros(n)
    for k, b in streams.items():
        base = baseband(b)
        pos = (t * BAUD + timing + 3) * SPB
        s = np.interp(pos, np.arange(len(base)), base, right=0.0)
        out += level * polarity * s * np.cos(2 * np.pi * CARRIER[k] * t + phase * (1 + k))
    if pilot:
        out += pilot * np.sin(2 * np.pi * 19000 * t)
    if audio:
        for f in (400.0, 1000.0, 7300.0, 38000.0 - 900, 38000.0 + 900):
            out += audio / 5 * np.sin(2 * np.pi * f * tt + f)
    if noise:
        out += noise * rng.standard_normal(n)
    return out + dc


def s16(x):
    return np.clip(np.rint(x * 32767), -32768, 32767).astype('<i2')


def group_bits(groups, cprime=None):
    return BT.bits_of([w for b in groups for w in BT.group_words(b, cprime)])
