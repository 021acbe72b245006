"""Common parts of the checks that synthesise multiplex signals."""
import os, struct
from rds.engine import Check, Verdict
from rds.cmpjson import parse_lines, Bad
from rds import mpx as X, bits as BT, gen as G

RATES = [128000, 130000, 170700, 171000, 171000, 171300, 192000, 200000, 228000, 240000, 250000, 256000, 384000]
SENDERS = {k: 1 for k in 'ps rt rtp ert lps ptyn ct eon slc oda dab tdc misc tmc 15b'.split()}


def gen_groups(r, n, pi=None):
    """hex lines without losses"""
    k = r.random()
    if pi is None:
        pi = r.choice([r.randrange(1, 65536), r.randrange(1, 65536), 0xFFFF, 1])
    if k < 0.5:
        tx = G.Tx(r, SENDERS, run=r.choice([4, 20]), pi=pi)
        return [G.to_hex(b) for b, s in tx.groups(n, lead=0)]
    gs = ['%04X %04X %04X %04X' % (pi, r.randrange(65536), r.randrange(65536), r.randrange(65536)) for _ in range(n)]
    if k < 0.65:
        c = r.choice([[0, 0, 0], [0xFFFF, 0xFFFF, 0xFFFF], [0x0408, 0x2020, 0x4142], [0x5555, 0xAAAA, 0x5555]])
        gs = ['%04X %04X %04X %04X' % tuple([pi] + c) if r.random() < 0.8 else g for g in gs]
    return gs


def words(lines):
    return [[int(x, 16) for x in l.split(' ')] for l in lines]


def make_signal(case_sig, rate):
    """case_sig: {'streams': {n: lines}, params...} -> samples in float"""
    st = {int(k): X.group_bits(words(v), False if k != '0' and case_sig.get('plain_c') else None) for k, v in case_sig['streams'].items()}
    p = {k: case_sig[k] for k in ('phase', 'timing', 'ppm', 'level', 'polarity', 'pilot', 'audio', 'noise', 'seed', 'dc') if k in case_sig}
    return X.signal(st, rate, **p)


def sig_params(r):
    level = r.choice([0.003, 0.01, 0.03, 0.1, 0.1, 0.3])
    return dict(phase=r.random() * 6.3, timing=r.random(), level=level, ppm=r.choice([0, 0, 30, -30, r.uniform(-100, 100)]),
                polarity=r.choice([1, -1]), pilot=r.choice([0, 0.1]), audio=r.choice([0, 0.5]),
                noise=r.choice([0, 0, level * 0.03]), seed=r.randrange(1 << 30))


def wav(samples, rate, channels=1, fmt='s16'):
    """bytes of a WAV file with these 16-bit samples"""
    import numpy as np
    if fmt == 's16':
        data, tag, w = samples.astype('<i2').tobytes(), 1, 2
    elif fmt == 's24':
        v = samples.astype('<i4') << 8
        data, tag, w = v.reshape(-1, 1).view('u1').reshape(-1, 4)[:, :3].tobytes(), 1, 3
    elif fmt == 's32':
        data, tag, w = (samples.astype('<i4') << 16).tobytes(), 1, 4
    else:
        data, tag, w = (samples.astype('<f4') / np.float32(32768)).tobytes(), 3, 4
    h = struct.pack('<4sI4s4sIHHIIHH', b'RIFF', 36 + len(data), b'WAVE', b'fmt ', 16, tag, channels, rate, rate * channels * w, channels * w, 8 * w)
    return h + struct.pack('<4sI', b'data', len(data)) + data
