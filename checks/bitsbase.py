"""Checks on the bit level: bit streams are made from groups, and damaged."""
import json
import random
from rds import bits as BT, model as M, gen as G
from rds.engine import Check, Verdict
from rds.cmpjson import parse_lines, compare, Bad


def rand_blocks(r, version=None, code=None):
    c = r.randrange(32) if code is None else code
    if version is not None:
        c = c & 30 | version
    pi = r.choice([r.randrange(65536), 0x1234, 0, 0xFFFF])
    b2 = c << 11 | r.randrange(1 << 11)
    return [pi, b2, r.choice([r.randrange(65536), 0, 0xFFFF]) if not c & 1 else pi, r.randrange(65536)]


def hexline(g):
    return ' '.join('----' if x is None else '%04X' % x for x in g.b)


def damaged(r, off, i, fec):
    """26 bits that are no block i and cannot be repaired into one"""
    while True:
        v = r.getrandbits(26)
        m = BT.rem(v)
        if m in BT.OFF_BY_REM:
            continue
        if fec and (m ^ BT.OFFSETS['ABCD'[i]] in BT.BURSTS or i == 2 and m ^ BT.OFFSETS["C'"] in BT.BURSTS):
            continue
        return v


def bits_of_history(groups, seed, fec, slip=0.0):
    """groups (None: lost block) -> bit string: lost blocks are damaged beyond repair, others now and then repairably"""
    r = random.Random(seed)
    burst = r.choice([0, 0, 0.05]) if fec else 0
    out = []
    for b in groups:
        cp = r.random() < 0.5 if b[1] is None else bool(b[1] >> 11 & 1)
        if r.random() < 0.01:
            cp = not cp
        for i, x in enumerate(b):
            off = ['A', 'B', "C'" if cp else 'C', 'D'][i]
            v = damaged(r, off, i, fec) if x is None else BT.encode(x, off)
            if x is not None and r.random() < burst:
                v ^= r.choice([1, 3]) << r.randrange(25)
            out.append(format(v, '026b'))
        if slip and r.random() < slip:
            out.append(format(r.getrandbits(8), '08b')[:r.randrange(1, 8)])
    return ''.join(out)


def run_bits(env, bits, args, feed=None, **kw):
    data = feed if feed is not None else bits.encode()
    return env.sut().run(['-i', 'bits'] + list(args), data, **kw)


def judge_hex(env, bits, fec, feed=None):
    """-> (message or None, receiver)"""
    rx = BT.receive(bits, fec)
    exp = [hexline(g) for g in rx.out if not g.empty()]
    r = run_bits(env, bits, ['-o', 'hex'] + ([] if fec else ['--no-fec']), feed)
    if r.exit != 0:
        return 'the program ended with %s' % r.how(), rx, r
    act = r.out.decode('latin-1').split('\n')
    if act[-1] != '':
        return 'unterminated output line', rx, r
    act = act[:-1]
    for i, (e, a) in enumerate(zip(exp, act)):
        if e != a:
            return 'group %d should be %r but is %r (synchronised at bit %s)' % (i, e, a, rx.sync_at[:3]), rx, r
    if len(exp) != len(act):
        return '%d groups expected (sync at %s, lost at %s) but %d printed; first surplus: %s' % (
            len(exp), rx.sync_at[:4], rx.lost_at[:4], len(act), (exp + act)[min(len(exp), len(act))] if len(act) < len(exp) else act[len(exp)]), rx, r
    return None, rx, r


def simplify_bits(case):
    b = case['bits']
    n = len(b)
    # whole groups and blocks off either end
    for k in (n // 2, n // 4, 1040, 104, 26, 1):
        if 0 < k < n:
            yield dict(case, bits=b[k:])
            yield dict(case, bits=b[:-k])
