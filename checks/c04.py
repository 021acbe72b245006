"""C04: error correction."""
import itertools
from checks.bitsbase import *

LEAD = 6
GAP = 2     # clean groups between damaged ones (fixed cases)


class C(Check):
    ID = 'C04'
    RULE = ('a synchronised stream in which blocks are hit by error patterns (bursts of 1-2 bits at all 26 positions, other bursts, '
            'patterns of 2-5 bits, random patterns, patterns that differ from an offset word or a burst by one bit); oracle: original '
            'content after bursts of at most two bits, otherwise lost unless the remainder equals that of such a burst or of no error; '
            '--no-fec: lost whenever the checkword does not match. All single and double bit bursts for all five offset words with and '
            'without FEC and all patterns of weight 2 (thorough: 3) are enumerated. Non-trivial: at least one damaged block in sync')
    ASSUME = ['encoder and reference receiver in rds/bits.py follow IEC 62106 Annex B']
    LISTS = ['hits']
    MIN_CASES = 60

    def pattern(self, r):
        k = r.random()
        if k < 0.3:
            return r.choice([1, 3]) << r.randrange(26) & 0x3FFFFFF
        if k < 0.5:
            n = r.randrange(3, 11)
            return ((1 << (n - 1)) | 1 | r.randrange(1 << n)) << r.randrange(27 - n)
        if k < 0.75:
            v = 0
            for i in r.sample(range(26), r.randrange(2, 6)):
                v |= 1 << i
            return v
        if k < 0.85:
            # turns one offset word into another, or nearly
            a, b = r.sample(sorted(BT.OFFSETS.values()), 2)
            return (a ^ b) ^ (r.choice([0, 1, 3]) << r.randrange(26)) & 0x3FFFFFF
        if k < 0.9:
            # a codeword (undetectable), or nearly
            w = BT.encode(r.randrange(65536), 'A') ^ BT.OFFSETS['A']
            return (w ^ (r.choice([0, 1, 3]) << r.randrange(26))) & 0x3FFFFFF or 1
        return r.randrange(1, 1 << 26)

    def gen(self, r, tier):
        n = r.choice([8, 20, 50])
        rate = r.choice([0.02, 0.1, 0.3, 0.5])
        gs = ['%04X %04X %04X %04X' % tuple(rand_blocks(r)) for _ in range(LEAD + n)]
        hits = []
        for i in range(4 * LEAD, 4 * (LEAD + n)):
            if r.random() < rate:
                hits.append([i, self.pattern(r)])
        return {'groups': gs, 'hits': hits, 'fec': r.random() < 0.75}

    def fixed(self, tier):
        pats = [1 << i for i in range(26)] + [3 << i for i in range(25)]
        # version A and B in turn: blocks A, B, C, D, A, B, C', D
        pats2 = [1 << a | 1 << b for a, b in itertools.combinations(range(26), 2)]
        pats2 += [7 << i for i in range(24)] + [5 << i for i in range(24)] + [15 << i for i in range(23)]
        if tier == 'thorough':
            pats2 += [1 << a | 1 << b | 1 << c for a, b, c in itertools.combinations(range(26), 3)]
        for fec in (True, False):
            for blk in (0, 1, 2, 3, 6):
                for chunk in ([pats] + [pats2[i:i + 200] for i in range(0, len(pats2), 200)] if fec else [pats]):
                    gs, hits = [], []
                    ver = 1 if blk == 6 else 0
                    for i in range(LEAD):
                        gs.append('%04X %04X %04X %04X' % (0x1234, i << 12 | ver << 11, 0xABCD, i))
                    for j, p in enumerate(chunk):
                        hits.append([len(gs) * 4 + blk % 4, p])
                        x = (j * 2654435761 + blk) & 0xFFFFFFFF
                        for d in range(GAP):
                            gs.append('%04X %04X %04X %04X' % (x >> 16, (x & 0xF7FF) | ver << 11, x >> 8 & 0xFFFF, x & 0xFFFF))
                            x = (x * 1103515245 + 12345) & 0xFFFFFFFF
                    yield {'groups': gs, 'hits': hits, 'fec': fec}

    def judge(self, case, env):
        groups = [[int(x, 16) for x in l.split()] for l in case['groups']]
        words = [w for g in groups for w in BT.group_words(g)]
        hit = {}
        for i, p in case['hits']:
            if 4 * LEAD <= i < len(words):
                hit[i] = p
                words[i] ^= p
        bits = BT.bits_of(words)
        msg, rx, r = judge_hex(env, bits, case['fec'])
        nt = bool(hit)
        if msg is None and len(rx.sync_at) == 1 and rx.sync_at[0] == 78 and not rx.lost_at:
            # the direct statement (what was printed equals rx.out here)
            for gi, g in enumerate(groups):
                if gi >= len(rx.out):
                    break
                bl = hexline(rx.out[gi]).split(' ')
                want = []
                for k in range(4):
                    i = gi * 4 + k
                    if i < 2:
                        want.append('----')
                        continue
                    p = hit.get(i)
                    orig = '%04X' % g[k]
                    if p is None:
                        want.append(orig)
                        continue
                    burst = p in BT.BURSTS.values()
                    verb = bool(g[1] >> 11 & 1)
                    b2lost = hit.get(gi * 4 + 1) is not None
                    if not case['fec']:
                        want.append('----' if (BT.rem(p) and not (k == 2 and BT.rem(p) == BT.OFFSETS['C'] ^ BT.OFFSETS["C'"])) else None)
                    elif k == 2 and (b2lost or BT.rem(p) == BT.OFFSETS['C'] ^ BT.OFFSETS["C'"]):
                        want.append(None)
                    elif burst:
                        want.append(orig)
                    elif BT.rem(p) in BT.BURSTS or BT.rem(p) == 0:
                        want.append(None)
                    else:
                        want.append('----')
                if not all(w is None or w == b for w, b in zip(want, bl)):
                    msg = 'group %d sent %s, errors %s, should be %s but is %s' % (gi, case['groups'][gi], [bin(hit.get(gi * 4 + k, 0)) for k in range(4)], want, bl)
                    break
        return Verdict(msg, nt, n=len(hit))

    def simplify(self, case):
        for i, (a, p) in enumerate(case['hits']):
            for b in range(26):
                if p >> b & 1 and p != 1 << b:
                    h = [list(x) for x in case['hits']]
                    h[i][1] = p & ~(1 << b)
                    yield dict(case, hits=h)
        used = max([a for a, p in case['hits']], default=0) // 4 + 2
        if used < len(case['groups']):
            yield dict(case, groups=case['groups'][:used])


CHECK = C()
