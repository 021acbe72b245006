"""C05: synchronisation."""
from checks.bitsbase import *


class C(Check):
    ID = 'C05'
    RULE = ('bit streams composed of clean groups, stretches with exactly chosen numbers of damaged blocks around the limits (3 offset '
            'words, 6 blocks apart, 42 of 50), random bit errors, inserted, deleted and noise bits, and a random end; oracle: an independent '
            'reference synchroniser; exact equality of all printed groups. Non-trivial: sync was acquired at least once and lost, '
            'or acquired after damage, or a partial group was output')
    ASSUME = ['the reference synchroniser in rds/bits.py states the documented rules']
    LISTS = []
    MIN_CASES = 60

    def gen(self, r, tier):
        out = []

        def clean(n):
            return [w for _ in range(n) for w in BT.group_words(rand_blocks(r))]

        def bad(w):
            # an uncorrectable error that leaves no valid offset word
            for _ in range(100):
                p = r.randrange(1, 1 << 26)
                x = BT.rem(w ^ p)
                if x not in BT.OFF_BY_REM:
                    return w ^ p
            return w
        nseg = r.choice([1, 2, 3, 5, 8])
        for _ in range(nseg):
            k = r.random()
            if k < 0.2:
                out.append(BT.bits_of(clean(r.choice([1, 2, 5, 20]) if r.random() < 0.97 else r.choice([320, 640, 1300]))))
            elif k < 0.4:
                # m damaged ones among 50 blocks, around the limit
                m = r.choice([41, 42, 43, 44, 50, r.randrange(30, 51)])
                ws = clean(13 + r.randrange(3))
                idx = r.sample(range(50), min(m, 50))
                if r.random() < 0.5:
                    idx = list(range(m))
                for i in idx:
                    ws[i] = bad(ws[i])
                out.append(BT.bits_of(clean(r.choice([0, 1, 14])) + ws + clean(r.choice([0, 2, 3]))))
            elif k < 0.6:
                # sparse good blocks: rhythm
                ws = clean(r.choice([3, 6, 10]))
                gap = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
                phase = r.randrange(8)
                for i in range(len(ws)):
                    if (i + phase) % gap or r.random() < 0.05:
                        ws[i] = bad(ws[i])
                out.append(BT.bits_of(ws))
            elif k < 0.7:
                b = BT.bits_of(clean(r.choice([5, 20, 40])))
                ber = r.choice([0.003, 0.01, 0.03, 0.06])
                out.append(''.join(c if r.random() > ber else '10'[int(c)] for c in b))
            elif k < 0.8:
                out.append(format(r.getrandbits(r.choice([1, 7, 25, 26, 200, 2000]) + 1), 'b')[1:])
            elif k < 0.85:
                # pulses with a wrong cyclic order
                ws = []
                for _ in range(r.choice([3, 6, 12])):
                    ws.append(BT.encode(r.randrange(65536), r.choice(sorted(BT.OFFSETS))))
                out.append(BT.bits_of(ws))
            else:
                # slips
                b = BT.bits_of(clean(r.choice([2, 16, 30])))
                i = r.randrange(len(b))
                n = r.choice([1, 1, 2, 13, 26, 27])
                out.append(b[:i] + b[i + n:] if r.random() < 0.5 else b[:i] + format(r.getrandbits(n) | 1 << n, 'b')[1:] + b[i:])
        b = ''.join(out)
        if r.random() < 0.04:
            # bit counts around powers of two (nothing can be found in zeros)
            b = '0' * (r.choice([1 << 15, 1 << 16, 1 << 16, 1 << 17]) - r.randrange(300)) + BT.bits_of(clean(5)) + b
        if r.random() < 0.3 and len(b) > 200:
            b = b[r.randrange(104):]
        if r.random() < 0.6 and len(b) > 200:
            b = b[:-r.randrange(1, 104)]
        return {'bits': b, 'fec': r.random() < 0.75, 'nl': r.random() < 0.5}

    def judge(self, case, env):
        msg, rx, r = judge_hex(env, case['bits'], case['fec'], (case['bits'] + ('\n' if case['nl'] else '')).encode())
        tags = []
        if rx.lost_at:
            tags.append('lost')
        if len(rx.sync_at) > 1:
            tags.append('reacquired')
        if rx.out and rx.out[-1].empty() is False and (rx.n and rx.sync and rx.expect):
            tags.append('partial group at end')
        return Verdict(msg, bool(rx.sync_at) and bool(tags or rx.sync_at[0] > 104), tags, n=len(rx.out))

    def simplify(self, case):
        yield from simplify_bits(case)
        if not case['fec']:
            yield dict(case, fec=True)


CHECK = C()
