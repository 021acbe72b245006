"""C03: error-free bit streams."""
from checks.bitsbase import *


class C(Check):
    ID = 'C03'
    RULE = ('random groups of all 32 types with correct checkwords, cut at a random bit position, with other characters '
            'between the bits; oracle: the transmitted blocks from the third complete block on (and the reference receiver for '
            'accidental matches), in hex and (group type, PI) in JSON. Non-trivial: at least two complete groups after synchronisation')
    ASSUME = ['encoder and reference receiver in rds/bits.py follow IEC 62106 Annex B/C']
    LISTS = ['groups']

    def gen(self, r, tier):
        n = r.choice([3, 5, 10, 40, 120])
        if r.random() < 0.02:
            n = r.choice([700, 700, 1300, 3000])
        fixed_pi = r.random() < 0.6
        pi = r.randrange(1, 65536)
        gs = []
        for _ in range(n):
            b = rand_blocks(r)
            if fixed_pi:
                b[0] = pi
                if b[1] >> 11 & 1:
                    b[2] = pi
            gs.append('%04X %04X %04X %04X' % tuple(b))
        return {'groups': gs, 'cut': r.choice([0, r.randrange(104), r.randrange(104)]), 'tail': r.choice([0, 0, r.randrange(104)]),
                'fec': r.random() < 0.7, 'junk': r.choice([0, 0, 0.05, 0.5]), 'seed': r.randrange(1 << 30)}

    def fixed(self, tier):
        for cut in range(104):
            gs = ['%04X %04X %04X %04X' % (0x2200 + cut, (c << 11) | cut, 0x2200 + cut if c & 1 else 0x5555, 0x1111 * (c & 15)) for c in range(32)]
            yield {'groups': gs, 'cut': cut, 'tail': (cut * 37) % 104, 'fec': True, 'junk': 0, 'seed': 0}

    def judge(self, case, env):
        import random
        groups = [[int(x, 16) for x in l.split()] for l in case['groups']]
        words = [w for g in groups for w in BT.group_words(g)]
        allbits = BT.bits_of(words)
        end = len(allbits) - case['tail']
        bits = allbits[case['cut']:end]
        feed = bits.encode()
        if case['junk']:
            rr = random.Random(case['seed'])
            out = bytearray()
            junk = bytes(x for x in range(256) if x not in (0x30, 0x31))
            for c in feed:
                while rr.random() < case['junk']:
                    out.append(rr.choice(junk))
                out.append(c)
            if case['seed'] & 1:
                out += b'\n'
            feed = bytes(out)
        msg, rx, r = judge_hex(env, bits, case['fec'], feed)
        # direct statement: third complete block on
        first = -(-case['cut'] // 26)
        last = end // 26
        exp = []
        for gi, g in enumerate(groups):
            bl = [('%04X' % g[k]) if first + 2 <= gi * 4 + k < last else '----' for k in range(4)]
            if bl != ['----'] * 4:
                exp.append(' '.join(bl))
        nt = last - (first + 2) >= 8
        if msg is None and rx.sync_at and rx.sync_at[0] == (first + 3) * 26 - case['cut'] and len(rx.pulses) <= 4 and not rx.lost_at:
            act = r.out.decode('latin-1').split('\n')[:-1]
            if act != exp:
                msg = 'transmitted %s but received %s' % (exp[:3], act[:3])
        if msg is None and nt and len(groups) >= 5:
            # group types in JSON
            ch = M.Channel({})
            e = [ch.feed(g) for g in rx.out]
            r2 = run_bits(env, bits, [] if case['fec'] else ['--no-fec'], feed)
            try:
                msg = compare(e, parse_lines(r2.out), ['pi', 'group', 'tp', 'prog_type'])
                if msg is None and r2.exit != 0:
                    msg = r2.how()
            except Bad as x:
                msg = str(x)
        return Verdict(msg, nt, n=max(0, len(exp)))

    def simplify(self, case):
        for k, v in (('junk', 0), ('tail', 0), ('cut', 0), ('fec', True)):
            if case[k] != v:
                yield dict(case, **{k: v})


CHECK = C()
