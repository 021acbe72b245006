"""C22: block error rate."""
from checks.base import *
from checks.bitsbase import rand_blocks
from rds import bits as BT


class C(ModelCheck):
    ID = 'C22'
    KEYS = ['bler']
    WEIGHTS = {'ps': 2, 'rt': 2, 'rft': 1, 'random': 1}
    OPTS = {'bler': 1.0, 'partial': 0.1, 'streams': 0.2}
    DROP = (0.0, 0.02, 0.1, 0.3, 0.6, 0.9)
    RULE = ('hex groups with all loss patterns (also completely lost ones and groups that are not printed) and bit streams with corrected and '
            'uncorrectable blocks, with and without FEC; oracle: errors of the last 12 groups / 48 blocks, rounded. Non-trivial: '
            'a record with a rate other than 0 and 100 is due')

    def gen(self, rng, tier):
        if rng.random() < 0.6:
            c = super().gen(rng, tier)
            c['opts']['bler'] = True
            if rng.random() < 0.3:
                # runs of (almost) completely lost groups
                for _ in range(rng.choice([1, 3, 10])):
                    i = rng.randrange(3, max(4, len(c['groups'])))
                    for k in range(i, min(len(c['groups']), i + rng.choice([3, 11, 12, 13, 30]))):
                        w = c['groups'][k].split(' ')
                        c['groups'][k] = ' '.join(w[:-4] + [x if rng.random() < 0.05 else '----' for x in w[-4:]])
            return c
        n = rng.choice([20, 60, 150])
        pi = rng.randrange(1, 65536)
        ws = []
        p = rng.choice([0.01, 0.1, 0.3, 0.5])
        for i in range(n):
            b = rand_blocks(rng)
            b[0] = pi
            if b[1] >> 11 & 1:
                b[2] = pi
            g = BT.group_words(b)
            if i > 5:
                g = [w if rng.random() > p else w ^ rng.choice([1 << rng.randrange(26), 3 << rng.randrange(25), rng.randrange(1, 1 << 26)]) for w in g]
            ws += g
        return {'bits': BT.bits_of(ws), 'opts': {'bler': True}, 'fec': rng.random() < 0.7}

    def judge(self, case, env):
        if 'bits' in case:
            rx = BT.receive(case['bits'], case['fec'])
            ch = M.Channel(case['opts'])
            exp = [ch.feed(g) for g in rx.out]
            r = env.sut().run(['-i', 'bits', '-E'] + ([] if case['fec'] else ['--no-fec']), case['bits'].encode())
            c = {'groups': ['%d' % i for i in range(len(exp))]}
        else:
            r = self.run(case, env)
            exp = self.expected(case, case['opts'])
            c = case
        v = self.compare(c, exp, r)
        v.nontrivial = any(isinstance(e, dict) and 0 < e.get('bler', (0, 0))[1] < 48 for e in exp if e is not None)
        return v

    def simplify(self, case):
        if 'bits' in case:
            from checks.bitsbase import simplify_bits
            yield from simplify_bits(case)
        else:
            yield from G.simplify_hex(case)


CHECK = C()
