"""C14: EON against the reference decoder."""
from checks.base import *


class C(ModelCheck):
    ID = 'C14'
    KEYS = ['other_network']
    WEIGHTS = {'eon': 8, 'ps': 1}
    RULE = 'interleaved EON information (all variants) for up to 20 networks, and names and lists of up to 300 networks in turn; oracle: reference decoder with one state per network. Non-trivial: other_network data is due'
    NEED = ['other_network']
    OPTS = {'rbds': 0.25, 'partial': 0.1}
    RUN = (4, 60)

    def gen(self, rng, tier):
        if rng.random() > 0.06:
            return super().gen(rng, tier)
        # many networks in turn: one segment (or pair of frequencies) of each, then the next one of each ...
        pi = G.rand_pi(rng)
        nets = rng.sample(range(1, 65536), rng.choice([21, 33, 65, 130, 260, 300]))
        what = rng.choice(['ps', 'af', 'both'])
        af = {}
        for p in nets:
            l = [rng.randrange(1, 205) for _ in range(rng.choice([1, 3, 5]))]
            af[p] = [224 + len(l)] + l
        gs = ['%04X F800 %04X 2020' % (pi, pi)] * 3
        for k in range(rng.choice([4, 5, 8])):
            for p in nets:
                if what != 'af':
                    gs.append('%04X %04X %04X %04X' % (pi, 0xE000 | k % 4, 0x4141 + (p & 15) + k % 4, p))
                if what != 'ps' and 2 * k + 1 < len(af[p]):
                    gs.append('%04X E004 %02X%02X %04X' % (pi, af[p][2 * k], af[p][2 * k + 1], p))
        return {'opts': {}, 'groups': gs}


CHECK = C()
