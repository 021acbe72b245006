"""C10: RadioText against the reference decoder."""
from checks.base import *


class C(ModelCheck):
    ID = 'C10'
    KEYS = ['radiotext', 'partial_radiotext', 'rt_ab']
    WEIGHTS = {'rt': 8, 'ps': 1, 'rtp': 0.7, 'random': 0.3}
    RULE = 'RadioText in 2A and 2B with all lengths, terminators, padding, A/B flags, repetitions, segment order changes, lost blocks; oracle: reference decoder. Non-trivial: a complete RadioText is due'
    NEED = ['radiotext']
    OPTS = {'partial': 0.4}
    RUN = (1, 8, 40, 200, 200)
    N = (100, 300, 600)


    def fixed(self, tier):
        # every length, with and without terminator, both versions; every character
        for ver in (0, 1):
            per, size = (4, 64) if ver == 0 else (2, 32)
            gs = ['2345 F800 2345 2020'] * 3
            ab = 0
            for n in range(size + 1):
                for term in (0, 1):
                    t = [(0x30 + (i * 7 + n) % 64) for i in range(n)]
                    if term and n < size:
                        t.append(0x0D)
                    while len(t) % per or not t:
                        t.append(0x20)
                    ab ^= 1
                    for _ in range(3):
                        for s in range(len(t) // per):
                            c = t[s * per:s * per + per]
                            gs.append('2345 %04X %04X %04X' % (2 << 12 | ver << 11 | ab << 4 | s, c[0] << 8 | c[1] if ver == 0 else 0x2345, (c[-2] << 8 | c[-1])))
            yield {'opts': {}, 'groups': gs}
            yield {'opts': {'partial': True}, 'groups': gs}
        gs = ['2345 F800 2345 2020'] * 3
        for base in range(0, 256, 60):
            t = ([x for x in range(base, min(256, base + 60)) if x != 0x0D] + [0x0D] + [0x20] * 64)[:64]
            gs += ['2345 %04X %04X %04X' % (0x2000 | s | (base // 60 & 1) << 4, t[4 * s] << 8 | t[4 * s + 1], t[4 * s + 2] << 8 | t[4 * s + 3]) for s in range(16)]
        yield {'opts': {}, 'groups': gs}


CHECK = C()
