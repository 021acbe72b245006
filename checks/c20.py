"""C20: RFT against the reference decoder."""
from checks.base import *


class C(ModelCheck):
    ID = 'C20'
    KEYS = ['rft', 'open_data_app', 'group', 'stream']
    WEIGHTS = {'rft': 10, 'ps': 1}
    RULE = 'files of 1 byte to 163840 bytes (mostly small) on up to 16 pipes interleaved over streams 1-3, random segment order, repetition, loss, toggle changes, size announcements before and after the data, CRC and ODA variants; oracle: reference decoder (byte-exact Base64). Non-trivial: RFT data is due'
    NEED = ['rft']
    OPTS = {'streams': 0.5, 'partial': 0.05}
    RUN = (4, 60, 300)
    N = (100, 300, 800)
    DROP = (0.0, 0.0, 0.0, 0.02)


    def fixed(self, tier):
        import random
        for size, order, pipe, st in ((1, 0, 0, 1), (5, 0, 15, 3), (6, 1, 7, 2), (999, 2, 3, 1), (163840, 1, 2, 1), (163839, 1, 9, 2), (163836, 1, 1, 3), (20480, 0, 4, 1), (40961, 1, 5, 2), (81921, 1, 6, 3), (65536, 1, 8, 1), (131072, 1, 10, 1)):
            r = random.Random(size)
            data = [r.randrange(256) for _ in range(size)]
            n = -(-size // 5)
            o = list(range(n))
            if order == 1:
                o.reverse()
            elif order == 2:
                r.shuffle(o)
            for tog in (0, 1):
                gs = ['5678 F800 5678 2020'] * 3
                gs.append('#S%d %04X FF7F %04X %04X' % (st, 0x8000 | pipe, 0x0800 | 5 << 2 | size >> 16, size & 0xFFFF))
                for s in o:
                    d = (data[5 * s:5 * s + 5] + [0xEE] * 5)[:5]
                    gs.append('#S%d %04X %04X %04X %04X' % (st, 0x2000 | pipe << 8 | tog << 7 | s >> 8, (s & 255) << 8 | d[0], d[1] << 8 | d[2], d[3] << 8 | d[4]))
                yield {'opts': {}, 'groups': gs}
        # larger than a file can be
        for size, pipe in ((163841, 0), (200000, 11), (262143, 15)):
            gs = ['5678 F800 5678 2020'] * 3
            info = '#S1 %04X FF7F %04X %04X' % (0x8000 | pipe, 5 << 2 | size >> 16, size & 0xFFFF)
            gs.append(info)
            gs += ['#S1 %04X %04X 4142 4344' % (0x2000 | pipe << 8 | s >> 8, (s & 255) << 8 | 0x40) for s in range(32767, -1, -1)]
            gs.append(info)
            yield {'opts': {}, 'groups': gs}


CHECK = C()
