"""C16: Open data and transparent data against the reference decoder."""
from checks.base import *


class C(ModelCheck):
    ID = 'C16'
    KEYS = ['open_data_app', 'unknown_oda', 'dab', 'transparent_data', 'in_house_data', 'group']
    WEIGHTS = {'oda': 6, 'dab': 2, 'tdc': 3, 'misc': 2, 'random': 1, 'rtp': 0.5, 'rft': 0.5}
    RULE = '3A announcements of known and random applications for all group types, their groups, unassigned groups, DAB, transparent data channels and in-house data, with reassignments and lost blocks; oracle: reference decoder. Non-trivial: a record with open, transparent or in-house data is due'
    NEED = ['open_data_app', 'unknown_oda', 'dab', 'transparent_data', 'in_house_data']
    RUN = (1, 4, 40)


    def fixed(self, tier):
        # every application id
        for hi in range(16):
            gs = ['3456 F800 3456 2020'] * 3
            for lo in range(4096):
                app = hi << 12 | lo
                gs.append('3456 %04X %04X %04X' % (0x3000 | 0x16, lo ^ 0x5A5A, app))
                if lo % 64 == 0:
                    gs.append('3456 %04X %04X %04X' % (0xB000 | lo >> 6 & 31, lo, app))
            yield {'opts': {}, 'groups': gs}
        # every group type assigned to an unknown application, then used
        gs = ['3456 F800 3456 2020'] * 3
        for c in range(32):
            gs += ['3456 %04X 1234 ABCD' % (c << 11 | 5), '3456 %04X 1234 ABCD' % (0x3000 | c), '3456 %04X 1234 ABCD' % (c << 11 | 7), '3456 %04X 1234 4BD7' % (0x3000 | c), '3456 %04X 1234 0DC0' % (c << 11 | 9)]
        yield {'opts': {}, 'groups': gs}
        # all DAB channels and neighbours
        gs = ['3456 F800 3456 2020'] * 3 + ['3456 3016 0000 0093']
        for k in sorted(M.DAB):
            for d in (-1, 0, 1):
                f = k // 16 + d
                gs.append('3456 %04X %04X E123' % (0xB000 | (d + 1) << 2 | f >> 16, f & 0xFFFF))
        yield {'opts': {}, 'groups': gs}


CHECK = C()
