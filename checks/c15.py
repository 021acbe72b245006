"""C15: PIN and slow labelling against the reference decoder."""
from checks.base import *


class C(ModelCheck):
    ID = 'C15'
    KEYS = ['prog_item_number', 'prog_item_started', 'has_linkage', 'country', 'tmc_id', 'language', 'slc_broadcaster_bits', 'ews']
    WEIGHTS = {'slc': 8, 'ps': 0.5, 'random': 1}
    RULE = 'all 1A variants with random and valid contents, 1B, random PI country nibbles; all ECC x country and all language codes enumerated; oracle: reference decoder and standard tables. Non-trivial: a PIN or labelling field is due'


    def fixed(self, tier):
        for cc in range(16):
            pi = cc << 12 | 0x123
            gs = ['%04X F800 %04X 2020' % (pi, pi)] * 3
            gs += ['%04X 1000 %04X 0000' % (pi, x) for x in range(256)]
            gs += ['%04X 1000 %04X 0000' % (pi, v << 12 | x | (x & 1) << 15) for v in range(8) for x in range(cc, 4096, 16)]
            yield {'opts': {}, 'groups': gs}
            gs = ['%04X F800 %04X 2020' % (pi, pi)] * 3 + ['%04X %04X %04X %04X' % (pi, 0x1000 | (x & 1) << 11, pi, cc << 12 | x) for x in range(4096)]
            yield {'opts': {}, 'groups': gs}


CHECK = C()
