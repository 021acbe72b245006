"""C09: PS, PTY, TP/TA, DI, music, call sign against the reference decoder."""
from checks.base import *


class C(ModelCheck):
    ID = 'C09'
    KEYS = ['ps', 'partial_ps', 'tp', 'prog_type', 'ta', 'is_music', 'di', 'callsign', 'callsign_uncertain', 'group', 'pi']
    WEIGHTS = {'ps': 8, '15b': 2, 'random': 1, 'rt': 1, 'slc': 1, 'eon': 0.5}
    RULE = 'interleaved 0A/0B/15B and other groups with arbitrary texts in the full character set, segment orders, flags, PTYs, PI codes, with and without --rbds and lost blocks; oracle: reference decoder, fields ps, tp, ta, is_music, di, prog_type, callsign. Non-trivial: a PS name, DI flag or call sign is due'
    NEED = ['ps', 'di', 'callsign', 'callsign_uncertain']
    OPTS = {'rbds': 0.45, 'partial': 0.25}


    def fixed(self, tier):
        # every PI code, three groups each
        for hi in range(16):
            gs = []
            for lo in range(4096):
                pi = hi << 12 | lo
                gs += ['%04X %04X %04X %04X' % (pi, 15 << 11 | (lo & 31) << 5 | lo >> 7 & 31, pi, 0x4142)] * 3
            yield {'opts': {'rbds': True}, 'groups': gs}
        # every character at every position, every PTY
        gs = ['1234 0000 E0CD 2020'] * 3
        for c in range(256):
            for s in range(4):
                gs.append('1234 %04X E0CD %04X' % ((c & 31) << 5 | s, c << 8 | (c + 77 * s) & 255))
        for o in ({}, {'rbds': True}, {'partial': True}):
            yield {'opts': o, 'groups': gs}
        # all flag combinations
        gs = ['1234 F800 1234 2020'] * 3 + ['1234 %04X %04X 2020' % (t << 11 | x, 0x1234 if t & 1 else 0xE0CD) for t in (0, 1, 31) for x in range(2048)]
        yield {'opts': {}, 'groups': gs}
        yield {'opts': {'rbds': True}, 'groups': gs}


CHECK = C()
