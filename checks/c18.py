"""C18: TMC messages against the reference decoder."""
from checks.base import *


class C(ModelCheck):
    ID = 'C18'
    KEYS = ['tmc']
    WEIGHTS = {'tmc': 10, 'ps': 0.5}
    RULE = 'TMC system information and user messages: single- and multi-group with all label types, quantifiers of all 13 types, interleaved, repeated, incomplete and damaged sequences, tuning information, provider names, encryption administration; all event codes and quantifier values enumerated over single/two-group messages; oracle: reference decoder and the standard event table. Non-trivial: a TMC field is due'
    OPTS = {}
    RUN = (4, 60, 200)
    N = (100, 300, 600)
    DROP = (0.0, 0.0, 0.01, 0.05)


    def fixed(self, tier):
        head = ['4567 F800 4567 2020'] * 3 + ['4567 3010 0066 CD46']
        gs = list(head)
        for code in range(2048):
            gs.append('4567 8008 %04X %04X' % (code | (code * 7 & 31) << 11, code * 31 & 0xFFFF))
        yield {'opts': {}, 'groups': gs}

        def msg(ci, y0, loc, bits):
            n = max(1, -(-len(bits) // 28))
            bits = (bits + '0' * 112)[:28 * n]
            out = ['4567 %04X %04X %04X' % (0x8000 | ci, 0x8000 | y0, loc)]
            for i in range(n):
                w = int(bits[28 * i:28 * i + 28], 2)
                out.append('4567 %04X %04X %04X' % (0x8000 | ci, (0x4000 if i == 0 else 0) | (n - 1 - i) << 12 | w >> 16, w & 0xFFFF))
            return out
        q = [c for c in sorted(M.EVENTS) if M.EVENTS[c]['descq']]
        seen = {}
        for c in q:
            seen.setdefault(M.EVENTS[c]['q'], []).append(c)
        # all quantifier values for one event (thorough: all events) of each type, and some for all
        for t, evs in sorted(seen.items()):
            five = t in M.QSIZE5
            for j, c in enumerate(evs):
                vals = range(32 if five else 256)
                if j and tier == 'quick':
                    vals = [v for v in vals if (v + j) % 16 == 0]
                gs = list(head)
                for v in vals:
                    gs += msg(1 + v % 6, c, v, ('0100' + format(v, '05b')) if five else ('0101' + format(v, '08b')))
                yield {'opts': {}, 'groups': gs}
        # all values of the other labels
        gs = list(head)
        for lab, size in enumerate(M.FIELD_SIZE[:15]):
            for v in range(1 << min(size, 8)):
                x = v if size <= 8 else (v * 257 >> (16 - size)) & ((1 << size) - 1)
                gs += msg(1 + v % 6, 1 + v * 5 % 2000, v, format(lab, '04b') + (format(x, '0%db' % size) if size else ''))
        for v in range(256):
            gs += msg(1 + v % 6, 101, v, '0110' + format(v, '08b') + '0001' + format(v & 7, '03b') + '0001' + format(v >> 3 & 7, '03b'))
        yield {'opts': {}, 'groups': gs}
        # all system information
        for hi in range(4):
            yield {'opts': {}, 'groups': head + ['4567 3010 %04X CD46' % (hi << 14 | x) for x in range(0, 1 << 14, 3)]}


CHECK = C()
