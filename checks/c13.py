"""C13: clock time."""
from checks.base import *

TZS = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'XYZ-14', 'ABC+12:30', 'CET-1CEST,M3.5.0,M10.5.0/3', 'IST-5:30', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0', '', 'NST3:30NDT,M3.2.0,M11.1.0', 'Asia/Tokyo', 'nonsense']


class C(ModelCheck):
    ID = 'C13'
    KEYS = ['clock_time']
    WEIGHTS = {'ct': 10, 'ps': 0.5}
    OPTS = {'partial': 0.1, 'raw': 0.1}
    RULE = ('4A groups with random dates (mostly in the claimed range, month/year/century limits), times, offsets and invalid fields, under '
            'random TZ settings and host clocks; all 73,049 dates of the range and all offsets are enumerated. Oracle: proleptic Gregorian '
            'calendar arithmetic. Non-trivial: a clock time is due')
    ASSUME = ModelCheck.ASSUME + ['dates outside 1900-03-01 to 2100-02-28 (after moving by the local offset) are not judged']

    def gen(self, rng, tier):
        c = super().gen(rng, tier)
        c['tz'] = rng.choice(TZS)
        c['clock'] = rng.choice([[], [rng.randrange(0, 4 * 10 ** 18)]])
        return c

    def fixed(self, tier):
        mjd = 15079
        k = 0
        while mjd <= 88127:
            gs = ['6789 F800 6789 2020'] * 3
            for m in range(mjd, min(mjd + 4096, 88128)):
                k += 1
                h, mi, half, sg = k * 7 % 24, k * 11 % 60, k * 13 % 29, k & 1
                if k % 3 == 0:
                    half = 0
                gs.append('6789 %04X %04X %04X' % (0x4000 | m >> 15, (m & 0x7FFF) << 1 | h >> 4, (h & 15) << 12 | mi << 6 | sg << 5 | half))
            yield {'opts': {}, 'groups': gs, 'tz': TZS[k % len(TZS)], 'clock': []}
            mjd += 4096
        # all times and offsets on one day, also invalid ones
        for base in (0, 16):
            gs = ['6789 F800 6789 2020'] * 3
            for h in range(base, base + 16):
                for x in range(0, 4096, 5 if tier == 'quick' else 1):
                    gs.append('6789 %04X %04X %04X' % (0x4001, (60000 & 0x7FFF) << 1 | h >> 4, (h & 15) << 12 | x))
            yield {'opts': {}, 'groups': gs, 'tz': 'EST5EDT', 'clock': []}

    def run(self, case, e, **kw):
        return super().run(case, e, env={'TZ': case['tz']}, clock=case['clock'])


CHECK = C()
