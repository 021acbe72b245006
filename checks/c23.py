"""C23: reception timestamps, with an injected clock."""
import os, re, time
from checks.base import *
from rds import bits as BT

GROUP_S = 104 / 1187.5
TOL = 0.030

TZS = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'XYZ-14', 'ABC+12:30', 'CET-1CEST,M3.5.0,M10.5.0/3', 'IST-5:30']
FMTS = ['rx %Y-%m-%d %H:%M:%S.%f day %j week %U epoch %s', '%u', '%w', 'x', '%%', '%Y-%m-%dT%H:%M:%S.%f', '%s.%f', '%H:%M:%S', '%c', '%f', '%s', '%d/%m/%y %I %p %f', '%%%s', '%%f %f', '%f-%f', '%S%f%%%f', 'x%fy%s', '%j %U %s']


def fmt_time(ns, fmt, tz):
    s, frac = divmod(ns, 10 ** 9)
    os.environ['TZ'] = tz
    time.tzset()
    f = re.sub('%(.)', lambda m: '%02d' % (frac // 10 ** 7) if m.group(1) == 'f' else m.group(0), fmt)
    # the C library's strftime, as in the program
    return time.strftime(f, time.localtime(s))


class C(ModelCheck):
    ID = 'C23'
    RULE = ('hex, TEF and bit input with an injected sequence of clock readings (steps forward, backward, constant, sub-second) and random '
            'formats and time zones, JSON and hex output; oracle: each shown time is the format of a reading in order or the latest shown one, never '
            'decreasing in the clock that was injected. MPX input with a simulated clock that runs with the signal and jumps at random places, '
            '1 to 3 channels, with and without data streams: each group shows the time at which its last bit was in the signal, within '
            '30 ms, or the previous one if the clock was set back. Non-trivial: at least three records with a time')
    ASSUME = ['every wall clock reading of the process goes through clock_gettime, gettimeofday or time',
              'the time zone database is the C library\'s', 'signal time is known within 30 ms (6 ms measured), formats of at most 63 characters']
    LISTS = ['groups', 'clock', 'jumps']

    def gen_mpx(self, r):
        ch = r.choice([1, 1, 1, 2, 3])
        rate = r.choice([128000, 171000, 171000, 192000, 200000, 250000])
        n = r.choice([45, 60])
        dur = n * GROUP_S
        jumps = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            jumps.append([round(r.uniform(0.5, dur), 3), r.choice([1, -1]) * r.choice([0.05, 0.5, 1.0, 2.0, 3600.0, 90000.0, 40 * 86400.0, r.uniform(0, 5)])])
        streams = r.random() < 0.25
        if streams:
            rate = max(rate, 171000)   # the carriers up to 76 kHz must be below half the rate
        return {'fmt': 'mpx', 'rate': rate, 'ch': ch, 'n': n, 'jumps': sorted(jumps), 'streams': streams, 'seed': r.randrange(1 << 30),
                't0': r.choice([1700000000, 951782399, 2 * 10 ** 7, r.randrange(10 ** 9, 2 * 10 ** 9)]) * 1000 + r.randrange(1000),
                'out': r.choice(['hex', 'json']) if ch == 1 else 'json'}

    def judge_mpx(self, case, env):
        import random
        import numpy as np
        from checks.mpxbase import make_signal, sig_params
        from rds import mpx as X
        rate, ch, n = case['rate'], case['ch'], case['n']
        rr = random.Random(case['seed'])
        xs = []
        where = {}
        for c in range(ch):
            sig = sig_params(rr)
            sig.update(level=0.1, ppm=0, noise=0)
            pi = rr.randrange(1, 65536)
            sig['streams'] = {}
            for st in ([0, rr.randrange(1, 4)] if case['streams'] else [0]):
                gs = ['%04X %04X %04X %04X' % (pi, 15 << 11 | rr.randrange(2048), rr.randrange(65536), i << 8 | rr.randrange(256)) for i in range(n)]
                for i, g in enumerate(gs):
                    where[c, st, g] = (i + 1) * GROUP_S
                sig['streams'][str(st)] = gs
            xs.append(X.s16(make_signal(sig, rate)))
        m = min(len(x) for x in xs)
        data = np.stack([x[:m] for x in xs], 1).reshape(-1).tobytes()
        bps = rate * 2 * ch
        clock = [-2 ** 63, case['t0'] * 10 ** 6, int(1e12 / bps)]
        for t, j in case['jumps']:
            clock += [int(t * bps), int(j * 1e9)]
        args = ['-r', str(rate), '-c', str(ch), '-o', case['out'], '-t', '%s.%f'] + (['-R'] if case['out'] == 'json' else [])
        r = env.sut().run(args + (['-s'] if case['streams'] else []), data, env={'TZ': 'UTC0'}, clock=clock, timeout=120)
        if r.exit != 0:
            return Verdict('ended with ' + r.how(), True)
        recs = []
        if case['out'] == 'json':
            try:
                for x in parse_lines(r.out):
                    if 'rx_time' not in x:
                        return Verdict('no rx_time: %s' % x, True)
                    recs.append((x.get('channel', 0), int(x.get('stream', 0)), x['raw_data'], x['rx_time']))
            except Bad as e:
                return Verdict(str(e), True)
        elif ch == 1:
            for l in r.out.decode('latin-1').split('\n')[:-1]:
                st = 0
                if l.startswith('#S'):
                    st, l = int(l[2]), l[4:]
                recs.append((0, st, l[:19], l[20:]))
        else:
            return Verdict(None, False, ['mpx/hex'])   # hex lines do not tell the channel
        prev = {}
        uprev = {}
        seen = 0
        t0 = case['t0'] / 1000
        chunk = 8192 / ch / rate
        for c, st, g, s in recs:
            try:
                v = float(s)
            except ValueError:
                return Verdict('time shown as %r' % s, True)
            p = prev.get(c)
            if p is not None and v < p:
                return Verdict('channel %d: time goes back from %.2f to %.2f' % (c, p, v), True)
            prev[c] = v
            u = where.get((c, st, g))
            if u is None:
                continue
            seen += 1
            # the clock reading may be taken until the end of the chunk the group ends in
            offs = []
            o = 0.0
            pts = [(-1e9, 0.0)]
            for t, j in case['jumps']:
                o += j
                pts.append((t, o))
            for k, (t, o) in enumerate(pts):
                nxt = pts[k + 1][0] if k + 1 < len(pts) else 1e9
                if t - 0.15 <= u <= nxt + 0.15:
                    offs.append(o)
            up = TOL + (chunk if case['streams'] else 0)
            good = any(-TOL <= v - (t0 + u + o) <= up for o in offs) or (p is not None and v == p and any(t0 + u + o <= p + up for o in offs))
            if not good and any(j < 0 and uprev.get(c, -1.0) - 0.15 <= t <= u + 0.15 for t, j in case['jumps']):
                # the clock was set back after the last shown group: a group that was not shown may have been received in between
                good = v <= max(t0 + min(u, nxt) + o for (t, o), nxt in zip(pts, [q[0] for q in pts[1:]] + [1e9]) if t <= u) + up
            uprev[c] = u
            if not good:
                return Verdict('channel %d stream %d: the group that ended %.3f s into the signal shows %.2f, expected %s' % (
                    c, st, u, v, ' or '.join('%.2f' % (t0 + u + o) for o in offs) + ('' if p is None else ' or, if that is later, %.2f' % p)), True)
        return Verdict(None, seen >= 3, ['mpx/' + case['out']], n=seen)

    def gen(self, r, tier):
        if r.random() < 0.2:
            return self.gen_mpx(r)
        fmt = r.choice(['hex', 'hex', 'tef', 'bits'])
        n = r.choice([6, 20, 60])
        t = r.choice([r.randrange(0, 4 * 10 ** 9), r.randrange(1500000000, 1800000000), 1700000000]) * 10 ** 9 + r.randrange(10 ** 9)
        clock = []
        for _ in range(r.choice([1, 5, n, 4 * n + 10])):
            clock.append(max(0, t))
            k = r.random()
            if k < 0.55:
                t += r.choice([0, 1, 10 ** 6, 10 ** 7, 87 * 10 ** 6, 10 ** 9, r.randrange(10 ** 10)])
            elif k < 0.65:
                t -= r.choice([1, 10 ** 7, 10 ** 9, r.randrange(10 ** 12), 3600 * 10 ** 9, 90000 * 10 ** 9, 40 * 86400 * 10 ** 9, r.randrange(10 ** 17)])
            elif k < 0.7:
                t = (t // 10 ** 9 + 1) * 10 ** 9 - r.choice([0, 1, 10 ** 6, 10 ** 7])
        pi = r.randrange(1, 65536)
        gs = ['%04X %04X %04X %04X' % (pi, 15 << 11 | r.randrange(2048), pi, r.randrange(65536)) for _ in range(n)]
        if r.random() < 0.3:
            gs = [g if i < 4 else '%04X' % r.choice([pi, pi, pi, r.randrange(65536)]) + ' %04X %04X %04X' % tuple(r.randrange(65536) for _ in range(3)) for i, g in enumerate(gs)]
        if fmt == 'hex' and r.random() < 0.5:
            loss = r.choice([0.05, 0.2, 0.5])
            gs = [' '.join('----' if i > 3 and r.random() < loss else w for w in g.split()) for i, g in enumerate(gs)]
        if fmt == 'hex' and r.random() < 0.3:
            gs = [('#S%d ' % r.randrange(1, 4) if i > 4 and r.random() < 0.5 else '') + g for i, g in enumerate(gs)]
        return {'fmt': fmt, 'groups': gs, 'clock': clock, 'tz': r.choice(TZS), 'tf': r.choice(FMTS), 'out': r.choice(['json', 'json', 'hex'])}

    def judge(self, case, env):
        if case['fmt'] == 'mpx':
            return self.judge_mpx(case, env)
        tf, tz = case['tf'], case['tz']
        if not case['clock']:
            return Verdict()
        gs = case['groups']
        if case['fmt'] == 'hex':
            data = ('\n'.join(gs) + '\n').encode()
        elif case['fmt'] == 'tef':
            data = ''.join('P%s\nR%s00\n' % (l[:4], l[5:].replace(' ', '')) for l in gs).encode()
        else:
            data = BT.bits_of([w for l in gs for w in BT.group_words([int(x, 16) for x in l.split()])]).encode()
        r = env.sut().run(['-i', case['fmt'], '-o', case['out'], '-t', tf], data, env={'TZ': tz}, clock=case['clock'])
        if r.exit != 0:
            return Verdict('ended with ' + r.how(), True)
        shown = []
        if case['out'] == 'json':
            try:
                for x in parse_lines(r.out):
                    if set(x) == {'debug'}:      # the record could not be written
                        continue
                    if 'rx_time' not in x:
                        return Verdict('no rx_time: %s' % x, True)
                    shown.append(x['rx_time'])
            except Bad as e:
                return Verdict(str(e), True)
        else:
            for l in r.out.decode('utf-8', 'replace').split('\n')[:-1]:
                k = 24 if l.startswith('#') else 20
                shown.append(l[k:])
        # Which instants may be shown? The running maximum of the readings, in order.
        clock = case['clock']
        runmax = []
        m = None
        for c in clock:
            m = c if m is None or c > m else m
            runmax.append(m)
        texts = [fmt_time(c, tf, tz) for c in clock]
        msg = None
        # simulate: state = set of possible (instant) of the previous record; monotone, so greedy smallest
        prev = None
        pos = 0
        for i, s in enumerate(shown):
            # candidates: any reading >= prev with the same text; choose the smallest instant
            cand = sorted(c for c, t in set(zip(clock, texts)) if t == s and (prev is None or c >= prev))
            if not cand:
                known = [c for c, t in zip(clock, texts) if t == s]
                msg = 'record %d shows %r: %s' % (i, s, 'time goes back' if known else 'not the format of any clock reading (%s...)' % texts[:3])
                break
            prev = cand[0]
        if msg is None and shown:
            # the clock stands still at its last reading: if that is the latest one, later groups show it
            if len(set(clock)) == 1 and any(s != texts[0] for s in shown):
                msg = 'constant clock, but %r shown' % shown
        if msg is None and tf == '%Y-%m-%dT%H:%M:%S.%f' and tz == 'UTC0':
            if any(a > b for a, b in zip(shown, shown[1:])):
                msg = 'times decrease: %s' % [(a, b) for a, b in zip(shown, shown[1:]) if a > b][:2]
        if msg is None and len(clock) >= 2 and all(a < b for a, b in zip(clock, clock[1:])) and len(clock) >= 4 * len(gs) + 4 and shown:
            # strictly increasing clock with enough readings: the last record was received late in it,
            # and every record at its own time
            if len(set(shown)) == 1 and len(shown) > 3 and len(set(texts[1:len(shown)])) == len(texts[1:len(shown)]):
                msg = 'all records show the same time although the clock advanced: %r' % shown[0]
        return Verdict(msg, len(shown) >= 3, [case['fmt'] + '/' + case['out']], n=len(shown))

    def simplify(self, case):
        if case['fmt'] == 'mpx':
            for k, v in (('ch', 1), ('streams', False), ('rate', 171000), ('n', 45)):
                if case[k] != v:
                    yield dict(case, **{k: v})
            return
        for k, v in (('fmt', 'hex'), ('tz', 'UTC0'), ('out', 'json')):
            if case[k] != v:
                yield dict(case, **{k: v})


CHECK = C()
