"""C24: synthesised multiplex signals are demodulated to the groups sent."""
from checks.mpxbase import *
import random
from rds import model as M
from rds.cmpjson import compare

ACQ_S = 5.0
# when led astray: until the start afresh, and then acquisition
PULLED_S = 8.5
GROUP_S = 104 / 1187.5


class C(Check):
    ID = 'C24'
    KINDS = ['driver']
    LISTS = []
    QUICK_S = 30
    RULE = ('multiplex signals synthesised from random groups (data-shaped biphase on 57 kHz, and on 66.5/71.25/76 kHz for RDS2) at random sample '
            'rates up to 40 MHz, carrier phases, polarities, bit timings, levels (-50 to -10 dBFS), clock errors up to 100 ppm, with pilot, audio and slight noise, now and then after silence; oracle: '
            'from 5 s after the start all groups sent, but the last two, are output once, in order, unaltered, per stream; the same samples in a WAV '
            'file (16, 24, 32 bit or float) give identical output; after a gap in the signal decoding resumes within 5 s (8.5 s if an unmodulated, sweeping or foreign carrier was there meanwhile); what was received of the last group is shown on every stream; the JSON records of the groups received are those of the reference decoder, where after a gap of 13 s or more '
            '(more than 10 s out of sync) the station is confirmed and gathered anew, and after 4 s or less it is not; a stretch of signal repeated without a seam for minutes gives the same groups over and over. Non-trivial: at least 15 groups '
            'compared after acquisition')
    ASSUME = ['acquisition takes at most 5 s (1.3 s was the longest measured)', 'signals of 8 to 12 s, now and then up to 60 s; signals that repeat without a seam for 2 to 5.5 minutes (up to 100 minutes in the thorough tier)']

    def gen(self, r, tier):
        rate = r.choice(RATES + [r.randrange(128000, 400000), r.randrange(168000, 174000)])
        kind = r.choice(['raw', 'raw', 'raw', 'file', 'streams', 'streams', 'gap', 'json', 'gapjson'])
        if r.random() < 0.03:
            rate = r.choice([500000, 1000000])
        case = {'kind': kind, 'rate': rate, 'sig': sig_params(r)}
        n = r.choice([85, 100, 130])
        if r.random() < 0.02:
            # a very high rate
            case.update(kind='high', rate=r.choice([500000, 400000, 384000, 342000]))
            case['times'] = r.choice([5, 20, 40, int(40000000 / case['rate']), int(r.uniform(2, 40000000 / case['rate']))])
            case['sig'].update(streams={'0': gen_groups(r, 75)}, level=0.1)
            return case
        if r.random() < 0.06:
            # a long one: 35 to 60 s
            case['kind'] = kind = 'long'
            case['rate'] = rate = min(rate, 192000)
            n = r.randrange(400, 680)
        if kind == 'streams':
            case['rate'] = rate = max(rate, 171000)
            ks = [0] + r.sample([1, 2, 3], r.choice([1, 2, 3]))
            case['sig']['streams'] = {str(k): gen_groups(r, n) for k in ks}
            case['sig']['level'] = r.choice([0.02, 0.05, 0.1])
            case['sig']['noise'] = 0
        elif kind == 'gap':
            case['sig']['streams'] = {'0': gen_groups(r, 90)}
            case['sig2'] = dict(sig_params(r), streams={'0': gen_groups(r, n)})
            case['gap'] = r.choice([0.0, 0.5, 2.0, 5.0, 11.0, 13.0, 25.0])
            case['gapnoise'] = r.choice([0, 0, 0.00005, 0.0005, 0.001, 0.05])
            if r.random() < 0.4:
                # something else on the air meanwhile, that leads the receiver astray
                ks = ['0'] if r.random() < 0.6 else ['0', '1', '2', '3']
                for q, m in (('sig', 75), ('sig2', 135)):
                    case[q]['streams'] = {k: gen_groups(r, m) for k in ks}
                    case[q]['level'] = r.choice([0.02, 0.05, 0.1])
                case['sig2']['noise'] = 0
                case['gap'] = r.choice([13.0, 16.0, 20.0, 24.0])
                case['pull'] = dict(form=r.choice(['bpsk', 'chirp', 'chirp', 'tone']), df=r.choice([1, -1]) * r.choice([30, 40, r.uniform(5, 80), r.uniform(50, 250)]),
                                    level=r.choice([0.05, 0.1, 0.2]))
                case['rate'] = r.choice([171000, 171000, 192000])
        elif kind == 'gapjson':
            # the same station before and after
            pi = r.randrange(1, 65536)
            tx = G.Tx(r, dict(SENDERS, oda=2), run=r.choice([4, 20]), pi=pi)
            gs = [G.to_hex(b) for b, _ in tx.groups(75 + n, lead=0)]
            case['sig']['streams'] = {'0': gs[:75]}
            case['sig2'] = dict(sig_params(r), streams={'0': gs[75:]})
            case['gap'] = r.choice([0.3, 2.0, 4.0, 13.0, 13.0, 16.0, 22.0])
            case['gapnoise'] = r.choice([0, 0, 0.00005, 0.0005, 0.001, 0.05])
            case['rate'] = min(rate, 192000)
        else:
            if kind == 'json' and r.random() < 0.4:
                case['rate'] = rate = max(rate, 171000)
                case['s2'] = True
                tx = G.Tx(r, {'rft': 4, 'ps': 1, 'oda': 1}, run=20, pi=r.randrange(1, 65536))
                gs = {str(k): gen_groups(r, n, pi=tx.pis[0]) for k in range(4)}
                # file transfer groups for the upper streams
                up = [G.to_hex(b) for b, st in tx.groups(4 * n) if st]
                for k in (1, 2, 3):
                    gs[str(k)] = (up[k * n // 3:] + gs[str(k)])[:n]
                case['sig']['streams'] = gs
                case['sig'].update(level=r.choice([0.02, 0.05, 0.1]), noise=0, plain_c=r.random() < 0.6)
            else:
                case['sig']['streams'] = {'0': gen_groups(r, n)}
            if kind == 'file':
                case['fmt'] = r.choice(['s16', 's24', 's32', 'f32'])
                case['stdin'] = r.random() < 0.3
        if not kind.startswith('gap') and r.random() < 0.15:
            case['lead'] = r.choice([0.1, 0.5, 2.0, 4.0, 12.0])
        return case

    def fixed(self, tier):
        # hours of reception in thorough
        r = random.Random(24)
        for ks, df, form in (('0123', 60, 'chirp'), ('0123', -100, 'chirp'), ('0', 80, 'chirp'), ('0', -30, 'bpsk')):
            yield {'kind': 'gap', 'rate': 171000, 'gap': 16.0, 'gapnoise': 0, 'pull': dict(form=form, df=df, level=0.1),
                   'sig': dict(phase=1.0, timing=0.2, level=0.05, seed=1, streams={k: gen_groups(r, 75) for k in ks}),
                   'sig2': dict(phase=2.0, timing=0.4, level=0.05, seed=1, streams={k: gen_groups(r, 135) for k in ks})}
        cases = [(171000, 1, 330, 'raw'), (228000, 4, 120, 'raw'), (192000, 1, 150, 'f32')]
        if tier == 'thorough':
            cases += [(171000, 1, 6000, 's16'), (250000, 1, 4000, 's16'), (228000, 4, 2000, 's16'), (192000, 4, 2600, 's24'), (256000, 1, 1300, 's32')]
        for rate, streams, secs, form in cases:
            unit = [gen_groups(r, 19 * 3, pi=0x1234 + i) for i in range(streams)]
            yield {'kind': 'loop', 'rate': rate, 'seconds': secs, 'fmt': form,
                   'sig': dict(phase=1.0, timing=0.3, level=0.08, polarity=-1, pilot=0.1, audio=0, noise=0, seed=1, streams={str(i): u for i, u in enumerate(unit)})}

    def loop(self, case, env):
        """a stretch of signal that repeats without a seam"""
        import numpy as np
        rate = case['rate']
        unit = {}
        for k, gs in case['sig']['streams'].items():
            for v in range(0x10000):
                # back to the same sign of the differential coding
                gs = gs[:-1] + [gs[-1][:15] + '%04X' % v]
                if X.group_bits(words(gs), None).count('1') % 2 == 0:
                    break
            unit[k] = gs
        x = make_signal(dict(case['sig'], streams={k: v * 3 for k, v in unit.items()}), rate)
        n = len(unit['0']) * 104 * rate * 2 // 2375
        s = X.s16(x)[n:2 * n]
        reps = int(case['seconds'] * rate / n) + 1
        opts = ['-o', 'hex'] + (['-s'] if len(unit) > 1 else [])
        p = os.path.join(env.tmp, 'c24loop')
        if case['fmt'] == 'raw':
            r = env.sut().run(['-r', str(rate)] + opts, s.tobytes() * reps, timeout=800)
        else:
            w = wav(s, rate, 1, case['fmt'])
            b = w[44:]
            with open(p, 'wb') as f:
                f.write(w[:4] + struct.pack('<I', 36 + reps * len(b)) + w[8:40] + struct.pack('<I', reps * len(b)))
                for i in range(reps):
                    f.write(b)
            r = env.sut().run(['-f', p] + opts, timeout=800)
            os.unlink(p)
        if r.exit != 0:
            return Verdict('ended with ' + r.how() + r.err[-300:].decode('utf-8', 'replace'), True, ['loop'])
        out = r.out.decode('latin-1').split('\n')[:-1]
        skip = int(ACQ_S / GROUP_S) + 1
        total = 0
        for k, gs in unit.items():
            got = [l[4:] if l.startswith('#S') else l for l in out if (l.startswith('#S' + k) if k != '0' else not l.startswith('#S'))]
            # every group sent has its place at the end
            need = len(gs) * reps - skip - 2
            total += need
            # the last two are perhaps cut short
            for tail, cut in ((t, c) for t in range(3) for c in range(3)):
                exp = [gs[(len(gs) * reps - 1 - tail - i) % len(gs)] for i in range(need + 2 - tail)]
                act = got[::-1][cut:need + 2 - tail + cut]
                if act == exp:
                    break
            else:
                i = next((i for i in range(min(len(act), len(exp))) if act[i] != exp[i]), min(len(act), len(exp)))
                return Verdict('stream %s of a signal that repeats every %d groups: %d groups were sent from %g s on, but %d are output; %d from the end: %s' % (
                    k, len(gs), need, ACQ_S, len(got), i, 'is %s, not %s' % (act[i:i + 1], exp[i:i + 1])), True, ['loop'])
        return Verdict(None, True, ['loop'], total)

    def judge(self, case, env):
        import numpy as np
        rate = case['rate']
        kind = case['kind']
        if kind == 'loop':
            return self.loop(case, env)
        x = make_signal(case['sig'], rate)
        skip = skip2 = int(ACQ_S / GROUP_S) + 1
        want = {int(k): v for k, v in case['sig']['streams'].items()}
        if kind in ('gap', 'gapjson'):
            y = make_signal(case['sig2'], rate)
            rng = np.random.default_rng(case['sig']['seed'])
            g = rng.standard_normal(int(case['gap'] * rate)) * case['gapnoise']
            pull = case.get('pull')
            if pull:
                skip2 = int(PULLED_S / GROUP_S) + 1
                t = np.arange(len(g)) / rate
                for k in want:
                    f, d = X.CARRIER[k], pull['df'] * X.CARRIER[k] / 57000
                    if pull['form'] == 'bpsk':
                        b = ''.join(rng.choice(['0', '1'], int(case['gap'] * X.BAUD)))
                        g = g + X.signal({k: b}, rate, ppm=d / f * 1e6, level=pull['level'], seconds=len(g) / rate + 0.01)[:len(g)]
                    else:
                        g = g + pull['level'] * np.cos(2 * np.pi * (f * t + d * (t if pull['form'] == 'tone' else t * t / 2 / case['gap'])))
            x = np.concatenate([x, g, y])
        if case.get('lead'):
            # silence before the signal
            x = np.concatenate([np.zeros(int(case['lead'] * rate)), x])
        s = X.s16(x)
        if kind == 'high':
            # every sample repeated
            s = np.repeat(s, case['times'])
            rate *= case['times']
        opts = ['-o', 'hex'] + (['-s'] if kind == 'streams' or case.get('s2') or len(want) > 1 else [])
        r = env.sut().run(['-r', str(rate)] + opts, s.tobytes(), timeout=120)
        tags = [kind]
        if r.exit != 0:
            return Verdict('ended with ' + r.how() + r.err[-300:].decode('utf-8', 'replace'), True, tags)
        out = r.out.decode('latin-1').split('\n')[:-1]
        got = {0: [], 1: [], 2: [], 3: []}
        for l in out:
            if l.startswith('#S'):
                got[int(l[2])].append(l[4:])
            else:
                got[0].append(l)
        n = 0
        msg = None
        for k in range(4):
            if k not in want:
                continue
            for part, sk in ([(want[k], skip)] if not kind.startswith('gap') else [(want[k], skip), (case['sig2']['streams'][str(k)], skip2)]):
                need = part[sk:-2]
                n += len(need)
                if not self.contains(got[k], need):
                    if case.get('pull') and len(set(got[k]) - set(want[k]) - set(part)) > 25:
                        # synchronised to the wrong thing for a while
                        return Verdict(None, False, tags)
                    msg = msg or 'stream %d: groups %d to %d sent are not output in order and unaltered: %s' % (
                        k, skip, len(part) - 3, self.explain(got[k], need))
        if msg is None and kind == 'streams' and got[0][-1].endswith('----') and got[0][-1][:9] == want[0][-1][:9] and got[0][-1][10] != '-':
            # what came of the last group is shown, on every stream
            for k in want:
                if got[k][-1][:9] != want[k][-1][:9]:
                    msg = msg or 'stream %d: the last group output is %s, although two blocks of %s were received' % (k, got[k][-1], want[k][-1])
        if msg is None and kind == 'file':
            w = wav(s, rate, 1, case['fmt'])
            if case['stdin']:
                f = env.sut().run(['-f', '-'] + opts, w, timeout=120)
            else:
                p = os.path.join(env.tmp, 'c24.wav')
                open(p, 'wb').write(w)
                f = env.sut().run(['-f', p] + opts, timeout=120)
            if f.exit != 0:
                msg = 'sound file: ended with %s %s' % (f.how(), f.err[-300:].decode('utf-8', 'replace'))
            elif f.out != r.out:
                a, b = r.out.split(b'\n'), f.out.split(b'\n')
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                msg = 'sound file gives different output: line %d %s instead of %s' % (i, b[i:i + 1], a[i:i + 1])
        if msg is None and 'json' in kind:
            msg = self.json(case, env, s, out, want, skip)
        return Verdict(msg, n >= 15, tags, n)

    def json(self, case, env, s, lines, want, skip):
        r = env.sut().run(['-r', str(case['rate']), '-R'] + (['-s'] if case.get('s2') else []), s.tobytes(), timeout=120)
        if r.exit != 0:
            return 'ended with ' + r.how()
        try:
            # an upper stream's group without any block is not to be seen in hex
            recs = [x for x in parse_lines(r.out) if x.get('raw_data') != '---- ---- ---- ----']
        except Bad as e:
            return str(e)
        opts = {'raw': True, 'streams': bool(case.get('s2'))}
        gs = []
        for l in lines:
            st = int(l[2]) if l.startswith('#S') else 0
            b = [None if x == '----' else int(x, 16) for x in (l[4:] if st else l).split(' ')]
            pi = int(want[0][0][:4], 16)
            gs.append(M.Group(b, st, bool(b[2] is not None and (b[1] >> 11 & 1 if b[1] is not None else b[2] == pi)), None, True))
        parts = [want[0]] + ([case['sig2']['streams']['0']] if 'sig2' in case else [])
        plain = [l for l in lines if not l.startswith('#S')]
        if any('-' in l or l[:4] != want[0][0][:4] for l in plain[20:-60]) and 'sig2' not in case:
            return None
        # where each part is surely received
        pos = []
        for p in parts:
            need = p[skip:-2]
            i = next(i for i in range(len(plain)) if plain[i:i + len(need)] == need)
            pos.append((i, i + len(need)))
        hyp = [None]
        if 'sig2' in case:
            between = range(pos[0][1], pos[1][0] + 1)
            if case['gap'] >= 13:
                if sum('-' in plain[i] for i in range(pos[0][1], pos[1][0])) > 20:
                    return None     # a false lock in the noise
                hyp = list(between)
        # a group without PI is ignored if the one before had none either, and that one may be invisible here
        doubt = [i for i, g in enumerate(gs) if g.stream == 0 and g.pi() is None]
        doubt = [i for i in doubt if i < [k for k, g in enumerate(gs) if g.stream == 0][pos[-1][0]]]
        if len(doubt) > 5:
            return None
        first = None
        for h in hyp:
            for bits in range(1 << len(doubt)):
                drop = {i for k, i in enumerate(doubt) if bits >> k & 1}
                ch = M.Channel(opts)
                exp = []
                k = 0
                for i, g in enumerate(gs):
                    if g.stream == 0:
                        if h is not None and k == h:
                            ch.cache.reset()
                        k += 1
                    exp.append(None if i in drop else ch.feed(g))
                m = self.json_parts(lines, exp, recs, pos)
                if m is None:
                    return None
                first = first or m
        return first

    def json_parts(self, lines, exp, recs, pos):
        plain = [i for i, l in enumerate(lines) if not l.startswith('#S')]
        # from the end: before the signal is steady there may be groups without any block, which are not to be seen in hex
        a, b = pos[-1]
        due = [i for i in range(plain[a], len(lines)) if exp[i] is not None]
        if len(recs) < len(due):
            return '%d records, but %d are due after acquisition' % (len(recs), len(due))
        for i, x in zip(due, recs[len(recs) - len(due):]):
            if i > plain[b - 1]:
                break
            m = compare([exp[i]], [x], None, [lines[i]])
            if m:
                return 'JSON output: ' + m
        return None

    def contains(self, got, need):
        m = len(need)
        return any(got[i:i + m] == need for i in range(len(got) - m + 1))

    def explain(self, got, need):
        best = max((sum(a == b for a, b in zip(got[i:], need)), i) for i in range(max(1, len(got)))) if got else (0, 0)
        i = best[1]
        d = [(j, a, b) for j, (a, b) in enumerate(zip(need, got[i:] + ['(nothing)'] * len(need))) if a != b]
        return '%d lines output, %d of %d as sent; e.g. %s' % (len(got), best[0], len(need), d[:2])

    def simplify(self, case):
        s = case['sig']
        for k, v in (('noise', 0), ('audio', 0), ('pilot', 0), ('ppm', 0), ('phase', 0.0), ('timing', 0.0), ('level', 0.1), ('polarity', 1)):
            if s.get(k) != v:
                yield dict(case, sig=dict(s, **{k: v}))
        if case.get('pull') and case['pull']['form'] != 'chirp':
            yield dict(case, pull=dict(case['pull'], form='chirp'))
        if case.get('lead'):
            yield {k: v for k, v in case.items() if k != 'lead'}
        if case['rate'] != 171000:
            yield dict(case, rate=171000)


CHECK = C()
