"""C25: channels of a multi-channel signal are independent."""
from checks.mpxbase import *


class C(Check):
    ID = 'C25'
    LISTS = ['chans']
    QUICK_S = 30
    RULE = ('2 to 32 channels with different synthesised signals (RDS of different stations or different data of the same station, with and without RDS2 streams, silence, noise, gaps) of equal length interleaved into a '
            'raw signal or WAV file; oracle: per channel number the records are those of decoding that channel alone. Now and then one channel is '
            'without signal for more than 10 s (that channel itself is then not compared). Non-trivial: at least two channels, one with 10 records')
    ASSUME = ['the instant of re-acquisition after 10 s without groups may depend on the number of channels; such channels are not compared']

    def gen(self, r, tier):
        rate = r.choice([128000, 171000, 171000, 192000, 228000])
        nch = r.choice([2, 2, 2, 2, 3, 3, 4, 6, r.randrange(5, 13), r.choice([r.randrange(13, 33), 32])])
        long = r.random() < 0.25
        if long:
            nch = 2
        n = 14 if nch > 12 else r.choice([12, 25]) if nch > 6 else r.choice([230]) if long else r.choice([12, 25, 40])
        if r.random() < 0.1:
            n = 2
        opts = r.choice([[], ['-p'], ['-R'], ['-u'], ['-E'], ['-s']]) if rate >= 171000 else []
        streams = '-s' in opts and nch < 5
        chans = []
        # the same station on several channels, or several stations
        pi = r.choice([None, None, r.randrange(1, 65536)])
        # ... and all of them sending the same kind of data (about the same other networks)
        twin = r.choice(sorted(SENDERS)) if pi is not None and r.random() < 0.7 else None
        if twin and not long and nch < 4:
            n = 70
        for k in range(nch):
            kind = r.choice(['rds', 'rds', 'rds', 'rds', 'silence', 'noise']) if not twin else 'rds'
            if twin:
                gs = [b for b, s in G.Tx(r, {twin: 1}, run=60, pi=pi).groups(n, lead=0)]
                for b in gs:
                    if b[1] >> 11 == 28:
                        b[3] = pi ^ 1 + b[3] % 2
                gs = [G.to_hex(b) for b in gs]
            else:
                gs = gen_groups(r, n, pi)
            c = {'kind': kind, 'sig': dict(sig_params(r), streams={'0': gs})}
            if kind == 'rds' and not long and streams:
                c['sig']['streams'].update({str(i): gen_groups(r, n) for i in r.sample(range(1, 4), r.choice([0, 1, 3]))})
                c['sig'].update(level=0.05, audio=0, noise=0)
            if kind == 'rds' and not long and r.random() < 0.2:
                c['gap'] = [r.random(), r.random()]
            chans.append(c)
        if long:
            chans[r.randrange(2)]['kind'] = 'noise'
            chans[r.randrange(2)]['kind'] = 'rds'
        if r.random() < 0.15:
            chans[-1] = chans[0]
        return {'rate': rate, 'chans': chans, 'n': n, 'extra': r.randrange(-3000, 3000), 'file': r.choice([False, False, True]),
                'opts': opts, 'cut': r.randrange(nch) if r.random() < 0.2 else 0, 'long': long}

    def judge(self, case, env):
        import numpy as np
        nch = len(case['chans'])
        if nch < 1:
            return Verdict()
        rate = case['rate']
        N = max(10, int(case['n'] * 104 / 1187.5 * rate) + case['extra'])
        cols = []
        for c in case['chans']:
            if c['kind'] == 'silence':
                x = np.zeros(N)
            elif c['kind'] == 'noise':
                x = np.random.default_rng(c['sig']['seed']).standard_normal(N) * 0.02
            else:
                x = make_signal(c['sig'], rate)
                if c.get('gap'):
                    a, b = sorted(c['gap'])
                    x[int(a * len(x)):int(b * len(x))] = 0
                x = np.concatenate([x, np.zeros(max(0, N - len(x)))])[:N]
            cols.append(X.s16(x))
        data = np.stack(cols, axis=1).reshape(-1)
        if case['file']:
            p = os.path.join(env.tmp, 'c25.wav')
            open(p, 'wb').write(wav(data, rate, nch))
            r = env.sut().run(['-f', p] + case['opts'], timeout=200)
        else:
            if case['cut'] and case['cut'] < nch:
                data = data[:len(data) - case['cut']]
            r = env.sut().run(['-r', str(rate), '-c', str(nch)] + case['opts'], data.tobytes(), timeout=200)
        if r.exit != 0:
            return Verdict('ended with %s %s' % (r.how(), r.err[-300:].decode('utf-8', 'replace')), True)
        msg = None
        most = 0
        tot = 0
        try:
            recs = parse_lines(r.out)
            per = [[] for _ in range(nch)]
            ndebug = 0
            for x in recs:
                if 'debug' in x and 'pi' not in x:
                    # a record that could not be shown carries no channel number
                    ndebug += 1
                    continue
                if nch > 1:
                    ch = x.pop('channel', None)
                    if not isinstance(ch, int) or not 0 <= ch < nch:
                        return Verdict('record without a valid channel number: %s' % x, True)
                else:
                    ch = 0
                per[ch].append(x)
            for k in range(nch):
                if case['long'] and case['chans'][k]['kind'] != 'rds':
                    continue
                a = env.sut().run(['-r', str(rate)] + case['opts'], cols[k].tobytes(), timeout=200)
                alone = [x for x in parse_lines(a.out)]
                ndebug -= sum('debug' in x and 'pi' not in x for x in alone)
                alone = [x for x in alone if not ('debug' in x and 'pi' not in x)]
                most = max(most, len(alone))
                tot += len(alone)
                if '-s' in case['opts']:
                    # streams of a channel are handled chunk by chunk, so only the order within a stream is defined, and which
                    # groups of streams 1 to 3 come before the PI is confirmed
                    for st in (1, 2, 3):
                        a = [x for x in alone if x.get('stream') == st]
                        b = [x for x in per[k] if x.get('stream') == st]
                        m = min(len(a), len(b))
                        if msg is None and (abs(len(a) - len(b)) > 12 or a[len(a) - m:] != b[len(b) - m:]):
                            msg = 'channel %d of %d, stream %d: %s, decoded alone %s' % (k, nch, st, b[:20], a[:20])
                    alone = [x for x in alone if not x.get('stream')]
                    per[k] = [x for x in per[k] if not x.get('stream')]
                if msg is None and alone != per[k]:
                    i = next((i for i in range(min(len(alone), len(per[k]))) if alone[i] != per[k][i]), min(len(alone), len(per[k])))
                    msg = 'channel %d of %d: record %d is %s, decoded alone %s (%d and %d records)' % (k, nch, i, per[k][i:i + 1], alone[i:i + 1], len(per[k]), len(alone))
            if msg is None and ndebug and not case['long']:
                msg = '%+d records without channel number' % ndebug
        except Bad as e:
            return Verdict(str(e), True)
        return Verdict(msg, nch > 1 and most >= 10, ['file' if case['file'] else 'raw', '%d channels' % nch] + (['long'] if case['long'] else []), tot)


CHECK = C()
