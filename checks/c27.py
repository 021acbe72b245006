"""C27: command line."""
from checks.mpxbase import *
from rds import model as M
from rds.cmpjson import compare

SHORT = {'partial': ['-p', '--show-partial'], 'raw': ['-R', '--show-raw'], 'rbds': ['-u', '--rbds'], 'bler': ['-E', '--bler'],
         'streams': ['-s', '--streams'], 'feed': ['-e', '--feed-through'], 'nofec': ['--no-fec']}
INPUT = {'hex': [['-h'], ['--input-hex'], ['-i', 'hex'], ['-ihex'], ['--input', 'hex'], ['--input=hex']],
         'bits': [['-b'], ['--input-bits'], ['-i', 'bits'], ['-ibits'], ['--input', 'bits'], ['--input=bits']],
         'tef': [['-i', 'tef'], ['-itef'], ['--input', 'tef'], ['--input=tef']],
         'mpx': [[], ['-i', 'mpx'], ['-impx'], ['--input', 'mpx'], ['--input=mpx']]}
OUTPUT = {'hex': [['-x'], ['--output-hex'], ['-o', 'hex'], ['-ohex'], ['--output', 'hex'], ['--output=hex']],
          'json': [[], ['-o', 'json'], ['-ojson'], ['--output', 'json'], ['--output=json']]}
FORMATS = ['%H', 'x%%y', '%s', 'abc', '%j %U']
RATES_OK = {128000: ['128000', '128k', '128K', '0.128M', '128000.0', '1.28e5', '+128000'],
            171000: ['171000', '171k', '171K', '171.0k', '1.71e5', '0171000'],
            192000: ['192000', '192k', '192K', '192.0K', '1.92e5', '0.192M', '0.192m'],
            250000: ['250000', '250k', '250K', '0.25M', '0.25m', '.25M', '2.5e5', '2.5e2k', '250.0k'],
            1000000: ['1000000', '1000k', '1M', '1m', '1.0M', '1e6', '1e3k']}


def opt_val(r, s, l, v):
    return r.choice([['-' + s, v], ['-' + s + v], ['--' + l, v], ['--' + l + '=' + v]])


class C(Check):
    ID = 'C27'
    LISTS = ['lines']
    RULE = ('option lists generated from the documented options: (same) two random spellings and orders of one set of settings on the same generated input '
            'must give the same output and error text and end successfully, and except for MPX the output must be that of the reference decoder with these settings; (rate) every way to write a sample rate '
            'decodes a signal of that rate like the rate in Hz, and every rate from 128 kHz to 40 MHz is accepted; (refuse) lists with one wrong value, unknown option, missing value, surplus argument or '
            'unsupported combination must fail with a message and without decoding; (info) version and help. Non-trivial: all')
    ASSUME = ['at most one input and one output option per list']

    def prepare(self, exes, tier):
        import random
        from rds.engine import Env
        r = random.Random(5)
        self.sig = {}
        env = Env(exes, 0)
        for rate in RATES_OK:
            sig = {'streams': {'0': gen_groups(random.Random(rate), 16, pi=0x1234)}, 'level': 0.1, 'phase': 1.0, 'timing': 0.3}
            d = X.s16(make_signal(sig, rate)).tobytes()
            out = env.sut().run(['-r', str(rate)], d)
            self.sig[rate] = (d, out.out)
        env.close()

    def settings(self, r):
        inp = r.choice(['hex', 'hex', 'hex', 'bits', 'tef', 'mpx'])
        s = {'in': inp, 'out': r.choice(['json', 'json', 'hex']), 'flags': [k for k in SHORT if r.random() < 0.3]}
        if inp in ('bits', 'tef'):
            s['flags'] = [f for f in s['flags'] if f != 'streams']
        if r.random() < 0.3:
            s['t'] = r.choice(FORMATS)
        if inp == 'mpx':
            s['r'] = r.choice([128000, 171000, 192000])
            if 'streams' in s['flags']:
                s['r'] = 171000
            if r.random() < 0.3:
                s['c'] = r.choice([1, 2, 32])
        elif r.random() < 0.1:
            s['c'] = 1
        return s

    def spell(self, r, s):
        parts = [r.choice(INPUT[s['in']]), r.choice(OUTPUT[s['out']])]
        fl = list(s['flags'])
        r.shuffle(fl)
        # short flags may be combined
        comb = [f for f in fl if SHORT[f][0][1] != '-']
        if len(comb) > 1 and r.random() < 0.3:
            parts.append(['-' + ''.join(SHORT[f][0][1] for f in comb)])
            fl = [f for f in fl if f not in comb]
        parts += [[r.choice(SHORT[f])] for f in fl]
        if r.random() < 0.1 and s['flags']:
            parts.append([r.choice(SHORT[r.choice(s['flags'])])])
        if 't' in s:
            parts.append(opt_val(r, 't', 'timestamp', s['t']))
        if 'r' in s:
            parts.append(opt_val(r, 'r', 'samplerate', r.choice(RATES_OK[s['r']])))
        if 'c' in s:
            parts.append(opt_val(r, 'c', 'channels', str(s['c'])))
        r.shuffle(parts)
        return [x for p in parts for x in p]

    def gen(self, r, tier):
        mode = r.choice(['same'] * 6 + ['rate', 'refuse', 'refuse', 'refuse', 'info'])
        if mode == 'same':
            s = self.settings(r)
            return {'mode': mode, 'set': s, 'a': self.spell(r, s), 'b': self.spell(r, s), 'lines': gen_groups(r, r.choice([5, 12])), 'seed': r.randrange(1 << 30)}
        if mode == 'rate':
            rate = r.choice(sorted(RATES_OK))
            if r.random() < 0.3:
                # anything from 128 kHz to 40 MHz is accepted
                v = r.choice(['128000', '128k', '0.128M', '40M', '40000k', '40000000', '35M', '34200001', '39.9M', '%dk' % r.randrange(128, 40001), str(r.randrange(128000, 40000001)),
                              '%.3fM' % r.uniform(0.129, 39.999), '%dM' % r.randrange(1, 41), str(int(2 ** r.uniform(17, 25.2)))])
                return {'mode': 'accept', 'args': opt_val(r, 'r', 'samplerate', v), 'n': r.choice([0, 1, 100, 20000]), 'lines': []}
            if r.random() < 0.15:
                # the documented default
                return {'mode': mode, 'rate': 171000, 'args': r.choice([[], ['-i', 'mpx'], ['--input=mpx']]), 'lines': []}
            return {'mode': mode, 'rate': rate, 'args': opt_val(r, 'r', 'samplerate', r.choice(RATES_OK[rate])), 'lines': []}
        s = self.settings(r)
        if mode == 'info':
            return {'mode': mode, 'args': self.spell(r, s), 'what': r.choice(['-v', '--version', '--help', '-?']), 'at': r.random(), 'in': s['in'], 'lines': gen_groups(r, 6)}
        bad = r.choice(['in', 'out', 'rate', 'chan', 'surplus', 'combo', 'file', 'unknown', 'missing'])
        args = self.spell(r, {**s, 'flags': [f for f in s['flags'] if f not in ('streams', 'feed')]})
        inp = s['in']

        def rnd(name):
            return r.choice([name.upper(), name + 'x', ' ' + name, name[:-1], '', 'wav', 'json', 'raw', '1', name + ' '])
        if bad == 'in':
            v = rnd(r.choice(['hex', 'bits', 'tef', 'mpx']))
            args = args + opt_val(r, 'i', 'input', v) if v else args + ['--input=']
            if v in INPUT:
                return None
        elif bad == 'out':
            v = r.choice(['HEX', 'JSON', 'hexx', 'jso', '', 'text', 'bits', 'tef', ' json', 'Json', 'hex '])
            args = args + (opt_val(r, 'o', 'output', v) if v else ['--output='])
        elif bad == 'rate':
            v = r.choice(['127999', '127999.5', '0', '1', '-171000', '-171k', '127k', '0.127M', '127.9k', '40.1M', '40100k', '41000000', '1e9', '100M', '171', '1e99', 'inf', 'abc', 'nan', 'NAN', '-nan', 'nank', 'nan(1)', 'infinity',
                          'k', 'M', '', '0x10', '171kk000'[:0] + '44100', '48k', '96k', str(r.randrange(0, 128000)), str(r.randrange(40000100, 10 ** 12))])
            args = [x for x in args]
            args += ['--samplerate=' + v] if v == '' or r.random() < 0.5 else ['-r', v]
        elif bad == 'chan':
            v = r.choice(['0', '-1', '33', '34', '64', '100', '256', '257', '4294967296', '4294967297', '4294967298', '99999999999999999999', '18446744073709551617', 'x', '', 'two',
                          '-4294967295', str(r.randrange(1, 33) - (1 << 64)), str(r.randrange(33, 1 << 40))])
            if r.random() < 0.6:
                # where several channels are possible
                args, inp = r.choice([[], ['-r', '171k'], ['-i', 'mpx'], ['-p', '-R']]), 'mpx'
                v = r.choice([v, '33', '0', '34', '64'])
            args = args + (['--channels=' + v] if v == '' or r.random() < 0.5 else ['-c', v])
        elif bad == 'unknown':
            args.insert(r.choice([0, len(args)]), r.choice(['-q', '-z', '-A', '-0', '-P', '--unknown', '--no-fecx', '--input-foo', '--fec', '--bit', '--rbds=1', '--bler=5', '--input-', '--show',
                                                            '-pq', '-Ek', '--version=2', '--help=x']))
        elif bad == 'missing':
            args.append(r.choice(['-r', '-c', '-i', '-o', '-t', '-l', '-f', '-pr', '--samplerate', '--channels', '--input', '--output', '--timestamp', '--loctable', '--file']))
        elif bad == 'surplus':
            if r.random() < 0.2:
                args = r.choice([['-v'], ['--version'], ['--help'], ['-?'], ['-v', '-p']])
            args.insert(r.choice([0, len(args)]), r.choice(['file.wav', 'hex', 'x', '-', '']))
            if r.random() < 0.2:
                args = args + ['--', '-p']
        elif bad == 'combo':
            k = r.choice(['s-bits', 's-tef', 'c-hex', 'c-bits', 'c-tef', 'e-file', 's-slow'])
            S, F = r.choice(SHORT['streams']), r.choice(SHORT['feed'])
            cc = opt_val(r, 'c', 'channels', str(r.randrange(2, 33)))
            ps = {'s-bits': [r.choice(INPUT['bits']), [S]], 's-tef': [r.choice(INPUT['tef']), [S]],
                  'c-hex': [r.choice(INPUT['hex']), cc], 'c-bits': [r.choice(INPUT['bits']), cc], 'c-tef': [r.choice(INPUT['tef']), cc],
                  'e-file': [opt_val(r, 'f', 'file', r.choice(['FILE', 'nofile.wav', '-'])), [F]],
                  's-slow': [opt_val(r, 'r', 'samplerate', r.choice(['128000', '170k', '150000', '170999'])), [S]]}[k]
            r.shuffle(ps)
            args = [x for p in ps for x in p]
            inp = {'bits': 'bits', 'tef': 'tef', 'hex': 'hex', 'file': 'wav'}.get(k.split('-')[1], 'mpx')
        else:
            args = opt_val(r, 'f', 'file', r.choice(['nofile.wav', '/nonexistent/x.wav', 'TEXT', 'EMPTY', 'SLOW']))
            inp = 'mpx'
        return {'mode': mode, 'bad': bad, 'args': args, 'in': inp, 'lines': gen_groups(r, 6)}

    def data(self, inp, lines, rate=171000):
        if inp == 'hex':
            return ('\n'.join(lines) + '\n').encode()
        if inp == 'tef':
            return ''.join('P%s\nR%s00\n' % (l[:4], l[5:].replace(' ', '')) for l in lines).encode()
        if inp == 'bits':
            return X.group_bits(words(lines)).encode() if lines else b''
        if inp == 'wav':
            import numpy as np
            return wav(np.frombuffer(self.sig[171000][0], '<i2'), 171000)
        return self.sig[rate][0]

    def effect(self, case, s, sut, d, ls, kw):
        """the records must be those of a reference decoder with these settings"""
        c = sut.run(['-i', s['in'], '-o', 'hex'] + (['--no-fec'] if 'nofec' in s['flags'] else []), d, **kw)
        if c.exit != 0:
            return None
        groups = c.out.decode('latin-1').split('\n')[:-1]
        if s['in'] in ('hex', 'tef') and groups != case['lines']:
            return 'the groups %s come out as %s' % (case['lines'][:3], groups[:3])
        if s['in'] == 'bits' and len(groups) >= 6 and ('nofec' in s['flags']) != any('----' in g for g in groups[2:-1]):
            return '%s: single bit errors are %s' % (case['a'], 'corrected' if 'nofec' in s['flags'] else 'not corrected')
        if s['out'] == 'hex':
            for g, l in zip(groups, ls):
                if l[:19] != g or ('t' in s) != (len(l) > 19):
                    return '%s: group %s is shown as %s' % (case['a'], g, l)
            return None if len(groups) == len(ls) else '%s: %d groups are shown as %d lines' % (case['a'], len(groups), len(ls))
        if any('----' in g for g in groups):      # the bits tell less than hex lines about incomplete groups
            c = sut.run(['--input', s['in'], '--output', 'json'] + ['--no-fec'] * ('nofec' in s['flags']) + [SHORT[f][1] for f in s['flags'] if f in ('rbds', 'partial', 'raw', 'bler')] + (['--timestamp', s['t']] if 't' in s else []), d, **kw)
            exp = c.out.decode('utf-8', 'replace').split('\n')[:-1]
            i = next((i for i in range(min(len(exp), len(ls))) if exp[i] != ls[i]), min(len(exp), len(ls)))
            return None if exp == ls else '%s: record %d should be %s but is %s' % (case['a'], i, exp[i:i + 1], ls[i:i + 1])
        exp = M.decode([G.from_hex(l) for l in groups], {f: True for f in s['flags'] if f in ('rbds', 'partial', 'raw', 'streams')})
        act = parse_lines('\n'.join(ls + ['']).encode())
        for x in act:
            for k in ('bler', 'rx_time'):
                x.pop(k, None)
        m = compare(exp, act, None, groups)
        return '%s: %s' % (case['a'], m) if m else None

    def judge(self, case, env):
        mode = case['mode']
        sut = env.sut()
        kw = {'clock': [1700000000 * 10 ** 9], 'env': {'TZ': 'UTC0'}}
        if mode == 'rate':
            d, ref = self.sig[case['rate']]
            r = sut.run(case['args'], d)
            msg = None
            if r.exit != 0:
                msg = '%s: ended with %s %s' % (case['args'], r.how(), r.err[-300:].decode('utf-8', 'replace'))
            elif ref.count(b'\n') < 10:
                msg = '%d Hz signal is not decoded at all' % case['rate']
            elif r.out != ref:
                msg = '%s does not decode the signal like -r %d (%d lines instead of %d)' % (case['args'], case['rate'], r.out.count(b'\n'), ref.count(b'\n'))
            return Verdict(msg, True, [mode])
        if mode == 'accept':
            r = sut.run(case['args'], bytes(2 * case['n']))
            msg = None
            if r.exit != 0 or r.out or b'rror' in r.err:
                msg = '%s is not accepted: ended with %s %s' % (case['args'], r.how(), r.err[-300:].decode('utf-8', 'replace'))
            return Verdict(msg, True, [mode])
        if mode == 'same':
            s = case['set']
            d = self.data(s['in'], case['lines'], s.get('r', 171000))
            if s['in'] == 'bits':     # single bit errors for --no-fec to show
                d = bytearray(d)
                for i in range(3 * 104 + 7, len(d), 104 * 2 + 31):
                    d[i] ^= 1
                d = bytes(d)
            a = sut.run(case['a'], d, **kw)
            b = sut.run(case['b'], d, **kw)
            msg = None
            if a.exit != 0:
                msg = '%s: ended with %s %s' % (case['a'], a.how(), a.err[-300:].decode('utf-8', 'replace'))
            elif b.exit != 0:
                msg = '%s: ended with %s %s' % (case['b'], b.how(), b.err[-300:].decode('utf-8', 'replace'))
            elif a.out != b.out:
                msg = '%s and %s give different output' % (case['a'], case['b'])
            elif a.err != b.err:
                msg = '%s and %s give different error output: %s, %s' % (case['a'], case['b'], a.err[-200:], b.err[-200:])
            else:
                recs = a.err if 'feed' in s['flags'] else a.out
                ls = [l for l in recs.decode('utf-8', 'replace').split('\n')[:-1] if not l.startswith('warning')]
                if s['out'] == 'hex':
                    if any(l[:1] == '{' for l in ls):
                        msg = 'hex output asked with %s, but %s' % (case['a'], ls[:2])
                else:
                    try:
                        for x in parse_lines('\n'.join(ls + ['']).encode()):
                            if 'debug' in x:
                                continue
                            for f, k in (('raw', 'raw_data'), ('bler', 'bler')):
                                if (f in s['flags']) != (k in x):
                                    msg = '%s: %s %s: %s' % (case['a'], k, 'present' if k in x else 'missing', x)
                            if ('t' in s) != ('rx_time' in x):
                                msg = '%s: rx_time: %s' % (case['a'], x)
                    except Bad as e:
                        msg = '%s: %s' % (case['a'], e)
                if msg is None and s['in'] != 'mpx':
                    msg = self.effect(case, s, sut, d, ls, kw)
                if not ls and len(case['lines']) >= 5 and not (s['in'] == 'bits' and 'nofec' in s['flags']) and (s['in'] != 'mpx' or s.get('c', 1) == 1):
                    msg = '%s: nothing was decoded' % case['a']
            return Verdict(msg, True, [mode, s['in']])
        # refused, info
        args = list(case['args'])
        os.makedirs(os.path.join(env.tmp, 'c27'), exist_ok=True)
        cwd = os.path.join(env.tmp, 'c27')
        if mode == 'refuse':
            d = self.data(case['in'], case['lines'])
            for i, x in enumerate(args):
                for name in ('FILE', 'TEXT', 'EMPTY', 'SLOW'):
                    if x.endswith(name):
                        p = os.path.join(cwd, name)
                        if name in ('FILE', 'SLOW'):
                            import numpy as np
                            rate = 171000 if name == 'FILE' else 96000
                            open(p, 'wb').write(wav(np.frombuffer(self.sig[171000][0], '<i2'), rate))
                        else:
                            open(p, 'wb').write(b'hello world\n' if name == 'TEXT' else b'')
                        args[i] = x[:-len(name)] + p
            r = sut.run(args, d, cwd=cwd, **kw)
            msg = None
            recs = [l for l in (r.out + b'\n' + r.err).split(b'\n') if l.startswith(b'{')]
            if r.exit is None:
                msg = '%s: %s' % (args, r.how())
            elif r.exit == 0:
                msg = '%s is accepted' % (args,)
            elif recs:
                msg = '%s is refused, but %s was output' % (args, recs[:2])
            elif not (r.out + r.err).strip():
                msg = '%s is refused without a message' % (args,)
            return Verdict(msg, True, [mode, case['bad']])
        i = int(case['at'] * (len(args) + 1))
        # not between an option and its value
        args = [case['what']] + args if i == 0 or True else args
        if case['at'] > 0.5:
            args = args[1:] + args[:1]
        r = sut.run(args, self.data(case['in'], case['lines']), **kw)
        msg = None
        recs = [l for l in (r.out + b'\n' + r.err).split(b'\n') if l.startswith(b'{')]
        if r.exit != 0:
            msg = '%s: ended with %s' % (args, r.how())
        elif recs:
            msg = '%s decodes: %s' % (args, recs[:1])
        elif not r.out.strip():
            msg = '%s prints nothing' % (args,)
        elif case['what'] in ('-v', '--version') and b'redsea ' not in r.out:
            msg = '%s prints %r' % (args, r.out)
        elif case['what'] in ('--help', '-?') and b'--samplerate' not in r.out:
            msg = '%s prints %r' % (args, r.out[:100])
        return Verdict(msg, True, [mode])


CHECK = C()
