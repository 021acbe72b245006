"""C26: feed-through."""
from checks.mpxbase import *
from checks.base import cli


class C(Check):
    ID = 'C26'
    LISTS = ['lines']
    RULE = ('random raw signals (random samples incl. extreme values, all lengths around chunk sizes, 1 to 8 channels, and synthesised RDS signals), and random '
            'hex/TEF/bit inputs, decoded with and without -e; oracle: standard output equals the input (raw: within one least significant bit, same '
            'length; lines and bits: same text), standard error contains exactly the records that go to standard output without -e. Non-trivial: more than '
            '100 samples or 5 lines')
    ASSUME = ['warnings on standard error start with "warning:"']

    def opts(self, r):
        return ['-o', 'hex'] * (r.random() < 0.3) + [o for o in ('-p', '-R', '-u', '-E', '--no-fec', '-s') if r.random() < 0.2]

    def gen(self, r, tier):
        kind = r.choice(['noise', 'noise', 'rds', 'lines', 'lines', 'lines'])
        if kind == 'noise':
            nch = r.choice([1, 1, 2, 3, 5, 8])
            n = r.choice([0, 1, 100, 8191, 8192, 8193, 8190, 16384, 50000, r.randrange(100000)])
            return {'kind': kind, 'nch': nch, 'n': n, 'seed': r.randrange(1 << 30), 'dist': r.choice(['uniform', 'extreme', 'small', 'ramp']),
                    'rate': r.choice([128000, 171000, 192000]), 'extra': r.choice([0, 0, 1, r.randrange(nch)])}
        if kind == 'rds':
            sig = dict(sig_params(r), streams={'0': gen_groups(r, r.choice([8, 15, 30]))})
            if r.random() < 0.3:
                sig['streams']['1'] = gen_groups(r, 15)
            if r.random() < 0.4:
                sig['noise'] = sig['level'] * r.choice([0.3, 0.6, 0.9])
            return {'kind': kind, 'rate': r.choice([171000, 192000]), 'opts': self.opts(r), 'nch': r.choice([1, 1, 1, 2, 3]), 'sig': sig}
        fmt = r.choice(['hex', 'hex', 'tef', 'bits'])
        lines = gen_groups(r, r.choice([1, 6, 30, 100]))
        if fmt == 'bits':
            b = X.group_bits(words(lines))
            if r.random() < 0.6:
                p = r.choice([0.001, 0.01, 0.02])
                b = ''.join(str(int(str(x)) ^ (r.random() < p)) for x in b)
            k = r.choice([26, 104, 80, 1000])
            lines = [b[i:i + k] for i in range(0, len(b), k)]
        if fmt == 'hex':
            for i in range(len(lines)):
                if r.random() < 0.1:
                    k = r.randrange(4)
                    lines[i] = ' '.join('----' if j == k else w for j, w in enumerate(lines[i].split()))
                if r.random() < 0.1:
                    lines[i] = '#S%d ' % r.randrange(1, 4) + lines[i]
        if fmt == 'tef':
            o = []
            for l in lines:
                o += ['P' + l[:4], 'R' + l[5:].replace(' ', '') + '00']
            lines = o
        for _ in range(r.choice([0, 2, 10])):
            lines.insert(r.randrange(len(lines) + 1), r.choice(['', 'hello', '@2023/01/01 12:00', 'x' * 40, '0123', '%s%n', 'T95500', 'ä€', '#S1 1234 5678 9ABC DEF0']))
        return {'kind': kind, 'fmt': fmt, 'lines': lines, 'nl': r.random() < 0.8, 'opts': [o for o in self.opts(r) if o != '-s' or fmt == 'hex']}

    def judge(self, case, env):
        import numpy as np
        kind = case['kind']
        sut = env.sut()
        if kind == 'lines':
            data = ('\n'.join(case['lines']) + ('\n' if case['nl'] else '')).encode()
            args = ['-i', case['fmt']] + case['opts']
        else:
            if kind == 'noise':
                g = np.random.default_rng(case['seed'])
                n = case['n'] * case['nch'] + case.get('extra', 0)   # perhaps an incomplete last frame
                d = case['dist']
                if d == 'uniform':
                    x = g.integers(-32768, 32768, n)
                elif d == 'extreme':
                    x = g.choice([-32768, -32767, 32767, 32766, 0, 1, -1], n)
                elif d == 'small':
                    x = g.integers(-3, 4, n)
                else:
                    x = np.arange(n) % 65536 - 32768
                x = x.astype('<i2')
                args = ['-r', str(case['rate'])] + (['-c', str(case['nch'])] if case['nch'] > 1 else [])
            else:
                x = X.s16(make_signal(case['sig'], case['rate']))
                nch = case.get('nch', 1)
                if nch > 1:
                    # the other channels are late, or silent
                    x = np.stack([x] + [np.roll(x, 1000 * c) if c % 2 else np.zeros_like(x) for c in range(1, nch)], 1).reshape(-1)
                args = ['-r', str(case['rate'])] + (['-c', str(nch)] if nch > 1 else []) + case['opts']
            data = x.tobytes()
        a = sut.run(args, data)
        b = sut.run(args[:2] + ['-e'] + args[2:], data)
        tags = [kind]
        nt = len(data) > 200 if kind != 'lines' else len(case['lines']) > 5
        if a.exit != b.exit:
            return Verdict('with -e %s, without %s' % (b.how(), a.how()), nt, tags)
        if a.exit != 0:
            if kind != 'lines' and not data:
                return Verdict(None, False, tags)      # no input at all: usage
            return Verdict('ended with ' + a.how(), nt, tags)
        drop = lambda e: b''.join(l for l in e.splitlines(True) if not l.startswith(b'warning:'))
        msg = None
        n = 0
        if drop(b.err) != drop(a.err) + a.out:
            p, q = b.err.split(b'\n'), a.out.split(b'\n')
            i = next((i for i in range(min(len(p), len(q))) if p[i] != q[i]), min(len(p), len(q)))
            msg = 'records on standard error with -e are not those on standard output without: line %d %s, %s' % (i, p[i:i + 1], q[i:i + 1])
        elif kind == 'lines':
            n = len(case['lines'])
            if b.out != data if case['fmt'] == 'bits' else b.out.rstrip(b'\n') != data.rstrip(b'\n'):
                p, q = b.out.split(b'\n'), data.split(b'\n')
                i = next((i for i in range(min(len(p), len(q))) if p[i] != q[i]), min(len(p), len(q)))
                msg = 'line %d of the input %s is echoed as %s' % (i, q[i:i + 1], p[i:i + 1])
        else:
            n = len(data) // 2
            if len(b.out) != len(data):
                msg = '%d bytes in, %d bytes out' % (len(data), len(b.out))
            else:
                y = np.frombuffer(b.out, '<i2').astype(int)
                d = np.abs(y - x.astype(int))
                if len(d) and d.max() > 1:
                    i = int(d.argmax())
                    msg = 'sample %d is %d on input and %d on output' % (i, x[i], y[i])
        return Verdict(msg, nt, tags, n)

    def simplify(self, case):
        if case['kind'] == 'noise':
            for n in (0, 1, 100, case['n'] // 2):
                if n < case['n']:
                    yield dict(case, n=n)
            if case['nch'] > 1:
                yield dict(case, nch=1)
            if case.get('extra'):
                yield dict(case, extra=0)
        if case['kind'] == 'rds' and case.get('nch', 1) > 1:
            yield dict(case, nch=1)
        for i, o in enumerate(case.get('opts') or []):
            if o != 'hex':
                yield dict(case, opts=[x for j, x in enumerate(case['opts']) if j != i and not (o == '-o' and x == 'hex')])


CHECK = C()
