"""C07: hex in, hex out."""
from rds.engine import Check, Verdict
from rds import hexin, gen as G


def messy_line(r, b, st):
    """a way of writing the group -> line"""
    k = r.random()
    hexs = ['----' if x is None else '%04X' % x for x in b]
    if k < 0.15:
        hexs = [r.choice(['----', '****', 'xxxx', '1-23', '12G4', '12.4', '-123', '+123', '0x12', '123-', '\t123', 'é'.encode().decode('latin-1') + '23', '\x0012a']) if x is None else h for x, h in zip(b, hexs)]
    if r.random() < 0.3:
        hexs = [h.lower() if r.random() < 0.7 else h for h in hexs]
    if r.random() < 0.2:
        hexs = [''.join(c.upper() if r.random() < 0.5 else c.lower() for c in h) for h in hexs]
    k = r.random()
    if k < 0.4:
        s = ' '.join(hexs)
    elif k < 0.55:
        s = ''.join(hexs)
    elif k < 0.7:
        s = ''.join(' ' * r.choice([0, 0, 1, 3]) + c for c in ''.join(hexs))
    else:
        s = ('  ' if r.random() < 0.5 else ' ').join(hexs)
    if st:
        s = '#S%d ' % st + s
    k = r.random()
    if k < 0.1:
        s = s[:r.randrange(0, len(s) + 1)]
    elif k < 0.25:
        s += r.choice([' @2023/11/04 12:34:56.78', ' 1234', '5678', ' ----', '\r', '   ', ' #S1 1111 2222 3333 4444', '\t@x'])
    if len(s) >= 20 and r.random() < 0.08:       # any character at all in one place
        i = r.randrange(20)
        s = s[:i] + r.choice(['@', '#', '/', ':', 'G', 'g', '\t', '\r', ',', ';'] + [chr(r.randrange(32, 127))] * 20 + [chr(r.choice([x for x in range(256) if x != 10]))] * 3) + s[i + 1:]
    if s.startswith('#') and r.random() < 0.05:
        s = r.choice(['#S0 ', '#S4 ', '#s1 ', ' #S1 ', '#S1', '#S12 ']) + s[4:]
    return s


class C(Check):
    ID = 'C07'
    RULE = ('sequences of groups (all loss patterns, streams 0-3, random and extreme contents) written as hex lines in many ways: blank '
            'placement, case, trailing text, CR LF, invalid characters in lost blocks, truncated lines, short lines, comments; oracle: an '
            'independent reader of the format, exact equality of the hex output, and the output fed back reproduces itself. '
            'Non-trivial: at least one group with a received block')
    ASSUME = ['lines of 16 or more characters count as groups, shorter ones are ignored; a carriage return is a character of the line']
    LISTS = ['lines']

    def gen(self, r, tier):
        lines = []
        n = r.choice([1, 5, 40, 150])
        loss = r.choice([0, 0.1, 0.4, 0.8])
        crlf = r.random() < 0.15
        for _ in range(n):
            k = r.random()
            if k < 0.08:
                lines.append(r.choice(['', 'x', '; comment', '1234 5678', ' ' * r.randrange(30), '%%' * 10, '<recorder="RDS Spy" date="2020">', '1234567890ABCDE', ''.join(chr(r.choice([x for x in range(256) if x != 10])) for _ in range(r.randrange(40)))]))
                continue
            b = [None if r.random() < loss else r.choice([r.randrange(65536), r.randrange(65536), 0, 0xFFFF, 0xABCD, 0x000A]) for _ in range(4)]
            st = r.choice([0, 0, 0, 1, 2, 3])
            l = messy_line(r, b, st)
            if crlf and len(l) >= 16:
                l += '\r'
            lines.append(l)
        return {'lines': lines, 'end': r.random() < 0.8, 'opts': r.choice([[], [], ['-s'], ['-E'], ['-p', '-R'], ['-u']]), 'form': r.choice([0, 0, 1])}

    def fixed(self, tier):
        # every value in every block
        for k in range(4):
            for hi in range(4):
                yield {'lines': [' '.join('%04X' % v if j == k else '----' for j in range(4)) for v in range(hi << 14, (hi + 1) << 14)], 'end': True, 'opts': [], 'form': 0}

    def judge(self, case, env):
        data = '\n'.join(case['lines']) + ('\n' if case['end'] else '')
        exp = [hexin.fmt(b, s) for b, s in hexin.expected(data) if any(x is not None for x in b)]
        args = (['-i', 'hex', '-o', 'hex'] if case['form'] == 0 else ['-h', '-x']) + case['opts']
        r = env.sut().run(args, data.encode('latin-1'))
        msg = None
        act = r.out.decode('latin-1').split('\n')
        if r.exit != 0:
            msg = 'ended with ' + r.how()
        elif act.pop() != '':
            msg = 'the last line is not terminated'
        else:
            for i, (e, a) in enumerate(zip(exp, act)):
                if e != a:
                    msg = 'line %d should be %r but is %r' % (i, e, a)
                    break
            if msg is None and len(exp) != len(act):
                msg = '%d groups expected but %d printed; next: %r' % (len(exp), len(act), (exp[len(act):] or act[len(exp):])[0])
        if msg is None and len(case['lines']) <= 200:
            r2 = env.sut().run(args, r.out)
            if r2.out != r.out:
                msg = 'the output is not reproduced when fed back'
        return Verdict(msg, bool(exp), n=len(exp))

    def simplify(self, case):
        if case['opts']:
            yield dict(case, opts=[])
        for i, l in enumerate(case['lines']):
            for c in (l.strip(), l[:-1]):
                if c != l:
                    yield dict(case, lines=case['lines'][:i] + [c] + case['lines'][i + 1:])


CHECK = C()
