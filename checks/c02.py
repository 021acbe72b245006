"""C02: well-formed output for arbitrary input."""
import re
from rds.engine import Check, Verdict
from rds import gen as G, bits as BT
from rds.cmpjson import parse_lines, Bad
from checks.c07 import messy_line
from checks.bitsbase import rand_blocks

ALL = {k: 1 for k in 'ps rt rtp ertp ert lps ptyn ct eon slc oda dab tdc misc random tmc rft 15b'.split()}
HEXLINE = re.compile(rb'(#S[123] )?([0-9A-F]{4}|----) ([0-9A-F]{4}|----) ([0-9A-F]{4}|----) ([0-9A-F]{4}|----)')


class C(Check):
    ID = 'C02'
    RULE = ('random transmissions (all senders, wild text bytes, quotes, control characters, invalid UTF-8/UCS-2), messy hex lines, random bytes, '
            'TEF lines and bit streams, with random option sets including timestamps with odd formats; oracle: every line of the output is one '
            'valid JSON object (strict parser, no duplicate keys) in valid UTF-8, or one well-formed hex line that is not empty. '
            'Non-trivial: something was printed')
    ASSUME = ['the timestamp format itself is valid UTF-8 and has no line breaks']
    LISTS = ['lines']

    def gen(self, r, tier):
        fmt = r.choice(['hex', 'hex', 'hex', 'tef', 'bits'])
        out = r.choice(['json', 'json', 'json', 'hex'])
        opts = [o for o, p in (('-u', 0.3), ('-p', 0.5), ('-R', 0.3), ('-E', 0.3), ('-s', 0.2 if fmt == 'hex' else 0), ('--no-fec', 0.1)) if r.random() < p]
        if r.random() < 0.3:
            opts += ['-t', r.choice(['%c', '%Y-%m-%dT%H:%M:%S.%f', '"%H"', '\\%H\\', 'ä%Hö', '', 'x' * 70, '%f', '%A %B', '\t%H', '日本%H'])]
        w = dict(ALL) if r.random() < 0.4 else {k: ALL[k] for k in r.sample(sorted(ALL), r.randrange(1, 5))}
        tx = G.Tx(r, w, drop=r.choice([0, 0.02, 0.2]), pi_err=r.choice([0, 0.05]), pi_switch=r.choice([0, 0.01]), run=r.choice([0, 4, 30]), bg=r.choice([0, 0.05]), rep=r.choice([0, 0, 0.1]), corner=r.choice([0, 0, 0.02]))
        gs = tx.groups(r.choice([50, 200, 400]))
        lines = []
        for b, s in gs:
            if r.random() < 0.02:
                lines.append(''.join(chr(r.choice([x for x in range(256) if x != 10])) for _ in range(r.randrange(40))))
            if fmt == 'hex':
                lines.append(messy_line(r, b, s) if r.random() < 0.1 else G.to_hex(b, s))
            elif fmt == 'tef':
                if b[0] is not None:
                    lines.append('P%04X' % b[0])
                e = sum(3 << (4, 2, 0)[k] for k in range(3) if b[k + 1] is None)
                lines.append('R%04X%04X%04X%02X' % tuple([x or 0 for x in b[1:]] + [e]))
            else:
                bits = BT.bits_of(BT.group_words([r.randrange(65536) if x is None else x for x in b]))
                if r.random() < 0.05:
                    i = r.randrange(104)
                    bits = bits[:i] + r.choice(['', '0', '1', 'x', '1' * 5]) + bits[i + r.choice([0, 1, 5]):]
                lines.append(bits)
        return {'fmt': fmt, 'out': out, 'opts': opts, 'lines': lines}

    def judge(self, case, env):
        data = '\n'.join(case['lines']).encode('latin-1') + b'\n'
        r = env.sut().run(['-i', case['fmt'], '-o', case['out']] + case['opts'], data)
        if r.exit != 0:
            return Verdict('ended with ' + r.how(), True)
        tf = case['opts'][case['opts'].index('-t') + 1] if '-t' in case['opts'] else None
        n = 0
        msg = None
        if case['out'] == 'json':
            try:
                n = len(parse_lines(r.out))
            except Bad as e:
                msg = str(e)
        else:
            ls = r.out.split(b'\n')
            if ls.pop() != b'':
                msg = 'the last line is not terminated'
            for l in ls:
                n += 1
                m = HEXLINE.match(l)
                if not m:
                    msg = 'malformed line %r' % l
                elif m.group().endswith(b'---- ---- ---- ----'):
                    msg = 'an empty group is printed: %r' % l
                elif (tf is None and m.end() != len(l)) or (tf is not None and l[m.end():m.end() + 1] != b' '):
                    msg = 'malformed end of line: %r' % l
                if msg:
                    break
        return Verdict(msg, n > 0, [case['fmt'] + '/' + case['out']], n=n)

    def simplify(self, case):
        for i in range(len(case['opts'])):
            if case['opts'][i] != '-t' and (i == 0 or case['opts'][i - 1] != '-t'):
                yield dict(case, opts=case['opts'][:i] + case['opts'][i + 1:])


CHECK = C()
