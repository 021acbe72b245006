"""C29: lost blocks never contribute data."""
import random
from checks.base import *
from rds import bits as BT
from checks.bitsbase import bits_of_history

ALL = {k: 1 for k in 'ps rt rtp ertp ert lps ptyn ct eon slc oda dab tdc misc tmc rft 15b random'.split()}
LET = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .-'
NOHEX = '-.?*xXgGzZ_/:+#\t'


def hole(r):
    """something that is not four hex digits"""
    k = r.random()
    if k < 0.3:
        return '----'
    s = [r.choice('0123456789ABCDEFabcdef') for _ in range(4)]
    for i in r.sample(range(4), r.choice([1, 1, 2, 3, 4])):
        s[i] = r.choice(NOHEX)
    return ''.join(s)


class C(ModelCheck):
    ID = 'C29'
    KEYS = None
    DROP = (0.02, 0.05, 0.1, 0.2, 0.4)
    N = (60, 150, 300)
    OPTS = {'rbds': 0.2, 'partial': 0.3, 'raw': 0.2, 'streams': 0.3, 'bler': 0.2}
    RULE = ('five kinds of cases over transmissions of all senders with lost blocks: (hole) hex lines whose lost blocks are written as different non-hex '
            'texts must give byte-identical output, JSON and hex; (bits) bit streams whose uncorrectable blocks have different contents must; (model, bitmodel) all '
            'fields of all records must be those of a reference decoder that has no contents for lost blocks; (constant) a station repeating the '
            'same texts under losses must show nothing but these. Non-trivial: blocks were lost and records came out')

    def gen(self, r, tier):
        mode = r.choice(['hole', 'hole', 'bits', 'bitmodel', 'model', 'model', 'constant', 'constant'])
        opts = {k: True for k, p in self.OPTS.items() if r.random() < p}
        if mode == 'constant':
            return self.gen_constant(r, opts)
        w = {k: 1 for k in r.sample(sorted(ALL), r.choice([1, 3, 8, len(ALL)]))}
        if mode in ('bits', 'bitmodel'):
            opts.pop('streams', None)
            noise = {} if mode == 'bits' else dict(pi_err=r.choice([0, 0, 0.1]), pi_switch=r.choice([0, 0.02, 0.1]))
            tx = G.Tx(r, w, drop=r.choice([0.02, 0.1, 0.2, 0.35]), run=r.choice(self.RUN), drop_kind=None, **noise)
            gs = [G.to_hex(b) for b, s in tx.groups(r.choice([20, 60, 120]), lead=4)]
            return {'mode': mode, 'opts': opts, 'groups': gs, 'seed': r.randrange(1 << 30), 'fec': r.random() < 0.5}
        tx = G.Tx(r, w, **self.noise(r))
        gs = [G.to_hex(b, s) for b, s in tx.groups(r.choice(self.N))]
        return {'mode': mode, 'opts': opts, 'groups': gs, 'seed': r.randrange(1 << 30), 'hexout': r.random() < 0.2}

    def gen_constant(self, r, opts):
        def text(n):
            while True:
                t = bytes(r.choice(LET) for _ in range(n))
                if t.strip():
                    return t
        pi = r.randrange(1, 65536)
        t = {'ps': text(8), 'ptyn': text(8)}
        n = r.choice([32, 32, r.randrange(1, 32)])
        t['lps'] = text(n)
        n = r.choice([128, r.randrange(1, 128), r.randrange(1, 40)])
        t['ert'] = text(n)
        nets = {}
        for _ in range(r.choice([1, 2, 5])):
            nets[r.randrange(1, 65536)] = text(8)
        drop = r.choice([0.02, 0.1, 0.2, 0.4])
        gs = ['%04X F800 %04X 0000' % (pi, pi)] * 3 + ['%04X 3016 0001 6552' % pi]

        def emit(b2, b3, b4):
            b = ['%04X' % pi, '%04X' % b2, '%04X' % b3, '%04X' % b4]
            for i in range(4):
                if r.random() < drop:
                    b[i] = '----'
            gs.append(' '.join(b))

        def segs(x, size, full):
            x = list(x)
            if len(x) < full:
                x.append(0x0D)
            while len(x) % size:
                x.append(0x20)
            return [x[i:i + size] for i in range(0, len(x), size)]
        S = {'ps': segs(t['ps'], 2, 8), 'ptyn': segs(t['ptyn'], 4, 8), 'lps': segs(t['lps'], 4, 32), 'ert': segs(t['ert'], 4, 128)}
        pos = {k: 0 for k in S}
        npos = {p: 0 for p in nets}
        kinds = r.sample(['ps', 'ptyn', 'lps', 'ert', 'eon'], r.choice([1, 2, 5]))
        low = r.randrange(2) << 10 | r.randrange(32) << 5
        for _ in range(r.choice([60, 150, 400])):
            k = r.choice(kinds)
            if k == 'eon':
                p = r.choice(sorted(nets))
                i = npos[p]
                npos[p] = (i + 1) % 4 if r.random() < 0.95 else r.randrange(4)
                emit(28 << 11 | low | i, nets[p][2 * i] << 8 | nets[p][2 * i + 1], p)
                continue
            i = pos[k]
            pos[k] = (i + 1) % len(S[k]) if r.random() < 0.95 else r.randrange(len(S[k]))
            c = S[k][i]
            if k == 'ps':
                if r.random() < 0.7:
                    emit(low | i, 0xE0CD, c[0] << 8 | c[1])
                else:
                    emit(1 << 11 | low | i, pi, c[0] << 8 | c[1])
            else:
                emit({'ptyn': 20, 'lps': 30, 'ert': 22}[k] << 11 | low | i, c[0] << 8 | c[1], c[2] << 8 | c[3])
        return {'mode': 'constant', 'opts': {k: v for k, v in opts.items() if k != 'partial'}, 'groups': gs, 'pi': pi,
                'sent': {k: v.decode() for k, v in t.items()}, 'nets': {'0x%04X' % p: v.decode() for p, v in nets.items()}}

    def judge(self, case, env):
        mode = case['mode']
        lost = sum('-' in l for l in case['groups'])
        if mode == 'model':
            v = ModelCheck.judge(self, case, env)
            v.nontrivial = v.n > 3 and lost > 0
            v.tags = ['model']
            return v
        if mode == 'constant':
            return self.judge_constant(case, env, lost)
        if mode == 'bitmodel':
            return self.judge_bitmodel(case, env, lost)
        opts = cli(case['opts'])
        if mode == 'hole':
            args = ['-i', 'hex'] + opts + (['-o', 'hex'] if case['hexout'] else [])
            outs = []
            datas = []
            for k in (0, 1, 2):
                rr = random.Random(case['seed'] + k)
                ls = [' '.join((hole(rr) if k else '----') if x == '----' else x for x in l.split(' ')) for l in case['groups']]
                datas.append(ls)
                r = env.sut().run(args, ('\n'.join(ls) + '\n').encode())
                if r.exit != 0:
                    return Verdict('ended with ' + r.how(), True)
                outs.append(r.out)
        else:
            fec = case['fec']
            args = ['-i', 'bits'] + opts + ([] if fec else ['--no-fec'])
            groups = [[None if x == '----' else int(x, 16) for x in l.split(' ')] for l in case['groups']]
            outs = []
            datas = []
            ref = None
            for k in (0, 1):
                rr = random.Random(case['seed'] + k)
                bits = ''
                cr = random.Random(case['seed'])     # the offset word of block 3 is received data
                for b in groups:
                    cp = cr.random() < 0.5 if b[1] is None else bool(b[1] >> 11 & 1)
                    for i, x in enumerate(b):
                        off = ['A', 'B', "C'" if cp else 'C', 'D'][i]
                        if x is not None:
                            bits += format(BT.encode(x, off), '026b')
                            continue
                        while True:
                            v = rr.getrandbits(26)
                            m = BT.rem(v)
                            if m in BT.OFF_BY_REM:
                                continue
                            if fec and (m ^ BT.OFFSETS[['A', 'B', 'C', 'D'][i]] in BT.BURSTS or i == 2 and m ^ BT.OFFSETS["C'"] in BT.BURSTS):
                                continue
                            break
                        bits += format(v, '026b')
                rx = BT.receive(bits, fec)
                g = [x.b for x in rx.out]
                if k == 0:
                    ref = (g, [x.errs for x in rx.out])
                elif (g, [x.errs for x in rx.out]) != ref:
                    return Verdict()
                datas.append([bits])
                r = env.sut().run(args, bits.encode())
                if r.exit != 0:
                    return Verdict('ended with ' + r.how(), True)
                outs.append(r.out)
        msg = None
        for k in range(1, len(outs)):
            if outs[k] != outs[0]:
                a, b = outs[0].split(b'\n'), outs[k].split(b'\n')
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                msg = 'the contents of lost blocks have influence: line %d is %s with one filling, %s with another' % (i, a[i:i + 1], b[i:i + 1])
                if mode == 'hole':
                    d = [(x, y) for x, y in zip(datas[0], datas[k]) if x != y]
                    msg += '; lines that differ: %s' % d[:5]
                break
        n = outs[0].count(b'\n')
        return Verdict(msg, n > 3 and lost > 0, [mode], n)

    def judge_bitmodel(self, case, env, lost):
        groups = [[None if x == '----' else int(x, 16) for x in l.split(' ')] for l in case['groups'] if not l.startswith('#')]
        bits = bits_of_history(groups, case['seed'], case['fec'], 0.02 if case['seed'] % 4 == 0 else 0)
        rx = BT.receive(bits, case['fec'])
        exp = M.decode(rx.out, case['opts'])
        r = env.sut().run(['-i', 'bits'] + cli(case['opts']) + ([] if case['fec'] else ['--no-fec']), bits.encode())
        v = self.compare(dict(case, groups=[G.to_hex(g.b) for g in rx.out]), exp, r)
        v.nontrivial = v.n > 3 and lost > 0
        v.tags = ['bitmodel']
        return v

    def judge_constant(self, case, env, lost):
        r = self.run(case, env)
        if r.exit != 0:
            return Verdict('ended with ' + r.how(), True)
        try:
            recs = parse_lines(r.out)
        except Bad as e:
            return Verdict(str(e), True)
        s = case['sent']
        msg = None
        tags = ['constant']
        for i, x in enumerate(recs):
            if isinstance(x, dict):
                got = [('ps', x.get('ps'), s['ps']), ('pty_name', x.get('pty_name'), s['ptyn']), ('long_ps', x.get('long_ps'), s['lps']),
                       ('enhanced_radiotext', x.get('enhanced_radiotext'), s['ert'])]
                on = x.get('other_network')
                if isinstance(on, dict) and 'ps' in on:
                    got.append(('other_network.ps', on['ps'], case['nets'].get(on.get('pi'), '')))
                for k, a, e in got:
                    if a is None:
                        continue
                    tags.append(k)
                    if a.rstrip() != e.rstrip():
                        msg = '%s is shown as %r but only %r was ever sent (record %d: %s)' % (k, a, e, i, x)
                        return Verdict(msg, True, tags)
        return Verdict(None, len(recs) > 3 and len(tags) > 1, sorted(set(tags)), len(recs))


CHECK = C()
