"""C08: hex, TEF and bit input agree."""
from rds.engine import Check, Verdict
from rds import gen as G, bits as BT
from rds.cmpjson import parse_lines, Bad
from checks.base import cli

W = {k: 1 for k in 'ps rt rtp ertp ert lps ptyn ct eon slc oda dab tdc misc tmc 15b random'.split()}


class C(Check):
    ID = 'C08'
    RULE = ('random transmissions written as hex lines, as TEF6686 lines (mixed with other lines) and as a bit stream; oracle: identical JSON '
            'records after four neutral groups. TEF with error flags: a block with its own flag set equals a lost block in hex whatever it '
            'contains, and the other blocks are used. Non-trivial: at least ten records compared')
    ASSUME = ['the two error bits of a block are bits 5-4 (block 2), 3-2 (block 3), 1-0 (block 4); bits 7-6 are generated clear',
              'a clean bit stream synchronises on the third block (cases with accidental matches are skipped)']

    def gen(self, r, tier):
        w = {k: W[k] for k in r.sample(sorted(W), r.choice([2, 5, len(W)]))}
        lossy = r.random() < 0.4
        tx = G.Tx(r, w, run=r.choice([0, 4, 30]), pi_err=r.choice([0, 0, 0.05]), pi_switch=r.choice([0, 0.01]), drop=r.choice([0.02, 0.2]) if lossy else 0, bg=r.choice([0, 0.05]), rep=r.choice([0, 0, 0.1]), corner=r.choice([0, 0, 0.02]))
        gs = [G.to_hex(b) for b, s in tx.groups(r.choice([20, 100, 300]), lead=4)]
        for i in range(4):
            gs[i] = '%04X F800 %04X 0000' % (tx.pis[0], tx.pis[0])
        return {'opts': {k: True for k in ('rbds', 'partial', 'raw', 'bler') if r.random() < 0.3}, 'groups': gs, 'lossy': lossy, 'seed': r.randrange(1 << 30)}

    def judge(self, case, env):
        import random
        rr = random.Random(case['seed'])
        groups = [[None if x == '----' else int(x, 16) for x in l.split(' ')] for l in case['groups']]
        opts = cli(case['opts'])
        sut = env.sut()

        def recs(fmt, data):
            r = sut.run(['-i', fmt] + opts, data)
            if r.exit != 0:
                raise Bad('%s: ended with %s' % (fmt, r.how()))
            return parse_lines(r.out)

        def tef(seed):
            q = random.Random(seed)
            out = []
            hexl = []
            for b in groups:
                if q.random() < 0.1:
                    out.append(q.choice(['', 'T87500', 'S0', 'Z1', 'xyz', 'G12', 'M0', 'R', 'R123', 'Y80', 'r0549000000000F00', ' R0000000000000000', 'D0', '\r']))
                if b[0] is not None:
                    out.append('P' + ('%04x' if q.random() < 0.2 else '%04X') % b[0] + q.choice(['', '', '\r']))
                flags = 0
                shown = list(b)
                if case['lossy']:
                    for k in (1, 2, 3):
                        if b[k] is None:
                            flags |= q.choice([1, 2, 3]) << (6 - 2 * k)
                data = [q.randrange(65536) if x is None else x for x in shown]
                line = 'R%04X%04X%04X%02X' % (data[1], data[2], data[3], flags)
                if q.random() < 0.2:
                    line = line[0] + line[1:].lower()
                out.append(line + q.choice(['', '', '\r', '\r']))
                hexl.append(G.to_hex(shown))
            return ('\n'.join(out) + '\n').encode(), hexl
        try:
            t, hexl = tef(case['seed'])
            h = recs('hex', ('\n'.join(hexl) + '\n').encode())
            a = recs('tef', t)
            msg = None
            if a != h:
                i = next((i for i in range(min(len(a), len(h))) if a[i] != h[i]), min(len(a), len(h)))
                msg = 'TEF: record %d is %s, in hex %s' % (i, a[i:i + 1], h[i:i + 1])
            if msg is None and case['lossy']:
                t2, h2 = tef(case['seed'] + 1)
                if h2 == hexl:
                    a2 = recs('tef', t2)
                    if a2 != a:
                        msg = 'TEF: contents of blocks with errors have influence'
            if msg is None and not case['lossy'] and all(x is not None for b in groups for x in b):
                words = [w for b in groups for w in BT.group_words(b)]
                bits = BT.bits_of(words)
                rx = BT.Receiver()
                rx.feed(bits[:104])
                if rx.sync_at == [78]:
                    b = recs('bits', bits.encode())
                    # the first group lacks two blocks: one record less at the start
                    n = len(h) - 2
                    if n > 0 and len(groups) > 4 and case['groups'][0][5:9] == 'F800' and len(set(l for l in case['groups'][:4])) == 1:
                        # (the error rate also counts the blocks before synchronisation)
                        x, y = [[{k: v for k, v in z.items() if k != 'bler'} for z in l[-n:]] for l in (b, h)]
                        if x != y:
                            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), 0)
                            msg = 'bits: record %d is %s, in hex %s' % (i, x[i:i + 1], y[i:i + 1])
                        elif len(b) not in (n + 1, n + 2):
                            msg = 'bits: %d records instead of %d' % (len(b), n + 1)
            return Verdict(msg, len(h) >= 10, ['lossy' if case['lossy'] else 'complete'], n=len(h))
        except Bad as e:
            return Verdict(str(e), True)


CHECK = C()
