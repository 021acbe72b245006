"""C06: PI confirmation and station changes."""
from checks.base import *
import random
from rds import bits as BT
from checks.bitsbase import bits_of_history


class C(ModelCheck):
    ID = 'C06'
    KEYS = ['pi']
    WEIGHTS = {k: 1 for k in 'ps rt rtp ert lps ptyn eon oda dab tdc tmc rft slc 15b'.split()}
    OPTS = {'partial': 0.5, 'raw': 0.1, 'streams': 0.2}
    DROP = (0.0, 0.0, 0.02, 0.2)
    RUN = (0, 4, 20)
    N = (40, 100, 250)
    RULE = ('histories of several stations (all senders) with confirmed PI changes, isolated and accumulated PI errors and missing PIs; '
            'oracles: (1) a reference PI tracker decides which groups are printed and under which PI, from hex and (with the PI in block 3 of version B groups) from bit input; (2) after a confirmed change to another PI the '
            'records equal those of a fresh run on the groups from the change on; (3) isolated wrong PI codes change no record. '
            'Non-trivial: records are due and a PI was changed, corrupted or missing')

    def gen(self, rng, tier):
        mode = rng.choice(['history', 'history', 'change', 'isolated', 'bits'])
        opts = {k: True for k, p in self.OPTS.items() if rng.random() < p}
        if mode == 'history':
            tx = G.Tx(rng, self.WEIGHTS, drop=rng.choice(self.DROP), pi_err=rng.choice([0, 0.05, 0.3, 0.6]), pi_switch=rng.choice([0, 0.02, 0.1, 0.4]), run=rng.choice(self.RUN))
            return {'mode': mode, 'opts': opts, 'groups': [G.to_hex(b, s) for b, s in tx.groups(rng.choice(self.N), lead=rng.choice([0, 3]))]}
        if mode == 'bits':
            # version B groups carry the PI a second time, in block 3
            opts.pop('streams', None)
            w = dict(self.WEIGHTS, ps=3, **{'15b': 6})
            tx = G.Tx(rng, w, drop=rng.choice([0.1, 0.3, 0.45]), pi_err=rng.choice([0, 0.05, 0.3]), pi_switch=rng.choice([0, 0.05, 0.2]), run=rng.choice(self.RUN))
            gs = [b for b, s in tx.groups(rng.choice([20, 60, 150]), lead=rng.choice([0, 3])) if s == 0]
            return {'mode': mode, 'opts': opts, 'groups': [G.to_hex(b) for b in gs], 'seed': rng.randrange(1 << 30)}
        pi1 = G.rand_pi(rng)
        pi2 = rng.choice([pi1 ^ 1 << rng.randrange(16), G.rand_pi(rng), pi1])
        if pi2 == pi1:
            pi2 ^= 0x0100
        pi2 = pi2 or 0x0202
        t1 = G.Tx(rng, self.WEIGHTS, drop=rng.choice([0, 0, 0.05]), run=rng.choice(self.RUN), pi=pi1)
        g1 = [G.to_hex(b, s) for b, s in t1.groups(rng.choice(self.N))]
        if mode == 'change':
            seed = rng.randrange(1 << 30)
            same = rng.random() < 0.5
            t2 = G.Tx(rng, self.WEIGHTS, drop=rng.choice([0, 0, 0.05]), run=rng.choice(self.RUN), pi=pi2)
            g2 = t2.groups(rng.choice(self.N))
            g2 = [G.to_hex(b, s) for b, s in g2]
            if same:
                # the second station goes on where the first one was
                h = rng.randrange(len(g1))
                g2 = g2[:3] + [l.replace('%04X ' % pi1, '%04X ' % pi2, 1) if not l.startswith('#') else l for l in g1[h:]] + g2[3:]
                g1 = g1[:h]
            if not g1:
                g1 = ['%04X F800 %04X 0000' % (pi1, pi1)] * 3
            return {'mode': mode, 'opts': opts, 'groups': g1, 'groups2': g2, 'pi2': pi2}
        # isolated
        bad = []
        last = -10
        n = 0
        for i, l in enumerate(g1):
            if l.startswith('#') or l.startswith('----'):
                continue
            n += 1
            if n - last >= 2 and n > 3 and rng.random() < 0.3:
                bad.append([i, rng.choice([pi1 ^ 1 << rng.randrange(16), rng.randrange(65536), 0, pi2])])
                last = n
        return {'mode': mode, 'opts': opts, 'groups': g1, 'bad': bad}

    def judge(self, case, env):
        mode = case['mode']
        sut = env.sut()
        args = ['-i', 'hex'] + cli(case['opts'])

        def out(gs):
            r = sut.run(args, ('\n'.join(gs) + '\n').encode())
            if r.exit != 0:
                raise Bad('the program ended with ' + r.how())
            return parse_lines(r.out)
        try:
            if mode == 'history':
                r = sut.run(args, ('\n'.join(case['groups']) + '\n').encode())
                v = self.compare(case, self.expected(case, case['opts']), r)
                v.nontrivial = v.nontrivial and len({l[:4] for l in case['groups']}) > 1
                return v
            if mode == 'bits':
                bits = bits_of_history([[None if x == '----' else int(x, 16) for x in l.split(' ')] for l in case['groups']], case['seed'], True)
                rx = BT.receive(bits)
                r = sut.run(['-i', 'bits'] + cli(case['opts']), bits.encode())
                v = self.compare(dict(case, groups=[G.to_hex(g.b) for g in rx.out]), M.decode(rx.out, case['opts']), r)
                v.nontrivial = v.nontrivial and any(g.b[0] is None and g.pi() is not None for g in rx.out)
                return v
            if mode == 'change':
                a = out(case['groups'])
                both = out(case['groups'] + case['groups2'])
                # groups2 starts with three groups of the new PI
                if [l[:4] for l in case['groups2'][:3]] != ['%04X' % case['pi2']] * 3:
                    return Verdict(None, False)
                b = out(case['groups2'])
                ch = M.Channel(case['opts'])
                for l in case['groups']:
                    ch.feed(G.from_hex(l))
                if ch.cache.confirmed == case['pi2']:
                    return Verdict(None, False)
                # between the two the first groups of the new PI may still be shown under the old one
                n = len(both) - len(b)
                if n < len(a) or both[:len(a)] != a:
                    return Verdict('records before the change differ', True)
                if both[n:] != b:
                    i = next(i for i in range(len(b)) if both[n + i] != b[i])
                    return Verdict('after the change to PI %04X record %d is %s but without the earlier station it is %s' % (case['pi2'], i, both[n + i], b[i]), True)
                for x in both[len(a):n]:
                    if x.get('pi', '0x%04X' % case['pi2']) == '0x%04X' % case['pi2'] and 'pi' in x:
                        return Verdict('unconfirmed PI shown: %s' % x, True)
                return Verdict(None, bool(a) and bool(b), n=len(both))
            a = out(case['groups'])
            g2 = list(case['groups'])
            pis = [l[:4] for l in g2 if not l.startswith('#') and not l.startswith('----')]
            if len(set(pis)) > 1:
                return Verdict(None, False)
            for i, pi in case['bad']:
                if i < len(g2) and not g2[i].startswith('#') and not g2[i].startswith('----'):
                    g2[i] = '%04X' % pi + g2[i][4:]
            # isolated: every wrong one between right ones
            seq = [l[:4] for l in g2 if not l.startswith('#') and not l.startswith('----')]
            good = seq[:3] == pis[:3] and all(seq[i] == pis[0] or (seq[i - 1] == pis[0]) for i in range(3, len(seq)))
            if not good or not seq:
                return Verdict(None, False)
            b = out(g2)
            strip = lambda l: [{k: v for k, v in x.items() if k != 'raw_data'} for x in l]
            a, b = strip(a), strip(b)
            if a != b:
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), -1)
                return Verdict('isolated wrong PI codes change the output: %d/%d records; %s / %s' % (len(a), len(b), a[i] if i >= 0 else '', b[i] if i >= 0 else ''), True)
            return Verdict(None, bool(a) and g2 != case['groups'], n=len(a))
        except Bad as e:
            return Verdict(str(e), True)

    LISTS = ['groups', 'groups2', 'bad']


CHECK = C()
