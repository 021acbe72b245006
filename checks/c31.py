"""C31: a receiver that runs on and on needs no more memory, and takes as long for each part of the input as for the first."""
import os, subprocess, time
from checks.mpxbase import *
from checks.base import cli

KINDS_ = 'ps rt rtp ert lps ptyn ct eon slc oda dab tdc misc tmc 15b'.split()


class C(Check):
    ID = 'C31'
    KINDS = ['plain']
    LISTS = ['groups']
    MIN_CASES = 24
    RULE = ('a generated stretch of transmission (all group types, RFT files, several data streams, block errors, station changes; as hex, TEF, bits, or a multiplex signal '
            'with pauses of the carrier of over 10 s) is repeated some times and ten or forty times as often. Oracle: the heap is followed with counting stand-ins for malloc and free; '
            'neither its recent peak nor the bytes still in use at the end may be higher (by 4 kB; 20 kB with MPX) for the long run than for the short one, and the long run may take at most three '
            'times as much CPU time per repetition. The records of a text input have to repeat themselves along with the input (once they do so over the second half of the short run, with a cycle of at most eight repetitions, they must do so to the end). Non-trivial: at least 10000 groups, or a multiplex signal of at least a minute')
    ASSUME = ['memory of the C and C++ libraries that does not go through malloc is not counted', 'aperiodic input is not explored here: the number of different stations, networks and files that are kept is part of the input']

    def prepare(self, exes, tier):
        from rds import build as B
        self.shim = os.path.join(B.BUILD, 'heapshim.so')
        subprocess.run([os.environ.get('CC', 'gcc'), '-O1', '-shared', '-fPIC', '-o', self.shim + '.tmp', os.path.join(B.VERIF, 'harness', 'heapshim.c')], check=True)
        os.replace(self.shim + '.tmp', self.shim)

    def gen(self, r, tier):
        fmt = r.choice(['hex', 'hex', 'hex', 'bits', 'bits', 'tef'])
        if r.random() < 0.1:
            fmt = 'mpx'
        c = {'fmt': fmt, 'seed': r.randrange(1 << 30)}
        c['opts'] = {k: True for k in ('rbds', 'partial', 'raw', 'bler') if r.random() < 0.3}
        c['out'] = r.choice(['json', 'json', 'json', 'hex'])
        if r.random() < 0.2:
            c['t'] = r.choice(['%c', '%f'])
        if fmt == 'mpx':
            c['rate'] = r.choice([171000, 171000, 192000])
            c['streams'] = r.random() < 0.3
            c['sig'] = dict(sig_params(r), streams={str(k): gen_groups(r, 20) for k in ([0, 1] if c['streams'] else [0])})
            c['gap'] = r.choice([0, 0.5, 10.5, 11])
            c['groups'] = []
            return c
        w = {k: 1 for k in r.sample(KINDS_, r.choice([1, 2, 4, len(KINDS_)]))}
        if r.random() < 0.25:
            w['random'] = 1
        if fmt == 'hex' and r.random() < 0.3:
            w['rft'] = 2
        if fmt == 'hex' and r.random() < 0.5:
            c['opts']['streams'] = True
        tx = G.Tx(r, w, drop=r.choice([0, 0, 0.1]) if fmt == 'hex' else 0, run=r.choice([0, 5, 40]), pi_switch=r.choice([0, 0, 0, 0.02]))
        c['groups'] = [G.to_hex(b, s if fmt == 'hex' else 0) for b, s in tx.groups(r.choice([20, 60, 200, 400]), lead=4)]
        if fmt == 'bits':
            c['flip'] = r.choice([0, 0, 0.001, 0.03])
        return c

    def unit(self, c):
        import random
        rr = random.Random(c['seed'])
        if c['fmt'] == 'mpx':
            import numpy as np
            x = X.s16(make_signal(c['sig'], c['rate']))
            return np.concatenate([x, np.zeros(int(c['gap'] * c['rate']), '<i2')]).tobytes()
        out = []
        for l in c['groups']:
            if c['fmt'] == 'hex':
                out.append(l + '\n')
                continue
            b = [int(x, 16) for x in l.split()[-4:] if '-' not in x]
            if len(b) == 4:
                out.append('P%04X\nR%04X%04X%04X00\n' % tuple(b) if c['fmt'] == 'tef' else BT.bits_of(BT.group_words(b)))
        d = bytearray(''.join(out).encode())
        if c.get('flip'):
            for i in range(len(d)):
                if rr.random() < c['flip']:
                    d[i] ^= 1
        return bytes(d)

    def run(self, exe, args, unit, k, env):
        res = os.path.join(env.tmp, 'c31.out')
        if os.path.exists(res):
            os.unlink(res)
        path = os.path.join(env.tmp, 'c31.in')
        with open(path, 'wb') as f:
            for _ in range(k):
                f.write(unit)
        with open(path, 'rb') as f, open(os.path.join(env.tmp, 'c31.rec'), 'wb') as out:
            p = subprocess.Popen([exe] + args, stdin=f, stdout=out, stderr=subprocess.DEVNULL, env={'LD_PRELOAD': self.shim, 'HEAPSHIM_OUT': res}, cwd='/')
            _, st, ru = os.wait4(p.pid, 0)
            p.returncode = st
        os.unlink(path)
        try:
            peak, recent, left, calls = map(int, open(res).read().split())
        except (OSError, ValueError):
            return st, 0, 0, 0, 0
        return st, recent, left, ru.ru_utime + ru.ru_stime, calls

    def lines(self, env):
        with open(os.path.join(env.tmp, 'c31.rec'), 'rb') as f:
            return f.read().split(b'\n')

    def periodic(self, la, lb, k, k2, tags):
        """Once the output repeats itself along with the input it has to go on doing so."""
        if (len(lb) - len(la)) % (k2 - k):
            p = (len(lb) - len(la)) / (k2 - k)
            # not the same number of records each time: some longer cycle, if any
            cand = [q for q in range(2, 9) if (q * (len(lb) - len(la))) % (k2 - k) == 0]
        else:
            p = (len(lb) - len(la)) // (k2 - k)
            cand = list(range(1, 9))
        n0 = len(la) // 2
        for q in cand:
            d = int(q * p)
            if d <= 0 or n0 + 2 * d > len(la):
                continue
            if la[n0:len(la) - d - 4] != la[n0 + d:len(la) - 4]:
                continue
            tags.append('period %d' % q)
            if lb[:len(la) - 4] != la[:-4]:
                i = next(i for i in range(len(la) - 4) if i >= len(lb) or la[i] != lb[i])
                return 'record %d of the same input differs with %d and %d repetitions: %r, %r' % (i + 1, k, k2, la[i][:300], lb[i][:300])
            x, y = lb[n0:len(lb) - d - 4], lb[n0 + d:len(lb) - 4]
            if x != y:
                i = next(i for i in range(len(x)) if x[i] != y[i])
                return 'repeating the same input, the records repeat after %d records, but record %d is %r and record %d is %r' % (d, n0 + i + 1, x[i][:400], n0 + d + i + 1, y[i][:400])
            return None
        tags.append('no period')
        return None

    def judge(self, c, env):
        u = self.unit(c)
        n = len(u) / (21.0 if c['fmt'] != 'bits' else 104)
        args = ['-i', c['fmt'], '-o', c['out']] + cli(c['opts']) + (['-t', c['t']] if c.get('t') else [])
        if c['fmt'] == 'mpx':
            args += ['-r', str(c['rate'])] + (['-s'] if c.get('streams') else [])
            secs = len(u) / 2 / c['rate']
            k = max(2, int(12 / secs))
            k2 = 5 * k
            nt, slack = secs * k2 >= 60, 20000
        else:
            if not u:
                return Verdict(None, False, ['empty'])
            k = max(3, int(3000 / n))
            k2 = (40 if c['seed'] % 3 == 0 else 10) * k
            nt, slack = n * k2 >= 10000, 4096
        tags = [c['fmt'], 'gap' if c.get('gap', 0) > 10 else 'steady']
        exe = env.exes['plain']
        a = self.run(exe, args, u, k, env)
        la = self.lines(env)
        b = self.run(exe, args, u, k2, env)
        lb = self.lines(env)
        msg = None
        if a[0] != 0 or b[0] != 0:
            msg = 'wait status %d with %d repetitions, %d with %d' % (a[0], k, b[0], k2)
        elif b[1] > a[1] + slack:
            msg = '%d repetitions need %d bytes of memory, %d repetitions need %d' % (k, a[1], k2, b[1])
        elif b[2] > a[2] + slack:
            msg = 'after %d repetitions %d bytes remain allocated, after %d repetitions %d' % (k, a[2], k2, b[2])
        elif b[3] > 3 * a[3] * k2 / k + 1:
            msg = '%d repetitions take %.2f s of CPU time, %d repetitions take %.2f s' % (k, a[3], k2, b[3])
        if not msg and c['fmt'] != 'mpx' and not c.get('t'):
            msg = self.periodic(la, lb, k, k2, tags)
        return Verdict(msg, nt, tags, int(n * k2))

    def simplify(self, case):
        for k in sorted(case['opts']):
            yield dict(case, opts={x: v for x, v in case['opts'].items() if x != k})
        if case.get('t'):
            yield {k: v for k, v in case.items() if k != 't'}
        if case.get('flip'):
            yield dict(case, flip=0)


CHECK = C()
