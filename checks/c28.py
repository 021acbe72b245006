"""C28: every group is output before more input is needed."""
import os, select, subprocess, threading, time
from checks.mpxbase import *
from checks.base import cli

W = {k: 1 for k in 'ps rt rtp ert lps ptyn ct eon slc oda dab tdc misc tmc rft 15b random'.split()}
WAIT = 8.0
LATE = 0.5       # MPX: seconds of signal after which the groups must be there


class C(Check):
    ID = 'C28'
    KINDS = ['plain', 'driver']
    LISTS = ['groups']
    RULE = ('the ordinary program is run with pipes; a random transmission is delivered in random pieces (bytes, parts of lines or groups, several groups '
            'at a time; bits with and without line ends), never closing the input; after each piece that completes groups the oracle demands exactly the output lines that the complete '
            'groups so far give in a run from a file, within %g s. Multiplex signals (one or two channels, with and without RDS2 streams) are delivered in a few pieces; the records of a run on the signal up to %g s earlier are due. Non-trivial: at least five deliveries (MPX: two) waited for output' % (WAIT, LATE))
    ASSUME = ['a record that has not come after %g s does not come without more input' % WAIT, 'bit input is checked after synchronisation']

    def gen_mpx(self, r):
        rate = r.choice([171000, 171000, 192000, 128000, 250000])
        n = r.choice([30, 50])
        ch = r.choice([1, 1, 1, 2])
        st = {'0': gen_groups(r, n)}
        if rate >= 171000 and r.random() < 0.4:
            for k in r.sample(range(1, 4), r.choice([1, 3])):
                st[str(k)] = gen_groups(r, n)
        sig = dict(sig_params(r), streams=st, level=0.1 if len(st) == 1 else 0.05, noise=0, audio=0)
        opts = {k: True for k in ('rbds', 'partial', 'raw', 'bler') if r.random() < 0.25}
        return {'fmt': 'mpx', 'groups': [], 'sig': sig, 'rate': rate, 'ch': ch, 'opts': opts, 'out': r.choice(['json', 'hex', 'hex']), 'ts': r.random() < 0.1,
                'how': 'mpx', 'cuts': sorted(r.uniform(0.3, 1) for _ in range(r.choice([2, 3, 5]))), 'seed': 1}

    def judge_mpx(self, case, env):
        import numpy as np
        rate, ch = case['rate'], case['ch']
        x = X.s16(make_signal(case['sig'], rate))
        if ch > 1:
            x = np.repeat(x, ch)
        data = x.tobytes()
        ns = len(case['sig']['streams'])
        args = ['-i', 'mpx', '-r', str(rate), '-o', case['out']] + (['-s'] if ns > 1 else []) + (['-c', str(ch)] if ch > 1 else []) + cli(case['opts']) + (['-t', 'x'] if case['ts'] else [])
        w = 2 * ch
        plan = []
        for c in case['cuts']:
            pos = int(c * len(data)) // w * w
            early = max(0, pos - int(LATE * rate) * w)
            r = env.sut().run(args, data[:early])
            if r.exit != 0:
                return Verdict('ended with ' + r.how(), True)
            ls = r.out.split(b'\n')[:-1]
            # groups that are incomplete at the end, or in the last chunk (where the order of streams is open), are not due
            plan.append((pos, ls[:max(0, len(ls) - (8 if ns > 1 else 2) * ch)]))
        msg = None
        waited = 0
        p = subprocess.Popen([env.exes['plain']] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8'}, bufsize=0, cwd='/')
        buf = b''
        try:
            at = 0
            for pos, due in plan:
                t = threading.Thread(target=self.feed, args=(p, data[at:pos]), daemon=True)
                t.start()
                at = pos
                need = b''.join(l + b'\n' for l in due)
                end = time.time() + WAIT + 20
                while len(buf) < len(need) or t.is_alive():
                    left = end - time.time()
                    if left <= 0:
                        break
                    if not select.select([p.stdout], [], [], min(left, 0.02 if len(buf) >= len(need) else left))[0]:
                        continue
                    c = os.read(p.stdout.fileno(), 65536)
                    if not c:
                        break
                    buf += c
                    if not t.is_alive() and end > time.time() + WAIT:
                        end = time.time() + WAIT
                if due:
                    waited += 1
                if len(buf) < len(need):
                    msg = '%s: after %.3f s of signal, the records of the first %.3f s are due (%d bytes), but only %d bytes came' % (args, pos / w / rate, pos / w / rate - LATE, len(need), len(buf))
                    break
                if not buf.startswith(need):
                    msg = '%s: the output differs from that of a run on the signal so far' % (args,)
                    break
        finally:
            p.kill()
            p.wait()
            p.stdin.close()
            p.stdout.close()
        return Verdict(msg, waited >= 2, ['mpx'], waited)

    @staticmethod
    def feed(p, d):
        try:
            v = memoryview(d)
            while v:
                v = v[os.write(p.stdin.fileno(), v):]
        except (OSError, ValueError):
            pass

    def gen(self, r, tier):
        if r.random() < 0.2:
            return self.gen_mpx(r)
        fmt = r.choice(['hex', 'hex', 'tef', 'bits'])
        w = {k: 1 for k in r.sample(sorted(W), r.choice([1, 4, len(W)]))}
        drop = r.choice([0, 0, 0.1]) if fmt == 'hex' else 0
        tx = G.Tx(r, w, drop=drop, run=r.choice([0, 5]), bg=r.choice([0, 0.05]), rep=r.choice([0, 0, 0.1]), corner=r.choice([0, 0, 0.02]))
        gs = [G.to_hex(b, s if fmt == 'hex' else 0) for b, s in tx.groups(r.choice([8, 20, 60]), lead=4)]
        if fmt != 'hex':
            gs = [l[4:] if l.startswith('#') else l for l in gs]
        opts = {k: True for k in ('rbds', 'partial', 'raw', 'bler') if r.random() < 0.25}
        return {'fmt': fmt, 'groups': gs, 'opts': opts, 'out': r.choice(['json', 'json', 'hex']), 'how': r.choice(['group', 'group', 'bytes', 'parts', 'several']),
                'crlf': r.random() < 0.2, 'tail': r.random() < 0.4, 'ts': r.random() < 0.1, 'seed': r.randrange(1 << 30)}

    def judge(self, case, env):
        import random
        if case['fmt'] == 'mpx':
            return self.judge_mpx(case, env)
        rr = random.Random(case['seed'])
        fmt = case['fmt']
        nl = '\r\n' if case['crlf'] else '\n'
        units = []
        for l in case['groups']:
            if fmt == 'hex':
                if case.get('tail'):
                    l = (l.lower() if rr.random() < 0.3 and not l.startswith('#') else l) + ' ' * rr.randrange(3)
                    l += rr.choice(['', '@2026/11/18 12:00:00.00', '@' + 'x' * rr.randrange(1, 200)])
                units.append(l + nl)
            elif '-' in l:
                return Verdict()
            elif fmt == 'tef':
                units.append('P' + l[:4] + nl + 'R' + l[5:].replace(' ', '') + '00' + nl)
            else:
                units.append(BT.bits_of(BT.group_words([int(x, 16) for x in l.split()])))
        if not units:
            return Verdict()
        if fmt == 'bits':
            # line ends and other characters between the bits
            k = rr.choice([0, 0, 0, 26, 104, 80, 1])
            if k:
                t, p = [], 0
                for u in units:
                    t.append(''.join(c + (nl if (p + i + 1) % k == 0 else '') for i, c in enumerate(u)))
                    p += len(u)
                units = t
        args = ['-i', fmt, '-o', case['out']] + cli(case['opts']) + (['-t', 'x'] if case['ts'] else [])
        full = env.sut().run(args, ''.join(units).encode())
        if full.exit != 0:
            return Verdict('ended with ' + full.how(), True)
        lines = full.out.split(b'\n')[:-1]
        # how many lines after each group: count by runs on prefixes of the input
        cuts = self.counts(env, args, units, len(lines))
        # plan the pieces
        text = ''.join(units).encode()
        ends = []
        p = 0
        for u in units:
            p += len(u.encode())
            ends.append(p - (len(u) - len(u.rstrip()) if fmt == 'bits' else 0))   # complete with its last bit
        how = case['how']
        if how == 'group':
            stops = list(ends)
        elif how == 'several':
            stops = [e for e in ends if rr.random() < 0.3] + [ends[-1]]
        elif how == 'bytes':
            a = rr.randrange(len(text))
            stops = sorted(set(range(a, min(len(text), a + 300))) | set(ends))
        else:
            stops = sorted(set(rr.randrange(1, len(text) + 1) for _ in range(2 * len(units))) | {ends[-1]})
        e = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8'}
        p = subprocess.Popen([env.exes['plain']] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, bufsize=0, cwd='/')
        buf = b''
        waited = 0
        msg = None
        try:
            pos = 0
            g = 0
            have = 0
            for s in stops:
                p.stdin.write(text[pos:s])
                pos = s
                while g < len(ends) and ends[g] <= s:
                    g += 1
                want = cuts[g - 1] if g else 0
                if want <= have:
                    continue
                have = want
                need = b'\n'.join(lines[:want]) + b'\n'
                end = time.time() + WAIT
                while len(buf) < len(need):
                    left = end - time.time()
                    if left <= 0 or not select.select([p.stdout], [], [], left)[0]:
                        break
                    c = os.read(p.stdout.fileno(), 65536)
                    if not c:
                        break
                    buf += c
                waited += 1
                if len(buf) < len(need):
                    msg = 'after %d bytes (%d complete groups) %d lines are due but only %d bytes of %d came' % (s, g, want, len(buf), len(need))
                    break
                if not (b'\n'.join(lines) + b'\n').startswith(buf):
                    msg = 'the output differs from that of a run on the whole input: %r' % buf[-200:]
                    break
        except BrokenPipeError:
            msg = 'the program stopped reading'
        finally:
            p.kill()
            p.wait()
            p.stdin.close()
            p.stdout.close()
        return Verdict(msg, waited >= 5, [fmt, how], waited)

    def counts(self, env, args, units, total):
        """lines output after each group. One group gives at most one line, so only the first ones are uncertain:
        run on prefixes until the number of missing lines is known."""
        res = []
        for k in range(1, len(units) + 1):
            r = env.sut().run(args, ''.join(units[:k]).encode())
            res.append(r.out.count(b'\n'))
        if args[1] == 'bits' and res:
            # at the end of a file an incomplete first group is flushed as well; never ask for more than complete groups give
            pass
        return res


CHECK = C()
