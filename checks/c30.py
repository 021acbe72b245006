"""C30: the output is determined by the input alone, however it is delivered, and grows with it."""
import json, os, subprocess, threading, time
from checks.mpxbase import *
from checks.base import cli

W = {k: 1 for k in 'ps rt rtp ert lps ptyn ct eon slc oda dab tdc misc tmc rft 15b random'.split()}
TZS = ['UTC0', 'XYZ-14', 'EST5EDT,M3.2.0,M11.1.0', ':Europe/Helsinki', 'garbage', '']
LOC = ['C', 'POSIX', 'C.UTF-8', 'en_US.UTF-8', 'fi_FI.UTF-8', 'tr_TR.UTF-8', 'de_DE', 'xx']


LOCALES = ['de_DE', 'tr_TR', 'ar_EG', 'fa_IR']
# zones with the month, week and hour of their spring gap
GAPS = {':Europe/Helsinki': (3, -1, 3), ':America/New_York': (3, 1, 2), 'EST5EDT,M3.2.0,M11.1.0': (3, 1, 2), ':Australia/Sydney': (10, 0, 2), ':Europe/London': (3, -1, 1)}


def gap_day(year, month, week):
    import datetime
    ds = [datetime.date(year, month, d) for d in range(1, 32) if datetime.date(year, month, d).weekday() == 6]
    return (ds[week] - datetime.date(1858, 11, 17)).days


class C(Check):
    ID = 'C30'
    KINDS = ['plain']
    LISTS = ['groups']
    RULE = ('generated hex, TEF, bit, raw MPX and WAV inputs. (env) the same input in runs with different locale, time zone, working directory, '
            'environment size, heap fill pattern (MALLOC_PERTURB_), real locales with other decimal points and letter cases, and with clocks that are off, fast, stopped or jump; (offset) from the middle of a file; (pipe) through a pipe in pieces of random sizes, with and without pauses, '
            'and from a file; (prefix) cut at a random place. Oracle: byte-identical output and exit status; the output of the cut input is a beginning of that '
            'of the whole one except for the last record (per data stream), which may belong to an incomplete group. Non-trivial: at least five records')
    ASSUME = ['without --timestamp', 'MPX files are read from their beginning (libsndfile cannot open raw samples at another position of standard input)', 'location and key tables are not used', 'records of different data streams that end in the same chunk of samples may swap places when the signal is cut']

    def prepare(self, exes, tier):
        """Locales with other decimal points, letter cases and digits, and a clock that cannot be trusted, where they can be made."""
        from rds import build as B
        self.locpath = self.shim = None
        d = os.path.join(B.BUILD, 'locale')
        try:
            if not os.path.exists(os.path.join(d, 'done')):
                os.makedirs(d, exist_ok=True)
                ok = [l for l in LOCALES if subprocess.run(['localedef', '--no-archive', '-c', '-i', l, '-f', 'UTF-8', os.path.join(d, l + '.UTF-8')],
                                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode in (0, 1)]
                open(os.path.join(d, 'done'), 'w').write(' '.join(ok))
            self.locales = open(os.path.join(d, 'done')).read().split()
            if self.locales:
                self.locpath = d
        except (OSError, subprocess.SubprocessError):
            pass
        so = os.path.join(B.BUILD, 'clockshim.so')
        src = os.path.join(B.VERIF, 'harness', 'clockshim.c')
        r = subprocess.run([os.environ.get('CC', 'gcc'), '-O1', '-shared', '-fPIC', '-o', so + '.tmp', src, '-ldl'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode == 0:
            os.replace(so + '.tmp', so)
            self.shim = so

    def gen(self, r, tier):
        fmt = r.choice(['hex', 'hex', 'tef', 'bits', 'bits', 'mpx', 'mpx', 'wav'])
        mode = r.choice(['env', 'env', 'pipe', 'pipe', 'prefix', 'offset'])
        if fmt == 'wav' and mode == 'prefix' or fmt in ('wav', 'mpx') and mode == 'offset':
            mode = 'pipe'
        c = {'fmt': fmt, 'mode': mode, 'seed': r.randrange(1 << 30), 'cut': r.random()}
        c['opts'] = {k: True for k in ('rbds', 'partial', 'raw', 'bler', 'nofec') if r.random() < 0.25}
        c['out'] = r.choice(['json', 'json', 'hex'])
        if fmt in ('mpx', 'wav'):
            n = r.choice([20, 40])
            c['rate'] = r.choice([128000, 171000, 171000, 192000, 250000])
            c['ch'] = r.choice([1, 1, 1, 2, 3])
            c['streams'] = c['rate'] >= 171000 and r.random() < 0.25
            c['sigs'] = [dict(sig_params(r), streams={str(k): gen_groups(r, n) for k in ([0, 1] if c['streams'] else [0])}) for _ in range(c['ch'])]
            c['extra'] = r.choice([0, 0, 1, 2, 3])
            c['groups'] = []
            if c['streams'] and mode == 'prefix':
                c['out'] = 'hex'
                c['ch'] = 1
        else:
            w = {k: 1 for k in r.sample(sorted(W), r.choice([1, 4, len(W)]))}
            tx = G.Tx(r, w, drop=r.choice([0, 0, 0.1]) if fmt == 'hex' else 0, run=r.choice([0, 5]), pi_switch=r.choice([0, 0.02]), bg=r.choice([0, 0.05]), rep=r.choice([0, 0, 0.1]), corner=r.choice([0, 0, 0.02]))
            c['groups'] = [G.to_hex(b, s if fmt == 'hex' else 0) for b, s in tx.groups(r.choice([20, 60, 200]), lead=4)]
            if mode == 'env' and r.random() < 0.4:
                # clock-time groups in the hour that does not exist in some time zones
                c['tz'] = r.choice(sorted(GAPS))
                m, w_, h = GAPS[c['tz']]
                last = int(c['groups'][-1].split()[-4], 16) if '-' not in c['groups'][-1].split()[-4] else 0x6201
                for _ in range(8):
                    mjd, hour, minute = gap_day(r.randrange(2008, 2035), m, w_), h, r.randrange(60)
                    if r.random() < 0.3:
                        mjd, hour = r.choice([40586, 40587, 15079, 65442, 65443]), r.randrange(24)
                    c['groups'].append('%04X %04X %04X %04X' % (last, 0x4000 | mjd >> 15, (mjd & 0x7FFF) << 1 | hour >> 4, (hour & 15) << 12 | minute << 6))
            if fmt == 'bits' and r.random() < 0.5:
                c['flip'] = r.choice([0.001, 0.01])
        return c

    def data(self, c, rr):
        if c['fmt'] in ('mpx', 'wav'):
            import numpy as np
            xs = [X.s16(make_signal(s, c['rate'])) for s in c['sigs'][:c['ch']]]
            m = min(len(x) for x in xs)
            d = np.stack([x[:m] for x in xs], 1).reshape(-1)
            if c['fmt'] == 'wav':
                return wav(d, c['rate'], c['ch'])
            return d.tobytes() + bytes(range(1, 1 + c['extra']))
        out = []
        for l in c['groups']:
            if c['fmt'] == 'hex':
                out.append(l + '\n')
                continue
            b = [int(x, 16) for x in l.split()[-4:] if '-' not in x]
            if len(b) < 4:
                continue
            if c['fmt'] == 'tef':
                out.append('P%04X\nR%04X%04X%04X00\n' % tuple(b))
            else:
                out.append(BT.bits_of(BT.group_words(b)))
        d = ''.join(out).encode()
        if c.get('flip'):
            d = bytearray(d)
            for i in range(len(d)):
                if rr.random() < c['flip']:
                    d[i] ^= 1
            d = bytes(d)
        return d

    def runf(self, exe, args, path, env=None, cwd='/'):
        with open(path, 'rb') as f:
            p = subprocess.run([exe] + args, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or {'PATH': '/usr/bin:/bin'}, cwd=cwd, timeout=120)
        return p.returncode, p.stdout, p.stderr

    def judge(self, c, env):
        import random
        rr = random.Random(c['seed'])
        d = self.data(c, rr)
        if c['fmt'] == 'wav':
            args = ['-f', '-']
        else:
            args = ['-i', c['fmt']]
        if c['fmt'] == 'mpx':
            args += ['-r', str(c['rate']), '-c', str(c['ch'])]
        args += ['-o', c['out']] + [x for x in cli(c['opts'])] + (['-s'] if c.get('streams') else [])
        exe = env.exes['plain']
        path = os.path.join(env.tmp, 'c30.in')
        open(path, 'wb').write(d)
        rc, out, err = self.runf(exe, args, path)
        n = out.count(b'\n')
        tags = [c['fmt'] + '/' + c['mode']]
        nt = n >= 5
        if rc != 0:
            return Verdict('ended with %d: %s' % (rc, err[-300:].decode('utf-8', 'replace')), True, tags)
        if c['mode'] == 'env':
            e = {'PATH': '/usr/bin:/bin', 'LANG': rr.choice(LOC), 'LC_ALL': rr.choice(LOC), 'TZ': rr.choice(TZS), 'MALLOC_PERTURB_': str(rr.randrange(1, 256)),
                 'HOME': rr.choice(['/root', '/nonexistent', '']), 'TERM': rr.choice(['dumb', 'xterm']), 'FILL': 'x' * rr.choice([0, 100, 5000, 60000])}
            if rr.random() < 0.3:
                e['LC_NUMERIC'] = 'de_DE.UTF-8'
            if c.get('tz'):
                e['TZ'] = c['tz']
            if self.locpath and rr.random() < 0.7:
                e['LOCPATH'] = self.locpath
                e['LANG'] = e['LC_ALL'] = rr.choice(self.locales) + '.UTF-8'
                e.pop('LC_NUMERIC', None)
            if self.shim and rr.random() < 0.7:
                e['LD_PRELOAD'] = self.shim
                e['CLOCKSHIM'] = rr.choice(['-500000000 1 0 0', '100000000 1 0 0', '0 3600 0 0', '0 1 7200 1', '0 1 -7200 1', '0 0 0 0', '0 1 3 1', '0 1 -3 1', '0 100000 86400 7', '7 1e6 0 0'])
            o = self.runf(exe, args, path, e, cwd=env.tmp)
            what = 'environment %s' % {k: v[:30] for k, v in e.items()}
        elif c['mode'] == 'offset':
            # standard input is a file whose beginning something else has already read
            k = rr.choice([1, 2, 3, 4, 17, 4096, 20000, 32769])
            junk = bytes(rr.choice(b'01 #S\nPR0123456789ABCDEFRIFF') for _ in range(k))
            open(path, 'wb').write(junk + d)
            with open(path, 'rb', buffering=0) as f:
                f.seek(k)
                p = subprocess.run([exe] + args, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={'PATH': '/usr/bin:/bin'}, cwd='/', timeout=120)
            o, what = (p.returncode, p.stdout, p.stderr), 'input from position %d of a file' % k
        elif c['mode'] == 'pipe':
            o, what = self.pipe(exe, args, d, rr), 'input through a pipe'
        else:
            return self.prefix(c, env, exe, args, d, out, rr, nt, tags, n)
        msg = None
        if o[0] != rc:
            msg = '%s: exit status %s instead of %s' % (what, o[0], rc)
        elif o[1] != out:
            a, b = out.split(b'\n'), o[1].split(b'\n')
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            msg = '%s %s: output line %d is %r instead of %r' % (' '.join(args), what, i, b[i:i + 1], a[i:i + 1])
        return Verdict(msg, nt, tags, n)

    def pipe(self, exe, args, d, rr):
        p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={'PATH': '/usr/bin:/bin'}, bufsize=0, cwd='/')
        sizes = rr.choice([[1], [2, 3], [7, 100, 1000], [4095, 4096, 4097], [8191, 8193], [16383], [65536], [1, 16385, 40001], [20, 21], [3]])
        limit = 4000   # number of pieces
        pause = rr.choice([0, 0, 0.0002])

        def feed():
            pos = k = 0
            try:
                while pos < len(d):
                    s = rr.choice(sizes) if k < limit else 65536
                    p.stdin.write(d[pos:pos + s])
                    pos += s
                    k += 1
                    if pause and k < 400:
                        time.sleep(pause)
            except BrokenPipeError:
                pass
            try:
                p.stdin.close()
            except BrokenPipeError:
                pass
        err = []
        t = threading.Thread(target=feed)
        te = threading.Thread(target=lambda: err.append(p.stderr.read()))
        t.start()
        te.start()
        out = b''.join(iter(lambda: p.stdout.read(65536), b''))
        t.join()
        te.join()
        p.wait()
        p.stdout.close()
        p.stderr.close()
        return p.returncode, out, err

    def prefix(self, c, env, exe, args, d, out, rr, nt, tags, n):
        k = int(len(d) * c['cut'])
        path = os.path.join(env.tmp, 'c30.cut')
        open(path, 'wb').write(d[:k])
        rc, o, err = self.runf(exe, args, path)
        if rc != 0 and k >= 2 * c.get('ch', 1):
            return Verdict('the first %d of %d bytes: ended with %d: %s' % (k, len(d), rc, err[-300:].decode('utf-8', 'replace')), True, tags)
        whole, part = out.split(b'\n')[:-1], o.split(b'\n')[:-1]

        def split(ls):
            res = {}
            for l in ls:
                key = 0
                if c['fmt'] in ('mpx', 'wav'):
                    if c['out'] == 'hex':
                        key = l[:3] if l.startswith(b'#S') else 0
                    else:
                        try:
                            key = json.loads(l).get('channel', -1)
                        except ValueError:
                            key = -2
                res.setdefault(key, []).append(l)
            return res
        if c['fmt'] == 'mpx' and c['ch'] > 1 and c['out'] == 'hex':
            return Verdict(None, False, tags)
        W_, P_ = split(whole), split(part)
        for key, p in P_.items():
            w = W_.get(key, [])
            if len(p) - 1 > len(w) or w[:len(p) - 1] != p[:-1]:
                i = next((i for i in range(min(len(w), len(p))) if w[i] != p[i]), min(len(w), len(p)))
                return Verdict('%s, first %d of %d bytes: record %d of %d is %r, in the whole input it is %r' % (' '.join(args), k, len(d), i, len(p), p[i:i + 1], w[i:i + 1]), True, tags)
        return Verdict(None, nt and len(part) >= 5, tags, n)

    def simplify(self, case):
        for k in sorted(case['opts']):
            yield dict(case, opts={x: v for x, v in case['opts'].items() if x != k})
        if case.get('extra'):
            yield dict(case, extra=0)
        if case.get('flip'):
            yield dict(case, flip=0)


CHECK = C()
