"""C01: any input is processed to the end: sanitizer builds, generators, mutation and libFuzzer."""
import struct, base64, glob, os, random, shutil, subprocess, sys, tempfile, time
from rds.engine import Check, Verdict, Env
from rds import gen as G, bits as BT
from checks.c07 import messy_line
from checks.c19 import gen_table, write_table

ALL = {k: 1 for k in 'ps rt rtp ertp ert lps ptyn ct eon slc oda dab tdc misc random tmc rft 15b'.split()}
PI = 0x2BAD
NEUTRAL = [PI, 0xF800, PI, 0x0000]
DICT = [b'----', b'#S1 ', b'#S2 ', b'#S3 ', b'\r\n', b'\n', b'P', b'R', b'0000', b'FFFF', b' ', b'\0', b'-', b'0x', b'\xff', b'\xef\xbb\xbf']


def decode_fuzz(d):
    """options of the fuzz target (fuzz_main.cc) -> args"""
    a, b, c = d[0], d[1], d[2]
    if a & 3 == 3 and c & 15:
        a &= 0xFC
    o = ['-i', ['hex', 'tef', 'bits', 'mpx'][a & 3]]
    for bit, f in ((4, '-p'), (8, '-R'), (16, '-u'), (32, '-E')):
        if a & bit:
            o.append(f)
    if a & 64 and a & 3 in (0, 3):
        o.append('-s')
    if a & 128:
        o += ['-o', 'hex']
    if b & 1:
        o.append('--no-fec')
    if b & 2:
        o += ['-t', '%c %f']
    if b & 4:
        o.append('-e')
    if a & 3 == 3:
        o += ['-r', ['171000', '192k', '250000', '1M'][b >> 4 & 3]]
        if b & 8 and not a & 64:
            o += ['-c', str(1 + (c >> 4) * 2)]
    return o


def mutate(r, d):
    d = bytearray(d)
    for _ in range(r.choice([0, 1, 3, 10, 40])):
        if not d:
            break
        i = r.randrange(len(d))
        k = r.random()
        if k < 0.25:
            d[i] = r.randrange(256)
        elif k < 0.4:
            d[i] ^= 1 << r.randrange(8)
        elif k < 0.55:
            del d[i:i + r.choice([1, 2, 5, 26, 100])]
        elif k < 0.7:
            j = r.randrange(len(d))
            d[i:i] = d[j:j + r.choice([1, 4, 20, 104, 400])]
        elif k < 0.85:
            d[i:i] = r.choice(DICT)
        else:
            d[i:i] = bytes(r.choice(b'0123456789ABCDEF') for _ in range(r.choice([4, 16, 60])))
    return bytes(d)


class C(Check):
    ID = 'C01'
    KINDS = ['driver-san', 'fuzz']
    QUICK_S = 26
    THOROUGH_S = 420
    LISTS = ['data']
    SHRINK_S = 40
    RULE = ('the ASan+UBSan build runs (a) structured transmissions of all senders with losses, mutated and truncated at byte level, in hex, TEF and bits; '
            '(b) random bytes in all formats, raw MPX with 1 to 32 channels; (c) generated and mutated location tables and key files, sound files with ordinary, extreme and damaged headers; all with '
            'random options; and (d) coverage-guided libFuzzer on the same build, whose findings are confirmed in a fresh process. Oracle: no sanitizer '
            'report, signal or time-out, exit status 0 (1 only with a mutated location table), and hex/TEF/bit input ending in clean groups of one more '
            'station is decoded up to these. Non-trivial: the input has at least 40 bytes')
    ASSUME = ['clang\'s AddressSanitizer and UndefinedBehaviorSanitizer report the errors (liquid-dsp, libsndfile, libstdc++ internals are not instrumented)',
              'inputs of up to 100 kB (1.5 MB for single repeated patterns); 60 s without end count as a hang']

    def __init__(self):
        self.fuzz_stats = {}
        self.found = []

    # ---- libFuzzer ----
    def prepare(self, exes, tier):
        secs = 14 if tier == 'quick' else 300
        if os.environ.get('C01_FUZZ_S'):
            secs = int(os.environ['C01_FUZZ_S'])
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        base = tempfile.mkdtemp(prefix='redsea-fz-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        self.base = base
        corpus = os.path.join(base, 'corpus')
        os.makedirs(corpus)
        r = random.Random('%d/fuzz' % seed)
        for i in range(160):
            c = self.gen_input(r, 'mpx' if i < 4 else r.choice(['hex', 'hex', 'hex', 'tef', 'bits']), small=True)
            fmt = {'hex': 0, 'tef': 1, 'bits': 2, 'mpx': 3}[c['fmt']]
            d = bytes([r.randrange(64) << 2 | fmt, r.randrange(8) | r.randrange(4) << 4, r.randrange(16) << 4]) + base64.b64decode(c['data'])
            open(os.path.join(corpus, 's%d' % i), 'wb').write(d[:20000])
        dic = os.path.join(base, 'dict')
        with open(dic, 'w') as f:
            for w in DICT:
                f.write('"%s"\n' % ''.join('\\x%02x' % x for x in w))
        ps = []
        for w in range(8):
            art = os.path.join(base, 'a%d-' % w)
            own = os.path.join(base, 'c%d' % w)
            os.makedirs(own)
            env = {'PATH': '/usr/bin:/bin', 'FUZZ_CWD': base, 'TZ': 'UTC0',
                   'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:handle_abort=1:quarantine_size_mb=16', 'UBSAN_OPTIONS': 'print_stacktrace=0'}
            log = open(os.path.join(base, 'log%d' % w), 'wb')
            ps.append(subprocess.Popen([exes['fuzz'], own, corpus, '-seed=%d' % (seed * 100 + w), '-max_total_time=%d' % secs, '-timeout=60', '-rss_limit_mb=3000',
                                        '-max_len=%d' % (4000 if tier == 'quick' else 12000), '-dict=' + dic, '-artifact_prefix=' + art, '-print_final_stats=1', '-verbosity=1'],
                                       stdout=subprocess.DEVNULL, stderr=log, stdin=subprocess.DEVNULL, env=env))
        for p in ps:
            try:
                p.wait(secs + 150)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        n = 0
        cov = 0
        for w in range(8):
            t = open(os.path.join(base, 'log%d' % w), 'rb').read().decode('utf-8', 'replace')
            for l in t.split('\n'):
                if 'stat::number_of_executed_units' in l:
                    n += int(l.split(':')[-1])
                if ' cov: ' in l:
                    try:
                        cov = max(cov, int(l.split(' cov: ')[1].split()[0]))
                    except ValueError:
                        pass
        arts = sorted(glob.glob(os.path.join(base, 'a[0-9]-*')))
        self.found = []
        for a in arts:
            d = open(a, 'rb').read()
            if len(d) < 4 or os.path.basename(a).split('-')[1] in ('slow',):
                continue
            self.found.append({'kind': 'fuzz', 'fmt': 'x', 'args': decode_fuzz(d), 'data': base64.b64encode(d[3:]).decode()})
        self.fuzz_stats = {'libfuzzer_executions': n, 'libfuzzer_edges': cov, 'libfuzzer_artifacts': len(arts)}
        shutil.rmtree(base, ignore_errors=True)

    def fixed(self, tier):
        return self.found + self.long_cases()

    def long_cases(self):
        """lists and files that fill what is there to hold them"""
        res = []

        def add(lines, *args):
            res.append({'fmt': 'hex', 'kind': 'long', 'args': ['-i', 'hex'] + list(args), 'data': base64.b64encode('\n'.join(lines + ['']).encode()).decode()})
        lead = ['2345 F800 2345 2020'] * 3
        for i, size in enumerate((163840, 163841, 200000, 262143)):
            info = '#S1 %04X FF7F %04X %04X' % (0x8000 | i, 0x0800 * (i & 1) | size >> 16, size & 0xFFFF)
            add(lead + [info] + ['#S1 %04X %04X 4142 4344' % (0x2000 | i << 8 | s >> 8, (s & 255) << 8 | 0x40) for s in range(32767, -1, -1)] + [info])
        # every CRC address in every mode, before and after a file
        crc = ['#S2 %04X FF7F %04X %04X' % (0x8000 | p, 0x1000 | m << 9 | a & 511, a * 3 & 0xFFFF) for p in (0, 7) for m in range(8) for a in range(0, 512, 7 if m else 1)]
        add(lead + crc + ['#S2 8000 FF7F 0800 000B'] + ['#S2 2000 %04X 4142 4344' % (s << 8) for s in (0, 1, 2)] + crc, '-p')
        # full lists of alternative frequencies, shifted by fillers
        for n in (225, 248, 249):
            for shift in (0, 1):
                for fill in (205, 224, 250, 0, 251):
                    c = [n] + [1 + (7 * k) % 204 for k in range(2 * (n - 224) + 4)]
                    if shift:
                        c.insert(1 + len(c) // 3, fill)
                    c += [fill] * (len(c) & 1)
                    add(lead + ['2345 %04X %04X 4142' % (k & 3, c[2 * k] << 8 | c[2 * k + 1]) for k in range(len(c) // 2)]
                        + ['2345 E004 %04X 3456' % (c[2 * k] << 8 | c[2 * k + 1]) for k in range(len(c) // 2)], '-p')
        # very long lines and fields
        for fmt in ('hex', 'tef', 'bits'):
            for t in (' ', 'F', '-', '\0', 'P', '2345 ', 'R1', '\n', '0'):
                res.append({'fmt': fmt, 'kind': 'long', 'args': ['-i', fmt], 'data': '', 'repeat': [t, 1500000 // len(t)]})
        for f, line in (('README.DAT', 'x;1.0;v;c;%s'), ('README.DAT', 'x;1.0;v;c;ISO 8859-15 %s;z'), ('NAMES.DAT', 'CID;LID;NID;NAME\n9;1;1;%s'), ('POINTS.DAT', 'TABCD;LCD;%s\n9;1;1'),
                        ('POINTS.DAT', 'TABCD;LCD;XCOORD\n9;1;%s'), ('LOCATIONDATASETS.DAT', 'CID;TABCD;%s\n9;9;1'), ('LOCATIONDATASETS.DAT', 'CID;TABCD\n9;%s')):
            for t in ('1', 'a', ';', ' '):
                res.append({'fmt': 'hex', 'kind': 'long', 'args': ['-i', 'hex', '-l', 'lt'], 'data': '', 'file': [f, line, t, 300000]})
        return res

    def extra_evidence(self):
        return self.fuzz_stats

    # ---- generators ----
    def gen_input(self, r, fmt, small=False):
        kind = r.choice(['structured', 'structured', 'structured', 'bytes'])
        if fmt == 'mpx':
            n = r.choice([0, 1, 7, 100, 8190, 8192, 8195, r.randrange(9000 if small else 40000)])
            k = r.random()
            if k < 0.4:
                d = r.randbytes(n)
            elif k < 0.6:
                d = b'\0' * n
            elif k < 0.8:
                d = (r.choice([b'\xff\x7f\x00\x80', b'\xff\x7f', b'\x00\x80']) * n)[:n]
            else:
                d = bytes(r.choice(b'\0\xff\x7f\x80') for _ in range(n))
            return {'fmt': fmt, 'data': base64.b64encode(d).decode(), 'kind': 'mpx'}
        if kind == 'bytes':
            n = r.choice([0, 1, 15, 16, 17, 100, 1000, 5000])
            alpha = r.choice([bytes(range(256)), b'01', b'0123456789ABCDEF \n', b'0123456789ABCDEFabcdef -#SPR\r\n', b'PR0123456789\n', b'\n', b'0'])
            d = bytes(r.choice(alpha) for _ in range(n))
        else:
            w = {k: 1 for k in r.sample(sorted(ALL), r.choice([1, 2, 5, len(ALL)]))}
            tx = G.Tx(r, w, drop=r.choice([0, 0, 0.05, 0.3]), pi_err=r.choice([0, 0, 0.1]), pi_switch=r.choice([0, 0.02]), run=r.choice([0, 4, 40]), bg=r.choice([0, 0.05]), rep=r.choice([0, 0, 0.1]), corner=r.choice([0, 0, 0.02]))
            gs = tx.groups(r.choice([10, 40]) if small else r.choice([20, 100, 300]))
            if fmt == 'hex':
                d = ''.join((messy_line(r, b, s) if r.random() < 0.05 else G.to_hex(b, s)) + '\n' for b, s in gs).encode('latin-1', 'replace')
            elif fmt == 'tef':
                d = ''.join(('P%04X\n' % b[0] if b[0] is not None else '') + 'R%04X%04X%04X%02X\n' % tuple([x or 0 for x in b[1:]] + [sum(3 << (4, 2, 0)[k] for k in range(3) if b[k + 1] is None)])
                            for b, s in gs).encode()
            else:
                d = ''.join(BT.bits_of(BT.group_words([r.randrange(65536) if x is None else x for x in b])) for b, s in gs).encode()
            if r.random() < 0.6:
                d = mutate(r, d)
        return {'fmt': fmt, 'data': base64.b64encode(d).decode(), 'kind': kind}

    def gen(self, r, tier):
        fmt = r.choice(['hex', 'hex', 'hex', 'tef', 'bits', 'bits', 'mpx'])
        if r.random() < 0.08:
            return self.gen_sndfile(r)
        c = self.gen_input(r, fmt)
        a = ['-i', fmt]
        for f, p in (('-p', 0.4), ('-R', 0.3), ('-u', 0.3), ('-E', 0.3), ('--no-fec', 0.2), ('-x', 0.15), ('-e', 0.1)):
            if r.random() < p:
                a.append(f)
        if fmt in ('hex', 'mpx') and r.random() < 0.4:
            a.append('-s')
        if r.random() < 0.2:
            a += ['-t', r.choice(['%c', '%f', '', '%Y%f%f', 'x' * 100, '%', '%E', '%%', '%100Y', '\xff'])]
        if fmt == 'mpx':
            a += ['-r', r.choice(['171000', '171k', '192000', '1M', '40M', '250k', '217183'] + (['128k', '128000'] if '-s' not in a else []))]
            if r.random() < 0.4:
                a += ['-c', str(r.randrange(1, 33))]
        c['args'] = a
        if fmt != 'mpx' and r.random() < 0.25:
            c['kind'] = 'tables'
            c['fmt'] = 'hex'
            c['args'] = ['-i', 'hex'] + [x for x in a[2:]]
            nt = r.choice([0, 1, 2])
            ltns = r.sample(range(1, 64), nt)
            tabs = [gen_table(r, n) for n in ltns]
            for t in tabs:       # points that lead to themselves, or in a small circle
                for p in r.sample(t['points'], r.choice([0, 0, 1, 2, len(t['points'])]) if len(t['points']) > 1 else 0):
                    p['off'] = True
                    p[r.choice(['pos', 'neg'])] = p['lcd'] if r.random() < 0.7 else r.choice(t['points'])['lcd']
            lcds = [p['lcd'] for t in tabs for p in t['points']] or [1]
            tx = G.Tx(r, {'tmc': 5, 'ps': 1}, locs={'ltns': ltns + [5], 'lcds': lcds}, drop=r.choice([0, 0.02]))
            c['data'] = base64.b64encode(''.join(G.to_hex(b, s) + '\n' for b, s in tx.groups(120)).encode()).decode()
            c['tables'] = tabs
            c['tseed'] = r.randrange(1 << 30)
            k = r.random()
            keys = ''.join(','.join(str(r.choice([r.randrange(32), r.randrange(256), r.randrange(-300, 70000), 0, 32, ''])) for _ in range(r.choice([4, 4, 4, 3, 5]))) + r.choice(['\n', '\r\n'])
                           for _ in range(r.choice([0, 3, 40])))
            if r.random() < 0.5:
                keys += ''.join('%d,%d,%d,%d\n' % (e, r.randrange(256), r.randrange(8), r.randrange(16)) for e in range(32))
            c['keys'] = base64.b64encode(mutate(r, keys.encode()) if r.random() < 0.4 else keys.encode()).decode()
        return c

    def gen_sndfile(self, r):
        """a sound file: header with ordinary, extreme or damaged values"""
        ch = r.choice([1, 1, 2, 3, 5, 7, 31, 32, 255, 1023, 1024, 1025, 8191, 8192, 8193, 11000, 65535, 0, r.randrange(65536)])
        rate = r.choice([171000, 171000, 192000, 128000, 127999, 44100, 1, 0, 250000, 10 ** 6, 39999999, 40 * 10 ** 6, 40 * 10 ** 6 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, r.randrange(128000, 50 * 10 ** 6)])
        tag, bits = r.choice([(1, 16), (1, 16), (1, 8), (1, 24), (1, 32), (3, 32), (3, 64), (6, 8), (7, 8), (2, 4), (17, 4), (r.randrange(65536), r.choice([0, 1, 8, 16, 64]))])
        n = r.choice([0, 1, 100, 8191, 8192, 8193, 30000, r.randrange(40000)])
        d = r.choice([r.randbytes(n), b'\0' * n, (b'\xff\x7f\x00\x80' * n)[:n]])
        al = max(1, ch * bits // 8) & 0xFFFF
        size = r.choice([len(d), len(d), len(d), 0, len(d) // 2, 2 * len(d) + 1, 2 ** 32 - 1])
        h = struct.pack('<4sI4s4sIHHIIHH', b'RIFF', (36 + len(d)) & 0xFFFFFFFF, b'WAVE', b'fmt ', 16, tag, ch, rate, rate * al & 0xFFFFFFFF, al, bits)
        f = h + struct.pack('<4sI', b'data', size) + d
        if r.random() < 0.15:
            f = struct.pack('>4sIIIII', b'.snd', 24, len(d), r.choice([2, 3, 4, 5, 6, 7]), rate, ch) + d
        if r.random() < 0.3:
            f = mutate(r, f[:60]) + f[60:]
        a = ['-f', r.choice(['-', 'x.wav'])]
        for o, p in (('-p', 0.2), ('-s', 0.3), ('-x', 0.2), ('-E', 0.2)):
            if r.random() < p:
                a.append(o)
        if r.random() < 0.2:
            a += ['-t', '%c %f']
        if r.random() < 0.1:
            a += ['-r', '192000', '-c', '2']
        return {'fmt': 'snd', 'kind': 'sndfile', 'args': a, 'data': base64.b64encode(f).decode()}

    def judge(self, case, env):
        data = base64.b64decode(case['data'])
        cwd = os.path.join(env.tmp, 'c01')
        shutil.rmtree(cwd, ignore_errors=True)
        os.makedirs(cwd)
        args = list(case['args'])
        fmt = case['fmt']
        may_fail = fmt in ('mpx', 'x', 'snd')
        if case['kind'] == 'tables':
            rr = random.Random(case['tseed'])
            for i, t in enumerate(case['tables']):
                d = os.path.join(cwd, 't%d' % i)
                write_table(d, t)
                if rr.random() < 0.6:
                    may_fail = True
                    for f in sorted(os.listdir(d)):
                        p = os.path.join(d, f)
                        if rr.random() < 0.4:
                            b = open(p, 'rb').read()
                            open(p, 'wb').write(mutate(rr, b))
                        if rr.random() < 0.05:
                            os.remove(p)
                args += ['-l', d]
            with open(os.path.join(cwd, 'service_key_table.csv'), 'wb') as f:
                f.write(base64.b64decode(case['keys']))
        if 'repeat' in case:
            data += case['repeat'][0].encode() * case['repeat'][1]
        if 'file' in case:
            f, line, t, n = case['file']
            os.makedirs(os.path.join(cwd, 'lt'))
            open(os.path.join(cwd, 'lt', f), 'w').write(line % (t * n) + '\n')
            may_fail = True
        if fmt == 'snd':
            open(os.path.join(cwd, 'x.wav'), 'wb').write(data)
        live = None
        if fmt in ('hex', 'tef'):
            if data and not data.endswith(b'\n'):
                data += b'\n'
            l = '%04X %04X %04X %04X\n' % tuple(NEUTRAL) if fmt == 'hex' else 'P%04X\nR%04X%04X%04X00\n' % tuple(NEUTRAL)
            data += l.encode() * 5
            live = True
        elif fmt == 'bits':
            data += BT.bits_of(BT.group_words(NEUTRAL)).encode() * 60
            live = True
        r = env.sut('driver-san').run(args, data, cwd=cwd, timeout=60)
        tags = [case['kind'] if case['kind'] != 'structured' else fmt]
        msg = None
        nt = len(data) >= 40
        err = r.err.decode('utf-8', 'replace')
        if r.timed_out:
            msg = 'no end after 60 s'
        elif r.exit is None or r.exit == 99 or 'Sanitizer' in err or 'runtime error:' in err:
            rep = [l for l in err.split('\n') if 'runtime error' in l or 'ERROR: ' in l or 'SUMMARY' in l or 'Assertion' in l or l.strip().startswith('#')]
            msg = '%s: %s\n%s' % (args, r.how(), '\n'.join(rep[:14]))
        elif r.exit not in (0, 1) or r.exit == 1 and not may_fail:
            msg = '%s: %s: %s' % (args, r.how(), err[-300:])
        elif r.exit == 0 and live:
            out = r.err if '-e' in args else r.out
            ls = [l for l in out.split(b'\n') if l]
            want = b'%04X F800' % PI if '-x' in args else b'0x%04X' % PI
            if not any(want in l for l in ls[-1:]):
                msg = '%s: the clean groups at the end of the input are not decoded; the last line is %r' % (args, ls[-1:])
        return Verdict(msg, nt, tags, 1)

    def simplify(self, case):
        for i in range(2, len(case['args'])):
            if case['args'][i] in ('-p', '-R', '-u', '-E', '--no-fec', '-x', '-e', '-s'):
                yield dict(case, args=case['args'][:i] + case['args'][i + 1:])
        d = base64.b64decode(case['data'])
        n = len(d)
        k = n // 2
        while k:
            for i in range(0, n, k):
                yield dict(case, data=base64.b64encode(d[:i] + d[i + k:]).decode())
            if k < n // 64:
                break
            k //= 2
        if b'\n' in d:
            ls = d.split(b'\n')
            for i in range(len(ls)):
                yield dict(case, data=base64.b64encode(b'\n'.join(ls[:i] + ls[i + 1:])).decode())
        if case.get('tables'):
            for i in range(len(case['tables'])):
                yield dict(case, tables=case['tables'][:i] + case['tables'][i + 1:])

    def sample(self, case):
        d = base64.b64decode(case['data'])
        return {'args': case['args'], 'kind': case['kind'], 'bytes': len(d), 'start': d[:200].decode('latin-1')}


C.LISTS = []
CHECK = C()
