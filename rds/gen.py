"""Generators of RDS transmissions: infinite senders, interleaved into one station's group stream.

A sender yields (code, low5, b3, b4) with code = group number*2 + version bit, or
('C', stream, b1, b2, b3, b4) for a group on an RDS2 data stream.
"""
from . import model as M

ASCII = [ord(c) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ abcdefghijklmnopqrstuvwxyz0123456789 .,-!']
ODA_TYPES = [c for c in range(32) if (c >> 1, 'AB'[c & 1]) in
             {(5, 'A'), (6, 'A'), (7, 'A'), (8, 'A'), (9, 'A'), (11, 'A'), (12, 'A'), (13, 'A'), (15, 'A'),
              (3, 'B'), (4, 'B'), (5, 'B'), (6, 'B'), (7, 'B'), (8, 'B'), (9, 'B'), (10, 'B'), (11, 'B'), (12, 'B'), (13, 'B')}]
KNOWN_APPS = sorted(M.APPS)


def text_bytes(r, n, wild=None):
    """n bytes of text in the RDS character set"""
    k = r.random() if wild is None else wild
    if k < 0.5:
        return [r.choice(ASCII) for _ in range(n)]
    if k < 0.85:
        return [r.choice([x for x in range(0x20, 0x100)]) for _ in range(n)]
    return [r.randrange(256) for _ in range(n)]


UNI = ['a', 'b', 'Z', ' ', '0', 'é', 'ä', 'ß', 'Ω', 'Ж', '€', '語', '☃', 'ﬀ', '\u07ff', '\u0800', '\uffee', '𝄞', '😀', '"', '\\']


def utf8_text(r, maxlen, bad=0.1):
    s = b''
    while True:
        c = r.choice(UNI).encode()
        if len(s) + len(c) > maxlen:
            break
        s += c
        if r.random() < 0.03:
            break
    s = bytearray(s)
    if s and r.random() < bad:
        s[r.randrange(len(s))] = r.choice([0x80, 0xC0, 0xFF, 0xE2, 0xF4, 0xED, r.randrange(256)])
    return list(s)


def ucs2_text(r, maxchars, bad=0.1):
    n = r.randrange(0, maxchars + 1)
    out = []
    for _ in range(n):
        u = r.choice([r.randrange(0x20, 0x7F), r.randrange(0xA0, 0x800), r.randrange(0x800, 0xD800), r.randrange(0xE000, 0xFFFE), 0x0D00 + r.randrange(256), 0x410 + r.randrange(64)])
        if r.random() < bad * 0.05:
            u = r.randrange(0xD800, 0xE000)
        out += [u >> 8, u & 255]
    return out


def segs_order(r, n):
    k = r.random()
    o = list(range(n))
    if k < 0.72:
        return o
    if k < 0.8:
        i = r.randrange(n)
        return o[i:] + o[:i]
    if k < 0.88:
        i = r.randrange(n)
        o.insert(i, o[i])
        return o
    if k < 0.95:
        del o[r.randrange(n)]
        return o
    r.shuffle(o)
    return o


def af_codes(r):
    """code sequence of one AF transmission"""
    k = r.random()
    if k < 0.35:        # method A
        n = r.randrange(1, 26)
        l = [224 + n]
        for _ in range(n):
            if r.random() < 0.08:
                l += [250, r.randrange(1, 136)]
            else:
                l.append(r.choice([r.randrange(1, 205), 1, 204, r.randrange(1, 205)]))
        if r.random() < 0.2:
            l.insert(r.randrange(1, len(l) + 1), 205)
    elif k < 0.75:      # method B
        n = r.randrange(1, 13)
        t = r.randrange(1, 205)
        l = [224 + 2 * n + 1, t]
        pool = [x for x in range(1, 205) if x != t]
        r.shuffle(pool)
        for i in range(n):
            f = pool[i]
            p = [min(t, f), max(t, f)] if r.random() < 0.6 else [max(t, f), min(t, f)]
            l += p
        if r.random() < 0.15:
            i = r.randrange(2, len(l))
            l[i] = r.choice([l[r.randrange(1, len(l))], r.randrange(1, 205), t])
    elif k < 0.9:       # damaged
        n = r.randrange(0, 26)
        l = [224 + n] + [r.choice([r.randrange(1, 205), r.randrange(256), 205, 250]) for _ in range(max(0, n + r.randrange(-3, 5)))]
    else:
        l = [r.randrange(256) for _ in range(r.randrange(1, 20))]
    if len(l) % 2:
        l.append(r.choice([205, 205, 205, 224]))
    return l


ALL_SENDERS = 'ps 15b rt rtp ertp ert lps ptyn ct eon slc oda dab tdc misc random tmc rft'.split()


class Tx:
    """One transmission. w: weights of the senders; opts: noise parameters."""

    def __init__(self, r, weights, drop=0.0, pi_err=0.0, pi_switch=0.0, run=4.0, pi=None, drop_kind=None, keys=None, locs=None, bg=0.0, burst=0.0, rep=0.0, corner=0.0):
        self.r = r
        self.w = weights
        # now and then a single group of something else, or a (nearly) lost group
        rest = [k for k in ALL_SENDERS if k not in weights]
        self.bg = bg if rest else 0
        self.bg_names = r.sample(rest, min(len(rest), r.choice([1, 2, 4, 20]))) if bg else []
        self.burst = burst
        # groups sent twice, and special values in the last two blocks
        self.rep, self.corner = rep, corner
        self.drop, self.pi_err, self.pi_switch, self.run = drop, pi_err, pi_switch, run
        self.pis = [pi if pi is not None else rand_pi(r)]
        self.pi = self.pis[0]
        self.pty = r.randrange(32)
        self.tp = r.randrange(2)
        self.flags = r.randrange(4)
        self.locs = locs
        self.rt_hint = None
        self.ert_enc = None
        self.gens = {}
        self.free = list(ODA_TYPES)
        r.shuffle(self.free)
        self.n_free = 0

    def oda_type(self, prefer=None):
        if prefer is not None and self.r.random() < 0.5:
            return prefer
        self.n_free += 1
        return self.free[self.n_free % len(self.free)]

    # ---- senders
    def s_ps(self):
        r = self.r
        af = []
        ps = None
        while True:
            if ps is None or r.random() < 0.3:
                ps = text_bytes(r, 8)
                if r.random() < 0.15:
                    ps[r.randrange(8)] = r.choice([0x0D, 0, 0x20, 0x0A, 0x1F, 0x7F, 0xFF])
            for _ in range(r.choice([1, 1, 2, 3])):
                ver_b = r.random() < 0.25
                for s in segs_order(r, 4):
                    if not af:
                        af = af_codes(r)
                    di = r.randrange(2)
                    b4 = ps[2 * s] << 8 | ps[2 * s + 1]
                    if ver_b:
                        yield (1, self.flagbits() | di << 2 | s, None, b4)
                    else:
                        a, b = af.pop(0), af.pop(0)
                        yield (0, self.flagbits() | di << 2 | s, a << 8 | b, b4)
                    if r.random() < 0.02:
                        af = []

    def flagbits(self):
        if self.r.random() < 0.1:
            self.flags = self.r.randrange(4)
        return self.flags << 3

    def s_15b(self):
        r = self.r
        while True:
            l = r.randrange(32)
            yield (31, l, None, (31 << 11 | self.tp << 10 | self.pty << 5 | l) if r.random() < 0.8 else r.randrange(65536))

    def s_rt(self):
        r = self.r
        ab = r.randrange(2)
        last = None
        again = r.choice([0.05, 0.1, 0.5])
        while True:
            a = r.random() < 0.75
            size = 64 if a else 32
            k = r.random()
            n = r.choice([r.randrange(0, size + 1), size, size, r.randrange(0, 20)])
            t = text_bytes(r, n)
            if r.random() < 0.8:
                t = [x if x not in (0, 0x0D) else 0x41 for x in t]
            term = r.random() < 0.6
            if last and r.random() < again:      # the same text again, or almost
                a, n, t, term = last
                size = 64 if a else 32
                t = list(t)
                q = r.random()
                if q < 0.15 and t:
                    t = t[:r.randrange(len(t) + 1)]
                elif q < 0.3 and n < size:
                    t = (t + text_bytes(r, r.randrange(1, 9)))[:size]
                elif q < 0.45 and t:
                    t[r.randrange(len(t))] = r.randrange(0x20, 0x7F)
                n = len(t)
            last = (a, n, list(t), term)
            if len(t) < size and term:
                t = t + [0x0D]
            per = 4 if a else 2
            pad = r.choice([0x20, 0x20, 0x20, 0x00])
            while len(t) % per:
                t.append(pad)
            if not term and r.random() < 0.3:
                t += [0x20] * (size - len(t))
            self.rt_hint = (n, a)
            nseg = max(1, len(t) // per)
            t += [0x20] * (nseg * per - len(t))
            if r.random() < 0.85:
                ab ^= 1
            for _ in range(r.choice([1, 2, 2, 3])):
                for s in segs_order(r, nseg):
                    c = t[s * per:s * per + per]
                    if a:
                        yield (4, ab << 4 | s, c[0] << 8 | c[1], c[2] << 8 | c[3])
                    else:
                        yield (5, ab << 4 | s, None, c[0] << 8 | c[1])
                if r.random() < 0.05:
                    break

    def s_rtp(self, app=0x4BD7):
        r = self.r
        code = self.oda_type()
        tog, run = r.randrange(2), r.randrange(2)
        while True:
            if r.random() < 0.3 or app == 0:
                yield (6, code, r.randrange(65536), app)
            for _ in range(r.choice([1, 2, 4])):
                if r.random() < 0.2:
                    tog ^= 1
                if r.random() < 0.1:
                    run ^= 1
                tags = []
                for maxl in (64, 32):
                    ln = r.randrange(1, maxl + 1)
                    st = r.randrange(64)
                    if self.rt_hint and r.random() < 0.8:
                        n = max(1, self.rt_hint[0])
                        st = min(63, r.randrange(0, n))
                        ln = r.choice([1, max(1, n - st), max(1, n - st + 1), r.randrange(1, maxl + 1), max(1, (n - st) // 2)])
                        ln = min(ln, maxl)
                    tags.append((r.choice([0, r.randrange(64), r.randrange(1, 64), r.randrange(1, 12)]), st, ln))
                (c1, s1, l1), (c2, s2, l2) = tags
                low = tog << 4 | run << 3 | c1 >> 3
                b3 = (c1 & 7) << 13 | s1 << 7 | (l1 - 1) << 1 | c2 >> 5
                b4 = (c2 & 31) << 11 | s2 << 5 | (l2 - 1)
                yield (code, low, b3, b4)

    def s_ertp(self):
        return self.s_rtp(0x4BD8)

    def s_ert(self):
        r = self.r
        code = self.oda_type()
        enc = r.choice([None, 0, 1, 1])
        while True:
            k = r.random()
            if k < 0.35 or enc is None:
                if enc is not None and r.random() < 0.15:
                    enc ^= 1
                yield (6, code, (r.randrange(32768) << 1 | enc) if enc is not None else r.randrange(65536), 0x6552)
                if enc is None:
                    enc = r.choice([0, 1])
            if enc == 1:
                t = utf8_text(r, r.choice([128, 127, 30, 60, 0, 124]))
                self.rt_hint = (len(bytes(t).decode('utf-8', 'replace')), True)
                term = [0x0D]
            else:
                t = ucs2_text(r, r.choice([64, 63, 10, 30]))
                self.rt_hint = (len(t) // 2, True)
                term = [0, 0x0D]
            if len(t) < 128 and r.random() < 0.85:
                t += term
            while len(t) % 4:
                t.append(0x20)
            t = t[:128]
            if not t:
                t = [0x0D, 0x20, 0x20, 0x20]
            for _ in range(r.choice([1, 2])):
                for s in segs_order(r, len(t) // 4):
                    c = t[4 * s:4 * s + 4]
                    yield (code, s, c[0] << 8 | c[1], c[2] << 8 | c[3])

    def s_lps(self):
        r = self.r
        while True:
            t = utf8_text(r, r.choice([32, 32, 31, 20, 10, 0]))
            if len(t) < 32 and r.random() < 0.8:
                t.append(0x0D)
            while len(t) % 4 or not t:
                t.append(0x20)
            if r.random() < 0.3:
                t += [0x20] * (32 - len(t))
            for _ in range(r.choice([1, 2])):
                for s in segs_order(r, len(t) // 4):
                    c = t[4 * s:4 * s + 4]
                    yield (30, self.flagbits() | s, c[0] << 8 | c[1], c[2] << 8 | c[3])

    def s_ptyn(self):
        r = self.r
        ab = r.randrange(2)
        t = None
        while True:
            if t is None or r.random() < 0.6:
                t = text_bytes(r, 8)
                if r.random() < 0.15:
                    t[r.randrange(8)] = 0x0D
                if r.random() < 0.8:
                    ab ^= 1
            for s in segs_order(r, 2):
                c = t[4 * s:4 * s + 4]
                yield (20, ab << 4 | r.randrange(8) << 1 | s, c[0] << 8 | c[1], c[2] << 8 | c[3])

    def s_ct(self):
        r = self.r
        while True:
            k = r.random()
            if k < 0.7:
                mjd = r.choice([r.randrange(15079, 88128), r.randrange(58000, 64000), r.randrange(15079, 15085), r.randrange(88120, 88128), 51603 + r.randrange(4), 40587])
                hour, minute = r.randrange(24), r.randrange(60)
                if r.random() < 0.3:
                    hour, minute = r.choice([(0, 0), (23, 59), (0, 29), (23, 30), (12, 0)])
                half = r.choice([0, 0, r.randrange(0, 29), r.randrange(0, 29)])
                sign = r.randrange(2)
            elif k < 0.9:
                mjd = r.randrange(1 << 17)
                hour, minute, half, sign = r.randrange(32), r.randrange(64), r.randrange(32), r.randrange(2)
            else:
                mjd, hour, minute, half, sign = r.randrange(58000, 64000), r.randrange(20, 28), r.randrange(50, 64), r.randrange(24, 32), r.randrange(2)
            low = r.randrange(8) << 2 | mjd >> 15
            yield (8, low, (mjd & 0x7FFF) << 1 | hour >> 4, (hour & 15) << 12 | minute << 6 | sign << 5 | half)

    def s_eon(self):
        r = self.r
        nets = [{'pi': rand_pi(r), 'ps': text_bytes(r, 8), 'af': [], 's': 0} for _ in range(r.choice([1, 2, 3, 8, 20]))]
        while True:
            n = r.choice(nets)
            if r.random() < 0.02:
                n['ps'] = text_bytes(r, 8)
            k = r.random()
            tp = r.randrange(2)
            if k < 0.12:
                yield (29, tp << 4 | r.randrange(16), None, n['pi'])
            elif k < 0.5:
                s = n['s'] if r.random() < 0.95 else r.randrange(4)
                n['s'] = (s + 1) % 4
                yield (28, tp << 4 | s, n['ps'][2 * s] << 8 | n['ps'][2 * s + 1], n['pi'])
            elif k < 0.7:
                if not n['af']:
                    n['af'] = af_codes(r)
                a, b = n['af'].pop(0), n['af'].pop(0)
                yield (28, tp << 4 | 4, a << 8 | b, n['pi'])
            else:
                v = r.choice([5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 12, 13, 14])
                b3 = r.choice([r.randrange(65536), r.randrange(65536), 0, rand_pin(r) if v == 14 else r.randrange(65536)])
                if v == 12 and r.random() < 0.2:
                    b3 &= 0xF000
                yield (28, tp << 4 | v, b3, n['pi'])

    def s_slc(self):
        r = self.r
        while True:
            pin = r.choice([0, rand_pin(r), rand_pin(r), r.randrange(65536)])
            if r.random() < 0.2:
                yield (3, r.randrange(32), None, pin)
            else:
                v = r.randrange(8)
                b3 = r.randrange(2) << 15 | v << 12 | r.choice([r.randrange(4096), 0xE0 + r.randrange(5), 0xA0 + r.randrange(7), 0xD0 + r.randrange(5), 0xF0 + r.randrange(6), r.randrange(128), 0])
                yield (2, r.randrange(32), b3, pin)

    def s_oda(self):
        """other applications and unassigned open data groups"""
        r = self.r
        while True:
            k = r.random()
            if k < 0.2:
                yield (6, self.oda_type(), r.randrange(65536), r.choice([0x0093, r.choice(KNOWN_APPS), r.randrange(65536), 0]))
            elif k < 0.25:
                yield (6, r.randrange(32), r.randrange(65536), r.choice([r.choice(KNOWN_APPS), r.randrange(65536)]))
            else:
                for _ in range(r.choice([1, 3])):
                    yield (r.choice(ODA_TYPES), r.randrange(32), r.randrange(65536), r.randrange(65536))

    def s_dab(self):
        r = self.r
        code = self.oda_type()
        chans = sorted(M.DAB)
        while True:
            yield (6, code, r.randrange(65536), 0x0093)
            for _ in range(r.choice([1, 4])):
                f = r.choice(chans) // 16 if r.random() < 0.7 else r.randrange(1 << 18)
                f = min((1 << 18) - 1, max(0, f + (r.choice([-1, 1]) if r.random() < 0.05 else 0)))
                es = int(r.random() < 0.1)
                yield (code, es << 4 | r.randrange(4) << 2 | f >> 16, f & 0xFFFF, r.randrange(65536))

    def s_tdc(self):
        r = self.r
        while True:
            if r.random() < 0.3:
                for _ in range(3):
                    c = text_bytes(r, 2)
                    yield (11, r.randrange(32), None, c[0] << 8 | c[1])
            else:
                n = r.choice([32, 32, 4, 1, r.randrange(1, 33)])
                t = text_bytes(r, n * 4)
                if r.random() < 0.5:
                    t = [x if x != 0x0D else 0x41 for x in t]
                    if n < 32:
                        t[-1 - r.randrange(min(4, len(t)))] = 0x0D
                for s in segs_order(r, n):
                    c = t[4 * s:4 * s + 4]
                    yield (10, s, c[0] << 8 | c[1], c[2] << 8 | c[3])

    def s_misc(self):
        """6A/6B in-house, 7A, 9A, 13A, ... with arbitrary content"""
        r = self.r
        while True:
            c = r.choice([12, 13, 12, 13, 14, 18, 26, 16, 24, 25, 22, 23])
            yield (c, r.randrange(32), r.randrange(65536), r.randrange(65536))

    def s_random(self):
        r = self.r
        while True:
            yield (r.randrange(32), r.randrange(32), r.choice([r.randrange(65536), r.randrange(65536), 0, 0xFFFF]), r.choice([r.randrange(65536), r.randrange(65536), 0, 0x0D0D]))

    def s_other(self):
        """groups of all the types that no sender here uses"""
        r = self.r
        own = {'ps': (0, 1), 'rt': (4, 5), 'rtp': (4, 5, 6), 'ertp': (6,), 'ert': (6,), 'lps': (30,), 'ptyn': (20,), 'ct': (8,), 'eon': (28, 29), 'slc': (2, 3), 'oda': (6,), 'dab': (6,),
               'tdc': (10, 11), 'misc': (12, 13, 14, 18), 'tmc': (6, 16), '15b': (31,)}
        used = {c for k in self.w for c in own.get(k, ())}
        if any(k in self.w for k in ('oda', 'dab', 'rtp', 'ertp', 'ert', 'tmc')):
            used |= set(ODA_TYPES)
        codes = [c for c in range(32) if c not in used] + (['C'] if 'rft' not in self.w else [])
        while codes:
            c = r.choice(codes)
            if c == 'C':
                yield ('C', r.randrange(1, 4), r.randrange(65536), r.randrange(65536), r.randrange(65536), r.randrange(65536))
            else:
                yield (c, r.randrange(32), r.randrange(65536), r.randrange(65536))

    def s_tmc(self):
        r = self.r
        code = self.oda_type(16)
        ltn = r.choice([0, r.randrange(1, 64), r.randrange(1, 64)])
        ltns = None
        if self.locs:
            ltns = self.locs['ltns']
            ltn = r.choice([0, r.choice(ltns), r.choice(ltns), r.choice(ltns)])
        evs = sorted(M.EVENTS)
        qevs = [e for e in evs if M.EVENTS[e]['descq']]
        by_q = {}
        for e in qevs:
            by_q.setdefault(M.EVENTS[e]['q'], []).append(e)
        suppl = sorted(M.SUPPL)
        app = r.choice([0xCD46, 0xCD46, 0xCD47])

        def sysinfo(var):
            if var == 0:
                return (6, code, ltn << 6 | r.randrange(2) << 5 | r.randrange(16), app)
            if var == 1:
                return (6, code, 1 << 14 | r.randrange(4) << 12 | r.randrange(64) << 6 | r.randrange(4) << 4 | r.choice([0, r.randrange(16)]), app)
            if var == 2:
                return (6, code, 2 << 14 | r.randrange(64) << 8 | r.choice([0, 0xE0 + r.randrange(5), r.randrange(256)]), app)
            return (6, code, 3 << 14 | r.randrange(1 << 14), app)

        def event():
            k = r.random()
            if k < 0.5:
                return r.choice(evs)
            if k < 0.85:
                return r.choice(by_q[r.choice(sorted(by_q))])
            return r.randrange(2048)

        def loc():
            if self.locs and r.random() < 0.9:
                return r.choice(self.locs['lcds'])
            return r.randrange(65536)

        def fields():
            bits = ''
            cur = None
            if r.random() < 0.06:     # a long stretch of road
                bits = ''.join('0001' + r.choice(['110', '111', '111']) for _ in range(r.choice([2, 3, 4, 15])))
            while len(bits) < 112:
                lab = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 6, 7, 8, 9, 9, 10, 11, 13, 14] if r.random() < 0.95 else [12, 15, 13, 0])
                size = M.FIELD_SIZE[lab]
                if lab == 9:
                    cur = event()
                    v = cur
                elif lab == 6:
                    v = r.choice([r.choice(suppl), r.randrange(256)])
                elif lab in (7, 8):
                    v = r.choice([r.randrange(256), r.randrange(96), r.randrange(96, 201), r.randrange(201, 256)])
                elif lab == 0:
                    v = r.randrange(1, 8)
                else:
                    v = r.randrange(1 << size) if size else 0
                bits += format(lab, '04b') + (format(v, '0%db' % size) if size else '')
                if lab == 9 and cur in M.EVENTS and M.EVENTS[cur]['descq'] and r.random() < 0.7:
                    five = M.EVENTS[cur]['q'] in M.QSIZE5
                    bits += format(4 if five else 5, '04b') + format(r.randrange(32 if five else 256), '05b' if five else '08b')
                if r.random() < 0.18:
                    break
            return bits

        def multi():
            ci = r.randrange(1, 7)
            e = event()
            y0 = 1 << 15 | r.randrange(2) << 14 | r.randrange(8) << 11 | e
            parts = [(y0, loc())]
            bits = ''
            if e in M.EVENTS and M.EVENTS[e]['descq'] and r.random() < 0.6:
                five = M.EVENTS[e]['q'] in M.QSIZE5
                bits += format(4 if five else 5, '04b') + format(r.randrange(32 if five else 256), '05b' if five else '08b')
            bits += fields()
            n = min(4, max(1, -(-len(bits) // 28)))
            if r.random() < 0.1:
                n = r.randrange(1, 5)
            bits = (bits + '0' * 112)[:28 * n]
            for i in range(n):
                w = int(bits[28 * i:28 * i + 28], 2)
                gsi = n - 1 - i
                parts.append(((1 << 14 if i == 0 else 0) | gsi << 12 | w >> 16, w & 0xFFFF))
            return [(code, ci, y, z) for y, z in parts]
        yield sysinfo(0)
        while True:
            k = r.random()
            if k < 0.1:
                if r.random() < 0.15:
                    ltn = r.choice(ltns + [0]) if ltns else r.choice([0, r.randrange(64)])
                yield sysinfo(r.choice([0, 0, 1, 2, 1, 2, 3]))
            elif k < 0.2:
                encid = r.randrange(32)
                l = r.choice(ltns) if ltns else r.randrange(64)
                yield (code, 0, r.randrange(32) << 11 | r.randrange(64) << 5 | encid, l << 10 | r.randrange(1024))
            elif k < 0.3:
                v = r.choice([4, 5, 6, 8, 9, r.randrange(16)])
                if v in (4, 5) and r.random() < 0.8:
                    t = text_bytes(r, 8)
                    for s in segs_order(r, 2):
                        c = t[4 * s:4 * s + 4]
                        yield (code, 16 | 4 + s, c[0] << 8 | c[1], c[2] << 8 | c[3])
                else:
                    y, z = r.randrange(65536), r.randrange(65536)
                    if r.random() < 0.2:
                        y, z = r.choice([(0, z), (y, 0), (y, y), (0, 0), (y, y ^ 15 << 4 * r.randrange(4)), (y, y ^ 1 << r.randrange(16)), (y, y << 8 & 0xFF00 | y >> 8)])
                    if v == 6 and r.random() < 0.7:
                        y = r.randrange(1, 205) << 8 | r.choice([r.randrange(1, 205), 205, 0])
                    yield (code, 16 | v, y, z)
            elif k < 0.55:
                y = r.randrange(2) << 15 | r.randrange(2) << 14 | r.randrange(8) << 11 | event()
                yield (code, 8 | r.randrange(8), y, loc())
            elif k < 0.95:
                p = multi()
                q = r.random()
                if q < 0.08:
                    del p[r.randrange(len(p))]
                elif q < 0.12:
                    i = r.randrange(len(p))
                    p.insert(i, p[i])
                elif q < 0.2:
                    p2 = multi()
                    i = r.randrange(len(p) + 1)
                    p[i:i] = p2[:r.randrange(len(p2) + 1)]
                elif q < 0.24:
                    r.shuffle(p)
                yield from p
                if r.random() < 0.3:
                    yield from p
            else:
                yield (code, r.randrange(16), r.randrange(65536), r.randrange(65536))

    def s_rft(self):
        r = self.r
        npipes = r.choice([1, 1, 2, 4, 16])
        pipes = r.sample(range(16), npipes)
        files = {}
        st = r.randrange(1, 4)

        def cgroup(seven_fid_fn, data):
            b = [seven_fid_fn] + data
            return ('C', r.choice([1, 2, 3]) if r.random() < 0.3 else st, b[0] << 8 | b[1], b[2] << 8 | b[3], b[4] << 8 | b[5], b[6] << 8 | b[7])

        def info(p):
            f = files[p]
            app = f['app']
            b3 = int(f['crc']) << 11 | f['ver'] << 8 | f['id'] << 2 | f['size'] >> 16
            return cgroup(0x80, [p, app >> 8, app & 255, b3 >> 8, b3 & 255, f['size'] >> 8 & 255, f['size'] & 255])

        def newfile(p, tog):
            size = r.choice([r.randrange(1, 12), r.randrange(1, 60), r.randrange(1, 300), 5 * r.randrange(1, 20)])
            data = [r.randrange(256) for _ in range(size)]
            segs = [(data[i:i + 5] + [0xAA] * 5)[:5] for i in range(0, size, 5)]
            files[p] = dict(size=size, segs=segs, tog=tog, crc=r.randrange(2), ver=r.randrange(8), id=r.randrange(64),
                            app=r.choice([0xFF7F, 0xFF80, r.randrange(65536)]), todo=[])
        while True:
            p = r.choice(pipes)
            if p not in files:
                newfile(p, r.randrange(2))
                yield info(p)
            f = files[p]
            if not f['todo']:
                k = r.random()
                if 'sent' in f and k < 0.6:
                    newfile(p, f['tog'] ^ (1 if r.random() < 0.9 else 0))
                    f = files[p]
                    if r.random() < 0.9:
                        yield info(p)
                else:
                    if r.random() < 0.5:
                        yield info(p)
                o = list(range(len(f['segs'])))
                if r.random() < 0.5:
                    r.shuffle(o)
                if r.random() < 0.3 and o:
                    o.insert(r.randrange(len(o)), r.choice(o))
                if r.random() < 0.2 and o:
                    del o[r.randrange(len(o))]
                if r.random() < 0.05:
                    o.append(len(f['segs']) + r.randrange(5))
                f['todo'] = o
                f['sent'] = True
                if not o:
                    continue
            k = r.random()
            if k < 0.85:
                s = f['todo'].pop(0)
                d = f['segs'][s] if s < len(f['segs']) else [r.randrange(256) for _ in range(5)]
                yield cgroup(0x20 | p, [f['tog'] << 7 | s >> 8, s & 255] + d)
            elif k < 0.88:
                b3 = 1 << 12 | r.randrange(8) << 9 | r.randrange(512)
                yield cgroup(0x80, [p, f['app'] >> 8, f['app'] & 255, b3 >> 8, b3 & 255, r.randrange(256), r.randrange(256)])
            elif k < 0.9:
                yield info(p)
            else:
                fidfn = r.choice([0, 0x40 | r.randrange(64), 0x80, 0x80, 0x80, r.randrange(256)])
                d = [r.randrange(256) for _ in range(7)]
                if fidfn == 0x80:
                    d[0] = r.choice([r.randrange(64), r.randrange(64), r.randrange(256), r.choice(pipes)])
                    if d[0] < 16:
                        d[3] = r.randrange(1, 16) << 4 | d[3] & 15
                yield cgroup(fidfn, d)

    # ---- composition
    def groups(self, n, lead=3):
        """-> list of (blocks, stream)"""
        r = self.r
        out = []
        names = sorted(self.w)
        weights = [self.w[k] for k in names]
        cur = None
        left = 0
        for _ in range(lead):
            out.append(self.lead_group())
        while len(out) < n:
            if self.bg and r.random() < self.bg:
                sender = 'other' if r.random() < 0.5 else r.choice(self.bg_names)
                left += 1
            else:
                sender = None
            if left <= 0:
                cur = r.choices(names, weights)[0]
                left = 1 + int(r.expovariate(1.0 / self.run)) if self.run > 0 else 1
            left -= 1
            if self.pi_switch and r.random() < self.pi_switch:
                self.switch_pi()
            if r.random() < 0.02:
                self.pty = r.randrange(32)
                self.tp = r.randrange(2)
            sender = sender or cur
            if sender not in self.gens:
                self.gens[sender] = getattr(self, 's_' + sender)()
            g = next(self.gens[sender], None)
            if g is None:
                continue
            if g[0] == 'C':
                b, st = list(g[2:]), g[1]
            else:
                c, low, b3, b4 = g
                if b3 is None or (c & 1 and r.random() < 0.9):
                    b3 = self.pi
                b, st = [self.pi, self.mkb2(c, low), b3, b4], 0
            if self.corner and r.random() < self.corner:
                v = r.choice([0, 0xFFFF, self.pi, b[2], b[3], 0x8000, 1])
                k = r.choice([2, 3])
                if k == 3 or st or not b[1] & 0x0800:
                    b[k] = v
            out.append((self.noise(b, st), st))
            while self.rep and r.random() < self.rep:
                out.append((self.noise(b, st), st))
        return out

    def lead_group(self):
        return ([self.pi, self.mkb2(15, self.r.randrange(32)), self.pi, self.r.randrange(65536)], 0)

    def mkb2(self, code, low):
        return code << 11 | self.tp << 10 | self.pty << 5 | low

    def switch_pi(self):
        r = self.r
        if len(self.pis) > 1 and r.random() < 0.6:
            self.pi = r.choice(self.pis)
        else:
            p = rand_pi(r)
            if r.random() < 0.3:
                p = self.pi ^ 1 << r.randrange(16)
            self.pis.append(p)
            self.pi = p
        if r.random() < 0.5:
            self.gens = {}

    def noise(self, b, st):
        r = self.r
        if self.drop:
            b = [None if r.random() < self.drop else x for x in b]
        if self.burst and r.random() < self.burst:
            keep = r.choice([(0,), (0,), (1,), (2,), (3,), (0, 1), (0, 1), (0, 2), (0, 3), ()])
            b = [x if k in keep else None for k, x in enumerate(b)]
        if self.pi_err and st == 0 and b[0] is not None and r.random() < self.pi_err:
            b[0] = r.choice([b[0] ^ 1 << r.randrange(16), r.randrange(65536), r.choice(self.pis), 0, None])
        return b


def rand_pi(r):
    k = r.random()
    if k < 0.6:
        return r.randrange(1, 65536)
    if k < 0.8:
        return r.choice([0x1000, 0x54A7, 0x54A8, 0x994F, 0x9950, 0x9EFF, 0xAF12, 0xAFA5, 0xA123, 0xB001, 0xD003, 0xE10B, 0x0001, 0xFFFF, 0x1FFF, 0x2000, 0xA0A0, 0xAFAF, 0xAFA0])
    return r.choice([0xB, 0xD, 0xE, 0xA, 0x1, 0x9]) << 12 | r.randrange(4096)


def rand_pin(r):
    return r.randrange(1, 32) << 11 | r.randrange(0, 26) << 6 | r.choice([r.randrange(60), r.randrange(64)])


def to_hex(b, stream=0):
    s = ' '.join('----' if x is None else '%04X' % x for x in b)
    return ('#S%d ' % stream if stream else '') + s


def from_hex(line):
    st = 0
    if line.startswith('#S'):
        st = int(line[2])
        line = line[4:]
    return M.Group([None if x == '----' else int(x, 16) for x in line.split(' ')], st)


def simplify_hex(case, key='groups'):
    """Shrinking candidates: neutral blocks."""
    import json
    gs = case[key]
    for i, line in enumerate(gs):
        pre = line[:4] if line.startswith('#S') else ''
        bl = line[len(pre):].split(' ')
        for k in range(4):
            for v in ('0000', '----', '2020'):
                if bl[k] != v and not (v == '----' and k == 0) and not (v == '2020' and bl[k] in ('0000', '----')) and not (v == '0000' and bl[k] == '----'):
                    nb = bl[:k] + [v] + bl[k + 1:]
                    c = dict(case)
                    c[key] = gs[:i] + [pre + ' '.join(nb)] + gs[i + 1:]
                    yield c
