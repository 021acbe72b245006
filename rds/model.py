"""Independent reference decoder for the RDS/RDS2 group layer, written from the RDS standards and the
documented behaviour of redsea. Works on groups = (blocks[4] of int or None, stream, cprime).

Model(options).feed(group) returns the expected record (a dict, or Raw(...) if the text is not
representable and the program may print any valid record), or None if nothing is to be printed.
"""
import base64, json, os

T = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'tables.json'), encoding='utf-8'))
CHARSET = T['charset']
PTY, PTYR = T['pty'], T['pty_rbds']
APPS = {int(k): v for k, v in T['apps'].items()}
COUNTRY = {int(k): v for k, v in T['country'].items()}
CALL3 = {int(k): v for k, v in T['call3'].items()}
CALLLINK = {int(k): v for k, v in T['calllink'].items()}
DAB = {int(k): v for k, v in T['dab'].items()}
EVENTS = {int(k): v for k, v in T['events'].items()}
SUPPL = {int(k): v for k, v in T['suppl'].items()}
DI = T['di']


class BadText(Exception):
    """The text cannot be represented (invalid in its encoding)."""


ANY = object()   # matches any value in comparisons


class Approx:
    """Matches a number within a tolerance."""

    def __init__(self, v, tol):
        self.v, self.tol = v, tol


def hx(v, n=4):
    return '%0*X' % (n, v)


def country(cc, ecc):
    if ecc in COUNTRY and cc > 0:
        return COUNTRY[ecc][cc - 1]
    return '--'


def callsign(pi):
    """NRSC-4-B D.7: returns the call sign or ''"""
    if (pi & 0xFFF0) == 0xAFA0 and (pi & 0xF) < 0xA:
        pi = (pi << 12) & 0xFFFF
    elif (pi & 0xFF00) == 0xAF00:
        pi = (pi << 8) & 0xFFFF
    elif (pi & 0xF000) == 0xA000:
        pi = ((pi & 0x0F00) << 4) | (pi & 0xFF)
    if 0x9950 <= pi <= 0x9EFF:
        return CALL3.get(pi, '')
    if pi >> 12 in (0xB, 0xD, 0xE):
        return CALLLINK.get(pi & 0xF0FF, '')
    if 0x1000 <= pi <= 0x994F:
        k = pi <= 0x54A7
        n = pi - (0x1000 if k else 0x54A8)
        return ('K' if k else 'W') + chr(65 + n // 676 % 26) + chr(65 + n // 26 % 26) + chr(65 + n % 26)
    return ''


def fm_khz(code):
    return 87500 + 100 * code if 1 <= code <= 204 else None


def lfmf_khz(code):
    if 1 <= code <= 15:
        return 144 + 9 * code
    if 16 <= code <= 135:
        return 522 + 9 * (code - 15)
    return None


class AFList:
    def __init__(self):
        self.expect = 0
        self.got = []
        self.lfmf = False
        self.mem = [0] * 26     # what was last received at each position, also in earlier lists

    def clear(self):
        self.expect, self.got = 0, []

    def insert(self, c):
        khz = lfmf_khz(c) if self.lfmf else fm_khz(c)
        self.lfmf = False
        if khz is not None and self.expect > 0:
            if len(self.got) < self.expect:
                self.mem[len(self.got)] = khz
                self.got.append(khz)
            else:
                self.clear()
        elif c in (205, 224):
            pass
        elif 225 <= c <= 249:
            self.expect, self.got = c - 224, []
        elif c == 250:
            self.lfmf = True
        else:
            self.clear()

    def complete(self):
        return self.expect > 0 and len(self.got) == self.expect

    def method_b(self):
        if self.expect % 2 != 1 or len(self.got) < 3:
            return False
        # of an incomplete list the last pair may be incomplete: then the element is the one
        # received there before
        t = self.got[0]
        for i in range(1, len(self.got), 2):
            if t not in self.mem[i:i + 2]:
                return False
        return True


class Text:
    """Text assembled from bytes at positions; complete when received sequentially up to the first
    terminator or the whole length."""

    def __init__(self, n, enc='basic'):
        self.n = n
        self.enc = enc
        self.data = [0] * n
        self.seq = 0
        self.prev = 0
        self.last = ''

    def clear(self):
        self.seq = 0
        self.last = ''

    def resize(self, n):
        if n < self.n:
            del self.data[n:]
        else:
            self.data += [0x20] * (n - self.n)
        self.n = n

    def expected(self):
        if self.enc == 'ucs2':
            for i in range(0, self.n - 1, 2):
                if self.data[i] == 0 and self.data[i + 1] == 0x0D:
                    return i + 2
            return self.n
        try:
            return min(self.data.index(0x0D) + 1, self.n)
        except ValueError:
            return self.n

    def has_terminator(self):
        return 0x0D in self.data

    def complete(self):
        return self.seq >= self.expected()

    def bytes(self):
        n = self.expected()
        if self.enc == 'ucs2':
            out = []
            for i in range(0, n - 1, 2):
                h, l = self.data[i], self.data[i + 1]
                if self.seq > i + 1 and (h, l) not in ((0, 0), (0, 0x0D)):
                    out += [h, l]
                else:
                    out += [0, 0x20]
            return out
        return [b if (self.seq > i and b not in (0, 0x0D)) else 0x20
                for i, b in enumerate(self.data[:n])]

    def str(self):
        b = self.bytes()
        if self.enc == 'basic':
            return ''.join(CHARSET[x] for x in b)
        if self.enc == 'utf8':
            # kept as latin-1 surrogate; validity is decided when printed
            return bytes(b)
        units = [b[i] << 8 | b[i + 1] for i in range(0, len(b) - 1, 2)]
        if any(0xD800 <= u <= 0xDFFF for u in units):
            raise BadText()
        return ''.join(map(chr, units))

    def set(self, pos, byte):
        if pos >= self.n:
            return
        self.data[pos] = byte
        if pos == 0 or (pos == self.prev + 1 and self.seq == pos):
            self.seq = pos + 1
        if self.complete():
            try:
                self.last = self.str()
            except BadText:
                self.clear()
                return
        self.prev = pos

    def set2(self, pos, a, b):
        self.set(pos, a)
        self.set(pos + 1, b)


def rtrim(s):
    return s.rstrip(b' ') if isinstance(s, bytes) else s.rstrip(' ')


def hi(w):
    return w >> 8


def lo(w):
    return w & 0xFF


def pin_fields(pin):
    d, h, m = pin >> 11, pin >> 6 & 31, pin & 63
    if d >= 1 and h <= 24 and m <= 59:
        return {'prog_item_number': pin, 'prog_item_started': {'day': d, 'time': '%02d:%02d' % (h, m)}}
    return {}


def mjd_to_date(mjd):
    import datetime
    return datetime.date(1858, 11, 17) + datetime.timedelta(days=mjd)


def clock_time(b2, b3, b4):
    """Returns the ISO string, None (must not be shown) or ANY (outside of the claimed range)"""
    mjd = (b2 & 3) << 15 | b3 >> 1
    hour = (b3 & 1) << 4 | b4 >> 12
    minute = b4 >> 6 & 63
    half = b4 & 31
    sign = -1 if b4 & 32 else 1
    if hour > 23 or minute > 59 or half // 2 > 14:
        return None
    off = sign * half * 30
    total = hour * 60 + minute + off
    day = mjd + total // 1440
    if mjd < 15079:
        return ANY if mjd == 15078 else None
    if day < 15079 or day > 88127:
        return ANY
    d = mjd_to_date(day)
    total %= 1440
    s = '%04d-%02d-%02dT%02d:%02d:00' % (d.year, d.month, d.day, total // 60, total % 60)
    if off == 0:
        return s + 'Z'
    return s + '%s%02d:%02d' % ('+' if off > 0 else '-', abs(off) // 60, abs(off) % 60)


# ---------------------------------------------------------------------------------------------- TMC
FIELD_SIZE = [3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0]
QSIZE5 = {0, 1, 2, 3, 4, 5}
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September',
          'October', 'November', 'December']


def tmc_time(v):
    if v <= 95:
        return '%02d:%02d' % (v // 4, 15 * (v % 4))
    if v <= 200:
        d, h = divmod(v - 96, 24)
        if d == 0:
            return 'at %02d:00' % h
        if d == 1:
            return 'after 1 day at %02d:00' % h
        return 'after %d days at %02d:00' % (d, h)
    if v <= 231:
        return 'day %d of the month' % (v - 200)
    m, e = divmod(v - 232, 2)
    return ('end of ' if e else 'mid-') + MONTHS[m] if m < 12 else ''


def quantified(ev, q):
    t = ev['q']
    if t in QSIZE5 and q == 0:
        q = 32
    if t == 0:
        s = str(q if q <= 28 else 28 + 2 * (q - 28))
    elif t == 1:
        s = str(q if q <= 4 else (q - 4) * 10 if q <= 14 else (q - 12) * 50)
    elif t == 2:
        s = 'less than %d metres' % (10 * q)
    elif t == 3:
        s = '%d %%' % (0 if q == 32 else 5 * q)
    elif t == 4:
        s = 'of up to %d km/h' % (5 * q)
    elif t == 5:
        s = 'of up to ' + ('%d minutes' % (5 * q) if q <= 10 else '%d hours' % (q - 10) if q <= 22 else '%d hours' % (6 * (q - 20)))
    elif t == 6:
        s = '%d degrees Celsius' % (q - 51)
    elif t == 7:
        m = (q - 1) * 10
        if m < 0:
            return None     # quantifier value 0 is not defined for this type
        s = '%02d:%02d' % (m // 60, m % 60)
    elif t in (8, 9):
        d = q if q <= 100 else 100 + (q - 100) * 5
        s = '%d.%d %s' % (d // 10, d % 10, 'tonnes' if t == 8 else 'metres')
    elif t == 10:
        s = 'of up to %d millimetres' % q
    elif t == 11:
        k = fm_khz(q)
        s = 'N/A' if k is None else '%d.%d MHz' % (k // 1000, k % 1000 // 100)
    else:
        k = lfmf_khz(q)
        s = 'N/A' if k is None else '%d kHz' % k
    return ev['descq'].replace('(Q)', s)


def ucfirst(s):
    return s[:1].upper() + s[1:] if s[:1].isascii() else s


def scopes(mgs):
    return [n for b, n in ((8, 'inter-road'), (4, 'national'), (2, 'regional'), (1, 'urban')) if mgs & b]


URG = {'': 0, 'U': 1, 'X': 2}
URGS = ['none', 'U', 'X']


class TMCMessage:
    def __init__(self, enc):
        self.enc = enc
        self.ci = 0
        self.parts = [None] * 5
        self.json = None
        self.complete = False

    def single(self, x, y, z):
        code = y & 0x7FF
        self._build(code, y, z, [])

    def multi(self, x, y, z):
        self.ci = x & 7
        last = False
        if y & 0x8000:
            n = 0
        elif y & 0x4000:
            n = 1
            last = (y >> 12 & 3) == 0
        else:
            gsi = y >> 12 & 3
            n = 4 - gsi
            last = gsi == 0
        self.parts[n] = (y, z)
        if last:
            if self.parts[0] is not None:
                self.complete = True
                y0, z0 = self.parts[0]
                self._build(y0 & 0x7FF, y0, z0, self.fields() if self.parts[1] is not None else [])
            self.parts = [None] * 5
            self.ci = 0

    def fields(self):
        gsi2 = self.parts[1][0] >> 12 & 3
        bits = ''
        for i in [1] + list(range(5 - gsi2, 5)):    # the second group, and as many as it says follow
            if self.parts[i] is None:
                break
            bits += format(self.parts[i][0] & 0xFFF, '012b') + format(self.parts[i][1], '016b')
        out = []
        pos = 0
        while len(bits) - pos > 4:
            lab = int(bits[pos:pos + 4], 2)
            pos += 4
            n = FIELD_SIZE[lab]
            if len(bits) - pos < n:
                break
            v = int(bits[pos:pos + n], 2) if n else 0
            pos += n
            if lab == 0 and v == 0:
                break
            if lab <= 14:
                out.append((lab, v))
        return out

    def _build(self, code, y, z, fields):
        e0 = EVENTS.get(code, dict(desc='', descq='', q=0, d=1, u='', c=0, t=''))
        events, suppl, quants, div = [code], [], {}, []
        both = e0['d'] == 2
        urg = URG[e0['u']]
        extent = y >> 11 & 7
        speed = starts = until = None
        for lab, v in fields:
            if lab == 1:
                if v == 0:
                    urg = (urg + 1) % 3
                elif v == 1:
                    urg = (urg - 1) % 3
                elif v == 2:
                    both = not both
                elif v == 6:
                    extent += 8
                elif v == 7:
                    extent += 16
            elif lab == 3:
                speed = 5 * v
            elif lab in (4, 5):
                i = len(events) - 1
                ev = EVENTS.get(events[-1])
                if i not in quants and ev and ev['descq'] and (ev['q'] in QSIZE5) == (lab == 4):
                    quants[i] = v
            elif lab == 6:
                suppl.append(v)
            elif lab == 7:
                starts = v
            elif lab == 8:
                until = v
            elif lab == 9:
                events.append(v)
            elif lab == 10:
                div.append(v)
        j = {'event_codes': events}
        if suppl:
            j['supplementary_codes'] = suppl
        sent = []
        anydesc = False
        for i, c in enumerate(events):
            if c in EVENTS:
                s = EVENTS[c]['desc']
                if i in quants:
                    s = quantified(EVENTS[c], quants[i])
                    if s is None:
                        anydesc = True
                        s = ''
                sent.append(ucfirst(s))
        if code in EVENTS:
            j['update_class'] = e0['c']
        for c in suppl:
            if c in SUPPL:
                sent.append(ucfirst(SUPPL[c]))
        if sent:
            j['description'] = ANY if anydesc else '. '.join(sent) + '.'
        if div:
            j['diversion_route'] = div
        if speed is not None:
            j['speed_limit'] = '%d km/h' % speed
        self.loc = z
        j['direction'] = 'both' if both else 'single'
        j['extent'] = ('-' if y & 0x4000 else '+') + str(extent)
        self.neg = bool(y & 0x4000)
        self.ext = extent
        if starts is not None:
            j['starts'] = tmc_time(starts)
        if until is not None:
            j['until'] = tmc_time(until)
        j['urgency'] = URGS[urg]
        self.json = j
        self.complete = True


class TMC:
    def __init__(self, opts):
        self.init = False
        self.enc = False
        self.has_encid = False
        self.ltn = self.encid = self.ltcc = 0
        self.msg = TMCMessage(False)
        self.keys = opts.get('keys', {})
        self.locdbs = opts.get('locdbs', {})
        self.ps = Text(8)

    def system(self, m, j):
        var = m >> 14
        if var == 0:
            self.init = True
            ltn = m >> 6 & 63
            self.enc = ltn == 0
            s = {'is_encrypted': self.enc, 'is_on_alt_freqs': bool(m & 32)}
            if not self.enc:
                self.ltn = ltn
                s['location_table'] = ltn
            if scopes(m & 15):
                s['scope'] = scopes(m & 15)
            j['tmc'] = {'system_info': s}
        elif var == 1:
            s = {'service_id': m >> 6 & 63, 'gap': [3, 5, 8, 11][m >> 12 & 3]}
            self.ltcc = m & 15
            if self.ltcc:
                s['ltcc'] = self.ltcc
            j['tmc'] = {'system_info': s}
        elif var == 2:
            e = m & 255
            if e:
                s = {'ltecc': e}
                if self.ltcc:
                    s['country'] = country(self.ltcc, e)
                j['tmc'] = {'system_info': s}

    def finish(self, msg):
        j = dict(msg.json)
        loc = msg.loc
        shown = True
        if msg.enc:
            j['encrypted_location'] = loc
            if self.enc and self.encid in self.keys:
                xv, xs, nr = self.keys[self.encid]
                v = (loc ^ ((xv << xs) & 0xFFFF)) & 0xFFFF
                nr &= 15
                loc = ((v << nr) | (v >> (16 - nr))) & 0xFFFF if nr else v
            else:
                shown = False
        if shown:
            j['location'] = loc
            db = self.locdbs.get(self.ltn)
            if db is not None and self.ltn != 0:
                j.update(db.resolve(loc, msg.neg, msg.ext))
        return j

    def user(self, x, y, z, j):
        if not self.init:
            return
        if x == 0:
            self.encid = y & 31
            self.ltn = z >> 10
            self.has_encid = True
            j['tmc'] = {'system_info': {'service_id': y >> 5 & 63, 'encryption_id': self.encid, 'location_table': self.ltn}}
        elif x & 16:
            v = x & 15
            if v in (4, 5):
                p = 4 * (v - 4)
                for i, b in enumerate((hi(y), lo(y), hi(z), lo(z))):
                    self.ps.set(p + i, b)
                if self.ps.complete():
                    j['tmc'] = {'service_provider': self.ps.last}
            elif v == 6:
                af = AFList()
                af.insert(226)      # the list may come without its length
                af.insert(hi(y))
                af.insert(lo(y))
                o = {'pi': '0x' + hx(z)}
                if af.got:
                    o['frequencies_khz'] = list(af.got)
                j['tmc'] = {'other_network': o}
            elif v == 8:
                if y == 0 or z == 0 or y == z:
                    j['tmc'] = {'other_network': {'pi': '0x' + hx(y)}}
                else:
                    j['tmc'] = {'other_network': {'pi_codes': ['0x' + hx(y), '0x' + hx(z)]}}
            elif v == 9:
                o = {'pi': '0x' + hx(z), 'service_id': y & 63, 'location_table': y >> 10}
                if scopes(y >> 6 & 15):
                    o['scope'] = scopes(y >> 6 & 15)
                j['tmc'] = {'other_network': o}
        else:
            if self.enc and not self.has_encid:
                return
            if x & 8:
                m = TMCMessage(self.enc)
                m.single(x, y, z)
                j['tmc'] = {'message': self.finish(m)}
            else:
                if (x & 7) != self.msg.ci:
                    self.msg = TMCMessage(self.enc)
                self.msg.multi(x, y, z)
                if self.msg.complete:
                    j['tmc'] = {'message': self.finish(self.msg)}
                    self.msg = TMCMessage(self.enc)


# ------------------------------------------------------------------------------------------ Station
class RFT:
    def __init__(self):
        self.size = 0
        self.seg = {}
        self.toggle = 0
        self.data = {}

    def receive(self, toggle, addr, five):
        if toggle != self.toggle:
            self.seg = {}
        self.toggle = toggle
        self.seg[addr] = five

    def complete(self):
        if self.size == 0:
            return None
        n = (self.size + 4) // 5
        if len(self.seg) < n:
            return None
        out = bytearray()
        for i in range(n):
            if i not in self.seg:
                return None
            out += bytes(self.seg[i])
        return bytes(out[:self.size])


class Group:
    __slots__ = ('b', 'stream', 'cprime', 'errs', 'offsets')

    def __init__(self, b, stream=0, cprime=False, errs=None, offsets=False):
        self.b = b
        self.stream = stream
        self.cprime = cprime        # block 3 came with offset C' (bit input only)
        self.errs = errs            # number of blocks lost or corrected (None: count lost)
        self.offsets = offsets      # offset words are known (bit/MPX input)

    def type(self):
        """(number, 'A'/'B') or None if unknown"""
        if self.b[1] is None:
            return None
        n, ver = self.b[1] >> 12, self.b[1] >> 11 & 1
        if ver == 0:
            return (n, 'A')
        if self.offsets and not self.cprime:
            return None
        return (n, 'B')

    def pi(self):
        if self.stream != 0:
            return None
        if self.b[0] is not None:
            return self.b[0]
        if self.cprime and self.b[2] is not None:
            return self.b[2]
        return None

    def empty(self):
        return all(x is None for x in self.b)


class Station:
    def __init__(self, opts, pi):
        self.o = opts
        self.pi = pi
        self.ps = Text(8)
        self.longps = Text(32, 'utf8')
        self.rt = Text(64)
        self.rt_ab = 0
        self.rt_prev = ''
        self.rtp = [False, False]
        self.ert = Text(128)
        self.ertp = [False, False]
        self.ptyn = Text(8)
        self.ptyn_ab = 0
        self.tdc = Text(128)
        self.af = AFList()
        self.oda = {}
        self.pipes = {}
        self.eon_ps = {}
        self.eon_af = {}
        self.tmc = TMC(opts)
        self.rft = {}
        self.had_pi = False

    # -- one group
    def feed(self, g):
        o = self.o
        j = {}
        if o.get('streams'):
            j['stream'] = g.stream
        if g.stream == 0:
            if g.pi() is not None:
                self.had_pi = True
            elif self.had_pi:
                self.had_pi = False
            else:
                return None
            if g.empty():
                return None
            j['pi'] = '0x' + hx(self.pi)
            if o.get('rbds'):
                c = callsign(self.pi)
                if c:
                    j['callsign_uncertain' if self.pi >> 12 == 1 else 'callsign'] = c
        if o.get('raw'):
            j['raw_data'] = raw_hex(g.b)
        typ = g.type()
        if g.stream != 0:
            j['group'] = 'C'
            self.c_group(g, j)
        else:
            b2, b3, b4 = g.b[1:]
            if b2 is not None:
                j['tp'] = bool(b2 & 0x400)
                j['prog_type'] = (PTYR if o.get('rbds') else PTY)[b2 >> 5 & 31]
            if typ is not None:
                j['group'] = '%d%s' % typ
                self.dispatch(typ, b2, b3, b4, j)
        return self.printable(j)

    @staticmethod
    def printable(j):
        """bytes -> str; a record with invalid text is not printed as such"""
        def conv(v):
            if isinstance(v, bytes):
                return v.decode('utf-8')
            if isinstance(v, dict):
                return {k: conv(x) for k, x in v.items()}
            if isinstance(v, list):
                return [conv(x) for x in v]
            return v
        try:
            return conv(j)
        except UnicodeDecodeError:
            return Raw()

    def dispatch(self, typ, b2, b3, b4, j):
        n, v = typ
        a = v == 'A'
        if n == 0:
            self.g0(a, b2, b3, b4, j)
        elif n == 1:
            self.g1(a, b2, b3, b4, j)
        elif n == 2:
            self.g2(a, b2, b3, b4, j)
        elif typ == (3, 'A'):
            self.g3a(b2, b3, b4, j)
        elif typ == (4, 'A'):
            if b3 is not None and b4 is not None:
                t = clock_time(b2, b3, b4)
                if t is not None:
                    j['clock_time'] = t
        elif typ == (10, 'A'):
            self.g10a(b2, b3, b4, j)
        elif n == 14:
            self.g14(a, b2, b3, b4, j)
        elif typ == (15, 'B'):
            j['di'] = {DI[b2 & 3]: bool(b2 & 4)}
            j['ta'] = bool(b2 & 16)
            j['is_music'] = bool(b2 & 8)
        elif typ in self.oda:
            self.oda_group(typ, b2, b3, b4, j)
        elif n == 5:
            self.g5(a, b2, b3, b4, j)
        elif n == 6:
            d = [b2 & 31]
            if a:
                if b3 is not None:
                    d.append(b3)
                    if b4 is not None:
                        d.append(b4)
            elif b4 is not None:
                d.append(b4)
            j['in_house_data'] = d
        elif typ in ((7, 'A'), (9, 'A')):
            pass
        elif typ == (8, 'A'):
            if b3 is not None and b4 is not None:
                self.tmc.user(b2 & 31, b3, b4, j)
        elif typ == (15, 'A'):
            self.g15a(b2, b3, b4, j)
        else:
            self.oda_group(typ, b2, b3, b4, j)

    def g0(self, a, b2, b3, b4, j):
        seg = b2 & 3
        j['di'] = {DI[seg]: bool(b2 & 4)}
        j['ta'] = bool(b2 & 16)
        j['is_music'] = bool(b2 & 8)
        if b3 is None:
            if self.af.method_b():
                self.af.clear()
            return
        if a:
            self.af.insert(hi(b3))
            self.af.insert(lo(b3))
            if self.af.complete():
                l = self.af.got
                if self.af.method_b():
                    t = l[0]
                    same, reg = [], []
                    for i in range(1, len(l), 2):
                        f1, f2 = l[i], l[i + 1]
                        (same if f1 < f2 else reg).append(f2 if f1 == t else f1)
                    if len(set(same)) + len(set(reg)) == len(l) // 2:
                        r = {'tuned_frequency': t}
                        if same:
                            r['same_programme'] = same
                        if reg:
                            r['regional_variants'] = reg
                        j['alt_frequencies_b'] = r
                else:
                    j['alt_frequencies_a'] = list(l)
                self.af.clear()
            elif self.o.get('partial') and self.af.got:
                j['partial_alt_frequencies'] = list(self.af.got)
        if b4 is None:
            return
        self.ps.set2(seg * 2, hi(b4), lo(b4))
        if self.ps.complete():
            j['ps'] = self.ps.last
        elif self.o.get('partial'):
            j['partial_ps'] = self.ps.str()

    def g1(self, a, b2, b3, b4, j):
        if b3 is None or b4 is None:
            return
        if b4:
            j.update(pin_fields(b4))
        if not a:
            return
        j['has_linkage'] = bool(b3 & 0x8000)
        var = b3 >> 12 & 7
        if var == 0:
            if b3 & 255:
                j['country'] = country(self.pi >> 12, b3 & 255)
        elif var == 1:
            j['tmc_id'] = b3 & 0xFFF
        elif var == 3:
            l = T['language']
            j['language'] = l[b3 & 255] if (b3 & 255) < len(l) else ''
        elif var == 6:
            j['slc_broadcaster_bits'] = '0x' + hx(b3 & 0x7FF, 3)
        elif var == 7:
            j['ews'] = b3 & 0xFFF

    def g2(self, a, b2, b3, b4, j):
        if b3 is None or b4 is None:
            return
        pos = (b2 & 15) * (4 if a else 2)
        ab = b2 >> 4 & 1
        changed = ab != self.rt_ab
        self.rt_ab = ab
        if self.o.get('partial'):
            j['rt_ab'] = 'B' if ab else 'A'
        rt = self.rt
        cand = None
        if pos == 0 and rt.seq > 1 and not rt.complete() and not rt.has_terminator():
            s = rtrim(rt.str())
            if s == self.rt_prev:
                cand = s
            self.rt_prev = s
        if changed:
            rt.clear()
        if a:
            rt.resize(64)
            rt.set2(pos, hi(b3), lo(b3))
            rt.set2(pos + 2, hi(b4), lo(b4))
        else:
            rt.resize(32)
            rt.set2(pos, hi(b4), lo(b4))
        if rt.complete():
            j['radiotext'] = rtrim(rt.last)
        elif cand is not None:
            j['radiotext'] = cand
        elif self.o.get('partial'):
            if rtrim(rt.str()):
                j['partial_radiotext'] = rt.str()

    def g3a(self, b2, b3, b4, j):
        if b3 is None or b4 is None:
            return
        c = b2 & 31
        typ = (c >> 1, 'B' if c & 1 else 'A')
        self.oda[typ] = b4
        j['open_data_app'] = {'oda_group': '%d%s' % typ, 'app_name': APPS.get(b4, '(Unknown)')}
        if b4 in (0x0093, 0x4BD7, 0x4BD8):
            pass
        elif b4 == 0x6552:
            self.ert.enc = 'utf8' if b3 & 1 else 'ucs2'
        elif b4 in (0xCD46, 0xCD47):
            self.tmc.system(b3, j)
        else:
            j['open_data_app']['message'] = b3

    def g5(self, a, b2, b3, b4, j):
        addr = b2 & 31
        t = {'address': addr}
        j['transparent_data'] = t
        if b4 is None or (a and b3 is None):
            return
        d = [hi(b3), lo(b3), hi(b4), lo(b4)] if a else [hi(b4), lo(b4)]
        t['raw'] = ' '.join(hx(x, 2) for x in d)
        tx = Text(len(d))
        for i, x in enumerate(d):
            tx.set(i, x)
        t['as_text'] = tx.str()
        if a:
            for i, x in enumerate(d):
                self.tdc.set(addr * 4 + i, x)
            if self.tdc.complete():
                t['full_text'] = self.tdc.str()
                t['full_raw'] = ' '.join(hx(x, 2) for x in self.tdc.bytes())

    def g10a(self, b2, b3, b4, j):
        if b3 is None or b4 is None:
            return
        seg = b2 & 1
        ab = b2 >> 4 & 1
        if ab != self.ptyn_ab:
            self.ptyn.clear()
        self.ptyn_ab = ab
        self.ptyn.set2(seg * 4, hi(b3), lo(b3))
        self.ptyn.set2(seg * 4 + 2, hi(b4), lo(b4))
        if self.ptyn.complete():
            j['pty_name'] = self.ptyn.last

    def g14(self, a, b2, b3, b4, j):
        if b4 is None:
            return
        on = {'pi': '0x' + hx(b4), 'tp': bool(b2 & 16)}
        j['other_network'] = on
        if not a:
            on['ta'] = bool(b2 & 8)
            return
        if b3 is None:
            return
        var = b2 & 15
        if var < 4:
            t = self.eon_ps.setdefault(b4, Text(8))
            t.set2(2 * var, hi(b3), lo(b3))
            if t.complete():
                on['ps'] = t.last
        elif var == 4:
            l = self.eon_af.setdefault(b4, AFList())
            l.insert(hi(b3))
            l.insert(lo(b3))
            if l.complete():
                on['alt_frequencies'] = list(l.got)
                l.clear()
        elif var < 10:
            k = fm_khz(lo(b3)) if var < 9 else lfmf_khz(lo(b3))     # 9: mapped AM frequency
            if k is not None:
                on['kilohertz'] = k
        elif var == 12:
            on['has_linkage'] = bool(b3 & 0x8000)
            if b3 & 0x8000 and b3 & 0xFFF:
                on['linkage_set'] = b3 & 0xFFF
        elif var == 13:
            on['prog_type'] = (PTYR if self.o.get('rbds') else PTY)[b3 >> 11]
            on['ta'] = bool(b3 & 1)
        elif var == 14:
            if b3:
                on.update(pin_fields(b3))
        elif var == 15:
            on['broadcaster_data'] = hx(b3)

    def g15a(self, b2, b3, b4, j):
        p = (b2 & 7) * 4
        if b3 is not None:
            self.longps.set2(p, hi(b3), lo(b3))
        if b4 is not None:
            self.longps.set2(p + 2, hi(b4), lo(b4))
        if (b3 is not None or b4 is not None) and self.longps.complete():
            j['long_ps'] = rtrim(self.longps.last)
        elif self.o.get('partial'):
            j['partial_long_ps'] = self.longps.str()

    def oda_group(self, typ, b2, b3, b4, j):
        raw = hx(b2 & 31, 2) + ' ' + ('----' if b3 is None else hx(b3)) + ' ' + ('----' if b4 is None else hx(b4))
        app = self.oda.get(typ)
        if app is None:
            j['unknown_oda'] = {'raw_data': raw}
        elif app == 0x0093:
            if not b2 & 16:
                d = {'mode': ['unspecified', 'I', 'II or III', 'IV'][b2 >> 2 & 3]}
                j['dab'] = d
                if b3 is not None:
                    d['kilohertz'] = 16 * ((b2 & 3) << 16 | b3)
                    if d['kilohertz'] in DAB:
                        d['channel'] = DAB[d['kilohertz']]
                    if b4 is not None:
                        d['ensemble_id'] = '0x' + hx(b4)
        elif app in (0x4BD7, 0x4BD8):
            rt, st, key = (self.rt, self.rtp, 'radiotext_plus') if app == 0x4BD7 else (self.ert, self.ertp, 'ert_plus')
            tog, run = bool(b2 & 16), bool(b2 & 8)
            if [tog, run] != st:
                rt.clear()
                st[:] = [tog, run]
            e = {'item_running': run, 'item_toggle': int(tog)}
            tags = []
            if b3 is not None:
                tags.append(((b2 & 7) << 3 | b3 >> 13, b3 >> 7 & 63, (b3 >> 1 & 63) + 1))
                if b4 is not None:
                    tags.append(((b3 & 1) << 5 | b4 >> 11, b4 >> 5 & 63, (b4 & 31) + 1))
            l = []
            s = rt.last
            if isinstance(s, bytes):
                try:
                    s = s.decode()
                except UnicodeDecodeError:
                    s = None
            for ct, start, n in tags:
                if s is None:
                    j[key] = b'\xff'     # whatever is printed has to be a valid record
                    return
                sub = s[start:start + n]
                if len(sub) == n and ct != 0:
                    l.append({'content-type': T['rtplus'][ct], 'data': rtrim(sub)})
            if l:
                e['tags'] = l
            j[key] = e
        elif app == 0x6552:
            p = (b2 & 31) * 4
            if b3 is not None:
                self.ert.set2(p, hi(b3), lo(b3))
            if b4 is not None:
                self.ert.set2(p + 2, hi(b4), lo(b4))
            if self.ert.complete():
                j['enhanced_radiotext'] = rtrim(self.ert.last)
        elif app in (0xCD46, 0xCD47):
            if b3 is not None and b4 is not None:
                self.tmc.user(b2 & 31, b3, b4, j)
        else:
            j['unknown_oda'] = {'app_id': hx(app), 'app_name': APPS.get(app, '(Unknown)'), 'raw_data': raw}

    def c_group(self, g, j):
        if any(x is None for x in g.b):
            return
        b1, b2, b3, b4 = g.b
        fid, fn = b1 >> 14, b1 >> 8 & 63
        seven = [lo(b1), hi(b2), lo(b2), hi(b3), lo(b3), hi(b4), lo(b4)]
        if fid == 0 and fn == 0:
            return
        if fid == 0 and fn & 0x30 == 0x20:
            pipe = fn & 15
            if pipe in self.pipes:
                j['open_data_app'] = {'app_name': APPS.get(self.pipes[pipe], '(Unknown)')}
            tog = b1 >> 7 & 1
            addr = (b1 & 0x7F) << 8 | hi(b2)
            d = {'pipe': pipe, 'toggle': tog, 'byte_address': addr * 5, 'segment_data': seven[2:]}
            j['rft'] = {'data': d}
            f = self.rft.setdefault(pipe, RFT())
            f.receive(tog, addr, seven[2:])
            c = f.complete()
            if c is not None:
                d['file_contents'] = base64.b64encode(c).decode()
                f.seg = {}
        elif fid == 1:
            j['open_data_app'] = {'channel': fn, 'app_data': seven}
        elif fid == 2 and fn == 0:
            if b1 >> 6 & 3:
                return
            ch = b1 & 63
            self.pipes[ch] = b2
            a = {'channel': ch, 'oda_aid': b2, 'app_name': APPS.get(b2, '(Unknown)')}
            j['open_data_app'] = a
            if ch < 16:
                var = b3 >> 12
                if var == 0:
                    size = (b3 & 3) << 16 | b4
                    f = self.rft.setdefault(ch, RFT())
                    if size <= 163840:
                        f.size = size
                    j['rft'] = {'file_info': {'version': b3 >> 8 & 7, 'id': b3 >> 2 & 63, 'size': size, 'has_crc': bool(b3 & 0x800)}}
                elif var == 1:
                    mode = b3 >> 9 & 7
                    if mode == 0:
                        j['rft'] = {'crc_info': {'file_crc16': b4}}
                    elif mode != 6:
                        j['rft'] = {'crc_info': {'chunk_crc16': b4, 'chunk_address': b3 & 511, 'crc_mode': mode}}
                elif var >= 8:
                    a['non_file_oda_data'] = hx((b3 & 0xFFF) << 16 | b4, 7)
                else:
                    a['file_oda_data'] = hx((b3 & 0xFFF) << 16 | b4, 7)
            else:
                a['app_data'] = seven[3:]
        else:
            j['open_data_app'] = {'data': seven[1:]}


class Raw:
    """Any valid record is acceptable here."""


def raw_hex(b):
    return ' '.join('----' if x is None else hx(x) for x in b)


class PICache:
    """A PI code is confirmed when received three times in a row."""

    def __init__(self):
        self.reset()
        self.hist = [0, 0]

    def reset(self):
        self.confirmed = 0
        self.hist = [0, 0]
        self.has_prev = False

    def update(self, pi):
        """-> True if a new PI was just confirmed"""
        p1, p2 = self.hist
        changed = False
        if self.has_prev and p1 == p2 == pi:
            changed = pi != self.confirmed
            self.confirmed = pi
        if self.has_prev and pi != self.confirmed and p1 != self.confirmed and pi != p1:
            self.reset()
        else:
            self.has_prev = True
        self.hist = [pi, self.hist[0]]
        return changed


class Channel:
    """opts: rbds, partial, raw, streams, bler (booleans), keys, locdbs"""

    def __init__(self, opts):
        self.o = opts
        self.cache = PICache()
        self.st = None
        self.errors = [0] * 12

    def feed(self, g):
        """-> expected record or None"""
        if self.o.get('bler'):
            e = g.errs if g.errs is not None else sum(x is None for x in g.b)
            self.errors = self.errors[1:] + [e]
        pi = g.pi()
        if pi is not None and self.cache.update(pi):
            self.st = Station(self.o, pi)
        if self.st is None:
            return None
        j = self.st.feed(g)
        if j is not None and self.o.get('bler') and not isinstance(j, Raw):
            j['bler'] = bler_round(sum(self.errors))
        return j


def bler_round(errs):
    """percentage of 48 blocks, rounded to the nearest integer (halves away from zero)"""
    # 100*errs/48 = k + 1/2 is possible for errs = 6, 18, ... ; both roundings are then accepted
    return ('bler', errs)


def decode(groups, opts):
    ch = Channel(opts)
    return [ch.feed(g) for g in groups]
