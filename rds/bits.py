"""Block layer: encoder (checkwords + offset words) and reference synchroniser, from IEC 62106."""
from . import model as M

# g(x) = x^10 + x^8 + x^7 + x^5 + x^4 + x^3 + 1
POLY = 0b10110111001
OFFSETS = {'A': 0x0FC, 'B': 0x198, 'C': 0x168, "C'": 0x350, 'D': 0x1B4}
ORDER = ['A', 'B', 'C', 'D']
NUM = {'A': 0, 'B': 1, 'C': 2, "C'": 2, 'D': 3}


def crc(word16):
    """checkword = remainder of m(x)*x^10 / g(x)"""
    r = word16 << 10
    for i in range(25, 9, -1):
        if r >> i & 1:
            r ^= POLY << (i - 10)
    return r & 0x3FF


_CRC = [crc(1 << i) for i in range(16)]


def rem(word26):
    """remainder of the received 26 bits (0 offset: error-free); linear"""
    v = word26 & 0x3FF
    m = word26 >> 10
    i = 0
    while m:
        if m & 1:
            v ^= _CRC[i]
        m >>= 1
        i += 1
    return v


OFF_BY_REM = {v: k for k, v in OFFSETS.items()}


def encode(word16, off):
    return word16 << 10 | rem(word16 << 10) ^ OFFSETS[off]


BURSTS = {}     # remainder of a burst of at most 2 bits -> error vector
for _sh in range(26):
    for _e in (1, 3):
        _v = _e << _sh
        if _v < 1 << 26:
            BURSTS.setdefault(rem(_v), _v)
NBURSTS = len(BURSTS)


def group_words(blocks, cprime=None):
    """26-bit words of a group; version B groups use C' for block 3"""
    if cprime is None:
        cprime = bool(blocks[1] >> 11 & 1)
    return [encode(blocks[0], 'A'), encode(blocks[1], 'B'), encode(blocks[2], "C'" if cprime else 'C'), encode(blocks[3], 'D')]


def bits_of(words):
    return ''.join(format(w, '026b') for w in words)


class Receiver:
    """Reference receiver: feed bits, get groups."""

    def __init__(self, fec=True):
        self.fec = fec
        self.reg = 0
        self.rem = 0
        self.n = 0
        self.sync = False
        self.pulses = []        # last four (block number, bit position)
        self.errors = [0] * 50
        self.out = []
        self.cur = None
        self.expect = 0
        self.until = 1
        self.sync_at = []       # bit positions where sync was acquired
        self.lost_at = []
        self.blocks = []        # per block in sync: (bit pos, state) ok/fixed/lost
        self.new()

    def new(self):
        self.cur = M.Group([None] * 4, 0, False, 0, True)
        self.cur_had = 0
        self.cur.errs = None
        self.bad = [True] * 4

    def feed(self, bits):
        for c in bits:
            self.bit(c == '1')

    def bit(self, b):
        self.reg = (self.reg << 1 | b) & 0x3FFFFFF
        self.n += 1
        self.until -= 1
        if self.until:
            return
        self.until = 1
        r = rem(self.reg)
        off = OFF_BY_REM.get(r)
        if not self.sync:
            if off is None:
                return
            num = NUM[off]
            self.pulses = (self.pulses + [(num, self.n)])[-4:]
            if not self.found():
                return
            self.sync = True
            self.sync_at.append(self.n)
            self.expect = num
            self.new()
        self.block(r, off)
        self.until = 26 if self.sync else 1

    def found(self):
        p = self.pulses
        third = p[-1]

        def follows(b, a):
            d = b[1] - a[1]
            return d % 26 == 0 and d // 26 <= 6 and (a[0] + d // 26) % 4 == b[0]
        for i in range(len(p) - 2):
            for j in range(i + 1, len(p) - 1):
                if follows(third, p[j]) and follows(p[j], p[i]):
                    return True
        return False

    def block(self, r, off):
        e = self.expect
        ok = off is not None and NUM[off] == e
        self.errors = self.errors[1:] + [0 if ok else 1]
        if sum(self.errors) > 42:
            self.sync = False
            self.errors = [0] * 50
            self.lost_at.append(self.n)
            return
        data = None
        if ok:
            data = self.reg >> 10
            self.blocks.append((self.n, 'ok'))
            if off == "C'":
                self.cur.cprime = True
        elif self.fec:
            exp = ORDER[e]
            if e == 2 and self.cur.b[1] is not None and self.cur.b[1] >> 11 & 1:
                exp = "C'"
            v = BURSTS.get(r ^ OFFSETS[exp])
            if v is not None:
                data = (self.reg ^ v) >> 10
                if exp == "C'":
                    self.cur.cprime = True
        if not ok:
            self.blocks.append((self.n, 'fixed' if data is not None else 'lost'))
        self.cur.b[e] = data
        self.bad[e] = not ok
        self.expect = (e + 1) % 4
        if self.expect == 0:
            self.finish()

    def finish(self):
        self.cur.errs = sum(self.bad)
        self.out.append(self.cur)
        self.new()

    def flush(self):
        """the last, incomplete group"""
        if not self.cur.empty():
            self.finish()
        return self.out


def receive(bits, fec=True):
    rx = Receiver(fec)
    rx.feed(bits)
    rx.flush()
    return rx
