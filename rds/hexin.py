"""Reference reader of the hex input format, from the documented rules."""
HEX = set('0123456789abcdefABCDEF')


def parse_line(line):
    """line: str without line end (latin-1). -> (blocks, stream) or None when ignored"""
    if len(line) < 16:
        return None
    st = 0
    if len(line) >= 20 and line[:4] in ('#S1 ', '#S2 ', '#S3 '):
        st = int(line[2])
        line = line[4:]
    chars = [c for c in line if c != ' ']
    blocks = []
    for k in range(4):
        c = chars[4 * k:4 * k + 4]
        blocks.append(int(''.join(c), 16) if len(c) == 4 and all(x in HEX for x in c) else None)
    return blocks, st


def fmt(b, st):
    return ('#S%d ' % st if st else '') + ' '.join('----' if x is None else '%04X' % x for x in b)


def expected(data):
    """data: str; -> list of (blocks, stream) of all lines that are not ignored"""
    lines = data.split('\n')
    out = []
    for l in lines:
        p = parse_line(l)
        if p is not None:
            out.append(p)
    return out
