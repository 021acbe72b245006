"""C19: TMC locations with generated location tables and key tables."""
import os, shutil
from checks.base import *
from rds.model import Approx

ENC = [('UTF-8', 'utf-8'), ('ISO-8859-1', 'latin-1'), ('ISO 8859-1', 'latin-1'), ('ISO_8859-1 (Latin 1)', 'latin-1'),
       ('ISO-8859-15', 'iso8859-15'), ('ISO 8859-15', 'iso8859-15'), (None, 'utf-8')]
ALPHA = 'ABCdefgh ijklä ö ß é Ñ1234-/()."\'\\,'


class Db:
    """What a table says, for the reference decoder."""
    def __init__(self, t):
        self.t = t
        self.names = {n['nid']: n['name'] for n in t['names']}
        self.roads = {x['lcd']: x for x in t['roads']}
        self.segs = {x['lcd']: x for x in t['segs']}
        self.points = {x['lcd']: x for x in t['points']}

    def resolve(self, loc, neg, ext):
        p = self.points.get(loc)
        if p is None:
            return {}
        chain = []
        cur = loc
        for _ in range(abs(ext) + 1):
            q = self.points.get(cur)
            if q is None:
                break
            chain.append(q)
            cur = q['neg'] if neg else q['pos']
        j = {'coordinates': [{'lat': Approx(q['y'] * 1e-5, 3e-5), 'lon': Approx(q['x'] * 1e-5, 3e-5)} for q in chain]}
        a, b = self.names.get(chain[0]['n1'], ''), self.names.get(chain[-1]['n1'], '')
        if len(chain) > 1 and a and b:
            j['span_from'], j['span_to'] = a, b
        road = p['road']
        if not road and p['seg']:
            road = self.segs.get(p['seg'], {'road': 0})['road']
        if road in self.roads:
            rd = self.roads[road]
            if rd['number']:
                j['road_number'] = rd['number']
            nm = self.names.get(rd['rnid'], '') or self.names.get(p['rnid'], '')
            if nm:
                j['road_name'] = nm
        return j


def gen_table(r, ltn):
    enc = r.choice(ENC)
    lcds = r.sample(range(1, 65536), 60) if r.random() < 0.5 else r.sample(range(1, 120), 60)
    it = iter(lcds)
    # also the characters in which the encodings differ
    alpha = ALPHA + {'utf-8': 'ŁźЖ中€😀', 'latin-1': '¤¦¨´¸¼½¾ÿ', 'iso8859-15': '€ŠšŽžŒœŸÿ'}[enc[1]]

    def text():
        s = ''.join(r.choice(alpha) for _ in range(r.choice([0, 1, 5, 12, 30])))
        return s.strip()
    names = [{'nid': n, 'name': text()} for n in r.sample(range(1, 10 ** r.choice([2, 5, 9])), 20)]
    nid = lambda: r.choice([0, r.choice(names)['nid'], r.choice(names)['nid'], r.choice(names)['nid']])
    roads = [{'lcd': next(it), 'number': r.choice(['', 'A%d' % r.randrange(99), 'E 75', '1']), 'rnid': nid()} for _ in range(r.randrange(1, 6))]
    segs = [{'lcd': next(it), 'road': r.choice(roads)['lcd']} for _ in range(r.randrange(0, 5))]
    points = []
    for _ in range(r.randrange(1, 40)):
        k = r.random()
        points.append({'lcd': next(it), 'n1': nid(), 'rnid': nid(),
                       'x': r.randint(-18000000, 18000000), 'y': r.randint(-9000000, 9000000),
                       'road': r.choice(roads)['lcd'] if k < 0.5 else 0,
                       'seg': r.choice(segs)['lcd'] if segs and k > 0.35 and k < 0.9 else 0, 'pos': 0, 'neg': 0, 'off': True})
    if r.random() < 0.2:    # roads and segments that are not in the table
        gone = r.choice(roads + segs)
        roads = [x for x in roads if x is not gone]
        segs = [x for x in segs if x is not gone]
    # chains (and now and then loops, offsets to nowhere)
    order = points[:]
    r.shuffle(order)
    brk = r.choice([0.0, 0.1, 0.3])
    for a, b in zip(order, order[1:]):
        if r.random() >= brk:
            a['pos'] = b['lcd']
            b['neg'] = a['lcd']
    if r.random() < 0.3:
        order[-1]['pos'] = order[0]['lcd']
        order[0]['neg'] = order[-1]['lcd']
    if r.random() < 0.3:
        r.choice(points)[r.choice(['pos', 'neg'])] = r.choice([next(it), roads[0]['lcd'] if roads else 0])
    for p in points:
        if not p['pos'] and not p['neg'] and r.random() < 0.5:
            p['off'] = False
    return {'ltn': ltn, 'enc': enc[0], 'codec': enc[1], 'names': names, 'roads': roads, 'segs': segs, 'points': points,
            'eol': r.choice(['\n', '\r\n']), 'perm': r.randrange(1000), 'none': r.choice(['', '0']), 'plus': r.random() < 0.5}


def write_table(d, t):
    import random
    r = random.Random(t['perm'])
    os.makedirs(d)

    def num(v):
        return t['none'] if v == 0 else str(v)

    def put(fn, cols, rows):
        cols = list(cols)
        if r.random() < 0.5:
            cols = cols + r.sample(['CLASS', 'TCD', 'STCD', 'JUNCTIONNUMBER', 'POL_LCD'], 2)
        if r.random() < 0.5:
            r.shuffle(cols)
        rows = list(rows)
        if r.random() < 0.5:
            r.shuffle(rows)
        text = ';'.join(cols) + t['eol']
        for row in rows:
            text += ';'.join(str(row.get(c, r.choice(['', '1', 'P']))) for c in cols) + t['eol']
        if r.random() < 0.2:
            text = text[:-len(t['eol'])]
        with open(os.path.join(d, fn), 'wb') as f:
            f.write(text.encode(t['codec']))
    n = t['ltn']
    base = {'CID': 9, 'TABCD': n}
    if t['enc'] is not None:
        with open(os.path.join(d, 'README.DAT'), 'w') as f:
            f.write('x;1.0;v;c;%s;z%s' % (t['enc'], t['eol']))
    put('LOCATIONDATASETS.DAT', ['CID', 'TABCD', 'DCOMMENT'], [dict(base, DCOMMENT='x')])
    put('NAMES.DAT', ['CID', 'LID', 'NID', 'NAME', 'NCOMMENT'], [{'CID': 9, 'LID': 1, 'NID': x['nid'], 'NAME': x['name'], 'NCOMMENT': ''} for x in t['names']])
    put('ROADS.DAT', ['CID', 'TABCD', 'LCD', 'ROADNUMBER', 'RNID'],
        [dict(base, LCD=x['lcd'], ROADNUMBER=x['number'], RNID=num(x['rnid'])) for x in t['roads']])
    put('SEGMENTS.DAT', ['CID', 'TABCD', 'LCD', 'ROA_LCD'], [dict(base, LCD=x['lcd'], ROA_LCD=x['road']) for x in t['segs']])

    def co(v):
        return '%+09d' % v if t['plus'] else str(v)
    put('POINTS.DAT', ['CID', 'TABCD', 'LCD', 'RNID', 'N1ID', 'SEG_LCD', 'ROA_LCD', 'XCOORD', 'YCOORD'],
        [dict(base, LCD=x['lcd'], RNID=num(x['rnid']), N1ID=num(x['n1']), SEG_LCD=num(x['seg']), ROA_LCD=num(x['road']),
              XCOORD=co(x['x']), YCOORD=co(x['y'])) for x in t['points']])
    put('POFFSETS.DAT', ['CID', 'TABCD', 'LCD', 'NEG_OFF_LCD', 'POS_OFF_LCD'],
        [dict(base, LCD=x['lcd'], NEG_OFF_LCD=num(x['neg']), POS_OFF_LCD=num(x['pos'])) for x in t['points'] if x['off']])
    put('ADMINISTRATIVEAREA.DAT', ['CID', 'TABCD', 'LCD', 'NID'], [])


class C(ModelCheck):
    ID = 'C19'
    KEYS = ['tmc']
    WEIGHTS = {'tmc': 10, 'ps': 1, 'random': 0.5}
    N = (100, 200, 400)
    OPTS = {'partial': 0.1}
    LISTS = ['groups', 'tables', 'keys']
    RULE = ('TMC transmissions (encrypted and open, single- and multi-group) against 0-3 generated location tables in TMC exchange format (random codes, '
            'names in UTF-8 or ISO 8859, roads, segments, chains/loops of points, column order and line ends) and a generated service_key_table.csv; '
            'the tmc object of every record is compared with the reference decoder holding the same tables. '
            'Non-trivial: a location was resolved to coordinates or a decrypted location was expected')
    ASSUME = ModelCheck.ASSUME + ['coordinates are compared to 3e-5 degrees']

    def gen(self, r, tier):
        nt = r.choice([0, 1, 1, 2, 3])
        ltns = r.sample(range(1, 64), nt)
        tables = [gen_table(r, n) for n in ltns]
        keys = []
        if r.random() < 0.8:
            for e in r.sample(range(32), r.choice([1, 5, 16, 31])):
                keys.append([e, r.choice([r.randrange(256), 255, 1]), r.randrange(8), r.randrange(16)])
        lcds = [p['lcd'] for t in tables for p in t['points']]
        lcds += lcds + [x['lcd'] for t in tables for x in t['roads'] + t['segs']]
        lcds = lcds or [1, 2]
        w = {k: v for k, v in self.WEIGHTS.items()}
        noise = self.noise(r)
        opts = {k: True for k, p in self.OPTS.items() if r.random() < p}
        keyd = {k[0]: k[1:] for k in keys}
        # encrypted locations that decrypt to loaded codes
        inv = []
        for e, (xv, xs, nr) in keyd.items():
            for l in r.sample(lcds, min(3, len(lcds))):
                v = (l >> nr | l << (16 - nr)) & 0xFFFF if nr else l
                inv.append(v ^ (xv << xs & 0xFFFF))
        tx = G.Tx(r, w, keys=keyd, locs={'ltns': ltns + [r.randrange(1, 64)], 'lcds': lcds + r.choice([[], inv, inv * 2])}, **noise)
        return {'opts': opts, 'tables': tables, 'keys': keys, 'junk': r.random() < 0.3,
                'groups': [G.to_hex(b, s) for b, s in tx.groups(r.choice(self.N))]}

    def judge(self, case, env):
        d = os.path.join(env.tmp, 'c19')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        args = []
        for i, t in enumerate(case['tables']):
            p = os.path.join(d, 'table %d' % i)
            write_table(p, t)
            args += ['-l', p]
        if case['keys']:
            with open(os.path.join(d, 'service_key_table.csv'), 'w') as f:
                if case['junk']:
                    f.write('encid,xorval,xorstart,nrot\n\nx\n')
                for k in case['keys']:
                    f.write(','.join(map(str, k)) + '\n')
        r = self.run(case, env, args, cwd=d)
        opts = dict(case['opts'], keys={k[0]: k[1:] for k in case['keys']}, locdbs={t['ltn']: Db(t) for t in case['tables']})
        exp = M.decode([G.from_hex(l) for l in case['groups']], opts)
        tags = []
        nt = 0
        for e in exp:
            if e is not None and not isinstance(e, M.Raw):
                m = (e.get('tmc') or {}).get('message') or {}
                if 'coordinates' in m:
                    nt += 1
                    tags.append('coordinates')
                    if len(m['coordinates']) > 1:
                        tags.append('chain')
                if 'location' in m and 'encrypted_location' in m:
                    nt += 1
                    tags.append('decrypted')
        n = sum(e is not None for e in exp)
        if r.exit != 0:
            return Verdict('the program ended with ' + r.how(), nt > 0, tags, n)
        try:
            act = parse_lines(r.out)
        except Bad as e:
            return Verdict(str(e), nt > 0, tags, n)
        infos = [x['location_table_info'] for x in act if 'location_table_info' in x]
        act = [x for x in act if 'location_table_info' not in x]
        want = [(t['ltn'], len(t['points']), len(t['roads']), len(t['names'])) for t in case['tables']]
        got = [(x.get('ltn'), x.get('num_points'), x.get('num_roads'), x.get('num_names')) for x in infos]
        msg = None
        if want != got:
            msg = 'tables loaded (number, points, roads, names): %s, expected %s' % (got, want)
        return Verdict(msg or compare(exp, act, self.KEYS, case['groups']), nt > 0, sorted(set(tags)), n)

    def simplify(self, case):
        for i, t in enumerate(case['tables']):
            for k in ('points', 'names', 'segs'):
                for j in range(len(t[k])):
                    t2 = dict(t, **{k: t[k][:j] + t[k][j + 1:]})
                    if k == 'segs' and any(p['seg'] == t[k][j]['lcd'] for p in t['points']):
                        continue
                    yield dict(case, tables=case['tables'][:i] + [t2] + case['tables'][i + 1:])
        yield from ModelCheck.simplify(self, case)


CHECK = C()
