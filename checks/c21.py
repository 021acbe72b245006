"""C21: options change nothing but what they are for."""
import os, shutil
from checks.base import *
from rds import bits as BT

ALL = {k: 1 for k in 'ps rt rtp ertp ert lps ptyn ct eon slc oda dab tdc misc random tmc rft 15b'.split()}
ADDS = {'-R': {'raw_data'}, '-E': {'bler'}, '-s': {'stream'}, '-t': {'rx_time'},
        '-p': {'partial_ps', 'partial_radiotext', 'partial_alt_frequencies', 'partial_long_ps', 'rt_ab'},
        '-u': {'callsign', 'callsign_uncertain'}}
# options with no effect (or a known place for it) on the records of an error-free text input
OTHER = {'--no-fec': [], '-r': ['-r', '250k'], '-e': ['-e'], '-l': []}
LOC = {'coordinates', 'span_from', 'span_to', 'road_number', 'road_name'}


class C(ModelCheck):
    ID = 'C21'
    RULE = ('the same transmission (hex or bit input, with losses) decoded without and with a random subset of -R -E -s -t -p -u, --no-fec, -r, -e and -l with a generated location table; oracle: same '
            'number and order of records, only the documented fields added, programme type names changed only by -u, location descriptions added to traffic messages only by -l, nothing changed by the others; raw_data equals '
            'the group that was fed. Non-trivial: at least ten records')
    ASSUME = ['records whose text is invalid in its encoding are compared for validity only when -p is on (the partial text may be invalid)']
    QUICK_S = 22

    def gen(self, r, tier):
        w = {k: ALL[k] for k in r.sample(sorted(ALL), r.choice([1, 4, len(ALL)]))}
        tx = G.Tx(r, w, drop=r.choice([0, 0.02, 0.2]), pi_err=r.choice([0, 0.05]), pi_switch=r.choice([0, 0.01]), run=r.choice([0, 4, 30]), bg=r.choice([0, 0.05]), rep=r.choice([0, 0, 0.1]), corner=r.choice([0, 0, 0.02]))
        adds = [o for o in sorted(ADDS) if r.random() < 0.4] or [r.choice(sorted(ADDS))]
        adds += [o for o in sorted(OTHER) if r.random() < 0.12]
        fmt = 'bits' if r.random() < 0.15 else 'hex'
        return {'adds': adds, 'fmt': fmt, 'groups': [G.to_hex(b, s) for b, s in tx.groups(r.choice([40, 150, 400])) if fmt == 'hex' or s == 0]}

    def judge(self, case, env):
        adds = case['adds']
        if case['fmt'] == 'bits':
            adds = [a for a in adds if a != '-s']
            data = ''.join(BT.bits_of(BT.group_words([x if x is not None else 0 for x in G.from_hex(l).b])) for l in case['groups']).encode()
        else:
            data = ('\n'.join(case['groups']) + '\n').encode()
        args = []
        for a in adds:
            if a == '-l':
                from checks.c19 import gen_table, write_table
                import random
                d = os.path.join(env.tmp, 'c21')
                shutil.rmtree(d, ignore_errors=True)
                rr = random.Random(len(data))
                t = gen_table(rr, rr.randrange(1, 64))
                write_table(d, t)
                args += ['-l', d]
            elif a == '-r':
                args += OTHER[a]
            else:
                args += [a] + (['%Y %f'] if a == '-t' else [])
        sut = env.sut()
        try:
            res = []
            for x in ([], args):
                r = sut.run(['-i', case['fmt']] + x, data)
                if r.exit != 0:
                    return Verdict('%s: ended with %s' % (x, r.how()), True)
                recs = parse_lines(r.err if '-e' in x else r.out)
                if '-l' in x:
                    if not recs or list(recs[0]) != ['location_table_info']:
                        return Verdict('the first line with -l is %r' % (recs[:1],), True)
                    recs = recs[1:]
                res.append(recs)
        except Bad as e:
            return Verdict(str(e), True)
        base, full = res
        msg = None
        if len(base) != len(full):
            msg = '%d records without, %d with %s' % (len(base), len(full), adds)
        allowed = set().union(*[ADDS.get(a, set()) for a in adds]) if adds else set()
        exp = None
        if '-R' in adds and case['fmt'] == 'hex':
            exp = [l for l, e in zip(case['groups'], M.decode([G.from_hex(l) for l in case['groups']], {})) if e is not None]
        for i, (a, b) in enumerate(zip(base, full)):
            if msg:
                break
            if '-p' in adds and 'debug' in b and len(b) == 1:
                continue
            for k in set(a) | set(b):
                if k in a and k in b and a[k] == b[k]:
                    continue
                if k not in a and k in allowed:
                    continue
                if '-l' in adds and k == 'tmc' and k in a and k in b and 'message' in b[k]:
                    y = dict(b[k], message={p: q for p, q in b[k]['message'].items() if p not in LOC})
                    if y == a[k]:
                        continue
                if '-u' in adds and k == 'prog_type' and k in a and k in b and M.PTY.index(a[k]) in [j for j, x in enumerate(M.PTYR) if x == b[k]]:
                    continue
                if '-u' in adds and k == 'other_network' and k in a and k in b:
                    x, y = dict(a[k]), dict(b[k])
                    if {p: q for p, q in x.items() if p != 'prog_type'} == {p: q for p, q in y.items() if p != 'prog_type'} and ('prog_type' in x) == ('prog_type' in y):
                        continue
                msg = 'record %d: %s is %s without and %s with %s' % (i, k, a.get(k), b.get(k), adds)
                break
            if msg is None:
                need = {'-R': 'raw_data', '-E': 'bler', '-s': 'stream', '-t': 'rx_time'}
                for o in adds:
                    if o in need and need[o] not in b and not (len(b) == 1 and 'debug' in b):
                        msg = 'record %d: no %s with %s: %s' % (i, need[o], o, b)
                if exp is not None and msg is None and i < len(exp) and not (len(b) == 1 and 'debug' in b):
                    l = exp[i]
                    want = l[4:] if l.startswith('#') else l
                    if b.get('raw_data') != want:
                        msg = 'record %d: raw_data is %r, the group is %r' % (i, b.get('raw_data'), want)
                    if '-s' in adds and b.get('stream') != (int(l[2]) if l.startswith('#') else 0):
                        msg = 'record %d: stream is %r for %r' % (i, b.get('stream'), l)
        return Verdict(msg, len(base) >= 10, adds, n=len(base))

    def simplify(self, case):
        for a in case['adds']:
            if len(case['adds']) > 1:
                yield dict(case, adds=[x for x in case['adds'] if x != a])
        yield from G.simplify_hex(case)


CHECK = C()
