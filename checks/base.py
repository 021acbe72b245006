"""Base class of the checks that compare the program with the reference decoder."""
import os
from rds import model as M, gen as G
from rds.engine import Check, Verdict
from rds.cmpjson import parse_lines, compare, Bad

FLAGS = {'rbds': '-u', 'partial': '-p', 'raw': '-R', 'streams': '-s', 'bler': '-E'}


def cli(opts):
    return [FLAGS[k] for k in sorted(opts) if opts[k] and k in FLAGS]


class ModelCheck(Check):
    KEYS = None                 # top-level keys decided by this property (None: all)
    WEIGHTS = {}                # senders
    OPTS = {'rbds': 0.2, 'partial': 0.25, 'raw': 0.1, 'streams': 0.2, 'bler': 0.1}
    DROP = (0.0, 0.0, 0.0, 0.01, 0.05, 0.2)
    PI_ERR = (0.0, 0.0, 0.0, 0.02, 0.1)
    PI_SWITCH = (0.0, 0.0, 0.0, 0.01)
    BG = (0.0, 0.0, 0.01, 0.05, 0.2)        # single groups of other kinds
    BURST = (0.0, 0.0, 0.01, 0.05)          # groups that are lost for the most part
    REP = (0.0, 0.0, 0.01, 0.1, 0.3)        # groups sent twice
    CORNER = (0.0, 0.0, 0.0, 0.01, 0.05)    # special values in the last two blocks
    RUN = (0, 1, 4, 20, 60)
    N = (60, 150, 300, 600)
    NEED = None                 # keys of which one has to be expected for a case to be non-trivial
    ASSUME = ['the reference decoder (rds/model.py) and the tables in data/tables.json state the standard\'s and redsea\'s documented behaviour',
              'only generated histories were explored']

    def noise(self, rng):
        return dict(bg=rng.choice(self.BG), burst=rng.choice(self.BURST), rep=rng.choice(self.REP), corner=rng.choice(self.CORNER), drop=rng.choice(self.DROP), pi_err=rng.choice(self.PI_ERR), pi_switch=rng.choice(self.PI_SWITCH),
                    run=rng.choice(self.RUN))

    def gen(self, rng, tier):
        n = rng.choice(self.N)
        if rng.random() < 0.005:
            n = 70000 if rng.random() < 0.12 else rng.choice([1100, 3000, 5000])
        opts = {k: rng.random() < p for k, p in self.OPTS.items()}
        opts = {k: True for k, v in opts.items() if v}
        w = dict(self.WEIGHTS)
        # now and then only some of the senders
        if len(w) > 1 and rng.random() < 0.5:
            main = max(w, key=w.get)
            w = {k: v for k, v in w.items() if k == main or rng.random() < 0.4}
        tx = G.Tx(rng, w, **self.noise(rng))
        return {'opts': opts, 'groups': [G.to_hex(b, s) for b, s in tx.groups(n)]}

    def expected(self, case, opts):
        return M.decode([G.from_hex(l) for l in case['groups']], opts)

    def run(self, case, e, extra=(), **kw):
        opts = case['opts']
        data = '\n'.join(case['groups']) + '\n'
        return e.sut().run(["-i", "hex"] + cli(opts) + list(extra), data.encode(), **kw)

    def judge(self, case, env):
        r = self.run(case, env)
        exp = self.expected(case, case['opts'])
        return self.compare(case, exp, r)

    def compare(self, case, exp, r):
        need = self.NEED or self.KEYS
        nt = n = 0
        for e in exp:
            if e is not None:
                n += 1
                if not isinstance(e, M.Raw) and (need is None or any(k in e for k in need)):
                    nt += 1
        if r.exit != 0:
            return Verdict('the program ended with %s; stderr: %s' % (r.how(), r.err[-500:].decode('utf-8', 'replace')), nt > 0, n=n)
        try:
            act = parse_lines(r.out)
        except Bad as e:
            return Verdict(str(e), nt > 0, n=n)
        return Verdict(compare(exp, act, self.KEYS, case['groups']), nt > 0, n=n)

    def simplify(self, case):
        for k in list(case['opts']):
            o = dict(case['opts'])
            del o[k]
            yield dict(case, opts=o)
        yield from G.simplify_hex(case)
