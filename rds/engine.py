"""Property-based testing engine: generated cases -> oracle -> shrinking -> replay file, evidence.

A check is an object with
  ID, RULE (how cases are made, what is non-trivial), ASSUME (list of assumptions)
  gen(rng, tier) -> case (JSON-able)
  judge(case, env) -> Verdict(fail=None or message, nontrivial=bool, tags=[...])
  fixed(tier) -> iterable of cases always run first (optional)
  shrink_lists: paths of lists that may be thinned out;  shrink_ints / simplify(case) optional
env.sut(kind) gives a client of the fork-server driver.
"""
import hashlib, json, multiprocessing as mp, os, queue, random, signal, struct, subprocess, sys, tempfile, time, traceback

from . import build as B

VERIF = B.VERIF


class Crashed(Exception):
    pass


class Result:
    __slots__ = ('status', 'out', 'err')

    def __init__(self, status, out, err):
        self.status, self.out, self.err = status, out, err

    @property
    def timed_out(self):
        return self.status == -1

    @property
    def exit(self):
        """exit code, or None when killed by a signal or timed out"""
        if self.status < 0 or self.status & 0x7F:
            return None
        return self.status >> 8 & 0xFF

    def how(self):
        if self.timed_out:
            return 'timed out'
        if self.exit is None:
            return 'killed by signal %d' % (self.status & 0x7F)
        return 'exit status %d' % self.exit

    def lines(self):
        return self.out.decode('utf-8', 'surrogateescape').split('\n')


class Sut:
    """Client of one fork-server driver process."""

    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def _start(self):
        env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8',
               'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1',
               'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99'}
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def close(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None

    def run(self, args, stdin=b'', env=None, cwd='', clock=(), timeout=60.0):
        def s(x):
            if isinstance(x, str):
                x = x.encode('utf-8', 'surrogateescape')
            return struct.pack('<I', len(x)) + x
        a = ['redsea'] + list(args)
        m = [struct.pack('<II', int(timeout * 1000), len(a))] + [s(x) for x in a]
        e = env or {}
        m.append(struct.pack('<I', len(e)))
        m += [s('%s=%s' % kv) for kv in e.items()]
        m.append(s(cwd or ''))
        m.append(struct.pack('<I', len(clock)) + b''.join(struct.pack('<q', c) for c in clock))
        m.append(s(stdin))
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self._start()
            try:
                self.p.stdin.write(b''.join(m))
                self.p.stdin.flush()
                st, = struct.unpack('<i', self._read(4))
                n, = struct.unpack('<I', self._read(4))
                out = self._read(n)
                n, = struct.unpack('<I', self._read(4))
                err = self._read(n)
                return Result(st, out, err)
            except (BrokenPipeError, EOFError):
                self.close()
        raise RuntimeError('driver does not answer')

    def _read(self, n):
        b = self.p.stdout.read(n) if n else b''
        if len(b) != n:
            raise EOFError()
        return b


class Env:
    def __init__(self, exes, worker):
        self.exes = exes
        self.worker = worker
        self._suts = {}
        self._tmp = None

    def sut(self, kind='driver'):
        if kind not in self._suts:
            self._suts[kind] = Sut(self.exes[kind])
        return self._suts[kind]

    @property
    def tmp(self):
        if self._tmp is None:
            base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
            self._tmp = tempfile.mkdtemp(prefix='redsea-vf-', dir=base)
        return self._tmp

    def close(self):
        for s in self._suts.values():
            s.close()
        if self._tmp:
            import shutil
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


class Verdict:
    __slots__ = ('fail', 'nontrivial', 'tags', 'n')

    def __init__(self, fail=None, nontrivial=False, tags=(), n=1):
        self.fail, self.nontrivial, self.tags, self.n = fail, nontrivial, tags, n


class Check:
    ID = None
    TITLE = ''
    RULE = ''
    ASSUME = []
    KINDS = ['driver']          # builds needed
    QUICK_S = 24                # exploration time
    THOROUGH_S = 300
    MIN_CASES = 40              # at least so many cases in total, whatever the time
    HARD_S = 240                # never explore longer than this in the quick tier
    LISTS = ['groups']          # lists of a case that may be thinned out when shrinking
    SHRINK_S = 25

    def gen(self, rng, tier):
        raise NotImplementedError

    def judge(self, case, env):
        raise NotImplementedError

    def fixed(self, tier):
        return []

    def simplify(self, case):
        """yields simpler candidates"""
        return []

    def sample(self, case):
        s = json.dumps(case)
        return case if len(s) < 1500 else s[:1500] + '...'


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]


def judge(check, case, env):
    try:
        return check.judge(case, env)
    except (ValueError, KeyError, IndexError, TypeError, AttributeError):
        # never happens on output of the documented form
        return Verdict(fail='the output of the program could not be interpreted:\n' + traceback.format_exc()[-1500:])


def _worker(check, exes, seed, tier, worker, nworkers, deadline, hard, minper, outq, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    env = Env(exes, worker)
    evals = n_checked = 0
    keys = set()
    nontriv = 0
    samples = []
    tags = {}
    err = None
    fail = None
    try:
        def one(case):
            nonlocal evals, nontriv, n_checked, fail
            v = judge(check, case, env)
            evals += 1
            n_checked += v.n
            for t in v.tags:
                tags[t] = tags.get(t, 0) + 1
            if v.nontrivial:
                k = case_key(case)
                if k not in keys:
                    keys.add(k)
                    nontriv += 1
                    if len(samples) < 2:
                        samples.append(check.sample(case))
            if v.fail:
                again = [judge(check, case, env) for _ in range(2)]
                if all(a.fail for a in again):
                    fail = (case, v.fail)
                    return True
                tags['unconfirmed'] = tags.get('unconfirmed', 0) + 1
            return False
        done = False
        for i, case in enumerate(check.fixed(tier)):
            if i % nworkers == worker:
                if stop.is_set() or time.time() > hard:
                    break
                if one(case):
                    done = True
                    break
        i = 0
        while not done and not stop.is_set():
            now = time.time()
            if now > hard or (now > deadline and i >= minper):
                break
            rng = random.Random('%d/%s/%d/%d' % (seed, check.ID, worker, i))
            case = check.gen(rng, tier)
            i += 1
            if case is None:
                continue
            if one(case):
                done = True
        if done:
            stop.set()
    except Exception:
        err = traceback.format_exc()
        stop.set()
    env.close()
    outq.put((worker, evals, n_checked, nontriv, samples, tags, fail, err))


def _ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                reduced = True
            else:
                i += size
        if reduced:
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    return items


def shrink(check, case, msg, exes):
    env = Env(exes, 0)
    deadline = time.time() + check.SHRINK_S
    best = [case, msg]

    def fails(c):
        try:
            v = judge(check, c, env)
        except Exception:
            return False
        if v.fail:
            best[0], best[1] = c, v.fail
            return True
        return False
    try:
        for rnd in range(3):
            before = json.dumps(best[0])
            for path in check.LISTS:
                keys = path.split('.')
                obj = best[0]
                try:
                    for k in keys:
                        obj = obj[k]
                except (KeyError, TypeError):
                    continue
                if not isinstance(obj, (list, str)):
                    continue

                def with_list(l):
                    c = json.loads(json.dumps(best[0]))
                    o = c
                    for k in keys[:-1]:
                        o = o[k]
                    o[keys[-1]] = l
                    return c
                _ddmin(obj, lambda l: fails(with_list(l)), deadline)
            progress = True
            while progress and time.time() < deadline:
                progress = False
                for c in check.simplify(best[0]):
                    if time.time() > deadline:
                        break
                    if c != best[0] and fails(c):
                        progress = True
                        break
            if json.dumps(best[0]) == before or time.time() > deadline:
                break
    finally:
        env.close()
    return best


def main(check, argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    secs = None
    i = 0
    while i < len(argv):
        if argv[i] == '--replay':
            replay = argv[i + 1]
            i += 1
        elif argv[i] == '--seconds':
            secs = float(argv[i + 1])
            i += 1
        elif argv[i] in ('quick', 'thorough'):
            tier = argv[i]
        i += 1
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    exes = {}
    for k in check.KINDS:
        exes[k] = B.build(k)
    t_build = time.time() - t0
    if hasattr(check, 'prepare'):
        check.prepare(exes, tier)

    if replay:
        d = json.load(open(replay))
        env = Env(exes, 0)
        v = judge(check, d['case'], env)
        env.close()
        if v.fail:
            print('VIOLATION property=%s replay=%s' % (check.ID, replay))
            print(v.fail)
            return 1
        print('no violation on replay')
        return 0

    budget = secs if secs is not None else (check.QUICK_S if tier == 'quick' else check.THOROUGH_S)
    hard = budget + (check.HARD_S if tier == 'quick' else 2 * check.HARD_S)
    nw = int(os.environ.get('REDSEA_WORKERS', '0')) or min(8, os.cpu_count() or 8)
    outq = mp.Queue()
    stop = mp.Event()
    start = time.time()
    minper = -(-check.MIN_CASES // nw)
    ps = [mp.Process(target=_worker, args=(check, exes, seed, tier, w, nw, start + budget, start + hard, minper, outq, stop))
          for w in range(nw)]
    for p in ps:
        p.start()
    res = []
    while len(res) < nw:
        try:
            res.append(outq.get(timeout=5))
        except queue.Empty:
            if all(not p.is_alive() for p in ps) and outq.empty():
                break
    for p in ps:
        p.join(10)
        if p.is_alive():
            p.kill()
    errs = [r[7] for r in res if r[7]]
    fails = sorted([r for r in res if r[6]], key=lambda r: r[0])
    evals = sum(r[1] for r in res)
    checked = sum(r[2] for r in res)
    nontriv = sum(r[3] for r in res)
    samples = [s for r in sorted(res, key=lambda r: r[0]) for s in r[4]][:6]
    tags = {}
    for r in res:
        for k, v in r[5].items():
            tags[k] = tags.get(k, 0) + v
    ok = len(res) == nw and not errs
    rc = 0
    viol = 0
    if fails:
        case, msg = fails[0][6]
        if not os.environ.get('REDSEA_NOSHRINK'):
            case, msg = shrink(check, case, msg, exes)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (check.ID, hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]))
        json.dump({'property': check.ID, 'seed': seed, 'tier': tier, 'message': msg, 'case': case}, open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        print(msg[:3000])
        viol = len(fails)
        rc = 1
    elif not ok:
        for e in errs:
            sys.stderr.write(e + '\n')
        sys.stderr.write('check %s could not be completed\n' % check.ID)
        rc = 2
    elif nontriv == 0:
        sys.stderr.write('check %s explored no non-trivial case\n' % check.ID)
        rc = 2
    cov = {'evaluations': evals, 'distinct_nontrivial': nontriv, 'rule': check.RULE, 'samples': samples,
           'items_compared': checked}
    if tags:
        cov['tags'] = dict(sorted(tags.items()))
    ev = {'property': check.ID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': check.ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': viol,
          'build_s': round(t_build, 2)}
    if hasattr(check, 'extra_evidence'):
        cov.update(check.extra_evidence())
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '%s.json.%d.tmp' % (check.ID, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', check.ID + '.json'))
    print('%s %s: %d cases, %d distinct non-trivial, %d items compared, %.1f s' % (check.ID, 'held' if rc == 0 else 'NOT OK', evals, nontriv, checked, time.time() - t0))
    return rc
