#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): plants small faults in scratch copies of
/repo and reports which checks notice.  usage: mutate.py WORKDIR [--files re] [--sample N] [--slots N] [--seconds S] [--seed N]
Survivors are written to WORKDIR/survivors.txt with the result of the repository's own tests left to the reader."""
import argparse, concurrent.futures, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('work'); ap.add_argument('--files', default='.*'); ap.add_argument('--sample', type=int, default=0)
ap.add_argument('--slots', type=int, default=4); ap.add_argument('--seconds', default='8'); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--tables', action='store_true', help='change string literals and hexadecimal or floating constants instead'); ap.add_argument('--list', action='store_true'); ap.add_argument('--funcs', default='.*')
A = ap.parse_args()

FUNC = {  # function -> checks, the one whose statement covers it first
    'decodePIN': 'C15 C14', 'Group::getPI': 'C06 C03', 'Group::hasPI': 'C06', 'Group::getNumErrors': 'C22', 'Group::setBlock': 'C03 C09 C29', 'printHex': 'C07 C02',
    'updateAndPrint': 'C06 C02 C16 C21 C22 C29', 'decodeBasics': 'C09 C29', 'decodeType0': 'C09 C12 C29 C21', 'decodeType1': 'C15', 'decodeType2': 'C10 C21 C29', 'decodeType3A': 'C16 C17 C18 C11',
    'decodeType4A': 'C13', 'decodeType5': 'C16 C29', 'decodeType6': 'C16 C29', 'decodeType7A': 'C16', 'decodeType9A': 'C16', 'decodeType10A': 'C17', 'decodeType14': 'C14', 'decodeType15A': 'C17 C29 C21', 'decodeType15B': 'C09 C29', 'decodeODAGroup': 'C16 C18 C11 C17',
    'decodeC': 'C20 C16', 'parseRadioTextPlus': 'C11 C29', 'parseEnhancedRT': 'C17 C29', 'parseDAB': 'C16 C29', 'decode1ABlock4': 'C15',
}
FILE = {'src/block_sync': 'C04 C05 C03 C22', 'src/channel': 'C06 C22 C23 C05 C21', 'src/options': 'C27 C26 C21', 'src/redsea.cc': 'C27 C24 C25 C26 C08 C03 C05 C28', 'src/tables.cc': 'C09 C15 C16 C18 C11',
        'src/util': 'C12 C22 C23 C18 C10 C13 C15 C20 C05', 'src/dsp/': 'C24 C25', 'src/io/input': 'C07 C08 C26 C25 C24 C27 C03 C23', 'src/io/output': 'C02 C07 C28 C23', 'src/text/': 'C09 C10 C17 C11 C16', 'src/tmc/tmc': 'C18 C19 C12',
        'src/tmc/locationdb': 'C19', 'src/tmc/csv': 'C19 C18', 'src/rft.hh': 'C20', 'src/base64.hh': 'C20', 'src/groups': 'C09 C16 C06', 'src/tmc/events': 'C18', 'src/constants': 'C27 C24 C22'}


def func_at(lines, n):
    for i in range(n, -1, -1):
        m = re.match(r'^[A-Za-z].*?\b((?:\w+::)?~?\w+)\(', lines[i])
        if m and not lines[i].startswith(' ') and not lines[i].rstrip().endswith(';'):
            return m.group(1)
    return ''


def checks_for(f, fn):
    if f == 'src/groups.cc':
        for k, v in FUNC.items():
            if fn == k or fn.endswith('::' + k):
                return v.split()
    for k, v in FILE.items():
        if f.startswith(k):
            return v.split()
    return ['C09']


def mutants(f, text):
    lines = text.split('\n')
    out = []

    def add(i, new, what):
        if new != lines[i]:
            out.append((f, i, lines[i], new, what))
    in_comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if '/*' in s and '*/' not in s:
            in_comment = True
        if in_comment:
            if '*/' in s:
                in_comment = False
            continue
        if not s or s.startswith(('//', '#', 'using', 'namespace', 'assert', 'static_assert', 'template', '*', '"', '\'')) or 'static_assert' in s or s.startswith('assert'):
            continue
        code = l.split('//')[0]
        nostr = re.sub(r'"(?:\\.|[^"\\])*"', lambda m: '"' + 'x' * (len(m.group(0)) - 2) + '"', code)
        for pat, reps in ((r'(?<![<])<=', ['<']), (r'(?<![->])>=', ['>']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
                          (r'(?<= )<(?= )', ['<=']), (r'(?<= )>(?= )', ['>=']), (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']), (r'(?<= )\*(?= )', ['/']), (r'(?<= )/(?= )', ['*']),
                          (r'(?<= )%(?= )', ['*']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'!(?=[a-z(])', ['']), (r'\bnot ', ['']), (r'(?<![A-Za-z_<>])& (?=[a-z0])', ['| ']), (r' \^ ', [' | ']),
                          (r'\bBLOCK3\b', ['BLOCK4']), (r'\bBLOCK4\b', ['BLOCK3']), (r'\bBLOCK2\b', ['BLOCK1']), (r'Version::A\b', ['Version::B']), (r'Version::B\b', ['Version::A'])):
            for m in re.finditer(pat, nostr):
                for r in reps:
                    add(i, l[:m.start()] + r + l[m.end():], pat)
        for m in re.finditer(r"(?<![\w.'\"])(\d+)(?:U|UL|u)?(?![\w.'\"x])", nostr):
            v = int(m.group(1))
            suf = m.group(0)[len(m.group(1)):]
            for w in {v + 1, v - 1} - {-1}:
                add(i, l[:m.start()] + str(w) + suf + l[m.end():], 'const')
        if re.match(r'^\s+[\w\[\].:>()*-]+(\(.*\)|\s*(=|\+=|-=|\^=|<<=)\s.*|\+\+|--);$', code.rstrip()) and not re.match(r'^\s+(return|const|auto|std::\w+\s+\w|int|bool|float|break|continue)', code):
            add(i, re.match(r'^\s*', l).group(0) + ';', 'delete')
        if s.startswith(('break;', 'continue;')):
            add(i, l.replace('break;', ';').replace('continue;', ';'), 'delete')
        if s == 'return;':
            add(i, l.replace('return;', ';'), 'delete')
    return lines, out


def table_mutants(f, text):
    lines = text.split('\n')
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(('//', '#', '*', 'static_assert')):
            continue
        for m in re.finditer(r'"((?:\\.|[^"\\])+)"', l):
            v = m.group(1)
            if 'events_data' in f and v.count(';') >= 3:
                fs = v.split(';')
                k = random.Random(v).choice([j for j, x in enumerate(fs[:-2]) if x and (j or 1)])
                x = fs[k]
                x = str(int(x) + 1) if x.isdigit() else {'D': 'L', 'L': 'D', 'U': 'X', 'X': 'U', 'F': '', 'S': ''}.get(x, x[:-1] + ('x' if x[-1] != 'x' else 'y'))
                fs[k] = x
                w = ';'.join(fs)
            elif len(v) == 1:
                w = chr(ord(v) ^ 1) if v.isalnum() else 'x'
            elif v[-1].isalnum() and v[-2] != '\\':
                w = v[:-1] + ('x' if v[-1] != 'x' else 'y')
            else:
                w = ('q' if v[0] != '\\' else 'q') + v[1:] if v[0] != '\\' else v + 'q'
            out.append((f, i, l, l[:m.start(1)] + w + l[m.end(1):], 'string'))
        code = l.split('//')[0]
        for m in re.finditer(r'\b0x([0-9A-Fa-f]+)', code):
            v = int(m.group(1), 16)
            for w in (v + 1, v ^ 1 << (len(m.group(1)) * 4 - 4)):
                out.append((f, i, l, l[:m.start()] + '0x%0*X' % (len(m.group(1)), w) + l[m.end():], 'hex'))
        for m in re.finditer(r'\b0b([01\']+)', code):
            b = m.group(1)
            out.append((f, i, l, l[:m.start(1)] + b[:-1] + ('0' if b[-1] == '1' else '1') + l[m.end(1):], 'bin'))
        for m in re.finditer(r'(?<![\w.])(\d+\.\d*)f?', code):
            v = float(m.group(1))
            for w in (v * 1.1 + 0.1, v * 0.9):
                out.append((f, i, l, l[:m.start(1)] + '%g' % w + ('.' if '%g' % w == str(int(w)) else '') + l[m.end(1):], 'float'))
    return lines, out


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    allm = []
    files = sh('git -C /repo ls-files src').stdout.decode().split()
    for f in files:
        if not f.endswith(('.cc', '.hh')) or not re.search(A.files, f) or 'events_data' in f and not A.tables:
            continue
        lines, ms = (table_mutants if A.tables else mutants)(f, open('/repo/' + f).read())
        for m in ms:
            fn = func_at(lines, m[1])
            if re.search(A.funcs, fn or 'x'):
                allm.append(m + (fn,))
    random.Random(A.seed).shuffle(allm)
    if A.sample:
        allm = allm[:A.sample]
    print(len(allm), 'mutants', flush=True)
    if A.list:
        for m in allm:
            print(m[0], m[1] + 1, m[5], m[4], m[3].strip())
        return
    os.makedirs(A.work, exist_ok=True)
    slots = []
    for k in range(A.slots):
        d = os.path.join(A.work, 'slot%d' % k)
        if not os.path.exists(d):
            sh('mkdir -p %s && cp -a /repo %s/repo && rm -rf %s/repo/_build' % (d, d, d))
        sh('cd %s/repo && git fetch -q /repo HEAD; git reset -q FETCH_HEAD; git checkout -q -- src ext' % d)
        slots.append(d)
    import queue
    q = queue.Queue()
    for s in slots:
        q.put(s)
    log = open(os.path.join(A.work, 'log.txt'), 'a')
    surv = open(os.path.join(A.work, 'survivors.txt'), 'a')

    def run(m):
        f, i, old, new, what, fn = m
        d = q.get()
        try:
            p = os.path.join(d, 'repo', f)
            orig = open(p).read()
            ls = orig.split('\n')
            ls[i] = new
            open(p, 'w').write('\n'.join(ls))
            env = {**os.environ, 'REDSEA_SRC': d + '/repo', 'REDSEA_VBUILD': d + '/vb', 'REDSEA_WORKERS': '2', 'REDSEA_NOSHRINK': '1', 'VERIF_SEED': '1'}
            res = []
            for c in checks_for(f, fn):
                t = time.time()
                try:
                    r = sh('timeout 400 python3 %s/check.py %s quick --seconds %s' % (VERIF, c, A.seconds), env=env)
                    o = r.stdout.decode('utf-8', 'replace')
                except Exception as e:
                    res.append((c, 'err')); break
                if 'build failed' in o:
                    res.append((c, 'nobuild')); break
                res.append((c, 1 if r.returncode == 1 and 'VIOLATION property=' in o else 'err' if r.returncode == 1 else r.returncode))
                if res[-1][1] == 1:
                    break
            open(p, 'w').write(orig)
            last = res[-1]
            line = '%s:%d %s [%s] %s  ==> %s' % (f, i + 1, fn, ' '.join('%s=%s' % x for x in res), old.strip(), new.strip())
            log.write(line + '\n'); log.flush()
            if last[1] not in (1, 'nobuild'):
                surv.write(line + '\n'); surv.flush()
                return 'survived'
            if last[1] == 'nobuild':
                return 'nobuild'
            return 'caught' if len(res) == 1 else 'caught by another'
        finally:
            shutil.rmtree(d + '/vb/bin', ignore_errors=True)
            if sum(1 for _ in os.scandir(d + '/vb/obj')) > 400:
                shutil.rmtree(d + '/vb/obj', ignore_errors=True)
            q.put(d)
    cnt = {}
    with concurrent.futures.ThreadPoolExecutor(A.slots) as ex:
        for k, r in enumerate(ex.map(run, allm)):
            cnt[r] = cnt.get(r, 0) + 1
            if k % 20 == 19:
                print(k + 1, cnt, flush=True)
    print(cnt)
main()
