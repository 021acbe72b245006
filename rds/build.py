"""Builds the program under test from /repo's working tree (never touching /repo).

Objects are cached in /verif/.build by a hash of the preprocessed source and the flags, so a
change anywhere in /repo is always seen, and an unchanged file is compiled once.
"""
import concurrent.futures, fcntl, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REDSEA_SRC', '/repo')
BUILD = os.environ.get('REDSEA_VBUILD', os.path.join(VERIF, '.build'))

CXX = next((c for c in ('/usr/bin/clang++-18', '/usr/bin/clang++', '/usr/bin/g++') if os.path.exists(c)), 'c++')

BASE = ['-std=c++14', '-w', '-g1', '-fno-omit-frame-pointer']
VARIANTS = {
    # asserts stay on, as in the project's default build type
    'fast': ['-O1'],
    'san': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
            '-D_GLIBCXX_ASSERTIONS'],
    'fuzz': ['-O1', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all',
             '-D_GLIBCXX_ASSERTIONS'],
}


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr.decode('utf-8', 'replace')[-4000:])
    return r.stdout


def _version():
    import re
    try:
        m = re.search(r"version\s*:\s*'([^']+)'", open(os.path.join(REPO, 'meson.build')).read())
        return m.group(1)
    except Exception:
        return '0'


def _flags():
    inc = os.path.join(BUILD, 'include')
    os.makedirs(inc, exist_ok=True)
    txt = '#define VERSION "%s"\n' % _version()
    p = os.path.join(inc, 'config.h')
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = p + '.%d' % os.getpid()
        open(tmp, 'w').write(txt)
        os.replace(tmp, p)
    fl = ['-I' + REPO, '-I' + inc]
    # as meson.build does: which name does this liquid-dsp use?
    probe = os.path.join(BUILD, 'modem.flag')
    if not os.path.exists(probe):
        src = '#include <complex>\n#include "liquid/liquid.h"\nint main(){auto*p=&modemcf_create;return p==nullptr;}\n'
        r = subprocess.run([CXX, '-std=c++14', '-fsyntax-only', '-x', 'c++', '-'], input=src.encode(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        tmp = probe + '.%d' % os.getpid()
        open(tmp, 'w').write('1' if r.returncode == 0 else '0')
        os.replace(tmp, probe)
    if open(probe).read() == '1':
        fl.append('-DMODEM_IS_MODEMCF')
    return fl


def _compile(src, variant, extra, common):
    flags = BASE + VARIANTS[variant] + common + extra
    pre = _run([CXX] + flags + ['-E', '-P', src])
    # -P drops line markers: comments and blank lines do not cause a rebuild
    h = hashlib.sha256()
    h.update(CXX.encode() + b'\0' + '\0'.join(flags).encode() + b'\0' + pre)
    obj = os.path.join(BUILD, 'obj', h.hexdigest()[:40] + '.o')
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + '.%d.tmp' % os.getpid()
        _run([CXX] + flags + ['-c', src, '-o', tmp])
        os.replace(tmp, obj)
    return obj


def sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cc'), recursive=True))


def _link(objs, out_name, variant, extra):
    h = hashlib.sha256('\0'.join(sorted(objs) + extra).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, 'bin', out_name + '-' + h)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + '.%d.tmp' % os.getpid()
        v = [f for f in VARIANTS[variant] if not f.startswith('-D')]
        _run([CXX] + v + extra + objs + ['-o', tmp, '-lsndfile', '-lliquid'])
        os.replace(tmp, exe)
    return exe


def build(kind):
    """kind: 'driver' (fast), 'driver-san', 'plain' (fast, ordinary program), 'fuzz'"""
    variant, glue, plain = {
        'driver': ('fast', 'harness/driver.cc', False),
        'driver-san': ('san', 'harness/driver.cc', False),
        'plain': ('fast', None, True),
        'fuzz': ('fuzz', 'fuzz/fuzz_main.cc', False),
    }[kind]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        jobs = []
        common = _flags()
        for s in sources():
            extra = []
            if not plain and _defines_main(s):
                extra = ['-Dmain=redsea_main']
            jobs.append((s, variant, extra, common))
        if glue:
            jobs.append((os.path.join(VERIF, glue), variant, [], common))
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda j: _compile(*j), jobs))
        extra = ['-fsanitize=fuzzer'] if kind == 'fuzz' else []
        return _link(objs, kind, variant, extra)
    finally:
        lock.close()


def _defines_main(path):
    import re
    return re.search(r'\bint\s+main\s*\(', open(path, encoding='utf-8', errors='replace').read()) is not None


if __name__ == '__main__':
    import time
    for k in sys.argv[1:] or ['driver', 'plain', 'driver-san', 'fuzz']:
        t = time.time()
        print(k, build(k), '%.1f s' % (time.time() - t), flush=True)
