"""Looking for a failing input of the real code after an obligation failed.

The sources of the repository are compiled natively (system calls and locks intercepted by the linker's --wrap) together with
witness/wit.c, whose tests of a property fail only on behaviour that violates it.  The verifier decides; a failing test found
here only turns its verdict into a concrete failing run."""
import os
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from . import build

TESTS = {
    'C01': ['stress', 'classes', 'quar', 'threads'],
    'C02': ['usable', 'huge', 'align'],
    'C03': ['align'],
    'C04': ['badfree', 'classes'],
    'C05': ['table', 'stress'],
    'C06': ['sized'],
    'C07': ['canary', 'canary2'],
    'C08': ['waf', 'calloc', 'stress', 'classes'],
    'C09': ['quar', 'quar2'],
    'C10': ['large', 'rquar'],
    'C11': ['large', 'gsize', 'realloc', 'stress', 'oom'],
    'C12': ['guard', 'purge'],
    'C13': ['purge', 'quar2'],
    'C14': ['realloc', 'stress', 'oom'],
    'C15': ['oom', 'einval', 'huge'],
    'C16': ['errno', 'oom'],
    'C17': ['locks', 'threads'],
    'C18': ['fork'],
    'C19': ['stream'],
    'C20': ['random'],
    'C21': ['init'],
    'C22': ['osize'],
    'C23': ['stats'],
    'C24': ['seal'],
    'C25': ['new'],
    'C26': ['fatal', 'fatal2'],
    'C27': ['slot'],
}
WRAP = ['mmap', 'munmap', 'mprotect', 'mremap', 'madvise', 'getrandom', 'pkey_alloc', 'pkey_set', 'pkey_get', 'pkey_mprotect',
        'pthread_mutex_lock', 'pthread_mutex_unlock', 'write', 'abort']
HERE = os.path.dirname(os.path.abspath(__file__))
_built = {}
_results = {}


def binary(cfg, tmp, cxx=False):
    """build the driver for a configuration; path, or None if the sources do not fit it"""
    key = (cfg, cxx)
    if key in _built:
        return _built[key]
    D = build.flags(cfg)
    out = os.path.join(tmp, 'wit-%s%s' % (cfg, '-cxx' if cxx else ''))
    R = build.REPO
    srcs = [os.path.join(R, f) for f in sorted(os.listdir(R)) if f.endswith('.c')]
    objs = []
    try:
        def one(s):
            o = os.path.join(tmp, '%s-%s.o' % (cfg, os.path.basename(s)))
            build.run(['gcc', '-std=gnu17', '-O1', '-g', '-w', '-fno-builtin', '-U_FORTIFY_SOURCE', '-DH_MALLOC_PREFIX', '-D_GNU_SOURCE', *D, '-I', R + '/include', '-I', R, '-c', s, '-o', o])
            return o
        w = os.path.join(HERE, 'witness', 'wit.c')
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs + [w]))
        build.run(['gcc', '-o', out, *objs, '-lpthread', *['-Wl,--wrap=' + f for f in WRAP]])
    except build.BuildError as e:
        out = None
    _built[key] = out
    return out


def drive(prop, cfgs, seconds, log):
    """run the tests of a property; True if one fails"""
    tmp = tempfile.mkdtemp(prefix='hmv-wit-')
    t0 = time.time()
    _built.clear()
    found = False
    try:
        jobs = []
        for c in cfgs:
            b = binary(c, tmp)
            if b is None:
                log.append('configuration %s: the driver does not build against these sources' % c)
                continue
            for t in TESTS.get(prop, []):
                if t == 'new':
                    continue
                for seed in (1, 2):
                    jobs.append((c, b, t, seed))
        jobs.sort(key=lambda j: j[3])

        def go(j):
            c, b, t, seed = j
            left = seconds - (time.time() - t0)
            if left < 3:
                return None
            try:
                r = subprocess.run([b, t, str(seed), str(int(min(left, 60)))], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=left + 5, text=True, errors='replace', cwd=tmp)
            except subprocess.TimeoutExpired:
                return (j, 'timeout', '')
            return (j, r.returncode, r.stdout)
        if jobs:
            with ThreadPoolExecutor(8) as ex:
                for r in ex.map(go, jobs):
                    if r is None:
                        continue
                    (c, b, t, seed), rc, out = r
                    fails = [l for l in out.splitlines() if l.startswith('FAIL ')]
                    if rc == 1 and fails:
                        found = True
                        log.append('configuration %s, test %s, seed %d (hmv/witness/wit.c): %s' % (c, t, seed, fails[0]))
        if prop == "C25":
            found = drive_new(prop, cfgs, tmp, log) or found
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return found


def drive_new(prop, cfgs, tmp, log):
    src = os.path.join(HERE, 'witness', 'new.cc')
    if not os.path.exists(src):
        return False
    found = False
    for c in cfgs:
        try:
            D = build.flags(c)
            R = build.REPO
            objs = []
            for s in sorted(os.listdir(R)):
                if s.endswith('.c'):
                    o = os.path.join(tmp, 'n-%s-%s.o' % (c, s))
                    build.run(['gcc', '-std=gnu17', '-O1', '-g', '-w', *D, '-D_GNU_SOURCE', '-I', R + '/include', '-I', R, '-c', os.path.join(R, s), '-o', o])
                    objs.append(o)
            out = os.path.join(tmp, 'new-' + c)
            build.run(['g++', '-std=c++17', '-O1', '-g', '-w', '-fsized-deallocation', *D, '-D_GNU_SOURCE', '-I', R + '/include', '-I', R, os.path.join(R, 'new.cc'), src, *objs, '-lpthread', '-o', out])
            r = subprocess.run([out], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, text=True, errors='replace', cwd=tmp)
            fails = [l for l in r.stdout.splitlines() if l.startswith('FAIL ' + prop)]
            if fails:
                found = True
                log.append('configuration %s (hmv/witness/new.cc): %s' % (c, fails[0]))
        except (build.BuildError, subprocess.TimeoutExpired) as e:
            log.append('configuration %s: %s' % (c, str(e)[-400:]))
    return found


def replay(prop, r, o, path):
    """called for every reported violation; the driver runs once per check"""
    if prop not in _results:
        log = []
        cfgs = [r['cfg']] if r else []
        cfgs += [c for c in ('default', 'full') if c not in cfgs]
        cfgs = [c if c != 'label' else 'default' for c in cfgs]
        _results[prop] = (drive(prop, list(dict.fromkeys(cfgs)), 75, log), log)
    found, log = _results[prop]
    with open(path, 'a') as f:
        f.write('\nconcrete tests of the property on a native build of the sources (hmv/replay.py): %s\n' % ('a failing run was found' if found else 'no failing input found'))
        for l in log:
            f.write('  %s\n' % l)
    return found


if __name__ == '__main__':
    import sys
    for p in (sys.argv[1].split(',') if len(sys.argv) > 1 and sys.argv[1] != 'ALL' else sorted(TESTS)):
        log = []
        t0 = time.time()
        f = drive(p, (sys.argv[2].split(',') if len(sys.argv) > 2 else ['default', 'full', 'light', 'alt', 'alt2']), 100, log)
        print(p, f, round(time.time() - t0, 1), *log, sep='\n   ')
