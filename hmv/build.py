"""Mechanical extraction of the verified text: /repo's current sources -> LLVM IR -> Module.

Nothing is edited by hand.  The preprocessor flags are the ones the Makefile uses (asked from make itself, with the
settings of the configuration overridden).  clang translates with -O0; mem2reg/sroa turns locals into registers.
"""
import os
import re
import subprocess
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor
from .ir import Module, Unsupported

REPO = os.environ.get('HMV_REPO', '/repo')
C_SOURCES = ['h_malloc', 'chacha', 'memory', 'pages', 'random', 'util']

CONFIGS = {
    'default': ('default', {}),
    'light': ('light', {}),
    # every optional feature that is off by default
    'full': ('default', {'CONFIG_STATS': 'true', 'CONFIG_SEAL_METADATA': 'true'}),
    'label': ('default', {'_D': ['-DLABEL_MEMORY']}),
    # the opposite choice for every switch of the slab allocator
    'alt': ('default', {'CONFIG_EXTENDED_SIZE_CLASSES': 'false', 'CONFIG_LARGE_SIZE_CLASSES': 'false', 'CONFIG_N_ARENA': '1',
                        'CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH': '0', 'CONFIG_SLAB_CANARY': 'false', 'CONFIG_STATS': 'true',
                        'CONFIG_GUARD_SLABS_INTERVAL': '3'}),
    'alt2': ('default', {'CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH': '0', 'CONFIG_ZERO_ON_FREE': 'false', 'CONFIG_WRITE_AFTER_FREE_CHECK': 'false',
                         'CONFIG_REGION_QUARANTINE_RANDOM_LENGTH': '0', 'CONFIG_GUARD_SIZE_DIVISOR': '1'}),
    # the quarantine of large blocks: no queue, nothing at all
    'rq1': ('default', {'CONFIG_REGION_QUARANTINE_QUEUE_LENGTH': '0'}),
    'rq0': ('default', {'CONFIG_REGION_QUARANTINE_QUEUE_LENGTH': '0', 'CONFIG_REGION_QUARANTINE_RANDOM_LENGTH': '0'}),
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return r.stdout


def flags(cfg):
    variant, over = CONFIGS[cfg]
    cmd = ['make', '-C', REPO, '-n', '-B', 'VARIANT=' + variant, 'CC=gcc', 'CONFIG_NATIVE=false', 'CONFIG_WERROR=false',
           'CONFIG_SELF_INIT=false', 'CONFIG_CXX_ALLOCATOR=true']
    cmd += ['%s=%s' % kv for kv in over.items() if kv[0] != '_D']
    out = 'out' if variant == 'default' else 'out-' + variant
    txt = run(cmd + [out + '/h_malloc.o'], env={k: v for k, v in os.environ.items() if k not in ('MAKEFLAGS', 'MFLAGS', 'CPPFLAGS', 'CFLAGS')})
    line = [l for l in txt.splitlines() if 'h_malloc.c' in l][-1]
    return re.findall(r'-D\S+', line) + over.get('_D', [])


def defines(cfg):
    d = {}
    for f in flags(cfg):
        k, _, v = f[2:].partition('=')
        d[k] = v
    return d


def build_ir(cfg, cxx=False):
    """-> text of the linked IR"""
    D = flags(cfg)
    tmp = tempfile.mkdtemp(prefix='hmv-')
    try:
        common = D + ['-I', REPO + '/include', '-I', REPO, '-O0', '-Xclang', '-disable-llvm-passes', '-Xclang', '-disable-O0-optnone',
                      '-g', '-fno-discard-value-names', '-emit-llvm', '-c', '-w']
        if cxx:
            run(['clang++-18' if shutil.which('clang++-18') else 'clang++', '-std=c++17', '-fsized-deallocation'] + common +
                [REPO + '/new.cc', '-o', tmp + '/all.bc'])
        else:
            def one(f):
                run(['clang-18' if shutil.which('clang-18') else 'clang', '-std=c17'] + common + ['%s/%s.c' % (REPO, f), '-o', '%s/%s.bc' % (tmp, f)])
            with ThreadPoolExecutor(6) as ex:
                list(ex.map(one, C_SOURCES))
            run([tool('llvm-link')] + ['%s/%s.bc' % (tmp, f) for f in C_SOURCES] + ['-o', tmp + '/all.bc'])
        run([tool('opt'), '-S', '-passes=sroa', tmp + '/all.bc', '-o', tmp + '/all.ll'])
        return open(tmp + '/all.ll').read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tool(n):
    return n + '-18' if shutil.which(n + '-18') else n


def layouts(txt):
    """struct layouts from the debug information: name -> {'': size, member: (offset, size)} in bytes"""
    import_re = re.finditer(r'^!(\d+) = (?:distinct )?!DICompositeType\(tag: DW_TAG_structure_type,(?: name: "([^"]*)",)?[^\n]*?size: (\d+)', txt, re.M)
    ids = {}
    for m in import_re:
        ids[m.group(1)] = (m.group(2), int(m.group(3)) // 8)
    out = {}
    for i, (n, sz) in ids.items():
        out.setdefault(n or '#' + i, {'': sz})
    for m in re.finditer(r'^!\d+ = !DIDerivedType\(tag: DW_TAG_member, name: "([^"]*)", scope: !(\d+),[^\n]*?baseType: !\d+, size: (\d+)(?:, align: \d+)?(?:, offset: (\d+))?', txt, re.M):
        if m.group(2) in ids:
            n = ids[m.group(2)][0] or '#' + m.group(2)
            out[n][m.group(1)] = (int(m.group(4) or 0) // 8, int(m.group(3)) // 8)
    return out


_mods = {}


def module(cfg, cxx=False):
    k = (cfg, cxx)
    if k not in _mods:
        txt = build_ir(cfg, cxx)
        m = Module(txt)
        m.layouts = layouts(txt)
        m.cfg = cfg
        m.defs = defines(cfg)
        _mods[k] = m
    return _mods[k]
