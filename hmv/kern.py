"""Contracts on everything outside the verified text (libc and kernel) and on the memory_* wrappers.

The libc / kernel contracts are ASSUMED (they are the trusted base).  The contracts of memory_* are enforced on their
bodies (units 'memory.*').  The address-space ghost state is kept for one arbitrary page-aligned witness address x:
res(x) = reserved by us, acc(x) = readable and writable, zero(x) = contents discarded / never written.  As x is
arbitrary, what is proved about it holds for every page.
"""
import z3
from .val import *
from .exec import *

ENOMEM, EINVAL, EINTR = 12, 22, 4
PAGE = 4096


def inrange(x, p, n):
    """p <= x < p + n, over mathematical integers"""
    d = lsub_raw(x, p)
    a = zint(d) >= 0
    b = zint(lsub_raw(d, n)) < 0
    return z3.And(a, b)


def zint(v):
    return z3.IntVal(v) if isinstance(v, int) else v.z()


class World:
    """mapping operations as events only"""

    def __init__(self, tags=()):
        self.tags = tags

    def start(self, ex, st):
        pass

    def op(self, ex, st, kind, p, n, ok, **kw):
        st.ev.append((kind, p, n, ok))


class Witness(World):
    def start(self, ex, st):
        x = lscale(ex.flin('x', 16, (1 << 35) - 1), PAGE)
        st.g['x'] = x
        st.g['res'] = ex.fbool('res')
        st.g['acc'] = ex.fbool('acc')
        st.g['zero'] = ex.fbool('zero')
        st.g['gen'] = z3.BoolVal(False)     # freshly mapped by this call
        st.g['res0'], st.g['acc0'], st.g['zero0'] = st.g['res'], st.g['acc'], st.g['zero']

    def inr(self, st, p, n):
        return inrange(st.g['x'], p, n)

    def op(self, ex, st, kind, p, n, ok, **kw):
        g = st.g
        i = self.inr(st, p, n)
        st.ev.append((kind, p, n, ok))
        if kind == 'map':
            if ok:
                st.assume(z3.Implies(i, z3.Not(g['res'])))
                g['res'] = z3.Or(g['res'], i)
                g['acc'] = z3.And(g['acc'], z3.Not(i))
                g['zero'] = z3.Or(g['zero'], i)
                g['gen'] = z3.Or(g['gen'], i)
            return
        ex.oblige(st, '%s stays inside memory reserved by the allocator' % kind, z3.Implies(i, g['res']), self.tags)
        if kind == 'map_fixed':
            if ok:
                g['acc'] = z3.And(g['acc'], z3.Not(i))
                g['zero'] = z3.Or(g['zero'], i)
        elif kind == 'unmap':
            if ok:
                g['res'] = z3.And(g['res'], z3.Not(i))
                g['acc'] = z3.And(g['acc'], z3.Not(i))
        elif kind == 'rw':
            g['acc'] = z3.If(i, z3.BoolVal(True) if ok else ex.fbool('acc?'), g['acc'])
        elif kind == 'ro':
            g['acc'] = z3.If(i, z3.BoolVal(False) if ok else ex.fbool('acc?'), g['acc'])
        elif kind == 'purge':
            if ok:
                g['zero'] = z3.Or(g['zero'], i)
        elif kind == 'remap_fixed':
            new, nn = kw['new'], kw['nn']
            j = self.inr(st, new, nn)
            ex.oblige(st, 'mremap target is memory reserved by the allocator', z3.Implies(j, g['res']), self.tags)
            if ok:
                g['res'] = z3.And(z3.Or(g['res'], j), z3.Or(z3.Not(i), j))
                g['acc'] = z3.If(j, kw['oldacc'], z3.And(g['acc'], z3.Not(i)))
                g['zero'] = z3.And(g['zero'], z3.Not(j))
        else:
            raise Unsupported(kind)


# ---------------------------------------------------------------- errno
def errno_obj(ex):
    o = getattr(ex, '_errno', None)
    if o is None:
        o = ex._errno = CellObj('errno', 4)
        ex.addobj(o)
    return o


def set_errno(ex, st, v):
    ex.cstore(st, errno_obj(ex), 0, v, 4)


def get_errno(ex, st):
    return ex.cload(st, errno_obj(ex), 0, 4)


def havoc_errno(ex, st):
    e = ex.fresh('errno', 32)
    st.assume(e != 0)
    set_errno(ex, st, e)
    return e


def c_errno_location(ex, st, args, ins):
    return errno_obj(ex).base


def c_fatal_error(ex, st, args, ins):
    return ('end', ('fatal', ex.cstr(st, args[0])))


def c_abort(ex, st, args, ins):
    return ('end', ('abort', None))


# ---------------------------------------------------------------- kernel (level 0), used by the memory.* units
def fork_sys(ex, st, name, args, okval):
    """system call: success, or -1 with an arbitrary errno"""
    t = st.copy()
    st.ev.append((name, args, True))
    t.ev.append((name, args, False))
    e = havoc_errno(ex, t)
    t.g['sys_errno'] = e
    return ('alts', [(st, okval), (t, M64 if okval.__class__ is Lin or ins64(name) else 0xffffffff)])


def ins64(name):
    return name in ('mmap', 'mremap')


def k_mmap(ex, st, args, ins):
    p = ex.newbase('map')
    return fork_sys(ex, st, 'mmap', args, p)


def k_mremap(ex, st, args, ins):
    p = ex.newbase('remap')
    return fork_sys(ex, st, 'mremap', args, p)


def k_int(name):
    def f(ex, st, args, ins):
        return fork_sys(ex, st, name, args, 0)
    return f


KERNEL = {'mmap': k_mmap, 'mremap': k_mremap, 'munmap': k_int('munmap'), 'mprotect': k_int('mprotect'), 'madvise': k_int('madvise'),
          'prctl': k_int('prctl'), 'pkey_mprotect': k_int('pkey_mprotect'), '__errno_location': c_errno_location, 'abort': c_abort,
          'fatal_error': c_fatal_error}


# ---------------------------------------------------------------- memory_* wrappers (level 1)
def aligned(v, n=PAGE):
    if isinstance(v, int):
        return v % n == 0
    t = {i: k % n for i, k in v.t.items() if (k * getattr_align(i)) % n}
    r = lmk(v.c % n, t)
    if isinstance(r, int):
        return r % n == 0
    return r.z() % n == 0


def getattr_align(i):
    return ATOMS[i].align


def pre(ex, st, what, b):
    """a precondition of a memory_* function: otherwise the kernel returns EINVAL and the process is killed"""
    b = b if isinstance(b, bool) else simp(b)
    if b is not True:
        ex.oblige(st, what, b, ex.mem_tags)
        if not isinstance(b, bool):
            st.assume(b)


def m_map(ex, st, args, ins):
    n = ex.norm(st, args[0])
    pre(ex, st, 'mapping size is not zero', ex.bnot(ex.eq0(st, n)))
    t = st.copy()
    set_errno(ex, t, ENOMEM)
    ex.world.op(ex, t, 'map', 0, n, False)
    p = ex.newbase('map', lo=1 << 16, hi=(1 << 47) - 4096, align=4096)
    # (needs no lower bound: n > 0)
    st.assume(zbool(ex.lt0(st, lsub_raw(n, (1 << 47) - 4096))))
    st.assume(zbool(ex.lt0(st, lsub_raw(ladd_raw(p, n), (1 << 47) - 4096))))
    ex.world.op(ex, st, 'map', p, n, True)
    return ('alts', [(st, p), (t, 0)])


def m_op(kind, needs_size=True):
    def f(ex, st, args, ins):
        p, n = ex.norm(st, args[0]), ex.norm(st, args[1])
        pre(ex, st, 'memory_%s: address is page aligned' % kind, aligned(p))
        if needs_size:
            pre(ex, st, 'memory_%s: size is not zero' % kind, ex.bnot(ex.eq0(st, n)))
        t = st.copy()
        set_errno(ex, t, ENOMEM)
        ex.world.op(ex, t, kind, p, n, False)
        ex.world.op(ex, st, kind, p, n, True)
        if getattr(ex, 'no_oom', None) and kind in ex.no_oom:
            return False
        return ('alts', [(st, False), (t, True)])
    return f


def m_remap_fixed(ex, st, args, ins):
    old, on, new, nn = [ex.norm(st, a) for a in args]
    pre(ex, st, 'memory_remap_fixed: addresses are page aligned', ex.band(aligned(old), aligned(new)))
    pre(ex, st, 'memory_remap_fixed: sizes are not zero', ex.band(ex.bnot(ex.eq0(st, on)), ex.bnot(ex.eq0(st, nn))))
    t = st.copy()
    set_errno(ex, t, ENOMEM)
    ex.world.op(ex, t, 'remap_fixed', old, on, False, new=new, nn=nn, oldacc=z3.BoolVal(True))
    ex.world.op(ex, st, 'remap_fixed', old, on, True, new=new, nn=nn, oldacc=z3.BoolVal(True))
    return ('alts', [(st, False), (t, True)])


def m_set_name(ex, st, args, ins):
    if 'LABEL_MEMORY' in ex.m.defs:
        havoc_errno(ex, st)
        return ex.fbool('prctl')
    return False


MEMORY = {'memory_map': m_map, 'memory_map_fixed': m_op('map_fixed'), 'memory_unmap': m_op('unmap'),
          'memory_protect_rw': m_op('rw', False), 'memory_protect_ro': m_op('ro', False),
          'memory_protect_rw_metadata': m_op('rw', False),
          'memory_purge': m_op('purge', False), 'memory_set_name': m_set_name, 'memory_remap_fixed': m_remap_fixed,
          '__errno_location': c_errno_location, 'abort': c_abort, 'fatal_error': c_fatal_error}
