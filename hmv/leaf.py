"""memory.c, pages.c, util.c: contracts enforced on the bodies."""
import z3
from .val import *
from .exec import *
from .units import unit
from . import kern
from .kern import ENOMEM, PAGE, inrange, zint, aligned, Witness, MEMORY, KERNEL, get_errno, set_errno

PROT_RW, PROT_R = 3, 1
MAP_SHARED_T, MAP_PRIVATE, MAP_FIXED, MAP_ANON, MAP_NORESERVE = 0xf, 2, 0x10, 0x20, 0x4000


def start(ctx, ex, fname, args, setup=None):
    if fname not in ctx.m.funcs:
        raise Unsupported('function %s is not in the source any more' % fname)
    st = State()
    if setup:
        setup(st)
    set_errno(ex, st, ex.fresh('errno0', 32))
    ctx.under.add(fname)
    ex.push(st, fname, args)
    return st


def eq(ex, st, a, b, w=64):
    return ex.cmp(st, 'eq', a, b, w)


# ------------------------------------------------------------------------------------------------ memory.c
MEMFN = {
    'memory_map': ('mmap', 'C11'), 'memory_map_fixed': ('mmap', 'C11'), 'memory_unmap': ('munmap', 'C11'),
    'memory_protect_ro': ('mprotect', 'C21'), 'memory_protect_rw': ('mprotect', 'C12'), 'memory_protect_rw_metadata': ('mprotect', 'C24'),
    'memory_remap_fixed': ('mremap', 'C14'), 'memory_purge': ('madvise', 'C10'), 'memory_remap': ('mremap', 'C11'),
}


@unit('memory.{f}', ['C15', 'C11', 'C12', 'C10', 'C14', 'C21', 'C24'], cfgs=('default', 'full'), cases=[{'f': f} for f in MEMFN])
def memory_unit(ctx, f):
    """exactly one system call, on exactly the range given, with the right protection; ENOMEM is reported, other errors are fatal"""
    ex = ctx.ex(KERNEL)
    sysname, tag = MEMFN[f]
    ptags = ('C11', 'C12', 'C10', 'C14', 'C21', 'C24')
    pkey = ex.fresh('pkey', 32)
    ex.contracts['get_metadata_key'] = lambda ex, st, a, i: pkey
    sealing = ctx.m.defs.get('CONFIG_SEAL_METADATA') == 'true'
    n, p, nn, q = ex.flin('size'), ex.flin('ptr'), ex.flin('new_size'), ex.flin('new')
    args = {'memory_map': [n], 'memory_remap_fixed': [p, n, q, nn], 'memory_remap': [p, n, nn]}.get(f, [p, n])
    st = start(ctx, ex, f, args)

    def on_end(st, out):
        calls = [e for e in st.ev if e[0] in KERNEL]
        maps = [e for e in calls if e[0] != 'prctl']
        ex.oblige(st, 'performs exactly one mapping system call', len(maps) == 1, ptags)
        if len(maps) != 1:
            return
        nm, a, ok = maps[0]
        E = lambda x, y, w=64: eq(ex, st, x, y, w)
        if sysname == 'mmap':
            fixed = f == 'memory_map_fixed'
            ex.oblige(st, 'mmap is called', nm == 'mmap', ptags)
            if nm != 'mmap':
                return
            if fixed:
                ex.oblige(st, 'maps over exactly the given address', E(a[0], p), ptags)
            ex.oblige(st, 'maps exactly the given size', E(a[1], n), ptags)
            ex.oblige(st, 'new pages are inaccessible', E(a[2], 0, 32), ptags)
            fl = a[3]
            good = isinstance(fl, int) and fl & MAP_SHARED_T == MAP_PRIVATE and fl & MAP_ANON and bool(fl & MAP_FIXED) == fixed and \
                not fl & ~(0xf | MAP_FIXED | MAP_ANON | MAP_NORESERVE)
            ex.oblige(st, 'private anonymous mapping, fixed only when asked', bool(good), ptags)
        elif sysname == 'munmap':
            ex.oblige(st, 'unmaps exactly the given range', ex.band(nm == 'munmap', E(a[0], p), E(a[1], n)), ptags)
        elif sysname == 'mprotect':
            prot = PROT_R if f == 'memory_protect_ro' else PROT_RW
            ex.oblige(st, 'changes the protection of exactly the given range', ex.band(nm in ('mprotect', 'pkey_mprotect'), E(a[0], p), E(a[1], n)), ptags)
            ex.oblige(st, 'sets the right protection', E(a[2], prot, 32), ptags)
            if f == 'memory_protect_rw_metadata':
                if sealing:
                    ex.oblige(st, 'metadata pages get the metadata protection key', nm == 'pkey_mprotect' and E(a[3], pkey, 32), ('C24',))
            elif nm == 'pkey_mprotect':
                ex.oblige(st, 'pages of users get no protection key', E(a[3], 0xffffffff, 32), ('C24', 'C12'))
        elif sysname == 'madvise':
            ex.oblige(st, 'discards exactly the given range', ex.band(nm == 'madvise', E(a[0], p), E(a[1], n), E(a[2], 4, 32)), ptags)
        elif f == 'memory_remap_fixed':
            ex.oblige(st, 'moves exactly the given range to the given place',
                      ex.band(nm == 'mremap', E(a[0], p), E(a[1], n), E(a[2], nn), E(a[3], 3, 32), len(a) > 4 and E(a[4], q)), ptags)
        else:
            ex.oblige(st, 'resizes exactly the given range in place', ex.band(nm == 'mremap', E(a[0], p), E(a[1], n), E(a[2], nn), E(a[3], 0, 32)), ptags)
        if ok:
            ex.oblige(st, 'success is not fatal', out[0] == 'ret', ('C15',))
            if out[0] == 'ret':
                if f == 'memory_map':
                    ex.oblige(st, 'returns the new mapping', out[1] in [o for o in ex_bases(ex, 'map')], ('C15', 'C11'))
                else:
                    ex.oblige(st, 'returns false on success', out[1] is False or ex.bnot(zb(out[1])), ('C15',))
        else:
            e = st.g['sys_errno']
            if out[0] == 'ret':
                ex.oblige(st, 'continues only when the failure is ENOMEM', e == ENOMEM, ('C15',))
                if f == 'memory_map':
                    ex.oblige(st, 'reports failure with a null pointer', E(out[1], 0), ('C15',))
                else:
                    ex.oblige(st, 'reports failure', zb(out[1]), ('C15',))
                ex.oblige(st, 'errno is ENOMEM after failure', ex.cmp(st, 'eq', get_errno(ex, st), ENOMEM, 32), ('C15',))
            else:
                ex.oblige(st, 'ENOMEM is not fatal', e != ENOMEM, ('C15',))
    ex.run(st, on_end)


def zb(v):
    if isinstance(v, (bool, int)):
        return bool(v)
    if z3.is_bool(v):
        return v
    return v != 0


def ex_bases(ex, name):
    return [Lin(0, {i: 1}) for i in ex.objs if ATOMS[i].name == name]


# ------------------------------------------------------------------------------------------------ pages.c
def pagesym(ex, name, lo=1, hi=(1 << 52) - 1):
    """page multiple"""
    return lscale(ex.flin(name, lo, hi), PAGE)


def up(v):
    return v


def unmap_refused(st):
    return any(e[0] == 'unmap' and not e[3] for e in st.ev)


def pages_post(ex, st, out, size, guard):
    """postcondition of allocate_pages(_aligned); size and guard are linear forms, out[1] the returned pointer"""
    g = st.g
    x = g['x']
    p = out[1]
    others = z3.Implies(g['res0'], z3.And(g['res'], g['acc'] == g['acc0'], g['zero'] == g['zero0']))
    if isinstance(p, int) and p == 0:
        ex.oblige(st, 'failed: errno is ENOMEM', ex.cmp(st, 'eq', get_errno(ex, st), ENOMEM, 32), ('C15',))
        ex.oblige(st, 'failed: no mapping is leaked (unless the kernel refuses to release it)',
                  z3.Implies(z3.Not(g['res0']), z3.Not(g['res'])) if not unmap_refused(st) else True, ('C15', 'C11'))
        ex.oblige(st, 'failed: memory of others is not touched', others, ('C15', 'C11'))
        return
    whole = inrange(x, lsub_raw(p, guard), ladd_raw(size, lscale(guard, 2)))
    use = inrange(x, p, size)
    ex.oblige(st, 'reserves exactly guard, usable pages, guard',
              z3.If(g['res0'], g['res'], g['res'] == whole), ('C11', 'C15'))
    ex.oblige(st, 'the new range was not reserved before', z3.Implies(whole, z3.Not(g['res0'])), ('C11',))
    ex.oblige(st, 'range lies in the user address space', ex.band(zint(lsub_raw(p, guard)) > 0, zint(ladd_raw(ladd_raw(p, size), guard)) < 1 << 47), ('C11',))
    ex.oblige(st, 'memory of others is not touched', others, ('C11',))
    return whole, use


@unit('allocate_pages', ['C11', 'C15', 'C02', 'C03', 'C08', 'C12', 'C21'])
def allocate_pages(ctx):
    for unp in (True, False):
        ex = ctx.ex(MEMORY)
        ex.world = Witness(('C11',))
        guard = pagesym(ex, 'guard')
        size = ladd_raw(pagesym(ex, 'usable', 0, (1 << 52) - 1), ex.flin('extra', 1, PAGE - 1))          # the size need not be a page multiple
        name = ex.addobj(CellObj('name', 64))
        st = start(ctx, ex, 'allocate_pages', [size, guard, unp, name], lambda s: ex.world.start(ex, s))

        def on_end(st, out):
            ex.oblige(st, 'is never fatal', out[0] == 'ret', ('C15', 'C11'))
            if out[0] != 'ret':
                return
            r = pages_post(ex, st, out, size, guard)
            if r:
                whole, use = r
                ex.oblige(st, 'result is page aligned', aligned(out[1]), ('C03', 'C11'))
                want = use if unp else z3.BoolVal(False)
                ex.oblige(st, 'exactly the usable pages are accessible', z3.Implies(whole, st.g['acc'] == want), ('C11', 'C12', 'C02', 'C21'))
                ex.oblige(st, 'the pages are fresh zero pages', z3.Implies(whole, st.g['zero']), ('C08',))
        ex.run(st, on_end)


@unit('allocate_pages_aligned', ['C11', 'C15', 'C02', 'C03', 'C08'], cost=3)
def allocate_pages_aligned(ctx):
    """one case per power of two from the page size up; the size is 4096 k - d, or so large that rounding it up overflows"""
    for sh in range(12, 64):
        for huge in (False, True):
            ex = ctx.ex(MEMORY)
            ex.world = Witness(('C11',))
            guard = pagesym(ex, 'guard')
            if huge:
                d = ex.flin('d', 1, 4095)
                size, usable = lsub_raw(1 << 64, d), 0
            else:
                k = ex.flin('k', 0, (1 << 52) - 1)
                d = ex.flin('d', 0, 4095)
                usable = lscale(k, PAGE)
                size = lsub_raw(usable, d)
            al = 1 << sh
            name = ex.addobj(CellObj('name', 64))

            def setup(s):
                ex.world.start(ex, s)
                if not huge:
                    s.assume(size.z() >= 0)
            st = start(ctx, ex, 'allocate_pages_aligned', [size, al, guard, name], setup)

            def on_end(st, out):
                ex.oblige(st, 'is never fatal', out[0] == 'ret', ('C15', 'C11'))
                if out[0] != 'ret':
                    return
                r = pages_post(ex, st, out, usable, guard)
                if r:
                    whole, use = r
                    ex.oblige(st, 'an overflowing or zero size fails', zint(usable) != 0, ('C02',))
                    ex.oblige(st, 'result is a multiple of the alignment', aligned(out[1], al), ('C03',))
                    ex.oblige(st, 'exactly the usable pages are accessible', z3.Implies(whole, st.g['acc'] == use), ('C11', 'C02'))
                    ex.oblige(st, 'the pages are fresh zero pages', z3.Implies(whole, st.g['zero']), ('C08',))
            ex.run(st, on_end)


@unit('deallocate_pages', ['C10', 'C11', 'C15'])
def deallocate_pages(ctx):
    ex = ctx.ex(MEMORY)
    ex.world = Witness(('C11',))
    size, guard = pagesym(ex, 'usable', 1, 1 << 35), pagesym(ex, 'guard', 0, 1 << 35)
    extra = ex.flin('extra', 0, PAGE - 1)
    size = lsub_raw(size, extra)
    p = ex.newbase('p', lo=1 << 16, hi=1 << 47, align=PAGE)

    def setup(s):
        ex.world.start(ex, s)
        x = s.g['x']
        s.g['whole'] = inrange(x, lsub_raw(p, guard), ladd_raw(size, lscale(guard, 2)))
        s.g['use'] = inrange(x, p, size)
        s.assume(zint(lsub_raw(p, guard)) > 0)
        s.assume(zint(ladd_raw(ladd_raw(p, size), guard)) < 1 << 47)
        s.assume(z3.Implies(s.g['whole'], s.g['res']))
    st = start(ctx, ex, 'deallocate_pages', [p, size, guard], setup)

    def on_end(st, out):
        g = st.g
        ex.oblige(st, 'is never fatal', out[0] == 'ret', ('C15', 'C10'))
        if out[0] != 'ret':
            return
        purge_failed = any(e[0] == 'purge' and not e[3] for e in st.ev)
        if not unmap_refused(st):
            ex.oblige(st, 'the whole range is unmapped', z3.Implies(g['whole'], z3.Not(g['res'])), ('C10', 'C11'))
        elif not purge_failed:
            ex.oblige(st, 'if the kernel refuses, the contents are discarded', z3.Implies(g['use'], z3.Or(z3.Not(g['res']), g['zero'])), ('C10',))
        ex.oblige(st, 'nothing else is touched', z3.Implies(z3.Not(g['whole']), z3.And(g['res'] == g['res0'], g['acc'] == g['acc0'], g['zero'] == g['zero0'])), ('C11', 'C10'))
    ex.run(st, on_end)
