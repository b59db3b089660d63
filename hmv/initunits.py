"""One-time initialisation, the layout of arenas and classes, and the fork handlers.

The loops over arenas and classes have compile-time constant bounds and are executed in full; everything else (kernel
addresses, random draws, failing system calls, what other threads have done before a lock is acquired) is symbolic."""
import z3
from .val import *
from .exec import *
from .units import unit
from .leaf import start
from . import kern, val
from .kern import PAGE, zint, MEMORY
from .slab import Cfg

ENTRIES = 128


class Lay:
    def __init__(self, m):
        self.cf = Cfg(m)
        self.ro = next(v for k, v in m.layouts.items() if 'slab_region_start' in v)
        self.sc, self.ra, self.as_ = m.layouts['size_class'], m.layouts['region_allocator'], m.layouts['allocator_state']
        self.K, self.N = len(self.cf.sizes), self.cf.N
        self.info = self.as_['slab_info_mapping'][1] // (self.N * self.K)
        self.entry = next(v[''] for k, v in m.layouts.items() if k == 'region_metadata')

    def classes(self):
        return [(a, k) for a in range(self.N) for k in range(self.K)]


def const_off(ex, st, p):
    """(object, constant offset) of an address"""
    try:
        o, off = ex.resolve(st, p)
    except Fault:
        return None, None
    if not isinstance(off, int):
        raise Unsupported('symbolic offset %r' % (off,))
    return o, sgn(off)


def atfork_names(m):
    """the functions that initialisation passes to pthread_atfork"""
    r = []
    for f in m.funcs.values():
        for b in f.blocks.values():
            for i in b.ins:
                if i.op in ('call', 'invoke') and i.a['callee'] == ('glob', 'pthread_atfork'):
                    r.append([v for ty, v, at in i.a['args']])
    if len(r) != 1:
        raise Unsupported('%d calls of pthread_atfork' % len(r))
    return [v[1] if v is not None and v[0] == 'glob' else None for v in r[0]]


def pkey_contract(ex, key):
    def f(ex, st, args, ins):
        ex.oblige(st, 'only the metadata key is changed', ex.cmp(st, 'eq', args[0], key(), 32), ('C24',))
        if not isinstance(args[1], int):
            raise Unsupported('symbolic protection key rights')
        st.g['sealed'] = {0: False, 1: True, 3: True}.get(args[1], 'write only')
        return 0
    return f


# ------------------------------------------------------------------------------------------------ fork handlers
@unit('fork.{h}', ('C18', 'C17', 'C24'), cfgs=('default', 'light', 'full'), cases=[{'h': h} for h in ('prepare', 'parent', 'child')])
def fork_handlers(ctx, h):
    """the handler touches every lock of the allocator exactly as fork needs; the child also reseeds every generator"""
    val.set_mode(True)
    L = Lay(ctx.m)
    ex = ctx.ex(MEMORY)
    T = ('C18',)
    name = atfork_names(ctx.m)[('prepare', 'parent', 'child').index(h)]
    if name not in ctx.m.funcs:
        ex.oblige(State(), 'a handler is registered', False, T)
        return
    AS = CellObj('allocator_state', L.as_[''])
    base = ex.addobj(AS)
    key = ex.fresh('metadata_pkey', 32)
    ra_off = L.as_['region_allocator'][0]
    sc_off = {(a, k): L.as_['size_class_metadata'][0] + (a * L.K + k) * L.sc[''] for a, k in L.classes()}

    def roinit(st, off, n):
        for f, v in L.ro.items():
            if f and v[0] <= off < v[0] + v[1]:
                if f == 'region_allocator':
                    return ladd(base, ra_off)
                if f == 'size_class_metadata':
                    return ladd(base, sc_off[(off - v[0]) // 8, 0])
                if f == 'metadata_pkey':
                    return key
        raise Unsupported('access to offset %d of ro' % off)
    ro = CellObj('ro', 4096, init=roinit, const=True)
    ex.addobj(ro)
    ex.globals['ro'] = ro.base
    nokey = key == 0xffffffff

    def unsealed(st, what):
        if L.cf.seal and st.g['sealed'] is not False:
            ex.oblige(st, '%s only while metadata is unsealed' % what, nokey, ('C24', 'C18'))

    def bad(st, off, n, *v):
        unsealed(st, 'metadata is accessed')
        ex.oblige(st, 'the handler accesses nothing but locks and generators', False, T)
    AS.onload = AS.onstore = bad
    locks = {ra_off + L.ra['lock'][0]: 'region allocator'}
    rngs = {ra_off + L.ra['rng'][0]: 'region allocator'}
    for (a, k), o in sc_off.items():
        locks[o + L.sc['lock'][0]] = 'arena %d class %d' % (a, k)
        rngs[o + L.sc['rng'][0]] = 'arena %d class %d' % (a, k)

    def touch(what, table):
        def f(ex, st, args, ins):
            o, off = const_off(ex, st, args[0])
            unsealed(st, '%s is used' % what)
            ex.oblige(st, '%s: only on a lock or generator of the allocator' % what, o is AS and off in table, T)
            d = st.g['did']
            if (what, off) in d:
                ex.oblige(st, '%s: at most once each' % what, what not in ('lock', 'unlock'), T + (('C17',) if what != 'reseed' else ()))
            d[what, off] = True
            return None if what == 'reseed' else 0
        return f
    ex.contracts.update({'pthread_mutex_lock': touch('lock', locks), 'pthread_mutex_unlock': touch('unlock', locks),
                         'random_state_init': touch('reseed', rngs)})

    def minit(ex, st, args, ins):
        o, off = const_off(ex, st, args[0])
        unsealed(st, 'init lock is used')
        ex.oblige(st, 'init lock: only on a lock of the allocator', o is AS and off in locks, T)
        t = st.copy()
        t.g['initfail'] = True
        e = ex.fresh('error', 32)
        t.assume(e != 0)
        st.g['did']['init lock', off] = True
        return ('alts', [(st, 0), (t, e)])
    ex.contracts['pthread_mutex_init'] = minit
    ex.contracts['pkey_set'] = pkey_contract(ex, lambda: key)
    st = start(ctx, ex, name, [])
    st.g['did'] = {}
    st.g['sealed'] = True if L.cf.seal else None
    ex.faults_tags = T

    def on_end(st, out):
        O = lambda nm, f, tags=T: ex.oblige(st, nm, f, tags)
        if st.g.get('initfail'):
            O('a lock that cannot be initialised is fatal', out[0] == 'fatal')
            return
        O('always returns', out[0] == 'ret')
        d = st.g['did']
        want = {'prepare': ('lock', locks), 'parent': ('unlock', locks), 'child': ('init lock', locks)}[h]
        verb = {'prepare': 'taken before fork', 'parent': 'released in the parent', 'child': 'reinitialised in the child'}[h]
        miss = [n for o, n in want[1].items() if (want[0], o) not in d]
        O('every lock is %s' % verb, not miss, T + ('C17',))
        if h == 'child':
            miss = [n for o, n in rngs.items() if ('reseed', o) not in d]
            O('every random generator is reseeded from the kernel in the child', not miss)
        O('no other lock operation', all(w == want[0] or (h == 'child' and w == 'reseed') for w, o in d), T + ('C17',))
        if L.cf.seal and st.g['sealed'] is not True:
            O('metadata is sealed again', nokey, ('C24', 'C18'))
    ex.run(st, on_end)


# ------------------------------------------------------------------------------------------------ init_slow_path
@unit('init_slow_path', ('C21', 'C18', 'C15', 'C17', 'C12', 'C11', 'C05', 'C13', 'C01', 'C04', 'C24'), cfgs=('default', 'light', 'full'))
def init_slow_path(ctx):
    """initialises exactly once; disjoint randomly placed regions; everything set up before it is published; fatal on every failure"""
    for before, inside in ((0, 0), (0, 1), (1, 1)):
        init_case(ctx, before, inside)


def init_case(ctx, before, inside):
    val.set_mode(True)
    L = Lay(ctx.m)
    cf = L.cf
    ex = ctx.ex(MEMORY)
    T = ('C21',)
    ex.faults_tags = ('C21', 'C11')
    ex.mem_tags = ('C21', 'C11')
    ex.max_unroll = 4000
    ex.world = kern.World()
    if inside and not before or before:
        E = ex.newbase('slab_region_end', lo=1 << 20, hi=1 << 47)
    else:
        E = None
    ends = L.ro['slab_region_end'][0]

    def roinit(st, off, n):
        if off == ends and n == 8 and before:
            return E
        return 0
    ro = CellObj('ro', 4096, init=roinit)
    ex.addobj(ro)
    ex.globals['ro'] = ro.base

    def access(what):
        def f(st, off, n, *v):
            g = st.g
            if what == 'store':
                g['stores'] = g.get('stores', 0) + 1
                ex.oblige(st, 'the allocator is set up only under the initialisation lock', g['held'], T + ('C17',))
                ex.oblige(st, 'the allocator is set up only once', not (before or (inside and g['locked'])), T)
                ex.oblige(st, 'global data is not written after it has been made read-only', not g.get('ro_protected'), T)
                if off == ends and n == 8:
                    ex.oblige(st, 'the end of the slab region is published with release ordering', g.get('order') in ('release', 'acq_rel', 'seq_cst'), T)
                    ex.oblige(st, 'the end of the slab region is published once', not g.get('published'), T)
                    g['published'] = True
                else:
                    ex.oblige(st, 'nothing is set up after the allocator is visible as initialised', not g.get('published'), T)
            elif off == ends and not g['held']:
                ex.oblige(st, 'initialisation is tested with acquire ordering outside the lock', g.get('order') in ('acquire', 'seq_cst'), T)
        return f
    ro.onload, ro.onstore = access('load'), access('store')

    # ---- locks
    def islock(ex, st, p):
        return ex.must(st, zbool(ex.cmp(st, 'eq', p, ex.glob(st, 'init_lock'), 64)))

    def lock(ex, st, args, ins):
        ex.oblige(st, 'only the initialisation lock is taken, once', islock(ex, st, args[0]) and not st.g['held'], T + ('C17',))
        st.g['held'] = st.g['locked'] = True
        if inside and not before:
            ex.cstore(st, ro, ends, E, 8)     # another thread was faster
        return 0

    def unlock(ex, st, args, ins):
        ex.oblige(st, 'only the initialisation lock is released, while held', islock(ex, st, args[0]) and st.g['held'], T + ('C17',))
        st.g['held'] = False
        return 0

    # ---- metadata
    def mapped(st, name, size, guard, rw):
        o = CellObj(name, size, init=lambda st, off, n: 0)
        base = ex.addobj(o, lo=1 << 20, hi=(1 << 47) - size - PAGE, align=PAGE)
        st.g['rw'] = dict(st.g['rw'])
        st.g['rw'][o.id] = [(0, -(-size // PAGE) * PAGE)] if rw else []

        def chk(what):
            def f(st, off, n, *v):
                ok = any(lo <= off and off + n <= hi for lo, hi in st.g['rw'][o.id])
                ex.oblige(st, 'metadata is accessed only where it is accessible', ok, T + ('C12',))
                ex.oblige(st, 'the generator used for initialisation is not used after its release', o.id not in st.g['released'], T)
                if what == 'store':
                    ex.oblige(st, 'the allocator is set up only under the initialisation lock', st.g['held'], T + ('C17',))
                    ex.oblige(st, 'nothing is set up after the allocator is visible as initialised', not st.g.get('published'), T)
            return f
        o.onload, o.onstore = chk('load'), chk('store')
        return o, base

    def allocate_pages(ex, st, args, ins):
        size, guard, unp = ex.norm(st, args[0]), ex.norm(st, args[1]), args[2]
        if not isinstance(size, int) or not isinstance(unp, (int, bool)):
            raise Unsupported('allocate_pages of symbolic size')
        ex.oblige(st, 'metadata mapping: size is not zero', size > 0, T)
        ex.oblige(st, 'metadata is surrounded by at least one inaccessible page', z3.And(zint(guard) >= PAGE, zint(guard) % PAGE == 0, zint(guard) <= 1 << 40), T + ('C11',))
        t = st.copy()
        t.g['failed'] = True
        o, base = mapped(st, 'pages%d' % size, size, guard, bool(unp))
        st.g['maps'] = st.g['maps'] + [(o, size, guard)]
        return ('alts', [(st, base), (t, 0)])

    def deallocate_pages(ex, st, args, ins):
        o, off = const_off(ex, st, args[0])
        e = [m for m in st.g['maps'] if m[0] is o]
        ex.oblige(st, 'only a whole mapping is released, with its size and guard', bool(e) and off == 0 and o.id not in st.g['released'] and
                  ex.band(ex.cmp(st, 'eq', args[1], e[0][1], 64), ex.cmp(st, 'eq', args[2], e[0][2], 64)), T + ('C11',))
        st.g['released'] = st.g['released'] + [o.id if o else 0]
        return None

    def protect_rw(ex, st, args, ins):
        o, off = const_off(ex, st, args[0])
        n = ex.norm(st, args[1])
        if not isinstance(n, int) or not hasattr(o, 'onload') or o.id not in st.g['rw']:
            raise Unsupported('memory_protect_rw_metadata')
        ex.oblige(st, 'metadata is unprotected page-wise inside its mapping', off % PAGE == 0 and off + n <= o.size, T + ('C11', 'C12'))
        ex.oblige(st, 'metadata is set up only under the initialisation lock', st.g['held'], T)
        t = st.copy()
        t.g['failed'] = True
        st.g['rw'] = dict(st.g['rw'])
        st.g['rw'][o.id] = st.g['rw'][o.id] + [(off, off + -(-n // PAGE) * PAGE)]
        return ('alts', [(st, False), (t, True)])

    def memory_map(ex, st, args, ins):
        n = ex.norm(st, args[0])
        ex.oblige(st, 'the slab region has room for every arena and class', ex.cmp(st, 'eq', n, L.N * cf.ARENA, 64), T)
        r = kern.m_map(ex, st, args, ins)
        (s, p), (t, z) = r[1]
        t.g['failed'] = True
        s.g['S'] = s.g.get('S', []) + [p]
        return r

    def protect_ro(ex, st, args, ins):
        o, off = const_off(ex, st, args[0])
        n = args[1]
        ex.oblige(st, 'exactly the pages of the global data become read-only', o is ro and off == 0 and isinstance(n, int) and L.ro[''] <= n <= 4096, T)
        ex.oblige(st, 'global data is complete when it is made read-only', bool(st.g.get('published')) and st.g['held'], T)
        t = st.copy()
        t.g['failed'] = True
        st.g['ro_protected'] = True
        return ('alts', [(st, False), (t, True)])

    # ---- random numbers
    def target(ex, st, p, what):
        o, off = const_off(ex, st, p)
        ok = o is not None and o.id in st.g['rw'] and any(lo <= off and off + 328 <= hi for lo, hi in st.g['rw'][o.id]) and o.id not in st.g['released']
        ex.oblige(st, '%s: the generator is accessible' % what, ok, T)
        return (o.id, off) if o else (0, 0)

    def rinit(ex, st, args, ins):
        k = target(ex, st, args[0], 'random_state_init')
        st.g['seeded'] = st.g['seeded'] | {k}
        return None

    def rinit_from(ex, st, args, ins):
        k, s = target(ex, st, args[0], 'random_state_init_from_random_state'), target(ex, st, args[1], 'random_state_init_from_random_state')
        ex.oblige(st, 'generators are seeded from a generator that has been seeded', s in st.g['seeded'], T + ('C18',))
        ex.oblige(st, 'nothing is set up after the allocator is visible as initialised', not st.g.get('published'), T)
        st.g['seeded'] = st.g['seeded'] | {k}
        return None

    def draw(ex, st, args, ins):
        k = target(ex, st, args[0], 'get_random_u64_uniform')
        ex.oblige(st, 'random offsets come from a generator that has been seeded', k in st.g['seeded'], T)
        b = ex.norm(st, args[1])
        if not isinstance(b, int):
            raise Unsupported('symbolic bound')
        ex.oblige(st, 'the bound of a random draw is not zero', b > 0, T)
        d = ex.flin('draw', 0, b - 1)
        st.g['draws'] = dict(st.g['draws'])
        if isinstance(d, Lin):
            st.g['draws'][next(iter(d.t))] = b
        return d

    # ---- rest
    def minit(ex, st, args, ins):
        o, off = const_off(ex, st, args[0])
        ok = o is not None and o.id in st.g['rw'] and any(lo <= off and off + 40 <= hi for lo, hi in st.g['rw'][o.id])
        ex.oblige(st, 'only locks of the allocator are initialised, before they are visible', ok and not st.g.get('published'), T + ('C17',))
        t = st.copy()
        t.g['failed'] = True
        e = ex.fresh('error', 32)
        t.assume(e != 0)
        st.g['locks'] = st.g['locks'] | {(o.id if o else 0, off)}
        return ('alts', [(st, 0), (t, e)])

    def sysconf(ex, st, args, ins):
        if args[0] != 30:
            raise Unsupported('sysconf')
        t = st.copy()
        t.g['failed'] = True
        other = ex.flin('pagesize', 0, 1 << 40)
        t.assume(zint(other) != PAGE)
        st.g['pagesize'] = True
        return ('alts', [(st, PAGE), (t, other)])

    def libgen(w):
        # the value is opaque: the fields written are compared with what the same call would write
        def f(ex, st, args, ins):
            n = ex.norm(st, args[0])
            if not isinstance(n, int):
                raise Unsupported('symbolic divisor')
            key = ('div', w, n)
            if key not in ex.divs:
                ty = ins.ty
                if ty.k == 'int':
                    ex.divs[key] = z3.BitVec('divisor%d_%d' % (w, n), ty.w)
                else:
                    ex.divs[key] = [ex.flin('divisor%d_%d_%d' % (w, n, i)) if e.w == 64 else z3.BitVec('divisor%d_%d_%d' % (w, n, i), e.w) for i, e in enumerate(ty.elems)]
            return ex.divs[key]
        return f
    ex.divs = {}

    def atfork(ex, st, args, ins):
        g = st.g
        ex.oblige(st, 'fork handlers are registered after initialisation, without the initialisation lock', not g['held'] and bool(g.get('ro_protected')), ('C18', 'C21'))
        want = atfork_names(ctx.m)
        ex.oblige(st, 'all three fork handlers are registered', all(w and not isinstance(a, int) and ex.must(st, zbool(ex.cmp(st, 'eq', a, ex.glob(st, w), 64))) for a, w in zip(args, want)), ('C18',))
        t = st.copy()
        t.g['failed'] = True
        e = ex.fresh('error', 32)
        t.assume(e != 0)
        g['atfork'] = g.get('atfork', 0) + 1
        return ('alts', [(st, 0), (t, e)])

    pk = []

    def pkey_alloc(ex, st, args, ins):
        st.g['pkeys'] = st.g.get('pkeys', 0) + 1
        pk.append(ex.fresh('pkey', 32))
        return pk[-1]
    ex.contracts.update({
        'pthread_mutex_lock': lock, 'pthread_mutex_unlock': unlock, 'pthread_mutex_init': minit, 'allocate_pages': allocate_pages,
        'deallocate_pages': deallocate_pages, 'memory_protect_rw_metadata': protect_rw, 'memory_protect_rw': protect_rw,
        'memory_map': memory_map, 'memory_protect_ro': protect_ro, 'random_state_init': rinit, 'random_state_init_from_random_state': rinit_from,
        'get_random_u64_uniform': draw, 'sysconf': sysconf, 'libdivide_u32_gen': libgen(32), 'libdivide_u64_gen': libgen(64),
        'pthread_atfork': atfork, 'pkey_alloc': pkey_alloc})
    st = start(ctx, ex, 'init_slow_path', [])
    st.g.update(held=False, locked=False, rw={}, released=[], maps=[], seeded=frozenset(), locks=frozenset(), draws={})

    def on_end(st, out):
        g = st.g
        if g.get('failed'):
            ex.oblige(st, 'every failure during initialisation is fatal', out[0] == 'fatal', ('C21', 'C15'))
            return
        O = lambda nm, f, tags=T: ex.oblige(st, nm, f, tags)
        O('always returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        O('the initialisation lock is released', not g['held'], T + ('C17',))
        if before or inside:
            O('nothing is set up twice', not g.get('stores') and not g['maps'] and not g.get('S') and not g.get('atfork') and not g.get('pkeys'), T + ('C18',))
            return
        O('the fork handlers are registered exactly once', g.get('atfork') == 1, ('C18',))
        O('the page size is checked', g.get('pagesize'), ('C21',))
        O('there is one slab region', len(g.get('S', [])) == 1)
        O('the allocator becomes visible as initialised', g.get('published'))
        O('global data is read-only afterwards', g.get('ro_protected'))
        if len(g.get('S', [])) != 1:
            return
        S = g['S'][0]
        ld = lambda o, off, n=8: ex.cload(st, o, off, n)
        E = lambda nm, a, b, tags=T: O(nm, ex.cmp(st, 'eq', a, b, 64), tags)
        E('the slab region starts where it was mapped', ld(ro, L.ro['slab_region_start'][0]), S)
        E('the slab region ends after the last arena', ld(ro, ends), ladd_raw(S, L.N * cf.ARENA))
        used = []       # (object, offset, length, name) of every piece of metadata

        def place(p, n, name, rw):
            if isinstance(p, int):
                O('%s is set up' % name, False)
                return None, 0
            o, off = const_off(ex, st, p)
            ok = o is not None and o.id in g['rw'] and o.id not in g['released'] and 0 <= off and off + n <= o.size
            O('the metadata lies in its mapping', ok)
            if rw:
                O('the metadata is accessible', ok and any(lo <= off and off + rw <= hi for lo, hi in g['rw'][o.id]))
            used.append((o.id if o else 0, off, n, name))
            return o, off
        # large blocks
        p = ld(ro, L.ro['region_allocator'][0])
        o, off = place(p, L.ra[''], 'region allocator', L.ra[''])
        if o:
            O('the lock of the large-block table is initialised', (o.id, off + L.ra['lock'][0]) in g['locks'], T + ('C17',))
            O('the generator of the large-block table is seeded', (o.id, off + L.ra['rng'][0]) in g['seeded'], T + ('C18',))
            TT = T + ('C05',)
            tot = ld(o, off + L.ra['total'][0])
            E('the large-block table is empty', ld(o, off + L.ra['free'][0]), tot, TT)
            O('the large-block table has a power of two of entries', isinstance(tot, int) and tot > 1 and tot & (tot - 1) == 0 and tot * L.entry <= L.as_['regions_a'][1], TT)
            tables = [ld(ro, L.ro['regions'][0]), ld(ro, L.ro['regions'][0] + 8)]
            cur = ld(o, off + L.ra['regions'][0])
            E('the first table is in use', cur, tables[0], TT)
            for i, t in enumerate(tables):
                q, qo = place(t, L.as_['regions_a'][1], 'table %d' % i, tot * L.entry if i == 0 and isinstance(tot, int) else 0)
                O('the tables are page aligned', qo % PAGE == 0, TT)
            known = {L.ra[f][0] for f in ('total', 'free', 'regions')}
            O('everything else of the large-block state starts as zero', all(a - off in known or x[1] == 0 for a, x in st.cells.get(o.id, {}).items() if off <= a < off + L.ra['']) , TT)
        seen = set()
        for a in range(L.N):
            p0 = ld(ro, L.ro['size_class_metadata'][0] + 8 * a)
            o, off = place(p0, L.K * L.sc[''], 'classes of arena %d' % a, L.K * L.sc[''])
            if not o:
                continue
            for k in range(L.K):
                c = off + k * L.sc['']
                O('the lock of every class is initialised', (o.id, c + L.sc['lock'][0]) in g['locks'], T + ('C17',))
                O('the generator of every class is seeded', (o.id, c + L.sc['rng'][0]) in g['seeded'], T + ('C18',))
                crs = ld(o, c + L.sc['class_region_start'][0])
                gap = lsub_raw(crs, ladd_raw(S, a * cf.ARENA + k * cf.RCRS))
                z = zint(gap)
                O('the region of a class lies in its own part of the slab region with an inaccessible page on either side',
                  z3.And(z >= PAGE, z % PAGE == 0, z + cf.CRS + PAGE <= cf.RCRS), T + ('C11',))
                at = [i for i in (gap.t if isinstance(gap, Lin) else {}) if i in g['draws']]
                ok = len(at) == 1 and len(gap.t) == 1 and gap.t[at[0]] == PAGE and at[0] not in seen and g['draws'][at[0]] == (cf.RCRS - cf.CRS) // PAGE - 1
                O('the offset of the region is uniformly random over every possible page, drawn for this class', ok)
                seen.update(at)
                size = cf.sizes[k] or 16
                slab = -(-cf.slots[k] * size // PAGE) * PAGE
                si = ld(o, c + L.sc['slab_info'][0])
                q, qo = place(si, L.info, 'slab metadata of arena %d class %d' % (a, k), 0)
                O('slab metadata is page aligned', qo % PAGE == 0, T + ('C12',))
                divs = {f: [ld(o, c + L.sc[f][0] + x, 1) for x in range(L.sc[f][1])] for f in ('size_divisor', 'slab_size_divisor')}
                for f, w, n in (('size_divisor', 32, size), ('slab_size_divisor', 64, slab)):
                    want = ex.divs.get(('div', w, n))
                    TD = ('C21', 'C04', 'C01')
                    if want is None:
                        O('the divisors of a class are generated from its sizes', False, TD)
                        continue
                    if isinstance(want, list):
                        want = z3.Concat(*[zw(x, 8 * m) for x, m in reversed(list(zip(want, (8, 1))))])
                    got = z3.Concat(*reversed([zw(b, 8) for b in divs[f]]))
                    O('the divisors of a class are generated from its sizes', simp(got == want), TD)
                known = {L.sc[f][0] + x for f in ('class_region_start', 'slab_info', 'size_divisor', 'slab_size_divisor') for x in range(L.sc[f][1])}
                O('everything else of the class state starts as zero', all(x - c in known or y[1] == 0 for x, y in st.cells.get(o.id, {}).items() if c <= x < c + L.sc['']), T + ('C13', 'C12'))
        used.sort()
        O('all metadata is disjoint', all(not (x[0] == y[0] and x[1] + x[2] > y[1]) for x, y in zip(used, used[1:])))
        if cf.seal:
            O('the metadata key is stored', g.get('pkeys') == 1 and ex.cmp(st, 'eq', ex.cload(st, ro, L.ro['metadata_pkey'][0], 4), pk[-1], 32), ('C24', 'C21'))
    ex.run(st, on_end)


# ------------------------------------------------------------------------------------------------ init
@unit('init', ('C21', 'C17'), cfgs=('default', 'light', 'full', 'alt'))
def init_fast(ctx):
    """returns the arena of the thread, below N_ARENA and the same ever after; initialises the allocator first if needed"""
    val.set_mode(True)
    L = Lay(ctx.m)
    T = ('C21', 'C17')
    for own in (False, True):
        ex = ctx.ex(MEMORY)
        ends = L.ro['slab_region_end'][0]
        E = ex.newbase('slab_region_end', lo=1 << 20, hi=1 << 47)

        def roinit(st, off, n):
            if off == ends:
                ex.oblige(st, 'initialisation is tested with acquire ordering', st.g.get('order') in ('acquire', 'seq_cst'), T)
                return E if st.g['inited'] else 0
            raise Unsupported('access to offset %d of ro' % off)
        ro = CellObj('ro', 4096, init=roinit, const=True)
        ex.addobj(ro)
        ex.globals['ro'] = ro.base

        def slow(ex, st, args, ins):
            st.g['inited'] = st.g['slow'] = True
            st.cells.pop(ro.id, None)
            return None
        ex.contracts['init_slow_path'] = slow
        for inited in (True,) if own else (False, True):
            st = start(ctx, ex, 'init', [])
            st.g['inited'] = inited
            tls = None
            if L.N > 1:
                if 'thread_arena' not in ctx.m.globals:
                    raise Unsupported('thread_arena')
                o = ex.resolve(st, ex.glob(st, 'thread_arena'))[0]
                mine = ex.fresh('thread_arena', 32) if own else L.N
                if own:
                    st.assume(z3.ULT(mine, L.N))
                ex.cstore(st, o, 0, mine, 4)
                tls = o
            elif own:
                continue

            def on_end(st, out, inited=inited):
                O = lambda nm, f: ex.oblige(st, nm, f, T)
                O('always returns', out[0] == 'ret')
                if out[0] != 'ret':
                    return
                O('the allocator is initialised', st.g['inited'])
                O('it is not initialised again', not (inited and st.g.get('slow')))
                O('the arena exists', ex.cmp(st, 'ult', out[1], L.N, 32))
                if tls is not None:
                    O('the thread keeps its arena', ex.cmp(st, 'eq', ex.cload(st, tls, 0, 4), out[1], 32))
                    if own:
                        O('the thread uses its arena', ex.cmp(st, 'eq', out[1], mine, 32))
            ex.run(st, on_end)
