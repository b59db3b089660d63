"""Abstract state of the whole allocator, as the exported functions see it, and the contracts of what they call.

One block of the caller (case: small, large, not a block) and the blocks allocated by the call itself are tracked exactly.
Page ownership is kept for one arbitrary page x: res(x) = the page belongs to a block tracked here.
Block contents are kept for one arbitrary byte offset t."""
import z3
from .val import *
from .exec import *
from .kern import *
from . import kern, slab as SL
from .slab import Cfg, SPEC_SIZES, on
from .leaf import zb

TOP = 1 << 47


def zi(v):
    return v if z3.is_expr(v) else zint(v)


class Blk:
    """a block of the caller or one handed out by this call: kept in st.g['blk'][name]"""
    __slots__ = ('kind', 'p', 'size', 'guard', 'status', 'obj', 'zeroed', 'copied', 'wiped', 'align')

    def __init__(self, kind, p, size, guard, status, obj):
        self.kind, self.p, self.size, self.guard, self.status, self.obj = kind, p, size, guard, status, obj
        self.zeroed = self.copied = z3.BoolVal(False)
        self.align = 16

    def but(self, **kw):
        n = Blk(self.kind, self.p, self.size, self.guard, self.status, self.obj)
        n.zeroed, n.copied, n.align = self.zeroed, self.copied, self.align
        for k, v in kw.items():
            setattr(n, k, v)
        return n


class UserMem(Obj):
    """the bytes of a block"""

    def __init__(self, api, name):
        super().__init__('block ' + name, None)
        self.api, self.bname = api, name

    def load(self, ex, st, off, n):
        raise Unsupported('direct access to the contents of a block')

    def store(self, ex, st, off, v, n):
        if isinstance(v, int) and v == 0:
            return self.memset_to(ex, st, off, 0, n)
        raise Unsupported('direct access to the contents of a block')

    def range_ok(self, ex, st, off, n, what):
        a = self.api
        b = st.g['blk'][self.bname]
        u = a.usable(st, b)
        T = ('C14', 'C01', 'C02')
        ex.oblige(st, '%s only bytes of the block' % what, z3.Or(zi(n) == 0, z3.And(zi(off) >= 0, zi(off) + zi(n) <= zi(u))), T)
        if b.kind == 'small':
            ex.oblige(st, '%s only a block that has not been released' % what, z3.Or(zi(n) == 0, b.status == 'live'), T)
        elif ex.world is not None:
            r = z3.And(zi(n) > 0, inrange(st.g['x'], lsub_raw(ladd_raw(b.p, off), 4095), ladd_raw(n, 4095)))
            ex.oblige(st, '%s only accessible memory' % what, z3.Implies(r, z3.And(st.g['res'], st.g['acc'])), T)

    def memset_to(self, ex, st, off, v, n):
        self.range_ok(ex, st, off, n, 'writes')
        b = st.g['blk'][self.bname]
        t = st.g['t']
        c = z3.And(zi(off) <= t, t < zi(off) + zi(n))
        z = isinstance(v, int) and v & 0xff == 0
        st.g['blk'] = dict(st.g['blk'], **{self.bname: b.but(zeroed=z3.If(c, z3.BoolVal(z), b.zeroed), copied=z3.And(b.copied, z3.Not(c)))})

    def memcpy_to(self, ex, st, doff, so, soff, n, src):
        if not isinstance(so, UserMem):
            raise Unsupported('copy into a block from elsewhere')
        self.range_ok(ex, st, doff, n, 'writes')
        so.range_ok(ex, st, soff, n, 'reads')
        b = st.g['blk'][self.bname]
        t = st.g['t']
        c = z3.And(zi(doff) <= t, t < zi(doff) + zi(n))
        same = zi(doff) == zi(soff)
        ok = z3.And(same, z3.BoolVal(so.bname == 'old'))
        st.g['blk'] = dict(st.g['blk'], **{self.bname: b.but(zeroed=z3.And(b.zeroed, z3.Not(c)), copied=z3.If(c, ok, b.copied))})


class ApiRo(Obj):
    def __init__(self, api):
        self.lay = next(v for k, v in api.m.layouts.items() if 'slab_region_start' in v)
        super().__init__('ro', 4096)
        self.api = api
        self.pkey = api.ex.fresh('metadata_pkey', 32)

    def nokey(self):
        return self.pkey == 0xffffffff

    def load(self, ex, st, off, n):
        off = st.subst(off)
        if not isinstance(off, int):
            raise Unsupported('symbolic access to ro')
        f, fo = next(((f, off - v[0]) for f, v in self.lay.items() if f and v[0] <= off < v[0] + v[1]), (None, 0))
        a = self.api
        init = st.g['inited']
        if f == 'slab_region_end':
            ex.oblige(st, 'slab_region_end is read with acquire ordering', st.g.get('order') in ('acquire', 'seq_cst'), ('C21',))
            return ladd_raw(a.RS, a.total) if init else 0
        if f == 'slab_region_start':
            return a.RS if init else 0
        if f == 'metadata_pkey':
            return self.pkey if init else 0
        ex.oblige(st, 'allocator data (%s) is used only after initialisation' % f, init, ('C21', 'C17'))
        if not init:
            raise Infeasible()
        if f == 'region_allocator':
            return a.RA
        raise Unsupported('load of ro.%s' % f)

    def store(self, ex, st, off, v, n):
        ex.oblige(st, 'global allocator data is not modified after initialisation', False, ('C21',))
        raise Infeasible()


class RegionAllocator(Obj):
    """the structure of the large-allocation table as seen from outside the regions_* functions: lock, rng, statistics"""

    def __init__(self, api):
        self.lay = api.m.layouts['region_allocator']
        super().__init__('region_allocator', self.lay[''])
        self.api = api

    def field(self, off):
        if not isinstance(off, int):
            raise Unsupported('symbolic access to region_allocator')
        return next(((f, off - v[0]) for f, v in self.lay.items() if f and v[0] <= off < v[0] + v[1]), (None, 0))

    def load(self, ex, st, off, n):
        f, fo = self.field(off)
        self.api.meta(st, 'region_allocator.%s' % f, True)
        if f == 'allocated':
            return st.g['allocated']
        raise Unsupported('access to region_allocator.%s' % f)

    def store(self, ex, st, off, v, n):
        f, fo = self.field(off)
        self.api.meta(st, 'region_allocator.%s' % f, True)
        if f == 'allocated':
            st.g['allocated'] = v
            return
        raise Unsupported('store to region_allocator.%s' % f)


class Entry(Obj):
    """table entry of a block, as returned by regions_find in one lock epoch"""

    def __init__(self, api, name, epoch):
        self.lay = api.m.layouts['region_metadata']
        super().__init__('table entry', self.lay[''])
        self.api, self.bname, self.epoch = api, name, epoch

    def check(self, ex, st):
        self.api.meta(st, 'table entry', True)
        ok = st.g['epoch'] == self.epoch and 'region' in st.g['held']
        ex.oblige(st, 'a table entry is used only while the lock under which it was found is held', ok, ('C17', 'C05'))
        b = st.g['blk'][self.bname]
        ex.oblige(st, 'a table entry is used only while it is in the table', b.status == 'live', ('C05',))
        if not ok or b.status != 'live':
            raise Infeasible()
        return b

    def load(self, ex, st, off, n):
        b = self.check(ex, st)
        f = next((f for f, v in self.lay.items() if f and v[0] == off), None)
        return {'p': b.p, 'size': b.size, 'guard_size': b.guard}[f]

    def store(self, ex, st, off, v, n):
        b = self.check(ex, st)
        f = next((f for f, v in self.lay.items() if f and v[0] == off), None)
        if isinstance(v, Lin):
            v = ex.norm(st, v)
        if f == 'size':
            st.g['blk'] = dict(st.g['blk'], **{self.bname: b.but(size=v)})
        elif f == 'guard_size':
            st.g['blk'] = dict(st.g['blk'], **{self.bname: b.but(guard=v)})
        else:
            raise Unsupported('store to table entry field %s' % f)


class Opaq(Obj):
    def load(self, ex, st, off, n):
        raise Unsupported('direct access to ' + self.name)

    store = load


class ApiWorld(Witness):
    def op(self, ex, st, kind, p, n, ok, **kw):
        api = ex.api
        if kind == 'map':
            raise Unsupported('direct mapping in an exported function')
        super().op(ex, st, kind, p, n, ok, **kw)
        if kind == 'remap_fixed' and ok:
            old = st.g['blk'].get('old')
            for nm, b in st.g['blk'].items():
                if nm != 'old' and b.kind == 'large' and old is not None:
                    t = st.g['t']
                    src = lsub_raw(st.ev[-1][1], old.p)
                    same = z3.And(zi(src) == 0, zi(kw['new']) == zi(b.p))
                    c = z3.And(same, t < zi(n), t < zi(kw['nn']))
                    st.g['blk'] = dict(st.g['blk'], **{nm: b.but(copied=z3.Or(b.copied, c))})


class Api:
    def __init__(self, ex):
        self.ex, self.m = ex, ex.m
        cf = self.cf = Cfg(ex.m)
        self.total = cf.ARENA * cf.N
        self.large_classes = on(ex.m.defs, 'CONFIG_LARGE_SIZE_CLASSES')
        self.divisor = int(ex.m.defs['CONFIG_GUARD_SIZE_DIVISOR'] if 'CONFIG_GUARD_SIZE_DIVISOR' in ex.m.defs else ex.m.defs['GUARD_SIZE_DIVISOR'])
        self.RS = ex.newbase('slab_region', lo=1 << 30, hi=TOP - self.total - 4096, align=4096)
        self.RA = ex.newbase('region_allocator', lo=1 << 30, align=64)
        self.ra = RegionAllocator(self)
        self.lay = self.ra.lay
        rng = Opaq('rng', self.lay['rng'][1])
        ex.place(self.RA, self.lay['rng'][0], rng)
        ex.place(self.RA, 0, self.ra)
        self.ro = ApiRo(self)
        b = ex.newbase('@ro', align=4096)
        ex.place(b, 0, self.ro)
        ex.globals['ro'] = b
        ex.api = self
        self.classes = []
        self.stats = cf.stats

    def start(self, st, inited=True):
        ex = self.ex
        ex.world = ApiWorld(('C11', 'C10'))
        ex.world.start(ex, st)
        g = st.g
        g['res'] = g['acc'] = z3.BoolVal(False)
        g['inited'] = inited
        g['held'] = frozenset()
        g['epoch'] = 0
        g['sealed'] = True
        g['blk'] = {}
        g['t'] = z3.Int('t!%d' % next(ex.fresh_n))
        st.assume(g['t'] >= 0)
        e = ex.fresh('errno0', 32)
        set_errno(ex, st, e)
        g['errno0'] = e
        g['classof'] = ()
        g['pgood'] = None

    def meta(self, st, what, lock):
        ex = self.ex
        if lock and 'region' not in st.g['held']:
            ex.oblige(st, 'large-allocation state (%s) is accessed only with its lock held' % what, False, ('C17',))
        if self.cf.seal and st.g['sealed'] is not False:
            ex.oblige(st, 'metadata (%s) is accessed only while it is unsealed' % what, self.ro.nokey(), ('C24',))

    def sealed_again(self, st):
        return True if not self.cf.seal or st.g['sealed'] is True else self.ro.nokey()

    # -- specification functions
    def adj(self, n):
        """documented request adjustment: room for the canary for non-zero small requests -> [(condition, adjusted)] as an Int term"""
        n = zi(n)
        return z3.If(z3.And(n > 0, n <= self.cf.maxslab), n + self.cf.canary, n)

    def classof(self, st, n):
        """size class of a request (spec): 0 stands for overflow when n > 0"""
        ex = self.ex
        key = n if isinstance(n, int) else n.key() if isinstance(n, Lin) else n.get_id()
        for k, a, r in st.g['classof']:
            if k == key:
                return r
        N = zi(n) if not z3.is_expr(n) else n
        r = ex.flin('class_size', 0, M64)
        R = r.z()
        q = z3.Int('cq!%d' % next(ex.fresh_n))
        fs = [z3.And(N == 0, R == 0)]
        prev = 0
        for s in SPEC_SIZES[1:]:
            fs.append(z3.And(N > prev, N <= s, R == s))
            prev = s
        fs.append(z3.And(N > prev, N <= 7 << 61, N <= R, 4 * R <= 5 * N + 4, R == 4096 * q, R < 1 << 64, R > prev))
        fs.append(z3.And(N > 7 << 61, R == 0))
        st.assume(z3.Or(*fs))
        for k, a, r2 in st.g['classof']:
            st.assume(z3.Implies(N == a, R == r2.z()))
            st.assume(z3.Implies(z3.And(N == r2.z(), N != 0), R == N))
            st.assume(z3.Implies(z3.And(a == R, a != 0), r2.z() == a))
        st.g['classof'] += ((key, N, r),)
        return r

    def alignclass(self, st, n, al):
        """smallest class of slabs that holds n bytes (n <= largest class) and is a multiple of the alignment"""
        ex = self.ex
        N = zi(n) if not z3.is_expr(n) else n
        r = ex.flin('aligned_class', 0, self.cf.maxslab)
        prev, fs = -1, []
        for s in self.cf.sizes[1:]:
            if s % al == 0:
                fs.append(z3.And(N > prev, N <= s, r.z() == s))
                prev = s
        fs.append(z3.And(N > prev, r.z() == 0))
        st.assume(z3.Or(*fs))
        return r

    def largeclass(self, st, n):
        """documented size of a large allocation (0 on overflow)"""
        N = zi(n) if not z3.is_expr(n) else n
        if self.large_classes:
            return self.classof(st, z3.If(N < 4096, z3.IntVal(4096), N)).z() if not isinstance(n, int) else self.classof(st, max(n, 4096)).z()
        q = z3.Int('pq!%d' % next(self.ex.fresh_n))
        st.assume(z3.And(4096 * q >= N, 4096 * q < N + 4096))
        return z3.If(4096 * q >= 1 << 64, 0, 4096 * q)

    def usable(self, st, b):
        if b.kind == 'large':
            return b.size
        if b.kind == 'small0':
            return 0
        u = self.ex.flin('usable', 0, 1 << 48)
        z = zi(b.size)
        st.assume(u.z() == z3.If(z == 0, 0, z - self.cf.canary))
        return u

    def up(self, st, n):
        """size rounded up to whole pages"""
        if isinstance(n, int):
            return (n + 4095) // 4096 * 4096
        q, r = self.ex.divmod_const(st, ladd_raw(n, 4095), 4096)
        return lscale(q, 4096)

    # -- blocks of the caller
    def old_small(self, st):
        """a pointer into the slab area; st.g['pgood']: it is the start of a live block with intact canary"""
        ex = self.ex
        S = ex.flin('old_class', 0, self.cf.maxslab)
        st.assume(z3.Or(*[S.z() == s for s in self.cf.sizes]))
        p = ex.newbase('old', lo=1 << 30, hi=TOP, align=1)
        o = UserMem(self, 'old')
        ex.place(p, 0, o)
        st.assume(z3.And(p.z() >= self.RS.z(), p.z() < self.RS.z() + self.total))
        st.g['blk']['old'] = Blk('small', p, S, None, 'live', o)
        st.g['pgood'] = ex.fbool('is_live_block')
        return p

    def outside(self, st, p):
        st.assume(z3.Or(p.z() < self.RS.z(), p.z() >= self.RS.z() + self.total))

    def old_large(self, st):
        ex = self.ex
        p = ex.newbase('old', lo=8192, hi=TOP, align=4096)
        pages = ex.flin('old_pages', 1, (TOP >> 12) - 1)
        slack = ex.flin('old_slack', 0, 4095)
        size = lsub_raw(lscale(pages, 4096), slack)
        # sizes that are no multiple of the page size come only from over-aligned allocations of less than a page multiple class
        st.assume(z3.And(z3.Or(slack.z() == 0, zi(size) <= (16384 if self.large_classes else 0)), zi(size) >= 4096))
        guard = lscale(ex.flin('old_guard', 1, (TOP >> 12) - 1), 4096)
        o = UserMem(self, 'old')
        ex.place(p, 0, o)
        self.outside(st, p)
        U = lscale(pages, 4096)
        st.assume(zi(lsub_raw(p, guard)) > 0)
        st.assume(zi(ladd_raw(ladd_raw(p, U), guard)) < TOP)
        if self.large_classes:
            # every tracked size is a size class of its own
            if self.cf:
                st.g['classof'] += ((('old',), zi(size), size),)
        st.g['blk']['old'] = Blk('large', p, size, guard, 'live', o)
        st.g['whole'] = inrange(st.g['x'], lsub_raw(p, guard), ladd_raw(U, lscale(guard, 2)))
        st.g['use'] = inrange(st.g['x'], p, U)
        st.g['res'] = st.g['whole']
        st.g['acc'] = st.g['use']
        st.g['old0'] = (p, size, guard)
        return p

    def old_unknown(self, st):
        ex = self.ex
        p = ex.newbase('old', lo=1, hi=M64, align=1)
        o = UserMem(self, 'old')
        ex.place(p, 0, o)
        if st.g['inited']:
            self.outside(st, p)
        st.g['blk']['old'] = Blk('none', p, 0, 0, 'unknown', o)
        return p

    def find_blk(self, st, q):
        for nm, b in st.g['blk'].items():
            d = lsub_raw(q, b.p)
            if isinstance(d, int) and d == 0:
                return nm, b
        return None, None


# ------------------------------------------------------------------------------------------------ contracts at call sites
def lockname(ex, p):
    d = lsub_raw(p, ex.api.RA)
    lo, n = ex.api.lay['lock']
    if isinstance(d, int) and lo <= d < lo + n:
        return 'region'
    raise Unsupported('unknown lock %r' % (p,))


def c_lock(ex, st, args, ins):
    nm = lockname(ex, args[0])
    ex.api.meta(st, 'lock', False)
    ex.oblige(st, 'a lock is taken only when none is held', not st.g['held'], ('C17',))
    st.g['held'] |= {nm}
    st.g['epoch'] += 1
    # other threads may have changed the statistics and the rest of the table
    others = ex.flin('others', 0, 1 << 60)
    st.g['others'] = others
    tot = others
    for b in st.g['blk'].values():
        if b.kind == 'large' and b.status == 'live':
            tot = ladd_raw(tot, b.size)
    st.g['allocated'] = tot
    return 0


def c_unlock(ex, st, args, ins):
    nm = lockname(ex, args[0])
    ex.api.meta(st, 'lock', False)
    ex.oblige(st, 'only a held lock is released', nm in st.g['held'], ('C17',))
    st.g['held'] -= {nm}
    if ex.api.stats:
        tot = st.g['others']
        for b in st.g['blk'].values():
            if b.kind == 'large' and b.status == 'live':
                tot = ladd_raw(tot, b.size)
        v = st.g['allocated']
        ex.oblige(st, 'statistics: the large total equals the sizes of all live large blocks', ex.cmp(st, 'eq', v, tot, 64), ('C23',))
    return 0


def need_idle(ex, st, what):
    ex.oblige(st, '%s is called with no lock held' % what, not st.g['held'], ('C17',))
    ex.oblige(st, '%s is called only after initialisation' % what, st.g['inited'], ('C21',))
    if not st.g['inited']:
        raise Infeasible()
    if ex.api.cf.seal and st.g['sealed'] is not False:
        ex.oblige(st, '%s is called only with metadata unsealed' % what, ex.api.ro.nokey(), ('C24',))


def c_init(ex, st, args, ins):
    st.g['inited'] = True
    a = ex.flin('arena', 0, ex.api.cf.N - 1) if ex.api.cf.N > 1 else 0
    st.g['arena'] = a
    havoc_errno(ex, st) if False else None
    return Trunc(a, 32) if not isinstance(a, int) else a


def c_init_slow(ex, st, args, ins):
    st.g['inited'] = True
    return None


def newblk(ex, st, kind, name, size, guard, align, lo=1 << 16, hi=TOP - 4096):
    p = ex.newbase(name, lo=lo, hi=hi, align=align)
    o = UserMem(ex.api, name)
    ex.place(p, 0, o)
    b = Blk(kind, p, size, guard, 'live' if kind == 'small' else 'mapped', o)
    b.align = align
    st.g['blk'] = dict(st.g['blk'], **{name: b})
    return p


def bname(st):
    return 'new%d' % sum(1 for n in st.g['blk'] if n.startswith('new'))


def c_allocate_small(ex, st, args, ins):
    api = ex.api
    need_idle(ex, st, 'allocate_small')
    a, n = args
    av = ex.untrunc(st, a) if not isinstance(a, int) else a
    ex.oblige(st, 'the arena number is valid', z3.And(zi(av) >= 0, zi(av) < api.cf.N), ('C21', 'C01'))
    small = zi(n) <= api.cf.maxslab
    ex.oblige(st, 'only requests that fit a size class go to the slab allocator', small, ('C02', 'C01'))
    st.assume(small)
    S = api.classof(st, n)
    t = st.copy()
    set_errno(ex, t, ENOMEM)
    t.ev.append(('small_failed', n))
    nm = bname(st)
    p = newblk(ex, st, 'small', nm, S, None, 16)
    st.assume(z3.And(p.z() >= api.RS.z(), p.z() < api.RS.z() + api.total))
    b = st.g['blk'][nm]
    if api.cf.zof:
        st.g['blk'][nm] = b.but(zeroed=st.g['t'] < z3.If(zi(S) == 0, 0, zi(S) - api.cf.canary))
    if 'LABEL_MEMORY' in ex.m.defs:
        havoc_errno(ex, st)
    st.ev.append(('small', n, p))
    return ('alts', [(st, p), (t, 0)])


def slabptr(ex, st, p, what):
    api = ex.api
    ex.oblige(st, '%s is called only for pointers into the slab area' % what, z3.And(zi(p) >= api.RS.z(), zi(p) < api.RS.z() + api.total), ('C04', 'C05', 'C21'))
    nm, b = api.find_blk(st, p)
    if nm is None:
        ex.oblige(st, '%s is applied to the pointer of the caller' % what, False, ('C04', 'C14'))
        raise Infeasible()
    return nm, b


def c_deallocate_small(ex, st, args, ins):
    api = ex.api
    need_idle(ex, st, 'deallocate_small')
    p, exp = args
    nm, b = slabptr(ex, st, p, 'deallocate_small')
    if b.kind != 'small':
        raise Infeasible()
    good = st.g['pgood'] if nm == 'old' else z3.BoolVal(True)
    if b.status != 'live':
        good = z3.BoolVal(False)
    if not (isinstance(exp, int) and exp == 0):
        e = ex.load(st, exp, 8)
        e = ex.norm(st, e) if isinstance(e, Lin) else e
        good = z3.And(good, zi(e) == zi(b.size))
        st.ev.append(('sized', e))
    bad = st.copy()
    bad.assume(z3.Not(good))
    st.assume(good)
    st.g['blk'] = dict(st.g['blk'], **{nm: b.but(status='released')})
    st.ev.append(('released', nm))
    return ('alts', [(st, None), (bad, ('end', ('fatal', 'deallocate_small')))])


def c_check_small(ex, st, args, ins):
    need_idle(ex, st, 'memory_corruption_check_small')
    nm, b = slabptr(ex, st, args[0], 'memory_corruption_check_small')
    good = st.g['pgood'] if nm == 'old' else z3.BoolVal(True)
    bad = st.copy()
    bad.assume(z3.Not(good))
    st.assume(good)
    st.g['checked'] = True
    return ('alts', [(st, None), (bad, ('end', ('fatal', 'memory_corruption_check_small')))])


def c_slab_usable_size(ex, st, args, ins):
    ex.oblige(st, 'slab_usable_size is called only after initialisation', st.g['inited'], ('C21',))
    nm, b = slabptr(ex, st, args[0], 'slab_usable_size')
    return b.size


def c_get_size_info(ex, st, args, ins):
    api = ex.api
    n = args[0]
    S = api.classof(st, n)
    c = ex.flin('class', 0, M64)
    prev = -1
    fs = []
    for k, s in enumerate(api.cf.sizes):
        fs.append(z3.And(zi(n) > prev, zi(n) <= s, c.z() == k))
        prev = s
    fs.append(zi(n) > prev)
    st.assume(z3.Or(*fs))
    return [S, c]


def c_get_size_info_align(ex, st, args, ins):
    api = ex.api
    n, al = args
    if not isinstance(al, int):
        raise Unsupported('symbolic alignment')
    ex.oblige(st, 'get_size_info_align: the alignment is a power of two up to the page size', al > 0 and al & (al - 1) == 0 and al <= PAGE, ('C03',))
    S = api.alignclass(st, n, al)
    ex.oblige(st, 'get_size_info_align: a class exists', S.z() > 0, ('C03', 'C06', 'C02'))
    st.assume(S.z() > 0)
    c = ex.flin('class', 1, len(api.cf.sizes) - 1)
    st.assume(z3.Or(*[z3.And(S.z() == s, c.z() == k) for k, s in enumerate(api.cf.sizes) if k]))
    st.g['classof'] += ((('al', len(st.g['classof'])), S.z(), S),)
    return [S, c]


def c_draw(ex, st, args, ins):
    api = ex.api
    d = lsub_raw(args[0], api.RA)
    ex.oblige(st, 'the generator of the large-allocation table is used', isinstance(d, int) and d == api.lay['rng'][0], ('C11', 'C17'))
    api.meta(st, 'rng', True)
    b = args[1]
    r = ex.flin('draw', 0, M64 >> 1)
    # a bound of zero yields zero (contract of get_random_u64_uniform)
    st.assume(z3.If(zi(b) == 0, r.z() == 0, r.z() < zi(b)))
    st.g['draws'] = st.g.get('draws', ()) + ((r, b),)
    return r


def pages_pre(ex, st, size, guard, what):
    ex.oblige(st, '%s: the size is not zero' % what, zi(size) > 0, ('C02', 'C11'))
    ex.oblige(st, '%s: the guard size is a page multiple' % what, aligned(guard), ('C11',))


def c_allocate_pages(al):
    def f(ex, st, args, ins):
        api = ex.api
        need_idle(ex, st, 'allocate_pages')
        if al:
            size, A, guard = args[0], args[1], args[2]
            unp = True
            if not isinstance(A, int):
                raise Unsupported('symbolic alignment')
            ex.oblige(st, 'allocate_pages_aligned: power of two of at least the page size', A >= PAGE and A & (A - 1) == 0, ('C03',))
        else:
            size, guard, unp = args[0], args[1], args[2]
            A = PAGE
            unp = bool(unp) if isinstance(unp, (int, bool)) else unp
        pages_pre(ex, st, size, guard, 'allocate_pages')
        t = st.copy()
        set_errno(ex, t, ENOMEM)
        t.ev.append(('pages_failed', size))
        alts = [(t, 0)]
        if A < TOP:
            U = api.up(st, size)
            tot = ladd_raw(U, lscale(guard, 2))
            st.assume(zi(tot) < TOP)
            nm = bname(st)
            p = newblk(ex, st, 'large', nm, size, guard, A, lo=8192, hi=TOP - 4096)
            st.assume(zi(lsub_raw(p, guard)) > 0)
            st.assume(zi(ladd_raw(ladd_raw(p, U), guard)) < TOP)
            api.outside(st, p)
            g = st.g
            whole, use = inrange(g['x'], lsub_raw(p, guard), tot), inrange(g['x'], p, U)
            st.assume(z3.Implies(whole, z3.Not(g['res'])))
            g['res'] = z3.Or(g['res'], whole)
            g['acc'] = z3.If(whole, z3.And(use, zbool(unp)), g['acc'])
            b = g['blk'][nm]
            g['blk'][nm] = b.but(zeroed=g['t'] < zi(U))
            if 'LABEL_MEMORY' in ex.m.defs:
                havoc_errno(ex, st)
            alts.insert(0, (st, p))
        return ('alts', alts)
    return f


def give_up(ex, st, p, size, guard, what):
    """the range of a block, guards included, is handed over"""
    api = ex.api
    U = api.up(st, size)
    g = st.g
    whole = inrange(g['x'], lsub_raw(p, guard), ladd_raw(U, lscale(guard, 2)))
    ex.oblige(st, '%s: the size is not zero' % what, zi(size) > 0, ('C10', 'C11'))
    ex.oblige(st, '%s: the address is page aligned' % what, aligned(p), ('C10', 'C11'))
    ex.oblige(st, '%s is applied only to memory of a block that is given up here' % what, z3.Implies(whole, g['res']), ('C11', 'C10', 'C14'))
    for nm, b in g['blk'].items():
        if b.kind == 'large' and b.status == 'live':
            # neither the usable pages nor the guards of a block in the table
            w = api.extent(st, b)
            st.ev.append(('given', nm))
            g['given'] = g.get('given', ()) + ((nm, z3.And(whole, w)),)
    g['res'] = z3.And(g['res'], z3.Not(whole))
    g['acc'] = z3.And(g['acc'], z3.Not(whole))


def extent(api, st, b):
    U = api.up(st, b.size)
    return inrange(st.g['x'], lsub_raw(b.p, b.guard), ladd_raw(U, lscale(b.guard, 2)))


Api.extent = extent


def c_deallocate_pages(ex, st, args, ins):
    need_idle(ex, st, 'deallocate_pages')
    p, size, guard = args
    give_up(ex, st, p, size, guard, 'deallocate_pages')
    t = st.copy()
    set_errno(ex, t, ENOMEM)
    t.ev.append(('refused', p))
    return ('alts', [(st, None), (t, None)])


def c_quarantine(ex, st, args, ins):
    need_idle(ex, st, 'regions_quarantine_deallocate_pages')
    p, size, guard = args
    give_up(ex, st, p, size, guard, 'regions_quarantine_deallocate_pages')
    t = st.copy()
    havoc_errno(ex, t)
    st.ev.append(('quarantined', p))
    t.ev.append(('quarantined', p))
    return ('alts', [(st, None), (t, None)])


def c_regions_insert(ex, st, args, ins):
    api = ex.api
    api.meta(st, 'table', True)
    p, size, guard = args
    nm, b = api.find_blk(st, p)
    ex.oblige(st, 'only a new mapping is entered into the table', b is not None and b.kind == 'large' and b.status == 'mapped', ('C05',))
    if b is None or b.kind != 'large' or b.status != 'mapped':
        raise Infeasible()
    g = st.g
    U = api.up(st, size)
    whole, use = inrange(g['x'], lsub_raw(p, guard), ladd_raw(U, lscale(guard, 2))), inrange(g['x'], p, U)
    O = lambda n, f, t: ex.oblige(st, n, f, t)
    O('the table entry describes exactly memory reserved for the block', z3.Implies(whole, g['res']), ('C11', 'C05'))
    O('exactly the usable pages of a tracked block are accessible', z3.Implies(whole, g['acc'] == use), ('C11', 'C02'))
    O('a tracked block has guards of at least one page', z3.And(zi(guard) >= PAGE, zbool(aligned(guard))), ('C11',))
    ds = g.get('draws', ())
    div = api.divisor
    q = z3.Int('gq!%d' % next(ex.fresh_n))
    st.assume(z3.And(PAGE * div * q <= zi(size), zi(size) < PAGE * div * (q + 1)))
    O('the guard size is a random number of pages up to 1/divisor of the size',
      z3.Or(*[z3.And(zi(guard) == (zi(r) + 1) * PAGE, zi(bd) == q) for r, bd in ds]) if ds else z3.BoolVal(False), ('C11',))
    O('the size of a tracked block is a size class' if api.large_classes else 'the size of a tracked block is a page multiple',
      z3.And(zi(size) >= 4096, z3.Or(zi(size) <= (16384 if api.large_classes else 0), zbool(aligned(size)) if not isinstance(size, Lin) else zi(size) % 4096 == 0)), ('C05', 'C11'))
    t = st.copy()
    set_errno(ex, t, ENOMEM)
    t.ev.append(('insert_failed', p))
    st.g['blk'] = dict(g['blk'], **{nm: b.but(size=size, guard=guard, status='live')})
    return ('alts', [(st, 0), (t, 1)])


def c_regions_find(ex, st, args, ins):
    api = ex.api
    api.meta(st, 'table', True)
    p = args[0]
    nm, b = api.find_blk(st, p)
    if nm is None:
        ex.oblige(st, 'the table is searched for the pointer of the caller', False, ('C05', 'C14'))
        raise Infeasible()
    if b.kind != 'large' or b.status != 'live':
        return 0
    e = Entry(api, nm, st.g['epoch'])
    eb = ex.newbase('entry', align=8)
    ex.place(eb, 0, e)
    seen = st.g.get('found_epoch')
    if nm == 'old' and seen is not None and seen != st.g['epoch']:
        # another thread may have released the block since the lock was last held (an error of the program)
        t = st.copy()
        t.g['raced'] = True
        t.g['blk'] = dict(t.g['blk'], old=b.but(status='raced'))
        return ('alts', [(st, eb), (t, 0)])
    if nm == 'old':
        st.g['found_epoch'] = st.g['epoch']
    return eb


def c_regions_delete(ex, st, args, ins):
    api = ex.api
    api.meta(st, 'table', True)
    try:
        o, off = ex.resolve(st, args[0])
    except Fault:
        o = None
    if not isinstance(o, Entry) or not (isinstance(off, int) and off == 0):
        ex.oblige(st, 'only a table entry is deleted', False, ('C05',))
        raise Infeasible()
    b = o.check(ex, st)
    st.g['blk'] = dict(st.g['blk'], **{o.bname: b.but(status='deleted')})
    st.ev.append(('deleted', o.bname))
    return None


def c_pkey_set(ex, st, args, ins):
    api = ex.api
    ex.oblige(st, 'only the metadata key is changed', ex.cmp(st, 'eq', args[0], api.ro.pkey, 32), ('C24',))
    a = args[1]
    if not isinstance(a, int):
        raise Unsupported('symbolic protection key rights')
    st.g['sealed'] = {0: False, 1: True, 3: True}.get(a, 'write only')
    return 0


CONTRACTS = dict(MEMORY)
CONTRACTS.update({
    'pthread_mutex_lock': c_lock, 'pthread_mutex_unlock': c_unlock, 'init': c_init, 'init_slow_path': c_init_slow,
    'allocate_small': c_allocate_small, 'deallocate_small': c_deallocate_small, 'memory_corruption_check_small': c_check_small,
    'slab_usable_size': c_slab_usable_size, 'get_size_info': c_get_size_info, 'get_size_info_align': c_get_size_info_align,
    'get_random_u64_uniform': c_draw, 'allocate_pages': c_allocate_pages(False), 'allocate_pages_aligned': c_allocate_pages(True),
    'deallocate_pages': c_deallocate_pages, 'regions_quarantine_deallocate_pages': c_quarantine,
    'regions_insert': c_regions_insert, 'regions_find': c_regions_find, 'regions_delete': c_regions_delete, 'pkey_set': c_pkey_set,
})
