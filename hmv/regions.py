"""The table of large blocks: regions_find, regions_insert, regions_delete, regions_grow, for every table size.

The table is an open hash table with linear probing (downwards).  h(p) is the start of the probe sequence of p, dist(a, b) the
number of probes from a to b.  Representation invariant (for all slots s, t):
  I1  slot s in use, dist(h(s), t) < dist(h(s), s)  implies  slot t in use      (no gap before an entry)
  I2  slot s in use implies pos[key of s] = s                                   (ghost map pos: keys are unique)
  I3  free = number of empty slots >= total / 4 - 1
Universal facts are kept as closures and instantiated at the arbitrary constants of the goal and at every slot the code touches.
The table size is a concrete power of two per unit; all the sizes the code can reach are covered by units (thorough tier)."""
import z3
from .val import *
from . import val
from .exec import *
from .units import unit
from .loops import LoopRule
from .leaf import start
from . import kern
from .kern import ENOMEM, PAGE, get_errno, set_errno

H = z3.Function('hash_of_page', z3.BitVecSort(64), z3.BitVecSort(64))
T5 = ('C05',)
CFG = ('default',)


class Table(Obj):
    """array of region_metadata with 2^m slots: one z3 array per field in the state"""

    def __init__(self, w, name, m, lay):
        super().__init__(name, None)
        self.w, self.m, self.T, self.lay, self.esz = w, m, 1 << m, lay, lay['']
        self.fields = {v[0]: f for f, v in lay.items() if f}

    def arr(self, st, f):
        return st.arr[(self.id, f)]

    def init(self, st, zero=False):
        for f in self.fields.values():
            if zero and f == 'p':
                a = z3.K(z3.BitVecSort(self.m), z3.BitVecVal(0, 64))
            else:
                a = z3.Const('%s.%s!%d' % (self.name, f, next(self.w.ex.fresh_n)), z3.ArraySort(z3.BitVecSort(self.m), z3.BitVecSort(64)))
            st.arr[(self.id, f)] = a
        st.arr[(self.id, 'pos')] = z3.Const('pos!%d' % next(self.w.ex.fresh_n), z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(self.m)))

    def index(self, ex, st, off, n, what):
        off = st.subst(off)
        c, t = parts(off)
        if any(k % self.esz for k in t.values()):
            raise Unsupported('symbolic offset inside a table entry')
        q, r = divmod(c, self.esz)
        f = self.fields.get(r)
        if f is None or n != 8:
            raise Unsupported('access of %d bytes at offset %d of a table entry' % (n, r))
        idx = mk(q, {i: k // self.esz for i, k in t.items()})
        ex.oblige(st, '%s inside the table' % what, z3.ULT(z64(idx), self.T), T5)
        ex.oblige(st, 'a table is used only while it is the current one or being filled', self.usable(st), T5)
        i = z3.simplify(z3.Extract(self.m - 1, 0, z64(idx)))
        self.w.term(st, self, i)
        return i, f

    def slot(self, off):
        """byte offset -> index (64 bits), None if it is not the start of an entry"""
        c, t = parts(off)
        if c % self.esz or any(k % self.esz for k in t.values()):
            return None
        return z64(mk(c // self.esz, {i: k // self.esz for i, k in t.items()}))

    def usable(self, st):
        return st.g.get('usable', {}).get(self.name, False)

    def load(self, ex, st, off, n):
        i, f = self.index(ex, st, off, n, 'reads')
        e = z3.Select(self.arr(st, f), i)
        return lin(e)

    def store(self, ex, st, off, v, n):
        i, f = self.index(ex, st, off, n, 'writes')
        v = z64(v)
        st.arr[(self.id, f)] = z3.Store(self.arr(st, f), i, v)
        if f == 'p':
            st.g['pstores'] = st.g.get('pstores', ()) + ((self.name, i, v),)
            pos = st.arr[(self.id, 'pos')]
            st.arr[(self.id, 'pos')] = z3.If(v != 0, z3.Store(pos, v, i), pos)


class W:
    """the state shared by the units: allocator structure, tables, arbitrary constants, universal facts"""

    def __init__(self, ctx, m, cur=0, other_m=None):
        val.set_mode(False)
        self.ctx, self.m, self.T = ctx, m, 1 << m
        ex = self.ex = ctx.ex({'__errno_location': kern.c_errno_location, 'fatal_error': kern.c_fatal_error, 'abort': kern.c_abort})
        ex.bv_first = True
        ex.solver.set('timeout', 300)
        mod = ctx.m
        self.ral = mod.layouts['region_allocator']
        self.rml = mod.layouts['region_metadata']
        rol = next(v for k, v in mod.layouts.items() if 'slab_region_start' in v)
        self.cur = cur
        tabs = [None, None]
        tabs[cur] = Table(self, 'table', m, self.rml)
        tabs[1 - cur] = Table(self, 'next_table', other_m or m + 1, self.rml)
        self.tabs, self.tab, self.next = tabs, tabs[cur], tabs[1 - cur]
        self.base = []
        for k in (0, 1):
            b = ex.newbase('regions_' + 'ab'[k], lo=1 << (24 + 8 * k), hi=1 << (30 + 8 * k), align=4096)
            ex.place(b, 0, tabs[k])
            self.base.append(b)
        self.free0 = ex.flin('free', 0, self.T)
        cells = {self.ral['regions'][0]: self.base[cur], self.ral['total'][0]: self.T, self.ral['free'][0]: self.free0}

        def rinit(st, off, n):
            if off in cells and n == 8:
                return cells[off]
            raise Unsupported('access to offset %d of region_allocator' % off)
        self.ra = CellObj('region_allocator', self.ral[''], init=rinit)
        RA = ex.addobj(self.ra)
        rcells = {rol['region_allocator'][0]: RA, rol['regions'][0]: self.base[0], rol['regions'][0] + 8: self.base[1]}

        def roinit(st, off, n):
            if off in rcells and n == 8:
                return rcells[off]
            raise Unsupported('access to offset %d of ro' % off)
        ro = CellObj('ro', 4096, init=roinit, const=True)
        ex.addobj(ro)
        ex.globals['ro'] = ro.base
        ex.contracts['hash_page'] = lambda ex, st, a, i: lin(H(z64(a[0])))
        self.s, self.t, self.e = [z3.BitVec(n, m) for n in ('any_slot', 'any_slot2', 'empty_slot')]
        m2 = self.next.m
        self.s1, self.t1 = [z3.BitVec(n, m2) for n in ('any_new_slot', 'any_new_slot2')]
        self.univ = {}

    # -- terms and universal facts
    def sk(self, tab):
        return (self.s, self.t, self.e) if tab is self.tab else (self.s1, self.t1)

    def term(self, st, tab, i):
        ts = st.g.get('terms', ())
        if any(k == tab.name and x.eq(i) for k, x in ts):
            return
        st.g['terms'] = ts + ((tab.name, i),)
        for nm, f in st.g.get('U', ()):
            if nm == tab.name:
                for x in self.sk(tab) + tuple(y for k, y in ts if k == tab.name):
                    st.assume(f(x, i))
                    st.assume(f(i, x))
                st.assume(f(i, i))

    def fact(self, st, tab, f):
        """the formula f(s, t) holds for all slots s, t of the table"""
        st.g['U'] = st.g.get('U', ()) + ((tab.name, f),)
        ts = self.sk(tab) + tuple(y for k, y in st.g.get('terms', ()) if k == tab.name)
        for x in ts:
            for y in ts:
                st.assume(f(x, y))

    # -- the invariant
    def h(self, tab, key):
        return z3.Extract(tab.m - 1, 0, H(key))

    def I1(self, tab, p):
        def f(s, t):
            hs = self.h(tab, p[s])
            return z3.Implies(z3.And(p[s] != 0, z3.ULT(hs - t, hs - s)), p[t] != 0)
        return f

    def I2(self, tab, p, pos):
        def f(s, t):
            return z3.Implies(p[s] != 0, pos[p[s]] == s)
        return f

    def assume_inv(self, st, tab):
        p, pos = tab.arr(st, 'p'), tab.arr(st, 'pos')
        self.fact(st, tab, self.I1(tab, p))
        self.fact(st, tab, self.I2(tab, p, pos))

    def check_inv(self, st, tab, s, t, when='after'):
        p, pos = tab.arr(st, 'p'), tab.arr(st, 'pos')
        O = lambda n, f: self.ex.oblige(st, n, f, T5)
        O('no gap lies before an entry on its probe path', self.I1(tab, p)(s, t))
        O('every key is in the table at most once', self.I2(tab, p, pos)(s, t))

    def cell(self, st, f):
        return self.ex.cload(st, self.ra, self.ral[f][0], 8)

    def unchanged(self, st, tab, arr0, why):
        for f in ('p', 'size', 'guard_size'):
            a, b = tab.arr(st, f), arr0[f]
            self.ex.oblige(st, '%s: the table is unchanged' % why, a.eq(b) or a == b, T5)

    def snapshot(self, st, tab):
        return {f: tab.arr(st, f) for f in ('p', 'size', 'guard_size', 'pos')}


def setup(w, st):
    w.tab.init(st)
    w.next.init(st, True)
    st.g['usable'] = {'table': True}
    w.assume_inv(st, w.tab)
    st.assume(w.tab.arr(st, 'p')[w.e] == 0)                 # free >= 1: some slot is empty
    st.assume(z3.And(z3.UGE(z64(w.free0), w.T // 4 - 1), z3.ULE(z64(w.free0), w.T)))


def keyterms(w, tab, init, vals):
    """bit-vector slots that a loop-carried 64-bit value may stand for: the value itself or a pointer to an entry"""
    out = []
    for k, v in vals.items():
        if isinstance(v, (int, Lin)):
            out.append((k, v))
    return out


def probe_cands(w, tab, hkeys, extra=None, bound=None):
    """the loop walks down the probe path: after n steps at slot h - n, all slots before were passed"""
    def cands(ex, entry, init, steps):
        out = []
        T, m = tab.T, tab.m
        ext = lambda e: z3.ZeroExt(64 - m, e)
        lo = lambda n: z3.Extract(m - 1, 0, z64(n)) if not isinstance(n, int) else z3.BitVecVal(n & (T - 1), m)
        b = bound(entry) if bound else None
        for hn, h in hkeys(entry, init):
            if b is not None:
                d = ext(h - b)
                out.append(('the search stays before an empty slot (%s)' % hn, lambda st, v, n, d=d: z3.ULE(z64(n), d)))
            for key in init:
                if key in steps or not isinstance(init[key], (int, Lin)):
                    continue
                for o in (0, 1):
                    out.append(('%s is slot %s-n%s' % (key, hn, '-1' if o else ''), lambda st, v, n, key=key, h=h, o=o: z64(v[key]) == ext(h - lo(n) - o),
                                lambda st, v, n, h=h, o=o: w.term(st, tab, z3.simplify(h - lo(n) - o))))
                    out.append(('%s is the key of slot %s-n%s' % (key, hn, '-1' if o else ''), lambda st, v, n, key=key, h=h, o=o: z64(v[key]) == tab.arr(st, 'p')[h - lo(n) - o],
                                lambda st, v, n, h=h, o=o: w.term(st, tab, z3.simplify(h - lo(n) - o))))
            if extra:
                for nm, f in extra(entry, h, hn):
                    out.append((nm, f))
        return out
    return cands


def steps_bounded(w, tab):
    def hook(ex, st, info):
        if any(c[0].startswith('the search stays') for c in info['cands']):
            return
        ex.oblige(st, 'the search ends at an empty slot at the latest', False, T5)
    return hook


MS = [7, 17, 18]
ALL = list(range(7, 19))


def sizes(f, extra=''):
    return [{'m': m} for m in ALL]


def quick(prop, cfg, case):
    return case['m'] in MS


@unit('regions_find.{m}', T5, cfgs=CFG, cases=sizes(0), quick=quick)
def regions_find(ctx, m):
    """returns the only entry whose key is p, NULL exactly if there is none; changes nothing"""
    w = W(ctx, m)
    ex, tab = w.ex, w.tab
    p = ex.flin('p')
    h = w.h(tab, z64(p))
    T = tab.T

    def extra(entry, h, hn):
        a = tab.arr(entry, 'p')
        def passed(st, v, n):
            return z3.Implies(z3.ULT(z3.ZeroExt(64 - m, h - w.s), z64(n) if not isinstance(n, int) else z3.BitVecVal(n, 64)), z3.And(a[w.s] != 0, a[w.s] != z64(p)))
        return [('slots passed hold other keys', passed)]
    ex.loops['*'] = LoopRule(probe_cands(w, tab, lambda e, i: [('h', h)], extra, lambda st: w.e), tags=T5, hook=steps_bounded(w, tab))
    st = start(ctx, ex, 'regions_find', [p], lambda st: setup(w, st))
    a0 = w.snapshot(st, tab)

    def on_end(st, out):
        O = lambda n, f: ex.oblige(st, n, f, T5)
        O('always returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        w.unchanged(st, tab, a0, 'lookup')
        r = out[1]
        P = a0['p']
        pz = z64(p)
        if isinstance(r, int):
            O('a pointer into the table is returned if anything', r == 0)
            O('NULL is returned only if the pointer is not in the table', z3.Or(pz == 0, P[w.s] != pz))
            return
        try:
            o, off = ex.resolve(st, r)
        except Fault:
            o = None
        O('a pointer into the table is returned', o is tab)
        if o is not tab:
            return
        i64 = tab.slot(off)
        O('the pointer returned points to an entry', i64 is not None)
        if i64 is None:
            return
        i = z3.Extract(m - 1, 0, i64)
        O('the pointer returned points into the table', z3.ULT(i64, T))
        O('the entry returned has the key searched for', z3.And(pz != 0, P[i] == pz))
        O('it is the only such entry', z3.Implies(P[w.s] == pz, i == w.s))
    ex.run(st, on_end)


def c_grow(w):
    """contract of regions_grow: the same contents in the other table, of twice the size; or no effect and ENOMEM"""
    def f(ex, st, args, ins):
        t = st.copy()
        set_errno(ex, t, ENOMEM)
        t.g['grow'] = 'failed'
        new = w.next
        new.init(st)
        st.g['usable'] = {'next_table': True}
        st.g['grow'] = 'ok'
        ra, l = w.ra, w.ral
        ex.cstore(st, ra, l['regions'][0], w.base[1 - w.cur], 8)
        ex.cstore(st, ra, l['total'][0], w.T * 2, 8)
        ex.cstore(st, ra, l['free'][0], ladd(ex.cload(st, ra, l['free'][0], 8), w.T), 8)
        st.g['snap'] = w.snapshot(st, new)
        w.assume_inv(st, new)
        w.fact(st, new, lambda s, u: st.g['snap']['p'][s] != z64(w.p))
        e1 = z3.BitVec('empty_new_slot', new.m)
        st.assume(new.arr(st, 'p')[e1] == 0)
        w.e1 = e1
        return ('alts', [(st, 0), (t, 1)])
    return f


@unit('regions_insert.{m}', T5, cfgs=CFG, cases=sizes(0), quick=quick)
def regions_insert(ctx, m):
    """adds exactly the entry (p, size, guard_size) in an empty slot, keeps all others and the invariant; ENOMEM and no change if the table cannot grow"""
    w = W(ctx, m)
    ex = w.ex
    p, size, guard = w.p, sz, gd = ex.flin('p', 4096), ex.flin('size'), ex.flin('guard')
    pz = z64(p)
    ex.contracts['regions_grow'] = c_grow(w)

    def cur(st):
        return w.next if st.g.get('grow') == 'ok' else w.tab

    def cands(ex, entry, init, steps):
        tab = cur(entry)
        s = w.sk(tab)[1]
        h = w.h(tab, pz)
        def extra(entry, h, hn):
            a = tab.arr(entry, 'p')
            def passed(st, v, n):
                return z3.Implies(z3.ULT(z3.ZeroExt(64 - tab.m, h - s), z64(n)), a[s] != 0)
            return [('slots passed are in use', passed)]
        return probe_cands(w, tab, lambda e, i: [('h', h)], extra, lambda st: w.e1 if tab is w.next else w.e)(ex, entry, init, steps)
    ex.loops['*'] = LoopRule(cands, tags=T5, hook=steps_bounded(w, None))
    st = start(ctx, ex, 'regions_insert', [p, size, guard], lambda st: setup(w, st))
    P0 = w.tab.arr(st, 'p')
    w.fact(st, w.tab, lambda s, t: P0[s] != pz)
    a0 = w.snapshot(st, w.tab)

    def on_end(st, out):
        O = lambda n, f: ex.oblige(st, n, f, T5)
        O('always returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        g = st.g.get('grow')
        r = out[1]
        if g == 'failed':
            O('failure is reported', ex.bnot(ex.cmp(st, 'eq', r, 0, 32)))
            ex.oblige(st, 'errno is ENOMEM after a failed insertion', ex.cmp(st, 'eq', get_errno(ex, st), ENOMEM, 32), ('C15', 'C05'))
            w.unchanged(st, w.tab, a0, 'failed insertion')
            O('failed insertion: the number of free slots is unchanged', ex.cmp(st, 'eq', w.cell(st, 'free'), w.free0, 64))
            O('failed insertion: the table size is unchanged', ex.cmp(st, 'eq', w.cell(st, 'total'), w.T, 64))
            return
        O('success is reported', ex.cmp(st, 'eq', r, 0, 32))
        tab = cur(st)
        b0 = st.g['snap'] if g == 'ok' else a0
        s, t = w.sk(tab)[:2]
        ws = [x for x in st.g.get('pstores', ()) if x[0] == tab.name]
        O('one entry is written', len(ws) == 1)
        if len(ws) != 1:
            return
        k = ws[0][1]
        A = {f: tab.arr(st, f) for f in ('p', 'size', 'guard_size')}
        O('the slot used was empty', b0['p'][k] == 0)
        O('the new entry holds the pointer, size and guard size given', z3.And(A['p'][k] == pz, A['size'][k] == z64(size), A['guard_size'][k] == z64(guard)))
        O('all other entries are unchanged', z3.Implies(s != k, z3.And(*[A[f][s] == b0[f][s] for f in A])))
        w.check_inv(st, tab, s, t)
        f0 = ladd(w.free0, w.T) if g == 'ok' else w.free0
        O('the number of free slots is exact', ex.cmp(st, 'eq', w.cell(st, 'free'), lsub(f0, 1), 64))
        O('an empty slot remains (free slots at least a quarter, less one)', z3.UGE(z64(w.cell(st, 'free')), tab.T // 4 - 1))
        O('the table size is right', ex.cmp(st, 'eq', w.cell(st, 'total'), tab.T, 64))
        O('the current table is right', ex.cmp(st, 'eq', w.cell(st, 'regions'), w.base[w.tabs.index(tab)], 64))
    ex.run(st, on_end)


@unit('regions_delete.{m}', T5, cfgs=CFG, cases=sizes(0), quick=quick)
def regions_delete(ctx, m):
    """removes exactly the entry given; every other key keeps its size and guard size, the invariant is kept"""
    w = W(ctx, m)
    ex, tab = w.ex, w.tab
    T = tab.T
    i0 = z3.BitVec('deleted_slot', m)
    ext = lambda e: z3.ZeroExt(64 - m, e)
    lowz = lambda n: z3.Extract(m - 1, 0, z64(n))
    q = z3.BitVec('other_key', 64)
    I = from_narrow(i0)
    region = ladd(w.base[w.cur], lscale(I, tab.esz))
    S = {}

    def content(st, hole):
        """the entry of the arbitrary other key q, the hole counting as empty"""
        pos, p = tab.arr(st, 'pos'), tab.arr(st, 'p')
        loc = pos[q]
        inn = p[loc] == q if hole is None else z3.And(loc != hole, p[loc] == q)
        return inn, tab.arr(st, 'size')[loc], tab.arr(st, 'guard_size')[loc]

    def same_content(st, hole):
        a = S['a0']
        l0 = a['pos'][q]
        in0, sz0, gd0 = a['p'][l0] == q, a['size'][l0], a['guard_size'][l0]
        inn, sz, gd = content(st, hole)
        return z3.Implies(z3.And(q != 0, q != a['p'][i0]), z3.And(in0 == inn, z3.Implies(inn, z3.And(sz == sz0, gd == gd0))))

    def I1h(p, i):
        f = w.I1(tab, p)
        return lambda s, t: z3.Implies(z3.And(s != i, t != i), f(s, t))

    def I2h(p, pos, i):
        f = w.I2(tab, p, pos)
        return lambda s, t: z3.Implies(s != i, f(s, t))

    def scan(out, entry, key, v0):
        """the loop scans down from the hole j = v0"""
        j = lowz(v0)
        for o in (0, 1):
            out.append(('%s is slot j-n%s' % (key, '-1' if o else ''), lambda st, v, n, o=o: z64(v[key]) == ext(j - lowz(n) - o),
                        lambda st, v, n, o=o: w.term(st, tab, z3.simplify(j - lowz(n) - o))))
        out.append(('the scan from %s stays before an empty slot' % key, lambda st, v, n: z3.And(z3.ULE(z64(n), ext(j - w.e)), tab.arr(st, 'p')[w.e] == 0, j != w.e)))

        def scanned(st, v, n):
            p = tab.arr(st, 'p')
            hs = w.h(tab, p[w.s])
            return z3.Implies(z3.And(z3.ULE(ext(j - w.s), z64(n)), w.s != j, p[w.s] != 0), z3.UGE(hs - j, hs - w.s))
        out.append(('entries scanned from %s do not belong in the hole' % key, scanned))

    def cands(ex, entry, init, steps):
        out = []
        p0 = tab.arr(entry, 'p')
        for key, v0 in init.items():
            if key in steps or not isinstance(v0, (int, Lin)):
                continue
            # (a) the key is the hole that the outer loop moves along
            hole = lambda v, key=key: lowz(v[key])
            if not rule.arrs:
                scan(out, entry, key, v0)
                continue
            out.append(('%s is a slot' % key, lambda st, v, n, key=key: z3.ULT(z64(v[key]), T),
                        lambda st, v, n, hole=hole: w.term(st, tab, z3.simplify(hole(v)))))
            out.append(('no gap lies before an entry, except at the hole %s' % key,
                        lambda st, v, n, hole=hole: I1h(tab.arr(st, 'p'), hole(v))(w.s, w.t),
                        lambda st, v, n, hole=hole: w.fact(st, tab, I1h(tab.arr(st, 'p'), hole(v)))))
            out.append(('keys are unique, except at the hole %s' % key,
                        lambda st, v, n, hole=hole: I2h(tab.arr(st, 'p'), tab.arr(st, 'pos'), hole(v))(w.s, w.t),
                        lambda st, v, n, hole=hole: w.fact(st, tab, I2h(tab.arr(st, 'p'), tab.arr(st, 'pos'), hole(v)))))
            gone = lambda st, v, hole=hole: (lambda s, t: z3.Implies(s != hole(v), tab.arr(st, 'p')[s] != S['a0']['p'][i0]))
            out.append(('the deleted key is at most at the hole %s' % key, lambda st, v, n, gone=gone: gone(st, v)(w.s, w.t),
                        lambda st, v, n, gone=gone: w.fact(st, tab, gone(st, v))))
            out.append(('all other keys keep their entry, with the hole %s' % key, lambda st, v, n, hole=hole: same_content(st, hole(v))))
            out.append(('the hole %s is not the empty slot ahead' % key, lambda st, v, n, hole=hole: z3.And(tab.arr(st, 'p')[w.e] == 0, hole(v) != w.e)))
        return out

    rule = ex.loops['*'] = LoopRule(cands, tags=T5)
    st = start(ctx, ex, 'regions_delete', [region], lambda st: setup(w, st))
    S['a0'] = a0 = w.snapshot(st, tab)
    pd = a0['p'][i0]
    st.assume(pd != 0)
    w.term(st, tab, i0)

    def on_end(st, out):
        O = lambda n, f: ex.oblige(st, n, f, T5)
        O('always returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        w.check_inv(st, tab, w.s, w.t)
        O('the entry is gone', tab.arr(st, 'p')[w.s] != pd)
        O('every other key keeps its size and guard size, and none is added', same_content(st, None))
        O('the number of free slots is exact', ex.cmp(st, 'eq', w.cell(st, 'free'), ladd(w.free0, 1), 64))
        O('the table size is unchanged', ex.cmp(st, 'eq', w.cell(st, 'total'), w.T, 64))
        O('the current table is unchanged', ex.cmp(st, 'eq', w.cell(st, 'regions'), w.base[w.cur], 64))
    ex.run(st, on_end)


def fail_op(kind):
    """memory operation on a table: refused with ENOMEM, or done"""
    def f(ex, st, args, ins):
        t = st.copy()
        set_errno(ex, t, ENOMEM)
        t.ev.append((kind, args[0], args[1], False))
        st.ev.append((kind, args[0], args[1], True))
        w = ex.w
        if kind == 'rw' and ex.must(st, ex.cmp(st, 'eq', args[0], w.base[1 - w.cur], 64)) and ex.must(st, ex.cmp(st, 'uge', args[1], w.next.T * w.next.esz, 64)):
            st.g['usable'] = {'table': True, 'next_table': True}
        if kind in ('map_fixed', 'purge'):
            # the old contents are gone, or may be gone
            st.g['usable'] = {k: v for k, v in st.g['usable'].items() if not ex.feasible(st, zbool(ex.cmp(st, 'eq', args[0], w.base[w.tabs.index(w.tab if k == 'table' else w.next)], 64)))}
        return ('alts', [(st, False), (t, True)])
    return f


@unit('regions_grow.{m}.{cur}', T5, cfgs=CFG, cases=[{'m': m, 'cur': c} for m in ALL for c in (0, 1)], quick=quick)
def regions_grow(ctx, m, cur):
    """moves exactly the contents to the other table, twice as large, and discards the old one; ENOMEM and no change on failure"""
    w = W(ctx, m, cur)
    ex, tab, new = w.ex, w.tab, w.next
    ex.w = w
    m2, T, T2 = new.m, tab.T, new.T
    for nm, k in (('memory_protect_rw_metadata', 'rw'), ('memory_protect_rw', 'rw'), ('memory_map_fixed', 'map_fixed'), ('memory_purge', 'purge')):
        ex.contracts[nm] = fail_op(k)
    ex.contracts['memory_set_name'] = lambda ex, st, a, i: (kern.havoc_errno(ex, st), ex.fbool('prctl'))[1]
    ext = lambda e: z3.ZeroExt(64 - e.size(), e)
    S = {}

    def before(st, s, n):
        """the entry of slot s of the old table is among the first n slots"""
        return z3.ULT(ext(s), z64(n) if not isinstance(n, int) else z3.BitVecVal(n, 64))

    def fwd(st, n):
        a, b, pos = S['a0'], w.snapshot(st, new), new.arr(st, 'pos')
        def f(s, t):
            loc = pos[a['p'][s]]
            return z3.Implies(z3.And(before(st, s, n), a['p'][s] != 0), z3.And(b['p'][loc] == a['p'][s], b['size'][loc] == a['size'][s], b['guard_size'][loc] == a['guard_size'][s]))
        return f

    def bwd(st, n):
        a, b = S['a0'], w.snapshot(st, new)
        def f(s, t):
            loc = a['pos'][b['p'][s]]
            return z3.Implies(b['p'][s] != 0, z3.And(a['p'][loc] == b['p'][s], before(st, loc, n)))
        return f

    def cands(ex, entry, init, steps):
        out = []
        if rule.arrs:
            for key, d in steps.items():
                if d != 1 or not isinstance(init[key], int) or init[key] != 0:
                    continue
                P = lambda st: new.arr(st, 'p')
                out += [('%s stays in the old table' % key, lambda st, v, n: z3.ULE(z64(n), T)),
                        ('no gap lies before an entry of the new table', lambda st, v, n: w.I1(new, P(st))(w.s1, w.t1), lambda st, v, n: w.fact(st, new, w.I1(new, P(st)))),
                        ('keys of the new table are unique', lambda st, v, n: w.I2(new, P(st), new.arr(st, 'pos'))(w.s1, w.t1), lambda st, v, n: w.fact(st, new, w.I2(new, P(st), new.arr(st, 'pos')))),
                        ('entries passed are in the new table', lambda st, v, n: fwd(st, n)(w.s, w.t)),
                        ('entries of the new table are entries passed', lambda st, v, n: bwd(st, n)(w.s1, w.t1), lambda st, v, n: w.fact(st, new, bwd(st, n)))]
                def slot(st, v, n):
                    w.term(st, tab, z3.simplify(z3.Extract(m - 1, 0, z64(n))))
                out.append(('%s is the slot copied next' % key, lambda st, v, n: z3.BoolVal(True), slot))
                break
            return out
        # inner loop: probes of the new table for the key read last
        q = [i for k, i in entry.g.get('terms', ()) if k == tab.name][-1:]
        if not q:
            return []
        key = S['a0']['p'][q[0]]
        h = w.h(new, key)
        # pigeonhole: the keys of the new table are different keys of fewer than T slots of the old one, so a slot is empty
        e1 = z3.BitVec('empty_new_slot!%d' % next(ex.fresh_n), m2)
        entry.assume(new.arr(entry, 'p')[e1] == 0)

        def extra(entry, h, hn):
            a = new.arr(entry, 'p')
            return [('slots passed are in use', lambda st, v, n: z3.Implies(z3.ULT(ext(h - w.t1), z64(n)), a[w.t1] != 0))]
        return probe_cands(w, new, lambda e, i: [('h', h)], extra, lambda st: e1)(ex, entry, init, steps)
    S['room'] = ctx.m.layouts['allocator_state']['regions_a'][1]
    rule = ex.loops['*'] = LoopRule(cands, tags=T5, hook=lambda ex, st, info: None if info['arrs'] else steps_bounded(w, new)(ex, st, info))
    st = start(ctx, ex, 'regions_grow', [], lambda st: setup(w, st))
    S['a0'] = a0 = w.snapshot(st, tab)
    esz = tab.esz
    maximum = ctx.m.defs.get('MAX_REGION_TABLE_SIZE')

    def on_end(st, out):
        O = lambda n, f, t=T5: ex.oblige(st, n, f, t)
        O('always returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        ops = [e for e in st.ev if e[0] in ('rw', 'map_fixed', 'purge')]
        done = [e for e in ops if e[3]]
        same = lambda f, v: ex.cmp(st, 'eq', w.cell(st, f), v, 64)
        ok = ex.cmp(st, 'eq', out[1], 0, 32)
        O('the result is decided', isinstance(ok, bool))
        if not ok:
            O('errno is ENOMEM after a failure', ex.cmp(st, 'eq', get_errno(ex, st), ENOMEM, 32), ('C05', 'C15'))
            w.unchanged(st, tab, a0, 'failed growth')
            O('failed growth: nothing is written to the other table', not [x for x in st.g.get('pstores', ()) if x[0] == new.name])
            O('failed growth: the table keeps its memory', st.g['usable'].get('table', False))
            O('failed growth: the structure is unchanged', ex.band(same('total', T), same('free', w.free0), same('regions', w.base[cur])))
            O('growth fails only if the table is at its maximum or the kernel refuses', any(e[0] == 'rw' and not e[3] for e in ops) or T2 * esz > S['room'])
            return
        O('the table never outgrows its address range', T2 * esz <= S['room'])
        w.unchanged(st, tab, a0, 'growth (old table)')
        w.check_inv(st, new, w.s1, w.t1)
        s, s1 = w.s, w.s1
        b = w.snapshot(st, new)
        loc, loc1 = b['pos'][a0['p'][s]], a0['pos'][b['p'][s1]]
        O('every entry is in the new table, with its size and guard size', z3.Implies(a0['p'][s] != 0, z3.And(b['p'][loc] == a0['p'][s], b['size'][loc] == a0['size'][s], b['guard_size'][loc] == a0['guard_size'][s])))
        O('every entry of the new table was in the old one', z3.Implies(b['p'][s1] != 0, a0['p'][loc1] == b['p'][s1]))
        O('the table is twice as large', same('total', T2))
        O('the number of free slots is exact', same('free', ladd(w.free0, T)))
        O('the new table is the current one', same('regions', w.base[1 - cur]))
        O('the new table keeps its memory', st.g['usable'].get('next_table', False))
        rng = lambda e, k, n: ex.band(ex.cmp(st, 'eq', e[1], w.base[k], 64), ex.cmp(st, 'eq', e[2], n, 64))
        rws = [e for e in done if e[0] == 'rw']
        O('exactly the new table is made writable', ex.band(len(rws) == 1, *[rng(e, 1 - cur, T2 * esz) for e in rws]))
        gone = [e for e in ops if e[0] in ('map_fixed', 'purge')]
        O('only the old table is discarded, whole', ex.band(len(gone) >= 1, *[rng(e, cur, T * esz) for e in gone]))
        O('the old table is discarded in one way or the other', any(e[3] for e in gone) or any(e[0] == 'purge' for e in gone))
    ex.run(st, on_end)


# ------------------------------------------------------------------------------------------------ quarantine of freed ranges
T10 = ('C10', 'C17')


class QuarRA(Obj):
    """region_allocator as seen by the quarantine: the two arrays of ranges and the position, used only under the lock"""

    def __init__(self, ex, lay, qlay):
        self.lay, self.q = lay, qlay
        super().__init__('region_allocator', None)
        self.esz = qlay['']
        self.ex = ex

    def find(self, ex, st, off):
        c = parts(st.subst(off))[0]
        for f, v in self.lay.items():
            if f and v[0] <= c < v[0] + v[1]:
                return f, lsub_raw(st.subst(off), v[0]), v[1]
        raise Unsupported('access to offset %r of region_allocator' % off)

    def at(self, ex, st, off, n, write):
        f, d, size = self.find(ex, st, off)
        ex.oblige(st, 'quarantine state (%s) is used only under the lock' % f, st.g['held'], T10)
        if f == 'quarantine_queue_index':
            if not isinstance(d, int) or d != 0 or n != 8:
                raise Unsupported('partial access to the queue position')
            return f, None
        if f not in ('quarantine_random', 'quarantine_queue'):
            raise Unsupported('access to region_allocator.%s' % f)
        q, r = ex.divmod_const(st, d, self.esz)
        if not isinstance(r, int):
            raise Unsupported('symbolic offset inside a quarantine entry')
        g = next((g for g, v in self.q.items() if g and v[0] == r), None)
        if g is None or n != 8:
            raise Unsupported('partial access to a quarantine entry')
        ex.oblige(st, 'the entry used lies inside %s' % f, z3.And(kern.zint(q) >= 0, kern.zint(q) < size // self.esz), T10)
        return (f, g), kern.zint(q)

    def load(self, ex, st, off, n):
        k, i = self.at(ex, st, off, n, False)
        if i is None:
            return st.g['qpos']
        return lin(z3.Select(st.arr[k], i))

    def store(self, ex, st, off, v, n):
        k, i = self.at(ex, st, off, n, True)
        if i is None:
            st.g['qpos'] = v
            return
        v = ex.norm(st, v)
        st.arr[k] = z3.Store(st.arr[k], i, kern.zint(v))
        st.ev.append(('entered',))


@unit('regions_quarantine_deallocate_pages', ['C10', 'C17', 'C15', 'C11'], cfgs=('default', 'light', 'alt2', 'rq0', 'rq1'))
def quarantine(ctx):
    """freed pages become inaccessible and empty; the range enters the random array, what it displaces enters the queue, what leaves is unmapped once"""
    from .leaf import pagesym
    m = ctx.m
    R, Q = int(m.defs['REGION_QUARANTINE_RANDOM_LENGTH'].split()[0]), int(m.defs['REGION_QUARANTINE_QUEUE_LENGTH'].split()[0])
    thresh = int(m.defs['REGION_QUARANTINE_SKIP_THRESHOLD'].split()[0])
    ex = ctx.ex(kern.MEMORY)
    ex.world = kern.Witness(('C10', 'C11'))
    ex.mem_tags = ('C10', 'C11', 'C15')
    lay = m.layouts['region_allocator']
    ra = QuarRA(ex, lay, m.layouts.get('quarantine_info') or {'': 16, 'p': (0, 8), 'size': (8, 8)})
    RA = ex.addobj(ra)
    rol = next(v for k, v in m.layouts.items() if 'slab_region_start' in v)
    rc = {rol['region_allocator'][0]: RA}

    def roinit(st, off, n):
        if off in rc and n == 8:
            return rc[off]
        raise Unsupported('access to offset %d of ro' % off)
    ro = CellObj('ro', 4096, init=roinit, const=True)
    ex.addobj(ro)
    ex.globals['ro'] = ro.base

    def lock(on):
        def f(ex, st, a, i):
            ex.oblige(st, 'only the lock of the region allocator is used', ex.cmp(st, 'eq', a[0], ladd(RA, lay['lock'][0]), 64), T10)
            ex.oblige(st, 'locking is balanced', st.g['held'] != on, T10)
            st.g['held'] = on
            return 0
        return f
    ex.contracts.update({'pthread_mutex_lock': lock(True), 'pthread_mutex_unlock': lock(False)})

    def draw(ex, st, a, i):
        ex.oblige(st, 'the generator of the region allocator is used', ex.cmp(st, 'eq', a[0], ladd(RA, lay['rng'][0]), 64), T10)
        ex.oblige(st, 'the generator is used only under the lock', st.g['held'], T10)
        b = a[1]
        ex.oblige(st, 'the random position is drawn uniformly over the whole array', ex.cmp(st, 'eq', b if not z3.is_bv(b) else from_narrow(b), R, 64), ('C10',))
        r = ex.flin('index', 0, max(R - 1, 0))
        st.g['draws'] = st.g['draws'] + (r,)
        return r
    ex.contracts['get_random_u64_uniform'] = draw

    def dealloc(ex, st, a, i):
        ex.oblige(st, 'pages are deallocated with no lock held', not st.g['held'], T10)
        st.ev.append(('deallocate_pages',) + tuple(a))
        kern.havoc_errno(ex, st)
        return None
    ex.contracts['deallocate_pages'] = dealloc
    size, guard = pagesym(ex, 'usable', 1, 1 << 35), pagesym(ex, 'guard', 0, 1 << 35)
    size = lsub_raw(size, ex.flin('extra', 0, PAGE - 1)) if True else size
    p = ex.newbase('p', lo=1 << 16, hi=1 << 47, align=PAGE)
    z = kern.zint
    anyi = z3.Int('any_entry')

    def setup(s):
        ex.world.start(ex, s)
        x = s.g['x']
        s.g['held'], s.g['draws'] = False, ()
        s.g['qpos'] = ex.flin('queue_position', 0, max(Q - 1, 0))
        s.g['whole'] = kern.inrange(x, lsub_raw(p, guard), ladd_raw(size, lscale(guard, 2)))
        s.g['use'] = kern.inrange(x, p, size)
        s.assume(z(lsub_raw(p, guard)) > 0)
        s.assume(z(ladd_raw(ladd_raw(p, size), guard)) < 1 << 47)
        s.assume(z3.Implies(s.g['whole'], s.g['res']))
        for f in ('quarantine_random', 'quarantine_queue'):
            for g in ('p', 'size'):
                s.arr[f, g] = z3.Array('%s.%s' % (f, g), z3.IntSort(), z3.IntSort())
    st = start(ctx, ex, 'regions_quarantine_deallocate_pages', [p, size, guard], setup)
    a0, q0 = dict(st.arr), st.g['qpos']
    # entries are page-aligned ranges of our own, apart from the range freed now (they were freed before and not unmapped yet)
    E0 = lambda f, i: (z3.Select(a0[f, 'p'], i), z3.Select(a0[f, 'size'], i))
    ranges = []

    def entry_inv(st, f, i):
        ep, es = E0(f, i)
        x = st.g['x']
        st.assume(z3.And(ep >= 0, ep < 1 << 47, ep % PAGE == 0, es >= 0, es < 1 << 47))
        st.assume(z3.Implies(ep != 0, z3.And(es > 0, ep + es < 1 << 47)))
        inr = z3.And(ep <= z(x), z(x) < ep + es)
        st.assume(z3.Implies(z3.And(ep != 0, inr), z3.And(st.g['res0'], z3.Not(st.g['whole']), z3.Not(st.g['acc0']))))
    sel = ra.load

    def load(ex, st, off, n):
        k, i = ra.at(ex, st, off, n, False)
        if i is not None:
            entry_inv(st, k[0], i)
        return sel(ex, st, off, n)
    ra.load = load

    def on_end(st, out):
        g = st.g
        O = lambda n, f, t=('C10',): ex.oblige(st, n, f, t)
        O('is never fatal', out[0] == 'ret', ('C15', 'C10'))
        if out[0] != 'ret':
            return
        O('the lock is released', not g['held'], T10)
        da = [e for e in st.ev if e[0] == 'deallocate_pages']
        un = [e for e in st.ev if e[0] == 'unmap']
        rand, queue = 'quarantine_random', 'quarantine_queue'
        same = lambda f, i: z3.And(*[z3.Select(st.arr[f, h], i) == z3.Select(a0[f, h], i) for h in ('p', 'size')])
        qsame = z(g['qpos']) == z(q0)
        if da:
            O('a range is given back at once only from the threshold up', z3.BoolVal(True) if R + Q == 0 else z(size) >= thresh)
            O('the block is given back once, whole', z3.And(len(da) == 1, *[z3.And(z(e[1]) == z(p), z(e[2]) == z(size), z(e[3]) == z(guard)) for e in da]))
            O('nothing else is unmapped', not un)
            O('the quarantine is unchanged', z3.And(same(rand, anyi), same(queue, anyi), qsame))
            O('no other page is touched', z3.And(g['res'] == g['res0'], g['acc'] == g['acc0'], g['zero'] == g['zero0']))
            return
        O('large ranges are given back at once', z3.And(z(size) < thresh, z3.BoolVal(R + Q > 0)))
        fixed_ok = any(e[0] == 'map_fixed' and e[3] for e in st.ev)
        refused = any(e[0] == 'map_fixed' and not e[3] for e in st.ev)
        purge_refused = any(e[0] == 'purge' and not e[3] for e in st.ev)
        if not refused:
            O('the freed pages are inaccessible', z3.Implies(g['use'], z3.Not(g['acc'])))
        if not (refused and purge_refused):
            O('the contents are discarded', z3.Implies(g['use'], z3.Or(g['zero'], z3.Not(g['res']))))
        O('the address range stays reserved', z3.Implies(z3.And(g['whole'], z3.BoolVal(True)), g['res']))
        kinds = [e[0] for e in st.ev]
        k0 = kinds.index('entered') if 'entered' in kinds else len(kinds)
        O('the freed pages are discarded before the range enters the quarantine', not any(k in ('map_fixed', 'purge', 'rw', 'ro') for k in kinds[k0:]), T10)
        tp, ts = z(p) - z(guard), z(size) + 2 * z(guard)
        cur = (tp, ts)
        moved = z3.BoolVal(True)
        if R:
            ds = g['draws']
            O('one random position is drawn', len(ds) == 1)
            if len(ds) != 1:
                return
            k = z(ds[0])
            O('the range with its guards is put at the random position', z3.And(z3.Select(st.arr[rand, 'p'], k) == tp, z3.Select(st.arr[rand, 'size'], k) == ts))
            O('no other entry of the array changes', z3.Implies(anyi != k, same(rand, anyi)))
            cur = E0(rand, k)
            moved = cur[0] != 0
        if Q:
            k = z(q0)
            O('what is displaced enters the queue at its position', z3.Implies(moved, z3.And(z3.Select(st.arr[queue, 'p'], k) == cur[0], z3.Select(st.arr[queue, 'size'], k) == cur[1])))
            O('no other entry of the queue changes', z3.Implies(z3.Or(anyi != k, z3.Not(moved)), same(queue, anyi)))
            O('the queue position advances by one, cyclically', z3.If(moved, z(g['qpos']) == z3.If(k == Q - 1, 0, k + 1), qsame))
            cur = E0(queue, k)
        want = z3.And(moved, cur[0] != 0)
        O('what leaves the quarantine is unmapped, exactly once', z3.If(want, z3.BoolVal(len(un) == 1), z3.BoolVal(len(un) == 0)))
        for e in un:
            O('exactly the range that leaves the quarantine is unmapped', z3.And(z(e[1]) == cur[0], z(e[2]) == cur[1]))
    ex.run(st, on_end)
