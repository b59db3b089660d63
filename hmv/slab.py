"""The representation invariant of one size class, and the objects the code sees.

Everything about slab i of the class is held in arrays indexed by i (mathematical integers):
  bm[b], qb[b]     the used-slot and quarantine bitmaps, 64-bit vectors
  next, prev       list links, encoded 0 = NULL, j+1 = slab j
  canary, cnt      canary value (64-bit vector), number of used slots
and ghost arrays
  stt   NONE never used | GUARD | PARTIAL | FULL | EMPTY cached | FREEQ in the random delay array | FREEF in the FIFO
  rank  position in its list     pe    predecessor in the singly linked lists     pos   index in the random delay array
  qpos  slot code -> position in the slot quarantines (random array, then queue)
  acc   the slab is readable and writable
Memory of the class region is one array of 64-bit words.

inv(view, i) is the invariant of slab i.  It is assumed for every slab the code touches when the lock is taken and has
to be proved for an arbitrary slab when the lock is released.
"""
import z3
from .val import *
from .exec import *
from .kern import *
from . import kern

NONE, GUARD, PARTIAL, FULL, EMPTY, FREEQ, FREEF = range(7)
B64 = z3.BitVecSort(64)
IS = z3.IntSort()

SPEC_SIZES = [0] + list(range(16, 129, 16)) + [160, 192, 224, 256, 320, 384, 448, 512, 640, 768, 896, 1024, 1280, 1536, 1792, 2048, 2560, 3072, 3584, 4096,
              5120, 6144, 7168, 8192, 10240, 12288, 14336, 16384, 20480, 24576, 28672, 32768, 40960, 49152, 57344, 65536, 81920, 98304, 114688, 131072]


def ext(m):
    return m.defs.get('CONFIG_EXTENDED_SIZE_CLASSES') == 'true'


def nclasses(m):
    return 49 if ext(m) else 37


def consts(m, name):
    g = m.globals.get(name)
    if g is None or not g.init or g.init[0] != 'agg':
        return None
    return [x[1][1] for x in g.init[2]]


class Cfg:
    """numbers of a configuration: documented sizes, slot counts as the source defines them"""

    def __init__(self, m):
        d = m.defs
        self.sizes = SPEC_SIZES[:nclasses(m)]
        self.slots = consts(m, 'size_class_slots')
        if self.slots is None or len(self.slots) != len(self.sizes):
            raise Unsupported('size_class_slots table')
        self.N = int(d['N_ARENA'])
        self.CRS = int(d['CONFIG_CLASS_REGION_SIZE'])
        self.RCRS = 2 * self.CRS
        self.ARENA = self.RCRS * len(self.sizes)
        self.maxslab = self.sizes[-1]
        self.canary = 8 if on(d, 'SLAB_CANARY') else 0
        self.QR = int(d['SLAB_QUARANTINE_RANDOM_LENGTH'])
        self.QQ = int(d['SLAB_QUARANTINE_QUEUE_LENGTH'])
        self.FQ = int(d['FREE_SLABS_QUARANTINE_RANDOM_LENGTH'])
        self.GI = int(d['GUARD_SLABS_INTERVAL'])
        self.waf = on(d, 'WRITE_AFTER_FREE_CHECK')
        self.zof = on(d, 'ZERO_ON_FREE')
        self.stats = on(d, 'CONFIG_STATS')
        self.seal = on(d, 'CONFIG_SEAL_METADATA')
        self.maxshift = self.maxslab.bit_length() - 1
        self.empty_limit = self.maxslab if ext(m) else self.maxslab * 4


def on(d, k):
    return d.get(k) in ('true', '1')


def store_sub(a, i, v):
    return z3.Store(a, i, v)


class View:
    """one state of the class: arrays a[...] and scalars (z3 Int terms)"""

    def __init__(self):
        self.a = {}
        self.s = {}


class Slab:
    def __init__(self, ex, k, role='unit', arena=None):
        self.ex, self.k, self.arena = ex, k, arena
        m = ex.m
        self.m = m
        cf = self.cf = Cfg(m)
        self.S0 = cf.sizes[k]
        self.S = self.S0 or 16
        self.n = cf.slots[k]
        self.Z = (self.n * self.S + 4095) // 4096 * 4096
        self.MMAX = cf.CRS // self.Z
        self.nb = (self.n - 1) // 64 + 1
        self.mask = [((1 << max(0, min(64, self.n - 64 * b))) - 1) for b in range(self.nb)]
        self.lay = m.layouts['size_class']
        self.ml = m.layouts['slab_metadata']
        self.esz = self.ml['']
        p2 = 1 << ((self.S).bit_length() - 1)
        self.lenR = cf.QR * (cf.maxslab // p2)
        self.lenQ = cf.QQ * (cf.maxslab // p2)
        self.quar = cf.QR > 0 or cf.QQ > 0
        self.capR = cf.QR << (cf.maxshift - 4)
        self.zero_class = self.S0 == 0
        self.P = z3.Function('popcount%d' % self.nb, *([B64] * self.nb + [IS]))
        self.has_count = 'count' in self.ml
        self.has_canary = 'canary_value' in self.ml
        self.lazy = {}
        self.G = z3.Function('guard_position', IS, z3.BoolSort())
        self.any = {}
        self.cache = {}
        ex.split64 = self.split64
        self.build()

    # ---------------------------------------------------------------- addresses and objects
    def build(self):
        ex, cf = self.ex, self.cf
        total = cf.ARENA * cf.N
        self.SRS = ex.newbase('slab_region', lo=1 << 30, hi=(1 << 47) - total - 4096, align=4096)
        self.total = total
        self.AS = ex.newbase('allocator_state', lo=1 << 30, hi=1 << 46, align=4096)
        self.SI = ex.newbase('slab_info', lo=1 << 30, hi=1 << 46, align=4096)
        self.A0 = self.arena if self.arena is not None else ex.flin('arena', 0, cf.N - 1) if cf.N > 1 else 0
        gap = ex.flin('gap', 1, (cf.RCRS - cf.CRS) // 4096 - 1)
        self.gap = gap
        self.reg = ladd_raw(ladd_raw(self.SRS, lscale(self.A0, cf.ARENA) if not isinstance(self.A0, int) else self.A0 * cf.ARENA), self.k * cf.RCRS)   # region start
        self.CS = ladd_raw(self.reg, lscale(gap, 4096))
        self.X = self.lay[''] * len(cf.sizes)
        self.SC = ladd_raw(self.AS, ladd_raw(lscale(self.A0, self.X) if not isinstance(self.A0, int) else self.A0 * self.X, self.k * self.lay['']))
        off = lambda b, v: lsub_raw(v, b)
        # memory of the class region
        self.mem = SlabMem(self)
        ex.place(self.SRS, off(self.SRS, self.CS), self.mem)
        # the size_class structure
        sco = off(self.AS, self.SC)
        self.arrs = {}
        if self.capR:
            self.arrs['quarantine_random'] = PtrArr(self, 'qr', 'quarantine_random', self.slot_codec)
        if 'quarantine_queue' in self.lay and cf.QQ:
            self.arrs['quarantine_queue'] = PtrArr(self, 'qq', 'quarantine_queue', self.slot_codec)
        self.arrs['free_slabs_quarantine'] = PtrArr(self, 'fsq', 'free_slabs_quarantine', self.md_codec)
        for n, o in self.arrs.items():
            ex.place(self.AS, ladd_raw(sco, self.lay[n][0]), o)
        self.rng = Opaque('rng', self.lay['rng'][1])
        ex.place(self.AS, ladd_raw(sco, self.lay['rng'][0]), self.rng)
        self.sc = CellObj('size_class', self.lay[''])
        self.sc.init = self.sc_init
        self.sc.onload = lambda st, o, n: self.sc_access(st, o, n, False)
        self.sc.onstore = lambda st, o, n, v: self.sc_access(st, o, n, True, v)
        ex.place(self.AS, sco, self.sc)
        self.md = MdArr(self)
        ex.place(self.SI, 0, self.md)
        # the read-only globals
        self.ro = Ro(self)
        b = ex.newbase('@ro', align=4096)
        ex.place(b, 0, self.ro)
        ex.globals['ro'] = b
        self.RA = ex.newbase('region_allocator', align=64)
        ex.slab = self

    def field(self, off, n):
        for f, v in self.lay.items():
            if f and v[0] <= off and off + n <= v[0] + v[1]:
                return f
        return None

    IMMUT = ('class_region_start', 'slab_info', 'size_divisor', 'slab_size_divisor')
    HEADS = {'partial_slabs': 'hp', 'empty_slabs': 'he', 'free_slabs_head': 'hf', 'free_slabs_tail': 'tl'}

    def sc_access(self, st, off, n, store, v=None):
        f = self.field(off, n)
        if f in self.IMMUT:
            if store:
                self.ex.oblige(st, '%s does not change after initialisation' % f, False, ('C21',))
            return
        self.locked(st, f)
        if store and f in ('empty_slabs', 'free_slabs_head') and self.lay[f] == (off, n):
            self.set_pred(st, v, 0)

    def set_pred(self, st, v, pred):
        """ghost: v becomes the successor of pred (0 = list head)"""
        e = self.md_enc(v)
        if isinstance(e, int):
            if e == 0:
                return
            e = z3.IntVal(e)
        st.arr['pe'] = z3.Store(st.arr['pe'], e - 1, pred)

    def locked(self, st, what):
        if 'class' not in st.g['held']:
            self.ex.oblige(st, 'size class state (%s) is accessed only with its lock held' % what, False, ('C17',))
        if self.cf.seal and st.g.get('sealed') is True:
            self.ex.oblige(st, 'metadata (%s) is accessed only while it is unsealed' % what, self.ro.nokey(), ('C24',))

    def sc_init(self, st, off, n):
        f = self.field(off, n)
        g = st.g['S0']
        if f == 'class_region_start':
            return self.CS
        if f == 'slab_info':
            return self.SI
        if f in self.HEADS and n == 8:
            return self.md_dec(st, g[self.HEADS[f]])
        if f == 'empty_slabs_total':
            return lscale(g['NEl'], self.Z)
        if f == 'quarantine_queue_index':
            return g['qil']
        if f in ('metadata_count', 'metadata_allocated', 'metadata_count_unguarded'):
            return g[{'metadata_count': 'MCl', 'metadata_allocated': 'MAl', 'metadata_count_unguarded': 'Ul'}[f]]
        if f in ('allocated', 'slab_allocated'):
            return g[f]
        return None

    # ---------------------------------------------------------------- pointer codecs
    def md_enc(self, v):
        """pointer to slab metadata -> Int term / int (index + 1)"""
        if isinstance(v, int):
            if v != 0:
                raise Unsupported('constant metadata pointer')
            return 0
        d = lsub_raw(v, self.SI)
        if isinstance(d, int):
            t, c = {}, d
        else:
            t, c = d.t, d.c
        if c % self.esz or any(q % self.esz for q in t.values()):
            raise Unsupported('metadata pointer %r' % v)
        r = lmk(c // self.esz + 1, {i: q // self.esz for i, q in t.items()})
        return r if isinstance(r, int) else r.z()

    def md_dec(self, st, e):
        """Int term -> pointer (forks on NULL)"""
        e = simp_i(e)
        if isinstance(e, int):
            return 0 if e == 0 else ladd_raw(self.SI, self.esz * (e - 1))
        key = ('md', e.get_id())
        if key in st.inst_norm:
            return st.inst_norm[key]
        ex = self.ex
        alts = []
        j = ex.flin('slab', 0, self.MMAX - 1)

        def null(t):
            t.inst_norm[key] = 0

        def some(t):
            t.inst_norm[key] = ladd_raw(self.SI, lscale(j, self.esz))
            t.g['keep'] = t.g.get('keep', ()) + (e,)
        raise ForkOn([(e == 0, null), (e == j.z() + 1, some)])

    md_codec = ('md', None)
    slot_codec = ('slot', None)

    @staticmethod
    def s8(slot):
        """slot number (made of a word number and a 6-bit position) as an 8-bit vector"""
        if isinstance(slot, int):
            return z3.BitVecVal(slot, 8)
        if not isinstance(slot, Lin):
            return slot
        if len(slot.t) == 1 and slot.c % 64 == 0 and 0 <= slot.c < 256:
            (i, k), = slot.t.items()
            nr = ATOMS[i].narrow
            if k == 1 and slot.c == 0 and nr is not None and nr.size() == 8:
                return nr
            if k == 1 and nr is not None and nr.size() == 6:
                return z3.Concat(z3.BitVecVal(slot.c // 64, 2), nr)
        raise Unsupported('slot number %r' % (slot,))

    def code(self, i, slot):
        """a slot of the class as it stands in the quarantine arrays: (slab + 1, slot), (0, _) is NULL"""
        return Code(zi(i) + 1, self.s8(slot))

    def slot_enc(self, st, p):
        if isinstance(p, int):
            if p:
                raise Unsupported('constant slot pointer')
            return Code(z3.IntVal(0), z3.BitVecVal(0, 8))
        d = lsub_raw(p, self.CS)
        ex = self.ex
        q, t = ex.divmod_const(st, d, self.Z) if not isinstance(d, int) else divmod(d, self.Z)
        s, r = ex.divmod_const(st, t, self.S) if not isinstance(t, int) else divmod(t, self.S)
        if not (isinstance(r, int) and r == 0):
            ex.oblige(st, 'only slot starts are quarantined', ex.eq0(st, r), ('C09', 'C04'))
        return self.code(q, s)

    def slot_dec(self, st, arr, k):
        """the slot pointer in entry k of a quarantine array"""
        e, s = simp_i(z3.Select(st.arr[arr], k)), z3.simplify(z3.Select(st.arr[arr + 's'], k))
        if isinstance(e, int):
            if e:
                raise Unsupported('constant slot code')
            return 0
        key = ('slot', e.get_id(), s.get_id())
        if key in st.inst_norm:
            return st.inst_norm[key]
        ex = self.ex
        j = ex.flin('qslab', 0, self.MMAX - 1)
        if self.nb == 1:
            slot, nr = self.bvatom('qslot', self.n - 1)
            a = self.s8(slot)
        else:
            a = ex.fresh('qs', 8)
            z = z3.Int('qslot!i%d' % next(ex.fresh_n))
            ex.axioms.append(z3.And(z >= 0, z < self.n))
            slot = lin(z, 0, self.n - 1, 'qslot', narrow=a)
            self.lazy[next(iter(slot.t))] = (j, a, slot)

        def null(t):
            t.inst_norm[key] = 0

        def some(t):
            t.inst_norm[key] = ladd_raw(ladd_raw(self.CS, lscale(j, self.Z)), lscale(slot, self.S))
            t.g['keep'] = t.g.get('keep', ()) + (e, s)
            if self.nb == 1:
                self.touch_slot(t, j, 0, nr, slot)
            else:
                v0 = self.view0(t)
                for b in range(self.nb):
                    for nm, tg, f in self.inv_slot(v0, zi(j), b, z3.Extract(5, 0, a), a):
                        t.assume(z3.Implies(z3.Extract(7, 6, a) == b, f))
            self.touch(t, j)
        raise ForkOn([(e == 0, null), (z3.And(e == j.z() + 1, s == a, z3.ULE(a, self.n - 1)), some)])

    def split64(self, st, atom):
        """word and bit number of a slot read from the quarantine"""
        if atom not in self.lazy:
            return None
        key = ('w64', atom)
        if key in st.inst_norm:
            return st.inst_norm[key]
        j, a, slot = self.lazy[atom]
        alts = []
        for b in range(self.nb):
            r, nr = self.bvatom('qbit')

            def some(t, b=b, r=r, nr=nr):
                t.inst_norm[key] = (b, r)
                t.alias[atom] = ladd_raw(r, 64 * b)
                self.touch_slot(t, j, b, nr, ladd_raw(r, 64 * b))
            alts.append((z3.And(a == z3.Concat(z3.BitVecVal(b, 2), nr), slot.z() == r.z() + 64 * b), some))
        raise ForkOn(alts)

    def touch_slot(self, st, j, b, nr, slot):
        st.g['slots'] = st.g['slots'] + [(j, b, nr)]
        for nm, tg, f in self.inv_slot(self.view0(st), zi(j), b, nr, slot):
            st.assume(f)

    def bvatom(self, name, hi=63):
        """integer in [0, 63] with its bit-vector: (Lin, 6-bit vector)"""
        ex = self.ex
        nr = ex.fresh(name, 6)
        e = z3.Int('%s!i%d' % (name, next(ex.fresh_n)))
        ex.axioms.append(e == z3.BV2Int(nr))
        if hi < 63:
            ex.axioms.append(e <= hi)
        return lin(e, 0, hi, name, narrow=nr), nr

    # ---------------------------------------------------------------- states
    ARR = ('next', 'prev', 'cnt', 'stt', 'rank', 'pe', 'pos')

    def begin(self, st):
        """an arbitrary state of the class that satisfies the invariant (when the lock is taken)"""
        ex, cf = self.ex, self.cf
        u = next(ex.fresh_n)
        A = st.arr
        for n in self.ARR:
            A[n] = z3.Array('%s!%d' % (n, u), IS, IS)
        for b in range(self.nb):
            A['bm%d' % b] = z3.Array('bm%d!%d' % (b, u), IS, B64)
            A['qb%d' % b] = z3.Array('qb%d!%d' % (b, u), IS, B64)
        A['canary'] = z3.Array('canary!%d' % u, IS, B64)
        A['acc'] = z3.Array('acc!%d' % u, IS, z3.BoolSort())
        for n in ('qr', 'qq', 'fsq'):
            A[n] = z3.Array('%s!%d' % (n, u), IS, IS)
        for n in ('qrs', 'qqs'):
            A[n] = z3.Array('%s!%d' % (n, u), IS, z3.BitVecSort(8))
        A['qpos'] = z3.Const('qpos!%d' % u, z3.ArraySort(IS, z3.BitVecSort(8), IS))
        A['mem'] = z3.Array('mem!%d' % u, IS, B64)
        st.g['memlog'] = []
        s = {}
        for n in ('hp', 'he', 'hf', 'tl', 'R'):
            s[n] = z3.Int('%s!%d' % (n, u))
        s['NEl'] = ex.flin('n_empty', 0, 1 << 23)
        s['qil'] = ex.flin('queue_index', 0, max(self.lenQ - 1, 0)) if self.lenQ > 1 else 0
        s['MCl'] = ex.flin('metadata_count', 0, self.MMAX + 1)
        s['MAl'] = ex.flin('metadata_allocated', 0, self.MMAX)
        s['Ul'] = ex.flin('unguarded', 0, cf.GI - 1) if cf.GI > 1 else 0
        s['allocated'] = ex.flin('allocated', self.S, 1 << 60)
        s['slab_allocated'] = ex.flin('slab_allocated', self.Z, 1 << 60)
        st.g['S0'] = s
        st.g['A0'] = {'bm': [A['bm%d' % b] for b in range(self.nb)], 'qb': [A['qb%d' % b] for b in range(self.nb)], **{k: A[k] for k in list(self.ARR) + ['canary', 'acc', 'qr', 'qq', 'qrs', 'qqs', 'qpos', 'fsq', 'mem']}}
        st.g['inst'] = ()
        st.g['slots'] = []
        st.g['mapped'] = []         # slabs replaced by fresh inaccessible memory
        st.g['mapfail'] = []
        st.g['purged'] = []
        st.g['fresh_canary'] = []
        st.cells.pop(self.sc.id, None)
        v = self.view0(st)
        for nm, tg, f in self.inv_global(v):
            st.assume(self.ex.group(self.gset(self.GROUPS.get(nm)), f))
        return v

    def view0(self, st):
        v = View()
        v.a = st.g['A0']
        s = st.g['S0']
        v.s = {n: s[n] for n in ('hp', 'he', 'hf', 'tl', 'R')}
        v.s.update(NE=zi(s['NEl']), qi=zi(s['qil']), MC=zi(s['MCl']), MA=zi(s['MAl']), U=zi(s['Ul']))
        v.stt = lambda i: z3.Select(v.a['stt'], i)
        v.rank = lambda i: z3.Select(v.a['rank'], i)
        return v

    def cell(self, st, f):
        """current value of a scalar field as an Int term"""
        off, n = self.lay[f]
        c = st.cells.get(self.sc.id, {}).get(off)
        if c is None:
            s = st.g['S0']
            if f in self.HEADS:
                return s[self.HEADS[f]]
            return zi({'empty_slabs_total': lambda: lscale(s['NEl'], self.Z), 'quarantine_queue_index': lambda: s['qil'], 'metadata_count': lambda: s['MCl'],
                       'metadata_allocated': lambda: s['MAl'], 'metadata_count_unguarded': lambda: s['Ul'],
                       'allocated': lambda: s['allocated'], 'slab_allocated': lambda: s['slab_allocated']}[f]())
        if f in self.HEADS:
            return zi(self.md_enc(c[1]))
        return zi(self.ex.norm(st, c[1]) if isinstance(c[1], Lin) else c[1])

    def view1(self, st):
        """the state now, with the ghost state that follows from it"""
        v0 = self.view0(st)
        v = View()
        A = st.arr
        v.a = {'bm': [A['bm%d' % b] for b in range(self.nb)], 'qb': [A['qb%d' % b] for b in range(self.nb)], **{k: A[k] for k in list(self.ARR) + ['canary', 'acc', 'qr', 'qq', 'qrs', 'qqs', 'qpos', 'fsq', 'mem']}}
        v.s = {self.HEADS[f]: self.cell(st, f) for f in self.HEADS}
        v.s.update(qi=self.cell(st, 'quarantine_queue_index') if self.cf.QQ else z3.IntVal(0), MC=self.cell(st, 'metadata_count'), MA=self.cell(st, 'metadata_allocated'),
                   U=self.cell(st, 'metadata_count_unguarded'), total=self.cell(st, 'empty_slabs_total'))
        n, GI = self.n, self.cf.GI
        mapped = [zi(x) for x in st.g['mapped']]

        def isfree(i):
            p = z3.Select(v.a['pos'], i)
            return z3.If(z3.And(p >= 0, p < self.cf.FQ, z3.Select(v.a['fsq'], p) == i + 1), FREEQ, FREEF)

        def stt(i):
            t0 = v0.stt(i)
            c = z3.Select(v.a['cnt'], i)
            m = z3.Or(*[i == x for x in mapped]) if mapped else z3.BoolVal(False)
            zero = z3.If(t0 == FREEQ, isfree(i), z3.If(t0 == FREEF, z3.IntVal(FREEF), z3.IntVal(EMPTY)))
            body = z3.If(c == 0, zero, z3.If(c == n, FULL, PARTIAL))
            if mapped:
                body = z3.If(m, isfree(i), body)
            return z3.If(i >= v.s['MC'], NONE, z3.If(self.G(i), GUARD, body))
        v.stt = stt

        def rank(i):
            s = stt(i)
            return z3.If(s == v0.stt(i), v0.rank(i), z3.If(s == EMPTY, v0.s['NE'], v0.s['R']))
        v.rank = rank
        v.s['R'] = v0.s['R'] + 1
        ne = v0.s['NE']
        seen = []
        for i in st.g['inst']:
            i = zi(i)
            d = z3.If(stt(i) == EMPTY, 1, 0) - z3.If(v0.stt(i) == EMPTY, 1, 0)
            ne = ne + (z3.If(z3.And(*[i != j for j in seen]), d, 0) if seen else d)
            seen.append(i)
        v.s['NE'] = ne
        v.touched = seen
        return v

    # ---------------------------------------------------------------- the invariant
    def inv(self, v, i):
        """invariant of slab i (Int term), list of (name, tags, formula)"""
        a, s = v.a, v.s
        S = z3.Select
        n, GI = self.n, self.cf.GI
        t = v.stt(i)
        bm = [S(x, i) for x in a['bm']]
        qb = [S(x, i) for x in a['qb']]
        c = S(a['cnt'], i)
        nx, pv, pe = S(a['next'], i), S(a['prev'], i), S(a['pe'], i)
        ok = lambda e: z3.And(e >= 1, e <= self.MMAX)
        out = []

        def add(name, tags, f):
            out.append((name, tags, f))
        add('used bits lie inside the slab', ('C01', 'C27'), z3.And(*[b & ~z3.BitVecVal(m, 64) == 0 for b, m in zip(bm, self.mask)]))
        if self.quar:
            add('quarantined slots are marked as used', ('C09', 'C01'), z3.And(*[q & ~b == 0 for q, b in zip(qb, bm)]))
        if self.has_count:
            add('the slot count is the number of used slots', ('C01', 'C13'), c == self.P(*bm))
        else:
            add('count', (), c == self.P(*bm))
        add('a slab is listed according to its number of used slots', ('C13', 'C01'),
            z3.And(c >= 0, c <= n, z3.If(z3.And(c > 0, c < n), t == PARTIAL, z3.If(c == n, t == FULL, z3.And(t != PARTIAL, t != FULL)))))
        add('slabs are taken into use in order', ('C12', 'C13'), z3.And(t >= 0, t <= 6, (i >= s['MC']) == (t == NONE)))
        add('every configured number of slabs is followed by a guard that is never used', ('C12',),
            z3.Implies(i < s['MC'], (t == GUARD) == self.G(i)))
        add('unused metadata is zero', ('C13', 'C01'), z3.Implies(t == NONE, z3.And(nx == 0, pv == 0)))
        if self.has_canary:
            add('the first canary byte is zero', ('C07',), S(a['canary'], i) & 0xff == 0)
        if not self.zero_class:
            add('a slab is accessible exactly while it is in use or cached', ('C12', 'C13'), S(a['acc'], i) == z3.Or(t == PARTIAL, t == FULL, t == EMPTY))
        else:
            add('zero size slabs are never accessible', ('C12',), z3.Not(S(a['acc'], i)))
        r = v.rank(i)
        add('ranks', ('C13',), z3.And(z3.Implies(z3.Or(t == PARTIAL, t == FREEF), r < s['R']), z3.Implies(t == EMPTY, r >= 0)))
        nt, pt = v.stt(nx - 1), v.stt(pv - 1)
        add('partial slabs form one doubly linked list (forwards)', ('C13', 'C01'), z3.Implies(t == PARTIAL, z3.Or(nx == 0, z3.And(
            ok(nx), nt == PARTIAL, S(a['prev'], nx - 1) == i + 1, v.rank(nx - 1) < r))))
        add('partial slabs form one doubly linked list (backwards)', ('C13', 'C01'), z3.Implies(t == PARTIAL, z3.If(pv == 0, s['hp'] == i + 1, z3.And(
            ok(pv), pt == PARTIAL, S(a['next'], pv - 1) == i + 1, s['hp'] != i + 1))))
        add('empty slabs form one list (forwards)', ('C13', 'C01'), z3.Implies(t == EMPTY, z3.If(nx == 0, r == 0, z3.And(
            ok(nx), nt == EMPTY, S(a['pe'], nx - 1) == i + 1, v.rank(nx - 1) + 1 == r))))
        et = v.stt(pe - 1)
        add('empty slabs form one list (backwards)', ('C13', 'C01'), z3.Implies(t == EMPTY, z3.If(pe == 0, s['he'] == i + 1, z3.And(
            ok(pe), et == EMPTY, S(a['next'], pe - 1) == i + 1, s['he'] != i + 1))))
        add('free slabs form one FIFO (forwards)', ('C13', 'C01'), z3.Implies(t == FREEF, z3.If(nx == 0, s['tl'] == i + 1, z3.And(
            ok(nx), nt == FREEF, S(a['pe'], nx - 1) == i + 1, v.rank(nx - 1) > r, s['tl'] != i + 1))))
        add('free slabs form one FIFO (backwards)', ('C13', 'C01'), z3.Implies(t == FREEF, z3.If(pe == 0, s['hf'] == i + 1, z3.And(
            ok(pe), et == FREEF, S(a['next'], pe - 1) == i + 1, s['hf'] != i + 1))))
        po = S(a['pos'], i)
        add('delayed free slabs are in the random array', ('C13',), z3.Implies(t == FREEQ, z3.And(nx == 0, po >= 0, po < self.cf.FQ, S(a['fsq'], po) == i + 1)))
        return out

    GROUPS = {'used bits lie inside the slab': 'bits', 'quarantined slots are marked as used': 'bits', 'the slot count is the number of used slots': 'bits', 'count': 'bits',
              'unused metadata is zero': 'P', 'ranks': None,
              'partial slabs form one doubly linked list (forwards)': 'P', 'partial slabs form one doubly linked list (backwards)': 'P',
              'empty slabs form one list (forwards)': 'E', 'empty slabs form one list (backwards)': 'E',
              'free slabs form one FIFO (forwards)': 'F', 'free slabs form one FIFO (backwards)': 'F', 'delayed free slabs are in the random array': 'F',
              'head of the partial list': 'P', 'head of the empty list': 'E', 'head of the free FIFO': 'F', 'tail of the free FIFO': 'F',
              'entries of the slab delay array': 'F', 'cached empty slabs are accounted exactly': 'E', 'the first canary byte is zero': 'bits'}

    def grouped(self, fs, extra=()):
        """named formulas -> one conjunction per group (the group restricts in which proofs the formula is tried first)"""
        d = {}
        for nm, tg, f in fs:
            d.setdefault(self.GROUPS.get(nm) or 'S', []).append(f)
        if extra:
            d.setdefault('bits', []).extend(extra)
        return [(g, z3.And(*x)) for g, x in d.items()]

    def guard_def(self, i):
        """definition: every (GI + 1)-th slab position is a guard"""
        return self.G(i) == (i % (self.cf.GI + 1) == self.cf.GI)

    ALLG = ('S', 'P', 'E', 'F', 'bits')

    def gset(self, g):
        return self.ALLG if g in (None, 'S') else (g,)

    def inv_global(self, v):
        a, s = v.a, v.s
        S = z3.Select
        ok = lambda e: z3.And(e >= 1, e <= self.MMAX)
        out = []
        T = ('C13', 'C01')
        out.append(('head of the partial list', T, z3.Or(s['hp'] == 0, z3.And(ok(s['hp']), v.stt(s['hp'] - 1) == PARTIAL, S(a['prev'], s['hp'] - 1) == 0))))
        out.append(('head of the empty list', T, z3.If(s['he'] == 0, s['NE'] == 0, z3.And(
            ok(s['he']), v.stt(s['he'] - 1) == EMPTY, S(a['pe'], s['he'] - 1) == 0, s['NE'] == v.rank(s['he'] - 1) + 1))))
        out.append(('head of the free FIFO', T, z3.If(s['hf'] == 0, s['tl'] == 0, z3.And(
            ok(s['hf']), v.stt(s['hf'] - 1) == FREEF, S(a['pe'], s['hf'] - 1) == 0, s['tl'] != 0))))
        out.append(('tail of the free FIFO', T, z3.If(s['tl'] == 0, s['hf'] == 0, z3.And(
            ok(s['tl']), v.stt(s['tl'] - 1) == FREEF, S(a['next'], s['tl'] - 1) == 0))))
        out.append(('list order counter', T, s['R'] > 0))
        mn = min(4096 // self.esz, self.MMAX)
        out.append(('metadata counters', ('C12', 'C13', 'C01'), z3.And(s['MC'] >= 0, s['MC'] <= self.MMAX + 1, s['MA'] >= 0, s['MA'] <= self.MMAX, s['MC'] <= s['MA'] + 1, z3.Implies(s['MC'] == s['MA'] + 1, s['U'] == 0),
                                                               z3.If(s['MA'] == 0, s['MC'] == 0, s['MA'] >= mn))))
        out.append(('guard slab counter', ('C12',), z3.And(s['U'] >= 0, s['U'] < self.cf.GI, s['MC'] % (self.cf.GI + 1) == s['U'])))
        if self.cf.QQ:
            out.append(('quarantine queue index is inside the queue', ('C09', 'C01'), z3.And(s['qi'] >= 0, s['qi'] < self.lenQ)))
        if 'total' in s:
            out.append(('cached empty slabs are accounted exactly', ('C13',), s['total'] == self.Z * s['NE']))
        return out

    def inv_fsq(self, v, k):
        e = z3.Select(v.a['fsq'], k)
        return [('entries of the slab delay array', ('C13',), z3.Or(e == 0, z3.And(e >= 1, e <= self.MMAX, v.stt(e - 1) == FREEQ, z3.Select(v.a['pos'], e - 1) == k)))]

    def inv_q(self, v, which, k):
        """entry k of a quarantine array"""
        c = Code(z3.Select(v.a[which], k), z3.Select(v.a[which + 's'], k))
        base = 0 if which == 'qr' else self.capR
        ln = self.lenR if which == 'qr' else self.lenQ
        return [('entries of the slot quarantine are slots of this class, each in one place', ('C09', 'C01'),
                 z3.Or(c.i == 0, z3.And(c.i >= 1, c.i <= self.MMAX, z3.ULE(c.s, self.n - 1), z3.Select(v.a['qpos'], c.i, c.s) == base + k, k < ln)))]

    def inv_slot(self, v, i, b, nr, slot):
        """quarantined slot (i, 64 b + nr) is in the quarantine where qpos says"""
        if not self.quar:
            return []
        c = self.code(i, slot)
        p = z3.Select(v.a['qpos'], c.i, c.s)
        q = bit(z3.Select(v.a['qb'][b], i), nr)
        at = lambda arr, k: c.eq(Code(z3.Select(v.a[arr], k), z3.Select(v.a[arr + 's'], k)))
        inr = z3.And(p < self.lenR, at('qr', p)) if self.cf.QR else z3.BoolVal(False)
        inq = z3.And(p - self.capR < self.lenQ, at('qq', p - self.capR)) if self.cf.QQ else z3.BoolVal(False)
        return [('exactly the quarantined slots are in the quarantine', ('C09', 'C01', 'C04'), q == z3.And(p >= 0, z3.If(p < self.capR, inr, inq)))]

    def pop_lemmas(self, b):
        """facts about the number of set bits"""
        p = self.P(*b)
        zero = z3.And(*[x == 0 for x in b])
        full = z3.And(*[x == z3.BitVecVal(m, 64) for x, m in zip(b, self.mask)])
        inside = z3.And(*[x & ~z3.BitVecVal(m, 64) == 0 for x, m in zip(b, self.mask)])
        return [p >= 0, (p == 0) == zero, z3.Implies(inside, z3.And(p <= self.n, (p == self.n) == full))]

    def flip_lemma(self, b0, b1, k, nr):
        """setting one clear bit adds one, clearing one set bit subtracts one"""
        one = z3.BitVecVal(1, 64) << z3.ZeroExt(58, nr)
        same = z3.And(*[x == y for j, (x, y) in enumerate(zip(b0, b1)) if j != k]) if len(b0) > 1 else z3.BoolVal(True)
        p0, p1 = self.P(*b0), self.P(*b1)
        return [z3.Implies(z3.And(same, b0[k] & one == 0, b1[k] == b0[k] | one), p1 == p0 + 1),
                z3.Implies(z3.And(same, b0[k] & one != 0, b1[k] == b0[k] & ~one), p1 == p0 - 1),
                z3.Implies(z3.And(same, b0[k] == b1[k]), p0 == p1)]

    def touch(self, st, idx):
        """the code uses slab idx: its invariant (at the time the lock was taken) is known"""
        i = zi(idx)
        key = i.get_id()
        if any(zi(x).get_id() == key for x in st.g['inst']):
            return
        st.g['inst'] = st.g['inst'] + (idx,)
        v = self.view0(st)
        rng_ = self.in_range(st, idx)
        ck = ('touch', v.a['stt'].get_id(), i.get_id(), rng_ if isinstance(rng_, bool) else rng_.get_id())
        if ck not in self.cache:
            self.cache[ck] = ([self.ex.group(self.gset(g), f if rng_ is True else z3.Implies(rng_, f))
                               for g, f in self.grouped(self.inv(v, i), self.pop_lemmas([z3.Select(x, i) for x in v.a['bm']]))]
                              + [self.ex.group(('S',), self.guard_def(i))], i, v.a['stt'], rng_)
        for f in self.cache[ck][0]:
            st.assume(f)

    def in_range(self, st, idx):
        if isinstance(idx, int):
            return 0 <= idx < self.MMAX
        lo, hi = st.rng(idx)
        if lo >= 0 and hi < self.MMAX:
            return True
        z = zi(idx)
        return z3.And(z >= 0, z < self.MMAX)

    # ---------------------------------------------------------------- locks
    def lock(self, st):
        if st.g.get('epochs'):
            self.begin(st)
        st.g['epochs'] = st.g.get('epochs', 0) + 1

    def final(self, st, tags_filter=None):
        """obligations when the lock is released"""
        ex = self.ex
        v0, v = self.view0(st), self.view1(st)
        S = z3.Select
        O = lambda n, g, t: ex.oblige(st, n, g, t)
        # an arbitrary slab w and slot ws
        w = self.any.get('w')
        if w is None:
            w = self.any['w'] = ex.flin('w', 0, self.MMAX - 1)
        wz = w.z()
        if not ex.active('C01', 'C09', 'C12', 'C13', 'C27', 'C07', 'C04'):
            return v0, v
        j = self.nbhd(st, v0, v, wz)
        pre = []
        for x, gs in j:
            pre += self.inst(v0, x, gs)
        for i in v.touched + [wz]:
            b0 = [S(x, i) for x in v0.a['bm']]
            b1 = [S(x, i) for x in v.a['bm']]
            pre += [ex.group(('bits',), f) for f in self.pop_lemmas(b1)]
            seen = set()
            for (sj, b, nr) in st.g['slots']:
                if (b, nr.get_id()) not in seen:
                    seen.add((b, nr.get_id()))
                    pre += [ex.group(('bits',), f) for f in self.flip_lemma(b0, b1, b, nr)]
        kf = self.anyint('kf')
        pre += self.inst(v0, S(v0.a['fsq'], kf) - 1, ('F',))
        for e in (kf, S(v0.a['pos'], wz)):
            pre += [ex.group(('F',), f) for n, t, f in self.inv_fsq(v0, e)]
        extra_k = [st_k for st_k in st.g.get('fsq_k', ())]
        for e in extra_k:
            pre += [ex.group(('F',), f) for n, t, f in self.inv_fsq(v0, e)]
        loc0 = st.local
        st.local = loc0 + tuple(pre)
        # the quick tier leaves the lists of classes with more than one bitmap word to the other classes
        skip = ('P', 'E', 'F') if self.nb > 1 and not ex.ctx.want() and not ex.active('C13') else ()
        O = lambda n, g, t: self.GROUPS.get(n) in skip or ex.oblige(st, n, g, t, group=self.GROUPS.get(n) or 'S')
        for nm, tg, f in self.inv(v, wz):
            O(nm, f, tg)
        for nm, tg, f in self.inv_global(v):
            O(nm, f, tg)
        for nm, tg, f in self.inv_fsq(v, kf):
            O(nm, z3.Implies(z3.And(kf >= 0, kf < self.cf.FQ), f), tg)
        O('no other slab changes its place', z3.Or(v.stt(wz) == v0.stt(wz), *[wz == x for x in v.touched], z3.And(wz >= v0.s['MC'], wz < v.s['MC'])), ('C13',))
        self.final_slots(st, v0, v, w)
        st.local = loc0
        st.g['fin'] = True
        return v0, v

    def final_slots(self, st, v0, v, w):
        """quarantine and slot status at an arbitrary slot of slab w"""
        ex = self.ex
        S = z3.Select
        O = lambda n, g, t: ex.oblige(st, n, g, t, group='Q')
        wz = w.z()
        loc0 = st.local
        kq = self.anyint('kq')
        if self.quar:
            if self.cf.QR:
                st.local += (z3.And(kq >= 0, *[f for n, t, f in self.inv_q(v0, 'qr', kq)]),)
                for nm, tg, f in self.inv_q(v, 'qr', kq):
                    O(nm, f, tg)
            if self.cf.QQ:
                st.local += (z3.And(kq >= 0, *[f for n, t, f in self.inv_q(v0, 'qq', kq)]),)
                for nm, tg, f in self.inv_q(v, 'qq', kq):
                    O(nm, f, tg)
        for b in range(self.nb):
            loc1 = st.local
            ws, nr = self.anybit('ws%d' % b)
            slot = ladd_raw(ws, 64 * b)
            st.local += (slot.z() < self.n,)
            for nm, tg, f in self.inv_slot(v0, wz, b, nr, slot):
                st.local += (f,)
            if self.quar:
                # the entry at its position satisfies the entry invariant
                c = self.code(wz, slot)
                p = S(v0.a['qpos'], c.i, c.s)
                if self.cf.QR:
                    st.local += (z3.And(*[f for n, t, f in self.inv_q(v0, 'qr', p)]),)
                if self.cf.QQ:
                    st.local += (z3.And(*[f for n, t, f in self.inv_q(v0, 'qq', p - self.capR)]),)
            for nm, tg, f in self.inv_slot(v, wz, b, nr, slot):
                O(nm, f, tg)
            self.slot_spec(st, v0, v, w, b, nr, slot)
            st.local = loc1
        st.local = loc0

    def slot_spec(self, st, v0, v, w, b, nr, slot):
        """what an operation may do to slot (w, 64 b + nr); set per unit"""
        f = st.g.get('slot_spec')
        if f:
            f(st, v0, v, w, b, nr, slot)

    def nbhd(self, st, v0, v, w):
        """slabs whose invariant may matter for slab w, with the groups of goals they matter for"""
        S = z3.Select
        a = v0.a
        js = [(w, None), (S(a['next'], w) - 1, ('S', 'P', 'E', 'F')), (S(a['prev'], w) - 1, ('P',)), (S(a['pe'], w) - 1, ('E', 'F')),
              (v0.s['hp'] - 1, ('P',)), (v0.s['he'] - 1, ('E',)), (v0.s['hf'] - 1, ('F',)), (v0.s['tl'] - 1, ('F',))]
        for i in v.touched:
            js += [(S(a['next'], i) - 1, ('P', 'E', 'F')), (S(a['prev'], i) - 1, ('P',))]
        return js

    def anyint(self, name):
        """arbitrary integer, the same one on all paths"""
        if name not in self.any:
            self.any[name] = z3.Int('%s!%d' % (name, next(self.ex.fresh_n)))
        return self.any[name]

    def anybit(self, name, hi=63):
        if name not in self.any:
            self.any[name] = self.bvatom(name, hi)
        return self.any[name]

    def inst(self, v0, j, groups=None):
        """the invariant of slab j (in the state v0) as premises, wanted for goals of some groups"""
        j = simp_i(j)
        if isinstance(j, int):
            if not 0 <= j < self.MMAX:
                return []
            j = z3.IntVal(j)
        key = (v0.a['stt'].get_id(), j.get_id())
        if key not in self.cache:
            self.cache[key] = ([(g, z3.Implies(z3.And(j >= 0, j < self.MMAX), f))
                                for g, f in self.grouped(self.inv(v0, j), self.pop_lemmas([z3.Select(x, j) for x in v0.a['bm']]))], j, v0.a['stt'])
        groups = groups or self.ALLG
        return [self.ex.group(groups if g == 'S' else [g] if g in groups else (), f) for g, f in self.cache[key][0]] + [self.ex.group(('S',), self.guard_def(j))]


def bit(x, nr):
    return z3.Extract(0, 0, z3.LShR(x, z3.ZeroExt(58, nr))) == 1


def zi(v):
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Lin):
        return v.z()
    return v


def simp_i(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return e


class Code:
    def __init__(self, i, s):
        self.i, self.s = i, s

    def eq(self, o):
        return z3.And(self.i == o.i, self.s == o.s)


class Opaque(Obj):
    """memory the verified function must not touch directly"""

    def load(self, ex, st, off, n):
        raise Unsupported('direct access to %s' % self.name)

    store = memset_to = memcpy_to = None


class PtrArr(Obj):
    """array of pointers inside a size class"""

    def __init__(self, sl, arr, field, codec):
        off, sz = sl.lay[field]
        super().__init__(field, sz)
        self.sl, self.arr, self.codec = sl, arr, codec

    def idx(self, ex, st, off):
        off = st.subst(off)
        if isinstance(off, int):
            if off % 8:
                raise Unsupported('unaligned access to ' + self.name)
            return off // 8
        q, r = ex.divmod_const(st, off, 8)
        if r != 0:
            raise Unsupported('unaligned access to ' + self.name)
        return q

    def load(self, ex, st, off, n):
        sl = self.sl
        sl.locked(st, self.name)
        k = zi(self.idx(ex, st, off))
        key = ('arrinv', self.arr, k.get_id())
        if key not in st.inst_norm:
            st.inst_norm[key] = True
            st.g['keep'] = st.g.get('keep', ()) + (k,)
            v0 = sl.view0(st)
            fs = sl.inv_fsq(v0, k) if self.arr == 'fsq' else sl.inv_q(v0, self.arr, k)
            for nm, tg, f in fs:
                st.assume(f)
            if self.arr == 'fsq':
                st.g['fsq_k'] = st.g.get('fsq_k', ()) + (k,)
        if self.codec[0] == 'md':
            r = sl.md_dec(st, z3.Select(st.arr[self.arr], k))
            if not isinstance(r, int):
                sl.touch(st, lscale_div(lsub_raw(r, sl.SI), sl.esz))
            return r
        return sl.slot_dec(st, self.arr, k)

    def store(self, ex, st, off, v, n):
        sl = self.sl
        sl.locked(st, self.name)
        k = zi(self.idx(ex, st, off))
        if self.codec[0] == 'md':
            e = zi(sl.md_enc(v))
            if not (isinstance(v, int) and v == 0):
                st.arr['pos'] = z3.Store(st.arr['pos'], e - 1, k)
        else:
            c = sl.slot_enc(st, v)
            e = c.i
            if not (isinstance(v, int) and v == 0):
                st.arr['qpos'] = z3.Store(st.arr['qpos'], c.i, c.s, k if self.arr == 'qr' else k + sl.capR)
            st.arr[self.arr + 's'] = z3.Store(st.arr[self.arr + 's'], k, c.s)
        st.arr[self.arr] = z3.Store(st.arr[self.arr], k, e)
        if self.arr == 'fsq':
            st.g['fsq_k'] = st.g.get('fsq_k', ()) + (k,)
        st.ev.append(('put', self.arr, k, e))


def lscale_div(v, d):
    if isinstance(v, int):
        return v // d
    return lmk(v.c // d, {i: k // d for i, k in v.t.items()})


class MdArr(Obj):
    """slab_info"""

    def __init__(self, sl):
        super().__init__('slab_info', None)
        self.sl = sl

    def split(self, ex, st, off, n):
        sl = self.sl
        off = st.subst(off)
        if isinstance(off, int):
            idx, fo = divmod(off, sl.esz)
        else:
            idx, fo = ex.divmod_const(st, off, sl.esz)
            if not isinstance(fo, int):
                fo = ex.concretize(st, fo)
        for f, v in sl.ml.items():
            if f and v[0] <= fo and fo + n <= v[0] + v[1]:
                return idx, f, fo - v[0]
        raise Unsupported('access to padding of slab metadata')

    def access(self, ex, st, idx, f):
        sl = self.sl
        sl.locked(st, 'slab metadata ' + f)
        sl.touch(st, idx)
        ok = ex.band(zi(idx) >= 0, zi(idx) < sl.cell(st, 'metadata_allocated'))
        if not ex.must(st, ok):
            ex.oblige(st, 'slab metadata is accessed only where it exists', ok, ('C04', 'C01', 'C12', 'C17'))
            st.assume(ok)

    def load(self, ex, st, off, n):
        sl = self.sl
        idx, f, fo = self.split(ex, st, off, n)
        self.access(ex, st, idx, f)
        i = zi(idx)
        A = st.arr
        if f in ('bitmap', 'quarantine_bitmap') and n == 8:
            b = fo // 8
            if b >= sl.nb:
                return 0
            r = simp(z3.Select(A[('bm' if f == 'bitmap' else 'qb') + str(b)], i))
            return r
        if f in ('next', 'prev'):
            return sl.md_dec(st, z3.Select(A[f], i))
        if f == 'canary_value' and n == 8:
            return simp(z3.Select(A['canary'], i))
        if f == 'count':
            e = simp_i(z3.Select(A['cnt'], i))
            if isinstance(e, int):
                return e
            key = ('cnt', e.get_id())
            if key not in st.inst_norm:
                c = ex.flin('count', 0, 65535)
                st.assume(c.z() == e)
                st.inst_norm[key] = c
                st.g['keep'] = st.g.get('keep', ()) + (e,)
            return Trunc(st.inst_norm[key], 16)
        raise Unsupported('load of slab metadata field %s' % f)

    def store(self, ex, st, off, v, n):
        sl = self.sl
        idx, f, fo = self.split(ex, st, off, n)
        self.access(ex, st, idx, f)
        i = zi(idx)
        A = st.arr
        st.ev.append(('md', f, i))
        if f in ('bitmap', 'quarantine_bitmap') and n == 8:
            b = fo // 8
            if b >= sl.nb:
                ex.oblige(st, 'no bit beyond the last slot is set', zw(v, 64) == 0, ('C01', 'C27'))
                return
            k = ('bm' if f == 'bitmap' else 'qb') + str(b)
            A[k] = z3.Store(A[k], i, zw(v, 64))
        elif f in ('next', 'prev'):
            e = sl.md_enc(v)
            A[f] = z3.Store(A[f], i, e)
            if f == 'next':
                sl.set_pred(st, v, i + 1)
        elif f == 'canary_value' and n == 8:
            A['canary'] = z3.Store(A['canary'], i, zw(v, 64))
        elif f == 'count':
            u = ex.untrunc(st, v)
            if u is None:
                raise Unsupported('slot count value')
            A['cnt'] = z3.Store(A['cnt'], i, zi(u))
        else:
            raise Unsupported('store to slab metadata field %s' % f)


class SlabMem(Obj):
    """user memory of the class region, as 64-bit words"""

    def __init__(self, sl):
        super().__init__('slab memory', sl.cf.CRS)
        self.sl = sl

    def where(self, ex, st, off):
        """slab index, offset in the slab"""
        off = st.subst(off)
        if isinstance(off, int):
            return divmod(off, self.sl.Z)
        return ex.divmod_const(st, off, self.sl.Z)

    def access(self, ex, st, off, n, what):
        sl = self.sl
        i, o = self.where(ex, st, off)
        acc = z3.Select(st.arr['acc'], zi(i))
        sl.touch(st, i)
        inside = z3.And(zi(o) >= 0, zi(o) + zi(n) <= sl.Z)
        ok = z3.And(acc, inside) if not ex.must(st, inside) else acc
        if not ex.must(st, ok):
            ex.oblige(st, '%s touches only accessible memory of one slab' % what, ok, ('C12', 'C01', 'C08', 'C07'))
        return i

    def word(self, ex, st, off, n, what):
        if n != 8:
            raise Unsupported('%d byte access to slab memory' % n)
        off = st.subst(off)
        if isinstance(off, int):
            if off % 8:
                raise Unsupported('unaligned access to slab memory')
            return z3.IntVal(off // 8)
        q, r = ex.divmod_const(st, off, 8)
        if r != 0:
            raise Unsupported('unaligned access to slab memory')
        return zi(q)

    def value(self, st, k, upto=None):
        """content of word k now"""
        log = st.g['memlog']
        e = z3.Select(st.g['A0']['mem'], k)
        for x in log if upto is None else log[:upto]:
            if x[0] == 'w':
                e = z3.If(k == x[1], x[2], e)
            else:
                e = z3.If(z3.And(k >= x[1], k < x[2]), x[3], e)
        return e

    def load(self, ex, st, off, n):
        self.access(ex, st, off, n, 'load')
        return simp(self.value(st, self.word(ex, st, off, n, 'load')))

    def store(self, ex, st, off, v, n):
        self.access(ex, st, off, n, 'store')
        st.g['memlog'] = st.g['memlog'] + [('w', self.word(ex, st, off, n, 'store'), zw(v, 64))]

    def memset_to(self, ex, st, off, v, n):
        self.access(ex, st, off, n, 'memset')
        if not isinstance(v, int) or not isinstance(n, int) or n % 8:
            raise Unsupported('memset of slab memory')
        k = self.word(ex, st, off, 8, 'memset')
        st.g['memlog'] = st.g['memlog'] + [('r', k, k + n // 8, z3.BitVecVal(v * 0x0101010101010101, 64))]


class Ro(Obj):
    """the globals that are read-only after initialisation"""

    def __init__(self, sl):
        lay = next(v for k, v in sl.m.layouts.items() if 'slab_region_start' in v)
        super().__init__('ro', 4096)
        self.sl, self.lay = sl, lay
        self.pkey = sl.ex.fresh('metadata_pkey', 32)

    def nokey(self):
        """no protection key is available: nothing can be sealed"""
        return self.pkey == 0xffffffff

    def load(self, ex, st, off, n):
        sl = self.sl
        off = st.subst(off)
        if isinstance(off, int):
            f, fo = next(((f, off - v[0]) for f, v in self.lay.items() if f and v[0] <= off < v[0] + v[1]), (None, 0))
        else:
            o, sz = self.lay['size_class_metadata']
            lo, hi = st.rng(off)
            if not (o <= lo and hi < o + sz):
                raise Unsupported('symbolic access to ro')
            f, fo = 'size_class_metadata', ladd_raw(off, -o)
        if f == 'slab_region_start':
            return sl.SRS
        if f == 'slab_region_end':
            ex.oblige(st, 'slab_region_end is read with acquire ordering', st.g.get('order') in ('acquire', 'seq_cst'), ('C21',))
            if st.g.get('uninit'):
                return 0
            return ladd_raw(sl.SRS, sl.total)
        if f == 'size_class_metadata':
            if isinstance(fo, int):
                return ladd_raw(sl.AS, fo // 8 * sl.X)
            q, r = ex.divmod_const(st, fo, 8)
            return ladd_raw(sl.AS, lscale(q, sl.X))
        if f == 'region_allocator':
            return sl.RA
        if f == 'metadata_pkey':
            return self.pkey
        if f == 'regions':
            return sl.regions[fo // 8]
        raise Unsupported('load of ro.%s' % f)

    def store(self, ex, st, off, v, n):
        raise Fault('store to read-only allocator data')


# ------------------------------------------------------------------------------------------------ contracts at call sites
def c_lock(ex, st, args, ins):
    sl = ex.slab
    d = lsub_raw(args[0], sl.SC)
    name = 'class' if isinstance(d, int) and 0 <= d < sl.lay['lock'][0] + sl.lay['lock'][1] else 'region' if is_region(ex, args[0]) else None
    if name is None:
        raise Unsupported('unknown lock %r' % (args[0],))
    ex.oblige(st, 'a lock is taken only when none is held', not st.g['held'], ('C17',))
    if sl.cf.seal and st.g.get('sealed') is True:
        ex.oblige(st, 'locks (metadata) are touched only while unsealed', sl.ro.nokey(), ('C24',))
    st.g['held'] = st.g['held'] | {name}
    if name == 'class':
        sl.lock(st)
    elif getattr(ex, 'on_region_lock', None):
        ex.on_region_lock(st)
    return 0


def c_pkey_set(ex, st, args, ins):
    sl = ex.slab
    ex.oblige(st, 'only the metadata key is changed', ex.cmp(st, 'eq', args[0], sl.ro.pkey, 32), ('C24',))
    a = args[1]
    if not isinstance(a, int):
        raise Unsupported('symbolic protection key rights')
    st.g['sealed'] = {0: False, 1: True, 3: True}.get(a, 'write only')
    return 0


def sealed_again(ex, st):
    return True if not ex.slab.cf.seal or st.g['sealed'] is True else ex.slab.ro.nokey()


def is_region(ex, p):
    d = lsub_raw(p, ex.slab.RA)
    return isinstance(d, int) and 0 <= d < 48


def c_unlock(ex, st, args, ins):
    sl = ex.slab
    d = lsub_raw(args[0], sl.SC)
    name = 'class' if isinstance(d, int) and 0 <= d < sl.lay['lock'][0] + sl.lay['lock'][1] else 'region' if is_region(ex, args[0]) else None
    if name is None:
        raise Unsupported('unknown lock %r' % (args[0],))
    if sl.cf.seal and st.g.get('sealed') is True:
        ex.oblige(st, 'locks (metadata) are touched only while unsealed', sl.ro.nokey(), ('C24',))
    ex.oblige(st, 'only a held lock is released', name in st.g['held'], ('C17',))
    st.g['held'] = st.g['held'] - {name}
    if name == 'class':
        f = st.g.get('at_unlock')
        if f:
            f(st)
    elif getattr(ex, 'on_region_unlock', None):
        ex.on_region_unlock(st)
    return 0


def rng_of(ex, st, p):
    """the random generator argument must be the class's own, used under its lock"""
    sl = ex.slab
    d = lsub_raw(p, sl.SC)
    if isinstance(d, int) and d == sl.lay['rng'][0]:
        sl.locked(st, 'rng')
        return
    if getattr(ex, 'rng_ok', None) and ex.rng_ok(st, p):
        return
    raise Unsupported('random generator %r' % (p,))


def c_rand_u64(ex, st, args, ins):
    rng_of(ex, st, args[0])
    r = ex.fresh('random', 64)
    st.g['rand'] = st.g.get('rand', ()) + (r,)
    return r


def uniform(bits):
    def f(ex, st, args, ins):
        rng_of(ex, st, args[0])
        b = args[1]
        if isinstance(b, Trunc):
            b = ex.untrunc(st, b)
        if not isinstance(b, int):
            b = st.subst(b)
        if isinstance(b, int):
            ex.oblige(st, 'random bound is not zero', b != 0, ('C20', 'C27'))
            if b == 1:
                st.ev.append(('draw', 0, b))
                return 0
            if b <= 64:
                r, nr = ex.slab.bvatom('draw', b - 1)
                st.ev.append(('draw', r, b))
                return Trunc(r, 16) if bits == 16 else r
            if b <= 256 and getattr(ex, 'split_draw', False):
                alts = []
                for k in range((b - 1) // 64 + 1):
                    t = st.copy()
                    r, nr = ex.slab.bvatom('draw', min(63, b - 1 - 64 * k))
                    r = ladd_raw(r, 64 * k)
                    t.ev.append(('draw', r, b))
                    alts.append((t, Trunc(r, 16) if bits == 16 else r))
                return ('alts', alts)
            r = ex.flin('draw', 0, b - 1)
        else:
            ex.oblige(st, 'random bound is not zero', ex.bnot(ex.eq0(st, b)), ('C20',))
            r = ex.flin('draw', 0, M64)
            st.assume(r.z() < b.z())
        st.ev.append(('draw', r, b))
        return Trunc(r, 16) if bits == 16 else r
    return f


def c_divide(field, attr):
    """libdivide: quotient by the divisor the structure was generated for"""
    def f(ex, st, args, ins):
        sl = ex.slab
        d = lsub_raw(args[1], sl.SC)
        x = args[0]
        if isinstance(x, Trunc):
            x = ex.untrunc(st, x)
        if not (isinstance(d, int) and d == sl.lay[field][0]):
            raise Unsupported('division by an unknown divisor')
        q = ex.divmod_const(st, x, getattr(sl, attr))[0]
        if field == 'size_divisor':
            return Trunc(q, 32) if not isinstance(q, int) else q
        return q
    return f


def c_get_free_slot(ex, st, args, ins):
    """returns a free slot below the number of slots; the slab must have one"""
    sl = ex.slab
    rng_of(ex, st, args[0])
    n, p = args[1], args[2]
    ex.oblige(st, 'the number of slots is the one of the class', ex.cmp(st, 'eq', n, sl.n, 64), ('C27', 'C01'))
    idx, f, fo = sl.md.split(ex, st, lsub_raw(p, sl.SI), 8)
    sl.md.access(ex, st, idx, 'bitmap')
    i = zi(idx)
    ex.oblige(st, 'a slot is requested only from a slab with a free slot', z3.Select(st.arr['cnt'], i) < sl.n, ('C27', 'C13', 'C01'))
    alts = []
    for b in range(sl.nb):
        t = st.copy() if b < sl.nb - 1 else st
        r, nr = sl.bvatom('slot', min(63, sl.n - 64 * b - 1))
        slot = ladd_raw(r, 64 * b)
        t.assume(z3.Not(bit(z3.Select(t.arr['bm%d' % b], i), nr)))
        t.g['slots'] = t.g['slots'] + [(idx, b, nr)]
        t.g['slot_choice'] = (idx, slot, b, nr)
        alts.append((t, slot))
    return ('alts', alts)


def c_waf(ex, st, args, ins):
    """write_after_free_check(p, n): returns only if all words of the range are zero"""
    sl = ex.slab
    p, n = args
    if not sl.cf.waf:
        return None
    off = lsub_raw(p, sl.CS)
    if not isinstance(n, int) or n % 8:
        raise Unsupported('write_after_free_check size')
    sl.mem.access(ex, st, off, n, 'write-after-free check')
    k = sl.mem.word(ex, st, off, 8, '')
    bad = st.copy()
    kk = z3.Int('k!%d' % next(ex.fresh_n))
    bad.assume(z3.And(kk >= k, kk < k + n // 8, sl.mem.value(bad, kk) != 0))
    bad.ev.append(('waf', p, n))
    st.ev.append(('waf_ok', p, n))
    st.g['memlog'] = st.g['memlog'] + [('r', k, k + n // 8, z3.BitVecVal(0, 64))]
    return ('alts', [(st, None), (bad, ('end', ('fatal', 'detected write after free')))])


class SlabWorld(World):
    """mapping operations on whole slabs"""

    def op(self, ex, st, kind, p, n, ok, **kw):
        sl = ex.slab
        st.ev.append((kind, p, n, ok))
        d = lsub_raw(p, sl.CS)
        if kind == 'rw' and not isinstance(d, int) and any(ATOMS[i].obj for i in d.t):
            # slab metadata being made accessible
            d = lsub_raw(p, sl.SI)
            ex.oblige(st, 'slab metadata is extended from its start', isinstance(d, int) and d == 0, ('C12', 'C01', 'C13'))
            if ok:
                st.g['md_rw'] = n
            return
        q, r = ex.divmod_const(st, d, sl.Z) if not isinstance(d, int) else divmod(d, sl.Z)
        whole = ex.band(ex.cmp(st, 'eq', r, 0, 64) if not isinstance(r, int) else r == 0, ex.cmp(st, 'eq', n, sl.Z, 64))
        if kind in ('rw', 'map_fixed', 'ro'):
            ex.oblige(st, 'protection changes cover exactly one whole slab', whole, ('C12', 'C13', 'C01'))
        sl.touch(st, q)
        i = zi(q)
        inr = sl.in_range(st, q)
        if inr is not True:
            ex.oblige(st, 'mapping operations stay inside the class region', inr, ('C12', 'C21', 'C01'))
        if kind == 'rw':
            if ok:
                st.arr['acc'] = z3.Store(st.arr['acc'], i, z3.BoolVal(True))
        elif kind == 'map_fixed':
            if ok:
                ex.oblige(st, 'only a slab without used slots is replaced by fresh memory', z3.Select(st.arr['cnt'], i) == 0, ('C13', 'C01', 'C12'))
                st.arr['acc'] = z3.Store(st.arr['acc'], i, z3.BoolVal(False))
                st.g['mapped'] = st.g['mapped'] + [q]
                st.g['memlog'] = st.g['memlog'] + [('r', i * (sl.Z // 8), (i + 1) * (sl.Z // 8), z3.BitVecVal(0, 64))]
            else:
                st.g['mapfail'] = st.g['mapfail'] + [q]
        elif kind == 'purge':
            # contents discarded: zero or unchanged; allowed only on memory without live slots
            st.g['purged'] = st.g['purged'] + [(d, n, ok)]
            if ok:
                lo, hi = ex.divmod_const(st, d, 8)[0], ex.divmod_const(st, ladd_raw(d, n), 8)[0]
                st.g['memlog'] = st.g['memlog'] + [('r', zi(lo), zi(hi), z3.BitVecVal(0, 64))]
        else:
            ex.oblige(st, 'no other mapping operation is applied to slab memory', False, ('C12', 'C01'))


CONTRACTS = dict(MEMORY)
CONTRACTS.update({
    'pthread_mutex_lock': c_lock, 'pthread_mutex_unlock': c_unlock,
    'get_random_u64': c_rand_u64, 'get_random_u16_uniform': uniform(16), 'get_random_u64_uniform': uniform(64),
    'libdivide_u32_do': c_divide('size_divisor', 'S'), 'libdivide_u64_do': c_divide('slab_size_divisor', 'Z'),
    'pkey_set': c_pkey_set, 'get_free_slot': c_get_free_slot, 'write_after_free_check': c_waf,
})
