"""mallinfo2 and malloc_info: the reported totals.

The loops over arenas and classes have compile-time constant bounds and are executed in full; the statistics of every
class are arbitrary.  stdio may call the allocator: it is called without locks and leaves the metadata sealed."""
import re
import z3
from .val import *
from .exec import *
from .units import unit
from .leaf import start
from . import kern, val
from .kern import zint, MEMORY, get_errno
from .initunits import Lay, const_off, pkey_contract

T = ('C23',)
TOP = 1 << 60


class Stats:
    """the allocator's statistics as these functions may see them: each under its own lock, while unsealed"""

    def __init__(self, ctx, fn, bounds=True):
        val.set_mode(True)
        self.L = L = Lay(ctx.m)
        self.ex = ex = ctx.ex(MEMORY)
        ex.faults_tags = ('C23', 'C17')
        ex.max_unroll = 4000
        self.AS = AS = CellObj('allocator_state', L.as_[''], init=lambda st, off, n: self.value(st, off, n))
        self.base = base = ex.addobj(AS)
        self.key = key = ex.fresh('metadata_pkey', 32)
        self.nokey = key == 0xffffffff
        self.ra = L.as_['region_allocator'][0]
        self.sc = {(a, k): L.as_['size_class_metadata'][0] + (a * L.K + k) * L.sc[''] for a, k in L.classes()}
        self.locks = {self.ra + L.ra['lock'][0]: 'large'}
        self.locks.update({o + L.sc['lock'][0]: c for c, o in self.sc.items()})
        self.where = {}
        self.where[self.ra + L.ra['allocated'][0]] = ('large', 'allocated')
        for c, o in self.sc.items():
            for f in ('nmalloc', 'ndalloc', 'allocated', 'slab_allocated'):
                self.where[o + L.sc[f][0]] = (c, f)
        k = len(ex.axioms)
        self.vals = {w: ex.flin('%s %s' % (w[1], w[0]), 0, TOP if 'nmalloc' not in w and 'ndalloc' not in w else M64) for w in self.where.values()}
        if not bounds:
            del ex.axioms[k:]        # not needed
        AS.onload, AS.onstore = self.onload, self.onstore

        def roinit(st, off, n):
            for f, v in L.ro.items():
                if f and v[0] <= off < v[0] + v[1]:
                    if f == 'slab_region_end':
                        ex.oblige(st, 'initialisation is tested with acquire ordering', st.g.get('order') in ('acquire', 'seq_cst'), ('C21',))
                        return self.E if st.g['inited'] else 0
                    ex.oblige(st, 'allocator data is used only after initialisation', st.g['inited'], ('C21', 'C23'))
                    if f == 'region_allocator':
                        return ladd(base, self.ra)
                    if f == 'size_class_metadata':
                        return ladd(base, self.sc[(off - v[0]) // 8, 0])
                    if f == 'metadata_pkey':
                        return key
            raise Unsupported('access to offset %d of ro' % off)
        self.E = ex.newbase('slab_region_end', lo=1 << 20, hi=1 << 47)
        ro = CellObj('ro', 4096, init=roinit, const=True)
        ex.addobj(ro)
        ex.globals['ro'] = ro.base
        ex.contracts.update({'pthread_mutex_lock': self.lock, 'pthread_mutex_unlock': self.unlock, 'pkey_set': pkey_contract(ex, lambda: key)})
        self.atlock = None

    def value(self, st, off, n):
        w = self.where.get(off)
        if w is None or n != 8:
            raise Unsupported('access to offset %d of the allocator state' % off)
        return self.vals[w]

    def unsealed(self, st):
        if self.L.cf.seal and st.g['sealed'] is not False:
            self.ex.oblige(st, 'metadata is accessed only while it is unsealed', self.nokey, ('C24',))

    def onload(self, st, off, n):
        self.unsealed(st)
        w = self.where.get(off)
        if w:
            self.ex.oblige(st, 'statistics are read only while their lock is held', st.g['held'] == w[0], ('C17', 'C23'))

    def onstore(self, st, off, n, v):
        self.ex.oblige(st, 'statistics are not changed by reading them', False, T)

    def lock(self, ex, st, args, ins):
        o, off = const_off(ex, st, args[0])
        self.unsealed(st)
        ok = o is self.AS and off in self.locks and st.g['held'] is None
        ex.oblige(st, 'one lock of the allocator is taken at a time', ok, ('C17', 'C23'))
        st.g['held'] = self.locks.get(off) if o is self.AS else None
        if self.atlock:
            return self.atlock(ex, st, st.g['held'])
        return 0

    def unlock(self, ex, st, args, ins):
        o, off = const_off(ex, st, args[0])
        self.unsealed(st)
        ex.oblige(st, 'the lock that is held is released', o is self.AS and off in self.locks and st.g['held'] == self.locks[off], ('C17', 'C23'))
        st.g['held'] = None
        return 0

    def begin(self, ctx, fn, args, inited):
        st = start(ctx, self.ex, fn, args)
        st.g.update(inited=inited, held=None, sealed=True if self.L.cf.seal else None)
        return st

    def end(self, st):
        ex = self.ex
        ex.oblige(st, 'no lock is held at the end', st.g['held'] is None, ('C17', 'C23'))
        if self.L.cf.seal and st.g['sealed'] is not True:
            ex.oblige(st, 'metadata is sealed again', self.nokey, ('C24',))


@unit('h_mallinfo2', ('C23', 'C17', 'C24', 'C21'), cfgs=('full', 'alt'))
def mallinfo2(ctx):
    """the totals are the sums over the large allocator and every class"""
    for inited in (False, True):
        S = Stats(ctx, 'mallinfo2')
        ex = S.ex
        lay = ctx.m.layouts['mallinfo2']
        out_ = CellObj('result', lay[''])
        st = S.begin(ctx, 'mallinfo2', [ex.addobj(out_)], inited)

        def on_end(st, out, inited=inited):
            O = lambda nm, f: ex.oblige(st, nm, f, T)
            O('always returns', out[0] == 'ret')
            if out[0] != 'ret':
                return
            S.end(st)
            sl = al = 0
            if inited:
                for w, v in S.vals.items():
                    if w[1] == 'slab_allocated' or w[0] == 'large':
                        sl = ladd_raw(v, sl)
                    if w[1] == 'allocated':
                        al = ladd_raw(v, al)
            f = lambda n: ex.cload(st, out_, lay[n][0], 8)
            E = lambda nm, a, b: O(nm, True if lsub(a, b) == 0 else zint(ex.norm(st, a)) == zint(b))
            E('hblkhd is the sum of the bytes of slabs in use and of large blocks', f('hblkhd'), red(sl))
            E('uordblks is the sum of the bytes of live blocks', f('uordblks'), red(al))
            E('fordblks is the difference', f('fordblks'), red(lsub_raw(sl, al)))
            E('usmblks is the total', f('usmblks'), red(sl))
            for n in ('arena', 'ordblks', 'smblks', 'hblks', 'fsmblks', 'keepcost'):
                E('unused totals are zero', f(n), 0)
        ex.run(st, on_end)


def red(v):
    return v


TAGS = re.compile(r'(\w+)(?:="|>)%(?:u|lu|zu|llu)')


@unit('h_malloc_info', ('C23', 'C17', 'C24', 'C21'), cfgs=('full', 'alt'))
def malloc_info(ctx):
    """the counters of every class that was ever used are printed, read under its lock, and the total of large blocks"""
    for inited, options in ((False, 0), (True, 0), (True, 1)):
        S = Stats(ctx, 'malloc_info', False)
        ex, L = S.ex, S.L
        FP = ex.newbase('fp')
        ex.addobj(CellObj('FILE', 216))
        merged = {}
        opt = 0
        if options:
            opt = ex.fresh('options', 32)

        def check(st):
            """the class whose counters were read last has been printed, unless all of them are zero"""
            c = st.g['cur']
            if c is not None and c != 'large':
                nz = z3.Or(*[zint(S.vals[c, f]) != 0 for f in ('nmalloc', 'ndalloc', 'slab_allocated', 'allocated')])
                ex.oblige(st, 'a class that was used is printed', st.g['printed'] or z3.Not(nz), T)
            st.g['cur'] = None

        def atlock(ex, st, c):
            check(st)
            if c == 'large':
                st.g['cur'] = c
                return 0
            g = st.g
            if g['base'] is None:
                g['base'] = (list(st.pc), dict(st.bnd), dict(st.alias), st.inst, dict(st.inst_norm))
            ex.flush(st.copy())
            st.obs = []
            # all paths that arrive here are continued once, with what they have in common
            pc, bnd, alias, inst, instn = g['base']
            st.pc, st.bnd, st.alias, st.inst, st.inst_norm = list(pc), dict(bnd), dict(alias), inst, dict(instn)
            reload_ = {S.AS.id} | {o.id for l in ex.objs.values() for _, o in l if getattr(o, 'const', False)}
            for i in [i for i in st.cells if i in reload_]:
                st.cells.pop(i)      # constants and unchanged initial contents: loaded again when needed
            for fr in st.frames:
                # registers whose definition does not dominate this point are defined again before any use
                fr.f.loops()
                ok = {p[0] for p in fr.f.params}
                for b in fr.f.dom[fr.b]:
                    B = fr.f.blocks[b]
                    ok.update(x.dst for x in B.phis)
                    ok.update(x.dst for x in (B.ins[:fr.i] if b == fr.b else B.ins) if x.dst)
                for r in [r for r, v in fr.regs.items() if r not in ok or (z3.is_expr(v) and str(v).startswith('printed!'))]:
                    del fr.regs[r]
            st.g['read'] = st.g['read'] | {c}
            k = (c, st.g['sealed'], st.g['heap'], len(st.frames), tuple(b.get_id() for b in st.pc), st.g['read'],
                 tuple((fr.f.name, fr.b, fr.i, tuple(sorted((r, repr(v)) for r, v in fr.regs.items()))) for fr in st.frames),
                 tuple(sorted((i, repr(sorted(x.items()))) for i, x in st.cells.items() if i != kern.errno_obj(ex).id)))
            if k in merged:
                return ('end', ('merged', None))
            merged[k] = True
            g['cur'], g['printed'] = c, False
            return 0
        S.atlock = atlock

        def stdio(st):
            ex.oblige(st, 'stdio is called without locks: it may call the allocator', st.g['held'] is None, ('C17', 'C23'))
            if L.cf.seal:
                st.g['sealed'] = True
            kern.havoc_errno(ex, st)

        def text(st, s, args):
            if s is None:
                raise Unsupported('text that is not constant')
            names = TAGS.findall(s)
            if s.count('%') != len(names) or len(names) != len(args):
                raise Unsupported('format %r' % s)
            d = dict(zip(names, args))
            cur = st.g['cur']
            if '<malloc' in s or '</malloc' in s or '</heap' in s or '<heap' in s:
                if '<bin' not in s:
                    check(st)
            if '<bin' in s:
                ok = cur not in (None, 'large')
                ex.oblige(st, 'counters are printed after they have been read', ok, T)
                if ok:
                    eq = lambda a, b: ex.cmp(st, 'eq', a, b, 64 if isinstance(a, (Lin, int)) and isinstance(b, Lin) else 32)
                    ex.oblige(st, 'the number and size of the class are printed', ex.band(eq(d.get('bin nr', d.get('nr')), cur[1]), eq(d.get('size'), L.cf.sizes[cur[1]])), T)
                    for f in ('nmalloc', 'ndalloc', 'slab_allocated', 'allocated'):
                        ex.oblige(st, 'the %s printed is that of the class' % f, f in d and ex.cmp(st, 'eq', d[f], S.vals[cur, f], 64), T)
                    ex.oblige(st, 'the class is printed in its arena, once', st.g['heap'] == cur[0] and not st.g['printed'], T)
                    st.g['printed'] = True
            elif 'allocated_large' in s:
                ex.oblige(st, 'the total of large blocks is printed once', not st.g.get('large'), T)
                ex.oblige(st, 'the total of large blocks is the allocated bytes', ex.cmp(st, 'eq', d['allocated_large'], S.vals['large', 'allocated'], 64), T)
                st.g['large'] = True
            elif '<heap' in s:
                st.g['heap'] = d.get('nr')
            elif names:
                raise Unsupported('format %r' % s)
            stdio(st)
            return ex.fresh('printed', 32)

        def fputs(ex, st, args, ins):
            ex.oblige(st, 'output goes to the given stream', ex.cmp(st, 'eq', args[1], FP, 64), T)
            return text(st, ex.cstr(st, args[0]), [])

        def fprintf(ex, st, args, ins):
            ex.oblige(st, 'output goes to the given stream', ex.cmp(st, 'eq', args[0], FP, 64), T)
            return text(st, ex.cstr(st, args[1]), args[2:])

        def fwrite(ex, st, args, ins):
            ex.oblige(st, 'output goes to the given stream', ex.cmp(st, 'eq', args[3], FP, 64), T)
            return ladd(0, 0) if text(st, ex.cstr(st, args[0]), []) is None else args[2]
        ex.contracts.update({'fputs': fputs, 'fprintf': fprintf, 'fwrite': fwrite})
        st = S.begin(ctx, 'malloc_info', [opt, FP], inited)
        st.g.update(base=None, cur=None, printed=False, heap=None, read=frozenset())
        if options:
            st.assume(opt != 0)

        def on_end(st, out, inited=inited, options=options):
            O = lambda nm, f: ex.oblige(st, nm, f, T)
            if out[0] == 'merged':
                return
            O('always returns', out[0] == 'ret')
            if out[0] != 'ret':
                return
            S.end(st)
            if options:
                O('options other than 0 are refused with EINVAL', ex.band(ex.cmp(st, 'eq', out[1], 0xffffffff, 32), ex.cmp(st, 'eq', get_errno(ex, st), 22, 32)))
                return
            check(st)
            O('success is reported', ex.cmp(st, 'eq', out[1], 0, 32))
            if inited:
                O('every class is reported', len(st.g['read']) == L.N * L.K)
                O('the total of large blocks is reported', bool(st.g.get('large')))
        ex.run(st, on_end)
