"""malloc_trim, for one class (arbitrary state) of the last arena while all other classes are empty.

The loops over arenas and classes are executed in full (constant bounds): every class is visited exactly once under its lock.
The loop over the cached empty slabs is verified for an arbitrary iteration: the class, with the slab the loop has reached as the
head of its list of empty slabs, satisfies the invariant of the class at every iteration.  The flag "something was trimmed" is
arbitrary at every loop header, but for being the truth: so nothing depends on what was trimmed before."""
import z3
from .val import *
from .exec import *
from .units import unit
from .kern import get_errno
from .loops import LoopRule
from . import slab as SL, kern
from .slab import SlabWorld, zi, FREEQ, FREEF
from .smallunits import setup, api, present, puts, draws, any_eq, stats_spec, seed_counters, SMALL_CFGS

S_ = z3.Select
T = ('C13',)


class TrimWorld(SlabWorld):
    def op(self, ex, st, kind, p, n, ok, **kw):
        sl = ex.slab
        if kind == 'purge':
            d = lsub_raw(p, sl.CS)
            st.ev.append((kind, p, n, ok))
            q, r = ex.divmod_const(st, d, sl.Z) if not isinstance(d, int) else divmod(d, sl.Z)
            s, e = ex.divmod_const(st, r, sl.S) if not isinstance(r, int) else divmod(r, sl.S)
            O = lambda nm, f: ex.oblige(st, nm, f, ('C01', 'C09', 'C13'))
            O('only quarantined slots are purged', ex.band(ex.cmp(st, 'eq', e, 0, 64), ex.cmp(st, 'ule', n, sl.S, 64)))
            sl.touch(st, q)
            v0 = sl.view0(st)
            c = zi(s)
            alts = []
            for b in range(sl.nb):
                for t in range(64 * b, min(64 * b + 64, sl.n)):
                    alts.append(z3.And(c == t, z3.Extract(t - 64 * b, t - 64 * b, S_(v0.a['qb'][b], zi(q))) == 1))
            O('only slots waiting in the quarantine are purged', z3.Or(*alts) if sl.quar else False)
            return
        if kind == 'map_fixed' and ok:
            st.g['trimmed'] = z3.BoolVal(True)
        super().op(ex, st, kind, p, n, ok, **kw)


def close(ex, sl, st):
    """one step is complete: the class satisfies its invariant again, and what changed is what may change"""
    O = lambda n, g, t: ex.oblige(st, n, g, t)
    v0, v = sl.final(st)
    loc0 = st.local
    w = sl.anyint('w2')
    st.local = loc0 + (z3.And(w >= 0, w < sl.MMAX),) + tuple(sl.inst(v0, w)) + tuple(sum([sl.inst(v0, x) for x in v.touched], []))
    m = st.g['mapped']
    O('a slab enters the delay array exactly when it is purged', len(puts(st, 'fsq')) == len(m) and len(m) <= 1, T)
    for e in puts(st, 'fsq'):
        O('the delay array entry replaced is uniformly random', any_eq(draws(st, sl.cf.FQ), e[2]), T)
        if m:
            O('the purged slab enters the delay array', e[3] == zi(m[0]) + 1, T)
    for x in m:
        O('only cached empty slabs are purged', v0.stt(zi(x)) == SL.EMPTY, ('C13', 'C01', 'C12'))
    O('slabs never skip the delay array', z3.Implies(v.stt(w) == FREEF, z3.Or(v0.stt(w) == FREEF, v0.stt(w) == FREEQ)), T)
    kw = sl.anyint('kw')
    inm = z3.Or(*[z3.And(kw >= zi(x) * (sl.Z // 8), kw < (zi(x) + 1) * (sl.Z // 8)) for x in m]) if m else z3.BoolVal(False)
    O('no memory is changed, except in purged slabs', z3.Or(inm, S_(v0.a['mem'], kw) == sl.mem.value(st, kw)), ('C01', 'C13'))
    st.local = loc0
    stats_spec(ex, st, sl, 0, z3.IntVal(-sl.Z * len(m)), 0, 0)
    return v0, v


def quick_trim(p, cfg, case):
    return case['k'] in ((10,) if cfg != 'default' else (3, 10, 34, 40))


TP = ('C13', 'C12', 'C23', 'C17', 'C24', 'C01', 'C21', 'C15')


@unit('h_malloc_trim[{k}]', TP, cfgs=SMALL_CFGS, cases=[{'k': k} for k in range(1, 49)], cost=4, quick=quick_trim)
def malloc_trim(ctx, k):
    """every cached empty slab of every class is purged, until the kernel refuses; nothing else changes"""
    if not present(k, ctx.u.cfg):
        return ctx.skip()
    for uninit in (False, True):
        one(ctx, k, uninit)


def one(ctx, k, uninit):
    cf = SL.Cfg(ctx.m)
    A = cf.N - 1
    ex, sl, st = setup(ctx, k, 'h_malloc_trim', arena=A)
    fname = api(ctx.m, 'h_malloc_trim')
    ex.world = TrimWorld()
    ex.parpaths = False
    seed_counters(ex, sl, st)
    st.g.update(sealed=True, uninit=uninit, trimmed=z3.BoolVal(False), visited=frozenset())
    st.g['slot_spec'] = same_slots(ex, sl)
    K = len(cf.sizes)
    others = {}
    size = sl.lay['']
    for a in range(cf.N):
        for j in range(K):
            if (a, j) != (A, k):
                o = CellObj('class(%d,%d)' % (a, j), size)
                o.init = other_init(ex, sl)
                o.onload = other_access(ex, sl, (a, j), False)
                o.onstore = other_access(ex, sl, (a, j), True)
                ex.place(sl.AS, a * sl.X + j * size, o)
                others[a, j] = o

    def which(p):
        d = lsub_raw(p, sl.AS)
        if not isinstance(d, int) or not 0 <= d < cf.N * sl.X:
            raise Unsupported('unknown lock %r' % (p,))
        a, r = divmod(d, sl.X)
        j, r = divmod(r, size)
        if not sl.lay['lock'][0] <= r < sl.lay['lock'][0] + sl.lay['lock'][1]:
            raise Unsupported('unknown lock %r' % (p,))
        return a, j

    def lock(ex, st, args, ins):
        c = which(args[0])
        ex.oblige(st, 'no class is visited twice', c not in st.g['visited'], T)
        st.g['visited'] = st.g['visited'] | {c}
        if c == (A, k):
            return SL.c_lock(ex, st, args, ins)
        ex.oblige(st, 'a lock is taken only when none is held', not st.g['held'], ('C17',))
        unsealed(ex, sl, st)
        st.g['held'] = frozenset([c])
        return 0

    def unlock(ex, st, args, ins):
        c = which(args[0])
        if c == (A, k):
            return SL.c_unlock(ex, st, args, ins)
        ex.oblige(st, 'only a held lock is released', c in st.g['held'], ('C17',))
        unsealed(ex, sl, st)
        st.g['held'] = frozenset()
        return 0
    ex.contracts.update({'pthread_mutex_lock': lock, 'pthread_mutex_unlock': unlock})

    def at_unlock(st):
        O = lambda n, g, t: ex.oblige(st, n, g, t)
        fail = st.g['mapfail']
        v0, v = close(ex, sl, st)
        O('every cached empty slab is purged, until the kernel refuses', z3.Or(v.s['he'] == 0, z3.BoolVal(bool(fail))), T)
        st.g['unlocked'] = st.g.get('unlocked', 0) + 1
    st.g['at_unlock'] = at_unlock
    rules, seen, keepcell = {}, set(), {}
    eoff, en = sl.lay['empty_slabs']

    def bools(ex, st, fr, blk):
        out = []
        for p in blk.phis:
            if p.ty.k != 'ptr' and p.ty.w in (1, 8):
                out.append(p)
        return out

    def truth(v, w):
        if isinstance(v, int):
            return z3.BoolVal(bool(v))
        if w == 1:
            return zbool(v)
        if isinstance(v, Trunc):
            return v.l.z() != 0
        return v != 0

    def flag(ex, st, fr, blk):
        """the flag at a loop header is the truth; then it is arbitrary"""
        bs = bools(ex, st, fr, blk)
        if len(bs) > 1:
            raise Unsupported('several flags in malloc_trim')
        for p in bs:
            ex.oblige(st, 'the result says whether anything was purged', truth(fr.regs[p.dst], p.ty.w) == st.g['trimmed'], T)
            b = ex.fbool('trimmed')
            st.g['trimmed'] = b
            fr.regs[p.dst] = b if p.ty.w == 1 else z3.If(b, z3.BitVecVal(1, p.ty.w), z3.BitVecVal(0, p.ty.w))

    def setcell(st, e):
        st.cells.setdefault(sl.sc.id, {})[eoff] = (en, e)

    def head(ex, st, fr, it, w):
        """an arbitrary iteration: an arbitrary state of the class whose first empty slab is the loop's"""
        sl.begin(st)
        seed_counters(ex, sl, st)
        st.ev = []
        out = []
        e = st.g['S0']['he']
        try:
            alts = [(None, sl.md_dec(st, e))]
        except ForkOn as f:
            alts = f.conds
        for c, g in alts:
            s = st.copy()
            if c is not None:
                if not ex.feasible(s, c):
                    continue
                s.assume(c)
                g(s)
                val = sl.md_dec(s, e)
            else:
                val = g
            f = s.frames[-1]
            if it is not None:
                f.regs[it] = val
                if not keepcell.get(fr.b):
                    setcell(s, ladd_raw(sl.SI, lscale(ex.flin('stale', 0, sl.MMAX - 1), sl.esz)))
            if not isinstance(val, int):
                sl.touch(s, SL.lscale_div(lsub_raw(val, sl.SI), sl.esz))
            out.append(s)
        return out

    def listloop(ex, st, fr, src, blk, ptrs):
        h = fr.b
        loop = fr.f.loops()[h]
        it = ptrs[0].dst if ptrs else None
        flag(ex, st, fr, blk)
        key = '#list' + h
        mode = fr.regs.get(key) if src in loop else None
        now = fr.regs[it] if it else None
        c = st.cells.get(sl.sc.id, {}).get(eoff)
        cur = c[1] if c else None
        if it is not None:
            same = cur is not None and not isinstance(lsub_raw(cur, now) if not isinstance(cur, int) or not isinstance(now, int) else cur - now, Lin) and (lsub_raw(cur, now) == 0)
            if mode == 'probe':
                st.g['pending_end'] = ('back', same)
                return None
        if src in loop:
            if it is not None:
                setcell(st, now)
                sl.set_pred(st, now, 0)
            close(ex, sl, st)
            ex.flush(st)
            st.g['pending_end'] = ('cut', None)
            return None
        if it is not None and cur is None:
            setcell(st, now)
        elif it is not None:
            setcell(st, now)
            sl.set_pred(st, now, 0)
        close(ex, sl, st)
        ex.flush(st)
        for p in blk.phis:
            if p.dst != it and p not in bools(ex, st, fr, blk):
                raise Unsupported('loop-carried value in the loop over empty slabs')
        if it is not None and h not in keepcell:
            # is the list head kept up to date inside the loop?
            keepcell[h] = True
            ends = []
            for s in head(ex, st.copy(), fr, it, None):
                s.frames[-1].regs[key] = 'probe'
                sub = []
                saved = ex.submode
                ex.submode = (sub, len(s.frames), loop)
                try:
                    ex.run(s, None)
                finally:
                    ex.submode = saved
                ends += [o for x, o in sub if o[0] == 'back']
            keepcell[h] = bool(ends) and all(o[1] for o in ends)
        out = head(ex, st, fr, it, None)
        for s in out:
            s.frames[-1].regs[key] = 'real'
        return ('fork', out)

    def hook(ex, st, fr, src):
        blk = fr.f.blocks[fr.b]
        ptrs = [p for p in blk.phis if p.ty.k == 'ptr']
        target = 'class' in st.g['held']
        if fr.f.name == fname and target:
            ints = [p for p in blk.phis if p.ty.k != 'ptr' and p.ty.w in (32, 64)]
            if len(ptrs) <= 1 and not ints:
                return listloop(ex, st, fr, src, blk, ptrs)
            r = rules.setdefault(fr.b, LoopRule(tags=('C13', 'C17', 'C01'), ghosts=('purged', 'memlog', 'inst', 'keep', 'slots', 'trimmed')))
            return r(ex, st, fr, src)
        if fr.f.name != fname:
            raise Unsupported('loop in ' + fr.f.name)
        if st.g['held']:
            return None
        flag(ex, st, fr, blk)
        ex.flush(st)
        bs = bools(ex, st, fr, blk)
        kk = [fr.b, st.g['visited'], st.g['sealed']]
        for p in blk.phis:
            if p not in bs:
                v = fr.regs[p.dst]
                c = v.l if isinstance(v, Trunc) else v
                kk.append((p.dst, repr(c)))
        kk = tuple(kk)
        if kk in seen:
            st.g['pending_end'] = ('merged', None)
            return None
        seen.add(kk)
        return None
    ex.loops['*'] = hook
    ex.push(st, fname, [0])

    def on_end(st, out):
        if out[0] in ('merged', 'cut'):
            return
        O = lambda n, g, t: ex.oblige(st, n, g, t)
        O('always returns', out[0] == 'ret', ('C13', 'C15'))
        if out[0] != 'ret':
            return
        O('no lock is held at the end', not st.g['held'], ('C17',))
        O('metadata is sealed again', SL.sealed_again(ex, st), ('C24',))
        if uninit:
            O('before initialisation nothing is done', not st.g['visited'], T + ('C21',))
        else:
            want = {(a, j) for a in range(cf.N) for j in range(1, K)}
            O('every class is visited', st.g['visited'] >= want, T)
        r = out[1]
        O('the result says whether anything was purged', truth(r, 32) == st.g['trimmed'], T)
    ex.run(st, on_end)


def unsealed(ex, sl, st):
    if sl.cf.seal and st.g['sealed'] is True:
        ex.oblige(st, 'metadata is accessed only while it is unsealed', sl.ro.nokey(), ('C24',))


def other_init(ex, sl):
    def f(st, off, n):
        g = sl.field(off, n)
        if g in ('empty_slabs', 'quarantine_random', 'quarantine_queue'):
            return 0
        return None
    return f


def other_access(ex, sl, c, store):
    def f(st, off, n, v=None):
        g = sl.field(off, n)
        unsealed(ex, sl, st)
        if g in sl.IMMUT and not store:
            return
        ex.oblige(st, 'size class state (%s) is accessed only with its lock held' % g, c in st.g['held'], ('C17',))
        if store:
            ex.oblige(st, 'a class without cached slabs is not changed', g == 'empty_slabs' and isinstance(v, int) and v == 0, ('C13', 'C01'))
    return f


def same_slots(ex, sl):
    def f(st, v0, v, w, b, nr, slot):
        O = lambda n, g, t: ex.oblige(st, n, g, t, group='Q')
        O('no slot changes its status', S_(v0.a['bm'][b], w.z()) == S_(v.a['bm'][b], w.z()), ('C01', 'C13'))
        if sl.quar:
            O('no slot enters or leaves the quarantine', S_(v0.a['qb'][b], w.z()) == S_(v.a['qb'][b], w.z()), ('C01', 'C13'))
    return f
