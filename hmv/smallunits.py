"""allocate_small, deallocate_small and the other functions on one size class, each for every class of a configuration."""
import math
import z3
from .val import *
from .exec import *
from .units import unit
from . import kern
from .kern import ENOMEM, set_errno, get_errno
from . import slab as SL
from .slab import Slab, SlabWorld, CONTRACTS, zi, bit, simp_i, NONE, GUARD, PARTIAL, FULL, EMPTY, FREEQ, FREEF, SPEC_SIZES

S_ = z3.Select
CLASSES = [{'k': k} for k in range(49)]
# classes with more than 64 slots are split by the bitmap word of the block freed
DCASES = [{'k': k, 'part': p} for k in range(49) for p in ([''] if k > 3 else ['.%d' % i for i in range(5 if k < 2 else 3)])]


def quick_alloc(p, cfg, case):
    k = case['k']
    if cfg == 'default':
        return k in (0, 1, 3, 4, 10, 24, 40, 48) if p in ('C12', 'C13', 'C01', 'C02', 'C27') else k in (0, 3, 10, 40)
    return k in (0, 10) if p in ('C12', 'C23', 'C24') else k == 10


def quick_dealloc(p, cfg, case):
    k, part = case['k'], case['part']
    if cfg != 'default':
        return k == 10 and (p != 'C01' or cfg == 'full')
    if p == 'C13':
        return k in (10, 24, 40)
    if p == 'C01':
        return k == 10 or (k, part) == (3, '.1')
    return k in (10, 24, 40) or (k, part) == (3, '.1') or (p in ('C04', 'C12') and (k, part) in ((0, '.0'), (0, '.1')))


SMALL_CFGS = ('default', 'light', 'full', 'alt', 'alt2')


def present(k, cfg):
    return not (cfg == 'alt' and k >= 37)


def api(m, name):
    """the exported functions lose their prefix h_ in the library build"""
    return name[2:] if name not in m.funcs and name.startswith('h_') and name[2:] in m.funcs else name


def setup(ctx, k, fname, arena=None):
    """executor and state for a call on a class; None if the class does not exist in this configuration"""
    fname = api(ctx.m, fname)
    if fname not in ctx.m.funcs:
        raise Unsupported('function %s is not in the source any more' % fname)
    ex = ctx.ex(CONTRACTS)
    sl = Slab(ex, k, arena=arena)
    ex.world = SlabWorld()
    ex.parpaths = True
    st = State()
    st.g['held'] = frozenset()
    st.g['sealed'] = False
    e = ex.fresh('errno0', 32)
    set_errno(ex, st, e)
    st.g['errno0'] = e
    sl.begin(st)
    ctx.under.add(fname)
    return ex, sl, st


def arena(sl):
    return Trunc(sl.A0, 32) if not isinstance(sl.A0, int) else sl.A0


def draws(st, bound):
    return [e[1] for e in st.ev if e[0] == 'draw' and isinstance(e[2], int) and e[2] == bound]


def any_eq(xs, y):
    return z3.Or(*[zi(x) == y for x in xs]) if xs else z3.BoolVal(False)


def stat(st, sl, f):
    """(value before, value now) of a statistics counter, as integers modulo 2^64"""
    off, n = sl.lay[f]
    c = st.cells.get(sl.sc.id, {}).get(off)
    if f in ('allocated', 'slab_allocated'):
        a = st.g['S0'][f]
    else:
        a = st.g.get('ctr', {}).get(f)
    return a, (c[1] if c is not None else a)


def stats_spec(ex, st, sl, allocated, slab, nm, nd):
    """deltas of the statistics: slab is a z3 Int term"""
    if not sl.cf.stats:
        return
    T = ('C23',)
    for f, d in (('allocated', allocated), ('nmalloc', nm), ('ndalloc', nd)):
        a, b = stat(st, sl, f)
        if a is None and b is None:
            ex.oblige(st, 'statistics: %s' % f, d == 0, T)
            continue
        if a is None:
            a = ex.flin(f)
        ex.oblige(st, 'statistics: %s changes by exactly what was done' % f, ex.cmp(st, 'eq', b, ladd_raw(a, d), 64) if True else None, T)
    a, b = stat(st, sl, 'slab_allocated')
    ex.oblige(st, 'statistics: bytes of slabs in use change by exactly what was done', zi(b) - zi(a) == slab, T)


def seed_counters(ex, sl, st):
    if not sl.cf.stats:
        return
    ctr = {}
    for f in ('nmalloc', 'ndalloc'):
        off, n = sl.lay[f]
        x = ex.flin(f)
        st.cells.setdefault(sl.sc.id, {})[off] = (n, x)
        ctr[f] = x
    st.g['ctr'] = ctr


# ------------------------------------------------------------------------------------------------ allocate_small
def alloc_slot_spec(ex, sl):
    def f(st, v0, v, w, b, nr, slot):
        wz = w.z()
        u0, u1 = bit(S_(v0.a['bm'][b], wz), nr), bit(S_(v.a['bm'][b], wz), nr)
        ch = st.g.get('slot_choice')
        if ch:
            i, s, cb, cnr = ch
            is_c = z3.And(wz == zi(i), cnr == nr) if cb == b else z3.BoolVal(False)
        else:
            is_c = z3.BoolVal(False)
        O = lambda n, g, t: ex.oblige(st, n, g, t, group='Q')
        O('exactly the chosen slot becomes used, and it was unused', z3.If(is_c, z3.And(z3.Not(u0), u1), u0 == u1), ('C01', 'C27'))
        if sl.quar:
            q0, q1 = bit(S_(v0.a['qb'][b], wz), nr), bit(S_(v.a['qb'][b], wz), nr)
            O('allocation changes no quarantine status and never takes a quarantined slot', z3.And(q0 == q1, z3.Implies(is_c, z3.Not(q0))), ('C01', 'C09'))
    return f


@unit('allocate_small[{k}]', ['C01', 'C02', 'C03', 'C07', 'C08', 'C09', 'C12', 'C13', 'C15', 'C16', 'C17', 'C21', 'C23', 'C24', 'C27'], cfgs=SMALL_CFGS, cases=CLASSES, cost=5, quick=quick_alloc)
def allocate_small(ctx, k):
    """returns a previously unused slot of the class (zeroed, with canary), or NULL with errno ENOMEM and nothing changed"""
    if not present(k, ctx.u.cfg):
        return ctx.skip()
    ex, sl, st = setup(ctx, k, 'allocate_small')
    cf = sl.cf
    seed_counters(ex, sl, st)
    req = 0 if k == 0 else ex.flin('requested', SPEC_SIZES[k - 1] + 1, SPEC_SIZES[k])
    st.g['slot_spec'] = alloc_slot_spec(ex, sl)

    def at_unlock(st):
        O = lambda n, g, t: ex.oblige(st, n, g, t)
        v0, v = sl.final(st)
        st.g['views'] = (v0, v)
        w = sl.anyint('w2')
        loc0 = st.local
        st.local = loc0 + (z3.And(w >= 0, w < sl.MMAX),) + tuple(sl.inst(v0, w))
        ch = st.g.get('slot_choice')
        unused0 = z3.Or(*[v0.stt(w) == x for x in (NONE, FREEQ, FREEF)])
        if sl.has_canary:
            c0, c1 = S_(v0.a['canary'], w), S_(v.a['canary'], w)
            rnd = z3.Or(*[c1 == (r & z3.BitVecVal(0xffffffffffffff00, 64)) for r in st.g.get('rand', ())]) if st.g.get('rand') else z3.BoolVal(False)
            if ch:
                i = zi(ch[0])
                O('a slab put into use gets a fresh random canary, others keep theirs', z3.If(z3.And(w == i, unused0), rnd, z3.Or(c1 == c0, z3.And(unused0, w != i))), ('C07',))
            else:
                O('failed allocation changes no canary in use', z3.Or(unused0, c0 == c1), ('C07', 'C15'))
        O('free slabs leave their FIFO only at its head', z3.Implies(z3.And(v0.stt(w) == FREEF, v.stt(w) != FREEF), v0.s['hf'] == w + 1), ('C13',))
        O('the delay array keeps its slabs', z3.Implies(v0.stt(w) == FREEQ, v.stt(w) == FREEQ), ('C13',))
        if ch:
            t = v0.stt(zi(ch[0]))
            O('slabs are taken from the partial list, then cached empty ones, then purged ones, then new ones',
              z3.And(z3.Implies(t != PARTIAL, v0.s['hp'] == 0), z3.Implies(z3.And(t != PARTIAL, t != EMPTY), v0.s['he'] == 0), z3.Implies(t == NONE, v0.s['hf'] == 0)), ('C13',))
            i = zi(ch[0])
            if sl.zero_class:
                O('zero size slabs are never made accessible', z3.Not(S_(v.a['acc'], i)), ('C12',))
            else:
                O('the slab of the returned slot is accessible', S_(v.a['acc'], i), ('C12', 'C02'))
            stats_spec(ex, st, sl, sl.S, z3.If(z3.Or(*[v0.stt(i) == x for x in (NONE, FREEQ, FREEF)]), sl.Z, 0), 1, 0)
        else:
            stats_spec(ex, st, sl, 0, z3.IntVal(0), 0, 0)
            O('failed allocation: no slab is lost', z3.Implies(v0.stt(w) != v.stt(w), z3.And(v0.stt(w) == NONE, False)), ('C15', 'C13'))
        st.local = loc0
        ma0, ma1 = v0.s['MA'], v.s['MA']
        n = st.g.get('md_rw')
        O('metadata is made accessible before it is used', z3.Or(ma0 == ma1, ma1 * sl.esz <= zi(n)) if n is not None else ma0 == ma1, ('C12', 'C01'))
        if n is not None:
            O('metadata stays inside its reservation', zi(n) <= cf.CRS // 4096 * sl.esz, ('C21', 'C12'))
        st.g['unlocked'] = st.g.get('unlocked', 0) + 1
    st.g['at_unlock'] = at_unlock
    ex.push(st, 'allocate_small', [arena(sl), req])

    def on_end(st, out):
        O = lambda n, g, t: ex.oblige(st, n, g, t)
        ch = st.g.get('slot_choice')
        if out[0] == 'fatal':
            w = [e for e in st.ev if e[0] == 'waf']
            O('allocation is fatal only after a write-after-free was detected', bool(w) and bool(ch), ('C08', 'C04'))
            if w and ch:
                p = slotptr(sl, ch)
                O('only the usable bytes of the new slot are checked', ex.band(ex.cmp(st, 'eq', w[0][1], p, 64), w[0][2] == sl.S - cf.canary), ('C08',))
            return
        O('returns', out[0] == 'ret', ('C01', 'C15', 'C17'))
        if out[0] != 'ret':
            return
        O('the lock is taken and released exactly once', st.g.get('epochs') == 1 and st.g.get('unlocked') == 1 and not st.g['held'], ('C17',))
        if st.g.get('unlocked') != 1:
            return
        p = out[1]
        v0, v = st.g['views']
        kw = sl.anyint('kw')
        val0, val1 = S_(v0.a['mem'], kw), sl.mem.value(st, kw)
        if isinstance(p, int):
            O('only NULL is returned on failure', p == 0, ('C01', 'C15'))
            O('failure sets errno to ENOMEM', ex.cmp(st, 'eq', get_errno(ex, st), ENOMEM, 32), ('C15',))
            O('failure leaves no slot taken', ch is None, ('C15', 'C01'))
            O('failure leaves the contents of memory', val0 == val1, ('C15', 'C01'))
            return
        O('a returned block comes from a slot that was taken', ch is not None, ('C01',))
        if ch is None:
            return
        q = slotptr(sl, ch)
        O('returns the start of the slot taken', ex.cmp(st, 'eq', p, q, 64), ('C01', 'C02', 'C21'))
        al = math.gcd(sl.S, 4096)
        ok = kern.aligned(p, al)
        O('the block is aligned to the largest power of two (up to the page size) that divides its class', ok if isinstance(ok, bool) else ok, ('C03',))
        i = zi(ch[0])
        O('the block lies inside the region of its class', z3.And(zi(lsub_raw(p, sl.reg)) >= 4096, zi(lsub_raw(p, sl.reg)) + sl.S <= cf.RCRS - 4096), ('C01', 'C21'))
        if sl.zero_class:
            O('memory contents are unchanged', val0 == val1, ('C01',))
            return
        pw = word(sl, ch)
        us = (sl.S - cf.canary) // 8
        loc0 = st.local
        # memory of a slab that is not in use is zero
        wi = z3.And(kw >= i * (sl.Z // 8), kw < (i + 1) * (sl.Z // 8))
        t = v0.stt(i)
        st.local = loc0 + (z3.Implies(z3.And(wi, z3.Or(*[t == x for x in (NONE, FREEQ, FREEF)])), val0 == 0),)
        inside = z3.And(kw >= pw, kw < pw + us)
        if cf.waf:
            O('every usable byte of the block is zero', z3.Implies(inside, val1 == 0), ('C08',))
        else:
            O('the usable bytes are not modified', z3.Implies(inside, val1 == val0), ('C08',))
            O('a block of a fresh slab is zero', z3.Implies(z3.And(inside, z3.Or(*[t == x for x in (NONE, FREEQ, FREEF)])), val1 == 0), ('C08',))
        if cf.canary:
            O('the canary of the slab is placed behind the usable bytes', z3.Implies(kw == pw + us, val1 == S_(v.a['canary'], i)), ('C07',))
        O('memory outside the block is not touched', z3.Implies(z3.Not(z3.And(kw >= pw, kw < pw + sl.S // 8)), val0 == val1), ('C01',))
        st.local = loc0
    ex.run(st, on_end)


def slotptr(sl, ch):
    i, s = ch[0], ch[1]
    return ladd_raw(ladd_raw(sl.CS, lscale(i, sl.Z)), lscale(s, sl.S))


def word(sl, ch):
    return zi(ch[0]) * (sl.Z // 8) + zi(ch[1]) * (sl.S // 8)


# ------------------------------------------------------------------------------------------------ pointers into a class region
def pointer_cases(ex, sl):
    """every pointer p with reg <= p < reg + RCRS, once: (p, index, (b, nr, slot), rest, premises)
    below the class area: index None; otherwise p = CS + index*Z + slot*S + rest with rest < S and slot*S + rest < Z"""
    cf = sl.cf
    y = ex.flin('y', 0, cf.RCRS)
    yield ladd_raw(sl.reg, y), None, None, None, [zi(lsub_raw(y, lscale(sl.gap, 4096))) < 0]
    top = (sl.Z - 1) // sl.S
    for b in range(top // 64 + 1):
        i = ex.flin('index', 0, cf.RCRS // sl.Z)
        r, nr = sl.bvatom('slot', min(63, top - 64 * b))
        slot = ladd_raw(r, 64 * b)
        e = ex.flin('rest', 0, sl.S - 1)
        o = ladd_raw(ladd_raw(lscale(i, sl.Z), lscale(slot, sl.S)), e)
        p = ladd_raw(sl.CS, o)
        pre = [zi(ladd_raw(lscale(slot, sl.S), e)) < sl.Z, zi(lsub_raw(p, sl.reg)) < cf.RCRS]
        yield p, i, (b, nr, slot), e, pre


def live(sl, v0, idx, sb, rest):
    """p is the start of a live slot (in the state v0)"""
    if idx is None:
        return z3.BoolVal(False)
    b, nr, slot = sb
    i = zi(idx)
    fs = [i < v0.s['MC'], i < sl.MMAX, zi(slot) < sl.n]
    if rest is not None:
        fs.append(zi(rest) == 0)
    if b < sl.nb:
        fs.append(bit(S_(v0.a['bm'][b], i), nr))
        if sl.quar:
            fs.append(z3.Not(bit(S_(v0.a['qb'][b], i), nr)))
    else:
        fs.append(z3.BoolVal(False))
    return z3.And(*fs)


def canary_ok(sl, v0, idx, sb):
    if not sl.has_canary or sl.zero_class or idx is None:
        return z3.BoolVal(True)
    k = zi(idx) * (sl.Z // 8) + zi(sb[2]) * (sl.S // 8) + (sl.S - 8) // 8
    return S_(v0.a['mem'], k) == S_(v0.a['canary'], zi(idx))


@unit('deallocate_small[{k}{part}]', ['C01', 'C04', 'C06', 'C07', 'C08', 'C09', 'C12', 'C13', 'C15', 'C16', 'C17', 'C23', 'C24'], cfgs=SMALL_CFGS, cases=DCASES, cost=6, quick=quick_dealloc)
def deallocate_small(ctx, k, part):
    """returns exactly if the pointer is the start of a live slot with intact canary (and the expected size is the class size)"""
    if not present(k, ctx.u.cfg):
        return ctx.skip()
    ncases = None
    n = int(part[1:]) if part else 0
    while ncases is None or n < ncases:
        ex, sl, st = setup(ctx, k, 'deallocate_small')
        cases = list(pointer_cases(ex, sl))
        ncases = len(cases)
        ex.only_fatal = cases[n][1] is None or cases[n][2][0] >= sl.nb
        # the expected size matters only for C06: the quick tier does not repeat the other obligations with it
        for given in [False] * ctx.want(*[p for p in ctx.u.props if p != 'C06']) + [True] * ctx.want('C06'):
            s2 = st.copy()
            dealloc_case(ctx, ex, sl, s2, cases[n], given)
        n += 1
        if part and int(part[1:]) < {0: 4, 1: 4, 2: 2, 3: 2}[k]:
            break


def dealloc_case(ctx, ex, sl, st, case, given):
    cf = sl.cf
    p, idx, sb, rest, pre = case
    seed_counters(ex, sl, st)
    for f in pre:
        st.assume(f)
    exp = 0
    E = None
    if given:
        o = CellObj('expected_size', 8)
        exp = ex.addobj(o)
        E = ex.flin('expected')
        st.cells[o.id] = {0: (8, E)}
        st.g['E'] = E
    if idx is not None:
        if sb[0] < sl.nb:
            sl.touch_slot(st, idx, *sb)
    v0 = sl.view0(st)

    def valid(v):
        fs = [live(sl, v, idx, sb, rest), canary_ok(sl, v, idx, sb)]
        if given:
            fs.append(zi(E) == sl.S0)
        return z3.And(*fs)

    def at_unlock(st):
        O = lambda n, g, t: ex.oblige(st, n, g, t)
        v0 = sl.view0(st)
        O('only the start of a live block is freed', live(sl, v0, idx, sb, rest), ('C04', 'C01'))
        O('a block with damaged canary is not freed', canary_ok(sl, v0, idx, sb), ('C07', 'C04'))
        if given:
            O('a block is not freed with the size of another class', zi(E) == sl.S0, ('C06',))
        if idx is None or sb[0] >= sl.nb:
            return
        free_effects(ex, sl, st, idx, sb)
        st.g['unlocked'] = st.g.get('unlocked', 0) + 1
    st.g['at_unlock'] = at_unlock
    st.g['slot_spec'] = free_slot_spec(ex, sl, idx, sb)
    ex.push(st, 'deallocate_small', [p, exp])

    def on_end(st, out):
        O = lambda n, g, t: ex.oblige(st, n, g, t)
        v0 = sl.view0(st)
        if out[0] != 'ret':
            if idx is not None and sb[0] < sl.nb:
                sl.touch(st, idx)
            ok = valid(v0)
            T = ('C04', 'C07')
            if given:
                O('aborts only for an invalid block, a damaged canary or the wrong size', z3.Not(ok), T + ('C06',))
            else:
                O('aborts only for an invalid block or a damaged canary', z3.Not(ok), T)
            return
        O('the lock is taken and released exactly once', st.g.get('epochs') == 1 and st.g.get('unlocked') == 1 and not st.g['held'], ('C17',))
        e = get_errno(ex, st)
        if e is not st.g['errno0']:
            O('errno is preserved', ex.cmp(st, 'eq', e, st.g['errno0'], 32), ('C16',))
        else:
            O('errno is preserved', True, ('C16',))
    ex.run(st, on_end)


def puts(st, arr):
    return [e for e in st.ev if e[0] == 'put' and e[1] == arr]


def entry(v, arr, k):
    return SL.Code(S_(v.a[arr], k), S_(v.a[arr + 's'], k))


def ite(c, a, b):
    return SL.Code(z3.If(c, a.i, b.i), z3.If(c, a.s, b.s))


def released(sl, st, v0, code):
    """code of the slot that leaves the quarantine (0 = none), by the documented algorithm, given the random index used"""
    e = code
    qr = puts(st, 'qr')
    if sl.cf.QR:
        if len(qr) != 1:
            return None
        e = entry(v0, 'qr', qr[0][2])
    if sl.cf.QQ:
        q = entry(v0, 'qq', v0.s['qi'])
        e = ite(e.i == 0, SL.Code(z3.IntVal(0), z3.BitVecVal(0, 8)), q) if sl.cf.QR else q
    return e


def free_slot_spec(ex, sl, idx, sb):
    def f(st, v0, v, w, b, nr, slot):
        if idx is None:
            return
        wz = w.z()
        code = sl.code(idx, sb[2])
        rel = released(sl, st, v0, code)
        if rel is None:
            return
        c = sl.code(wz, slot)
        O = lambda n, g, t: ex.oblige(st, n, g, t, group='Q')
        u0, u1 = bit(S_(v0.a['bm'][b], wz), nr), bit(S_(v.a['bm'][b], wz), nr)
        O('exactly the slot that leaves the quarantine becomes available', u1 == z3.And(u0, z3.Not(c.eq(rel))), ('C01', 'C09'))
        if sl.quar:
            q0, q1 = bit(S_(v0.a['qb'][b], wz), nr), bit(S_(v.a['qb'][b], wz), nr)
            O('exactly the freed slot enters the quarantine', q1 == z3.And(z3.Or(q0, c.eq(code)), z3.Not(c.eq(rel))), ('C09', 'C04', 'C01'))
    return f


def stored(v0, v, arr, k, c):
    """array arr now is the old one with c at k"""
    return z3.And(v.a[arr] == z3.Store(v0.a[arr], k, c.i), v.a[arr + 's'] == z3.Store(v0.a[arr + 's'], k, c.s))


def free_effects(ex, sl, st, idx, sb):
    cf = sl.cf
    O = lambda n, g, t: ex.oblige(st, n, g, t)
    v0, v = sl.final(st)
    i = zi(idx)
    code = sl.code(idx, sb[2])
    loc0 = st.local
    # quarantine arrays
    if cf.QR:
        qr = puts(st, 'qr')
        O('the freed block replaces one entry of the random array', len(qr) == 1, ('C09',))
        if len(qr) == 1:
            O('the entry replaced is uniformly random over the configured length', any_eq(draws(st, sl.lenR), qr[0][2]), ('C09',))
            O('the freed block enters the random array', stored(v0, v, 'qr', qr[0][2], code), ('C09',))
    first = code
    if cf.QR and len(puts(st, 'qr')) == 1:
        first = entry(v0, 'qr', puts(st, 'qr')[0][2])
    if cf.QQ:
        same = z3.And(v.a['qq'] == v0.a['qq'], v.a['qqs'] == v0.a['qqs'])
        O('the displaced block waits in the queue', z3.If(first.i == 0, same, stored(v0, v, 'qq', v0.s['qi'], first)), ('C09',))
        O('the queue advances by one, over the configured length', v.s['qi'] == z3.If(first.i == 0, v0.s['qi'], z3.If(v0.s['qi'] + 1 == sl.lenQ, 0, v0.s['qi'] + 1)), ('C09',))
    # emptied slab
    w = sl.anyint('w2')
    st.local = loc0 + (z3.And(w >= 0, w < sl.MMAX),) + tuple(sl.inst(v0, w)) + tuple(sum([sl.inst(v0, x) for x in v.touched], []))
    c0, c1 = S_(v0.a['cnt'], w), S_(v.a['cnt'], w)
    for x in v.touched:
        st.local += tuple(sl.pop_lemmas([S_(b, x) for b in v.a['bm']]))
    over = sl.Z * v0.s['NE'] + sl.Z > cf.empty_limit
    mapped, failed = any_eq(st.g['mapped'], w), any_eq(st.g['mapfail'], w)
    O('an emptied slab is replaced by inaccessible memory exactly if the cached empty slabs exceed the limit (unless the kernel refuses)',
      z3.If(z3.And(c0 > 0, c1 == 0), z3.Or(mapped, failed) == over, z3.Not(z3.Or(mapped, failed))), ('C13', 'C12'))
    O('no canary changes', S_(v0.a['canary'], w) == S_(v.a['canary'], w), ('C07',))
    fq = puts(st, 'fsq')
    O('a slab enters the delay array exactly when it is purged', len(fq) == len(st.g['mapped']) and len(fq) <= 1, ('C13',))
    for e in fq:
        O('the delay array entry replaced is uniformly random', any_eq(draws(st, cf.FQ), e[2]), ('C13',))
        O('the purged slab enters the delay array', e[3] == zi(st.g['mapped'][0]) + 1, ('C13',))
    O('slabs never skip the delay array', z3.Implies(v.stt(w) == FREEF, z3.Or(v0.stt(w) == FREEF, v0.stt(w) == FREEQ)), ('C13',))
    # memory
    kw = sl.anyint('kw')
    val0, val1 = S_(v0.a['mem'], kw), sl.mem.value(st, kw)
    pw = word(sl, (idx, sb[2]))
    us = (sl.S - cf.canary) // 8
    touched_slab = z3.Or(*[z3.And(kw >= zi(x) * (sl.Z // 8), kw < (zi(x) + 1) * (sl.Z // 8), S_(v.a['cnt'], zi(x)) == 0) for x in st.g['mapped'] + st.g['mapfail']]) \
        if st.g['mapped'] + st.g['mapfail'] else z3.BoolVal(False)
    if sl.zero_class:
        O('memory contents are unchanged', z3.Or(touched_slab, val0 == val1), ('C01', 'C08'))
    else:
        inside = z3.And(kw >= pw, kw < pw + us)
        if cf.zof:
            O('every usable byte of the freed block is wiped', z3.Implies(inside, val1 == 0), ('C08',))
            O('no other memory is changed, except in slabs without live blocks', z3.Or(inside, touched_slab, val0 == val1), ('C01', 'C08'))
        else:
            O('no memory is changed, except in slabs without live blocks', z3.Or(touched_slab, val0 == val1), ('C01', 'C08'))
    st.local = loc0
    stats_spec(ex, st, sl, -sl.S, -sl.Z * len(st.g['mapped']) + z3.IntVal(0), 0, 1)


# ------------------------------------------------------------------------------------------------ read-only queries of a slot
def quick_query(p, cfg, case):
    k, part = case['k'], case['part']
    return k == 10 if cfg != 'default' else k in (10, 24, 40) or (k, part) in ((0, '.0'), (0, '.1'), (3, '.1'))


def unchanged(ex, sl, st, tags):
    v0, v = sl.view0(st), sl.view1(st)
    same = all(x is y or x.eq(y) for n in v0.a for x, y in zip(aslist(v0.a[n]), aslist(v.a[n])))
    ex.oblige(st, 'the state of the class is not changed', same, tags)
    kw = sl.anyint('kw')
    ex.oblige(st, 'memory is not changed', S_(v0.a['mem'], kw) == sl.mem.value(st, kw), tags)
    for f, (nb, val) in st.cells.get(sl.sc.id, {}).items():
        pass


def aslist(x):
    return x if isinstance(x, list) else [x]


def query_unit(ctx, k, part, fname, tags, args, check):
    if not present(k, ctx.u.cfg):
        return ctx.skip()
    n = int(part[1:]) if part else 0
    last = {0: 4, 1: 4, 2: 2, 3: 2}[k] if part else None
    ncases = None
    while ncases is None or n < ncases:
        ex, sl, st = setup(ctx, k, fname)
        st.g['sealed'] = args is not None and args == 'api'
        cases = list(pointer_cases(ex, sl))
        ncases = len(cases)
        ex.only_fatal = cases[n][1] is None or cases[n][2][0] >= sl.nb
        p, idx, sb, rest, pre = cases[n]
        for f in pre:
            st.assume(f)
        if idx is not None and sb[0] < sl.nb:
            sl.touch_slot(st, idx, *sb)

        def at_unlock(st):
            st.g['unlocked'] = st.g.get('unlocked', 0) + 1
            unchanged(ex, sl, st, ('C01', 'C04', 'C22'))
        st.g['at_unlock'] = at_unlock
        ex.push(st, api(ctx.m, fname), [p])

        def on_end(st, out):
            v0 = sl.view0(st)
            if idx is not None and sb[0] < sl.nb:
                sl.touch(st, idx)
            if out[0] == 'ret':
                ex.oblige(st, 'the lock is taken and released exactly once', st.g.get('epochs') == 1 and st.g.get('unlocked') == 1 and not st.g['held'], ('C17',))
                if args == 'api':
                    ex.oblige(st, 'metadata is sealed again', SL.sealed_again(ex, st), ('C24',))
            check(ex, sl, st, v0, out, idx, sb, rest)
        ex.run(st, on_end)
        n += 1
        if part and n - 1 < last:
            break


@unit('memory_corruption_check_small[{k}{part}]', ['C01', 'C04', 'C07', 'C17'], cfgs=SMALL_CFGS, cases=DCASES, cost=2, quick=quick_query)
def memory_corruption_check_small(ctx, k, part):
    """returns exactly if the pointer is the start of a live slot with intact canary"""
    def check(ex, sl, st, v0, out, idx, sb, rest):
        ok = z3.And(live(sl, v0, idx, sb, rest), canary_ok(sl, v0, idx, sb))
        if out[0] == 'ret':
            ex.oblige(st, 'only the start of a live block is accepted', live(sl, v0, idx, sb, rest), ('C04',))
            ex.oblige(st, 'a damaged canary is detected', canary_ok(sl, v0, idx, sb), ('C07',))
        else:
            ex.oblige(st, 'aborts only for an invalid block or a damaged canary', z3.Not(ok), ('C04', 'C07'))
    query_unit(ctx, k, part, 'memory_corruption_check_small', ('C04',), None, check)


@unit('h_malloc_object_size[{k}{part}]', ['C22', 'C17', 'C24', 'C01'], cfgs=SMALL_CFGS, cases=DCASES, cost=2, quick=quick_query)
def object_size_small(ctx, k, part):
    """for a pointer into a live slot: the usable bytes behind it; aborts exactly for pointers not in a live slot"""
    def check(ex, sl, st, v0, out, idx, sb, rest):
        inside = live(sl, v0, idx, sb, None)
        if out[0] == 'ret':
            ex.oblige(st, 'only pointers into live blocks are answered', inside, ('C22',))
            if idx is None:
                return
            us = 0 if sl.zero_class else sl.S - sl.cf.canary
            if sl.zero_class:
                ex.oblige(st, 'a zero size block has no usable bytes', ex.cmp(st, 'eq', out[1], 0, 64), ('C22',))
            else:
                r = zi(out[1])
                ex.oblige(st, 'the usable bytes from the pointer to the end of the block', z3.Implies(zi(rest) <= us, r == us - zi(rest)), ('C22',))
        else:
            ex.oblige(st, 'aborts only for pointers not in a live block', z3.Not(inside), ('C22',))
    query_unit(ctx, k, part, 'h_malloc_object_size', ('C22',), 'api', check)
