"""Functions with loops or bitmaps on which the slab contracts rest: write_after_free_check, get_free_slot."""
import z3
from .val import *
from .exec import *
from .units import unit
from .loops import LoopRule
from .leaf import start, zb
from .slab import on as config_on
from . import kern
from .kern import zint

SMALL = ('default', 'light', 'full', 'alt', 'alt2')


class Words(Obj):
    """the memory [0, n): an arbitrary array of 64-bit words; reads are recorded"""

    def __init__(self, name, n):
        super().__init__(name, None)
        self.n = n
        self.a = z3.Array(name + '!words', z3.IntSort(), z3.BitVecSort(64))

    def load(self, ex, st, off, nb):
        ex.oblige(st, 'reads only the given range', ex.band(zint(off) >= 0, zint(ladd_raw(off, nb)) <= zint(self.n)), ('C08', 'C01'))
        q, r = ex.divmod_const(st, off, 8)
        if not isinstance(r, int) or r + nb > 8:
            raise Unsupported('unaligned word access')
        st.g['reads'] = st.g.get('reads', ()) + (q,)
        w = z3.Select(self.a, zint(q))
        if nb < 8:
            return z3.Extract(8 * (r + nb) - 1, 8 * r, w)
        return w

    def store(self, ex, st, off, v, nb):
        ex.oblige(st, 'memory is not written', False, ('C08', 'C01'))
        raise Infeasible()


@unit('write_after_free_check', ['C08', 'C04', 'C01'], cfgs=SMALL)
def write_after_free_check(ctx):
    """returns only if every word of the range is zero, is fatal only if some word is not; reads nothing else"""
    ex = ctx.ex(kern.KERNEL)
    k = ex.flin('words', 0, 1 << 20)
    n = lscale(k, 8)
    o = Words('block', n)
    p = ex.addobj(o)
    kw = z3.Int('any_word')
    on = config_on(ctx.m.defs, 'WRITE_AFTER_FREE_CHECK')
    word = z3.Select(o.a, kw)

    def offs(vals):
        """byte offsets into the range that the loop-carried values stand for"""
        for key, v in vals.items():
            if isinstance(v, Trunc) or not isinstance(v, (int, Lin)):
                continue
            d = lsub_raw(v, p)
            if isinstance(d, int) or not any(ATOMS[i].obj is not None for i in d.t):
                yield key, d
            else:
                yield key, v

    def cands(ex, st, vals, steps):
        out = []
        for key in vals:
            if key not in steps:
                continue
            def get(vals, key=key):
                return dict(offs(vals)).get(key, 0)
            for m in (8, 1):
                def up(s, v, nn, get=get, m=m):
                    return z3.Implies(z3.And(kw >= 0, kw < zint(k), 8 * kw < zint(get(v)) * m), word == 0)
                def down(s, v, nn, get=get, m=m):
                    return z3.Implies(z3.And(kw >= 0, kw < zint(k), 8 * kw >= zint(get(v)) * m), word == 0)
                def rest(s, v, nn, get=get, m=m):
                    return z3.Implies(z3.And(kw >= 0, kw < zint(k), 8 * kw < zint(n) - zint(get(v)) * m), word == 0)
                def bound(s, v, nn, get=get, m=m):
                    return z3.And(zint(get(v)) >= 0, zint(get(v)) * m <= zint(n))
                out += [('words before %s are zero' % key, up), ('words from %s on are zero' % key, down), ('words up to the rest %s are zero' % key, rest), ('%s stays in the range' % key, bound)]
        return out
    ex.loops['*'] = LoopRule(cands, tags=('C08', 'C04', 'C01'), ghosts=('reads',))
    st = start(ctx, ex, 'write_after_free_check', [p, n])

    def on_end(st, out):
        if out[0] == 'fatal':
            zero = [z3.Select(o.a, zint(q)) == 0 for q in st.g.get('reads', ())]
            st.local = tuple(zero)
            ex.oblige(st, 'is fatal only if a word was modified', False, ('C08', 'C04'))
            st.local = ()
            return
        ex.oblige(st, 'returns or is fatal', out[0] == 'ret', ('C08',))
        if on:
            ex.oblige(st, 'returns only if every word is zero', z3.Implies(z3.And(kw >= 0, kw < zint(k)), word == 0), ('C08',))
    ex.run(st, on_end)


SLOTS = [256, 128, 85, 64, 51, 42, 36, 32, 28, 25, 23, 21, 20, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1]


@unit('get_free_slot', ['C01', 'C27', 'C15'], cfgs=SMALL, cost=2)
def get_free_slot(ctx):
    """the first free slot at or after a uniformly random position (wrapping around), for every number of slots in the table"""
    from .slab import consts, ext
    from . import val
    val.set_mode(False)
    m = ctx.m
    sz = sorted(set(consts(m, 'size_class_slots')), reverse=True)
    randomize = config_on(m.defs, 'SLOT_RANDOMIZE') if 'CONFIG_SLOT_RANDOMIZE' in m.defs or 'SLOT_RANDOMIZE' in m.defs else True
    lay = m.layouts['slab_metadata']
    for n in sz:
        ex = ctx.ex(kern.KERNEL)
        o = CellObj('metadata', lay['']) if isinstance(lay[''], int) else None
        boff = lay['bitmap'][0]
        nb = lay['bitmap'][1] // 8
        bm = [z3.BitVec('bitmap%d' % b, 64) for b in range(nb)]

        def init(st, off, nbytes):
            if nbytes == 8 and boff <= off < boff + 8 * nb and (off - boff) % 8 == 0:
                return lin(bm[(off - boff) // 8])
            return lin(ex.fresh('meta', 64)) if nbytes == 8 else ex.fresh('meta', 8 * nbytes)
        o.init = init
        o.const = True
        p = ex.addobj(o)
        rng = ex.addobj(CellObj('rng', 4096))
        draws = []

        def draw(ex, st, args, ins):
            b = args[1]
            ex.oblige(st, 'the start position is drawn from the generator passed in', ex.cmp(st, 'eq', args[0], rng, 64), ('C27',))
            ex.oblige(st, 'the start position is drawn uniformly over all slots', (b if isinstance(b, int) else zw(b, 64)) == n, ('C27',))
            r = ex.fresh('start', 16)
            st.assume(z3.ULT(r, n))
            st.g['draws'] = st.g.get('draws', ()) + (z3.ZeroExt(48, r),)
            return r
        for nm in ('get_random_u16_uniform', 'get_random_u64_uniform'):
            ex.contracts[nm] = draw
        used = lambda j: z3.Or(*[z3.And(z3.LShR(j, 6) == b, z3.Extract(0, 0, z3.LShR(bm[b], j & 63)) == 1) for b in range(min(nb, (n + 63) // 64))])
        f = z3.BitVec('free_one', 64)
        j = z3.BitVec('any_slot', 64)
        st = start(ctx, ex, 'get_free_slot', [rng, n, p])
        st.assume(z3.And(z3.ULT(f, n), z3.Not(used(f))))
        ex.max_unroll = 2 * nb + 2

        def on_end(st, out):
            O = lambda nm, g: ex.oblige(st, nm, g, ('C27', 'C01'))
            O('a slab with a free slot always yields one', out[0] == 'ret')
            if out[0] != 'ret':
                return
            r = zw(out[1], 64)
            O('the slot number lies inside the slab', z3.ULT(r, n))
            O('the slot is free', z3.Not(used(r)))
            ds = st.g.get('draws', ())
            if randomize:
                ex.oblige(st, 'one random start position is drawn', len(ds) == 1, ('C27',))
                if len(ds) != 1:
                    return
                s = ds[0]
            else:
                s = z3.BitVecVal(0, 64)
            dist = lambda x: z3.If(z3.UGE(x, s), x - s, x - s + n)
            ex.oblige(st, 'no free slot lies between the start position and the slot chosen',
                      z3.Implies(z3.And(z3.ULT(j, n), z3.Not(used(j))), z3.ULE(dist(r), dist(j))), ('C27',))
        ex.run(st, on_end)
