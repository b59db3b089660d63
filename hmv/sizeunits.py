"""Size classes: get_size_info for every size, get_size_info_align for every alignment, the class of every slab address."""
import z3
from .val import *
from .exec import *
from .units import unit
from .leaf import start
from . import kern
from .kern import PAGE, zint
from .slab import Cfg, SPEC_SIZES

CFGS = ('default', 'light', 'full', 'alt')
T = ('C02', 'C01', 'C03', 'C05', 'C06', 'C14', 'C22')


def pair(out):
    v = out[1]
    return v if isinstance(v, (list, tuple)) and len(v) == 2 else None


@unit('get_size_info', T, cfgs=CFGS)
def get_size_info(ctx):
    """the smallest class that holds the size: the documented small classes, then four classes per power of two; 0 on overflow; the number of the class for slabs"""
    cf = Cfg(ctx.m)
    spans = [(0, 0)] + [(SPEC_SIZES[i - 1] + 1, SPEC_SIZES[i]) for i in range(1, len(SPEC_SIZES))]
    spans += [((1 << k) + 1, 1 << (k + 1)) for k in range(17, 63)] + [((1 << 63) + 1, 7 << 61), ((7 << 61) + 1, M64)]
    for i, (lo, hi) in enumerate(spans):
        ex = ctx.ex(kern.KERNEL)
        n = ex.flin('n', lo, hi) if lo != hi else lo
        st = start(ctx, ex, 'get_size_info', [n])

        def on_end(st, out, i=i, lo=lo, hi=hi, n=n):
            O = lambda nm, f: ex.oblige(st, nm, f, T)
            r = pair(out)
            O('always returns a size and a class', out[0] == 'ret' and r is not None)
            if r is None:
                return
            R = zint(ex.norm(st, r[0]))
            if i < len(SPEC_SIZES):
                O('the size class is the smallest of the documented classes that holds the size', R == SPEC_SIZES[i])
                if i < len(cf.sizes):
                    O('the class number is that of the size class', zint(ex.norm(st, r[1])) == i)
            elif lo > 7 << 61:
                O('overflow is reported as size 0', R == 0)
            else:
                s = (1 << ((lo - 1).bit_length() - 1)) >> 2
                q = z3.Int('q')
                O('the size class holds the size and wastes less than one step', z3.And(R >= zint(n), R - zint(n) < s))
                O('the size class is a multiple of the step (four per power of two)', R % s == 0)
        ex.run(st, on_end)


@unit('get_size_info_align', T, cfgs=CFGS)
def get_size_info_align(ctx):
    """the smallest class of slabs that holds the size and is a multiple of the alignment, for every power of two up to the page size; fatal if none"""
    cf = Cfg(ctx.m)
    for sh in range(0, 13):
        al = 1 << sh
        ok = [s for s in cf.sizes[1:] if s % al == 0]
        for j in range(len(ok) + 1):
            ex = ctx.ex(kern.KERNEL)
            lo = ok[j - 1] + 1 if j else 0
            n = ex.flin('n', lo, ok[j] if j < len(ok) else M64)
            st = start(ctx, ex, 'get_size_info_align', [n, al])
            if j == len(ok):
                ex.only_fatal = True

            def on_end(st, out, j=j):
                O = lambda nm, f: ex.oblige(st, nm, f, T)
                if j == len(ok):
                    O('there is no class for the size: fatal', out[0] == 'fatal')
                    return
                r = pair(out)
                O('a class is found', out[0] == 'ret' and r is not None)
                if r:
                    O('it is the smallest class that holds the size with the alignment', ex.band(ex.cmp(st, 'eq', r[0], ok[j], 64), ex.cmp(st, 'eq', r[1], cf.sizes.index(ok[j]), 64)))
            ex.run(st, on_end)


@unit('slab_size_class', ('C21', 'C02', 'C01', 'C14', 'C22'), cfgs=CFGS)
def slab_size_class(ctx):
    """every address of the slab area determines one arena and class: those of the part of the area it lies in"""
    cf = Cfg(ctx.m)
    T2 = ('C21', 'C02', 'C01', 'C14', 'C22')
    rol = next(v for k, v in ctx.m.layouts.items() if 'slab_region_start' in v)
    for fn in ('slab_size_class', 'slab_usable_size'):
        for k in range(len(cf.sizes)):
            ex = ctx.ex(kern.KERNEL)
            RS = ex.newbase('slab_area', lo=1 << 20, hi=(1 << 47) - (1 << 45), align=PAGE)
            a = ex.flin('arena', 0, cf.N - 1) if cf.N > 1 else 0
            d = ex.flin('offset', 0, cf.RCRS - 1)
            rest = ladd_raw(k * cf.RCRS, d)
            p = ladd_raw(RS, ladd_raw(lscale(a, cf.ARENA), rest))

            def roinit(st, off, n):
                if off == rol['slab_region_start'][0]:
                    return RS
                raise Unsupported('access to offset %d of ro' % off)
            ro = CellObj('ro', 4096, init=roinit, const=True)
            ex.addobj(ro)
            ex.globals['ro'] = ro.base
            st = start(ctx, ex, fn, [p])

            def on_end(st, out):
                O = lambda nm, f: ex.oblige(st, nm, f, T2)
                O('always returns', out[0] == 'ret')
                if out[0] != 'ret':
                    return
                if fn == 'slab_usable_size':
                    O('the usable size is that of the class', ex.cmp(st, 'eq', out[1], cf.sizes[k], 64))
                    return
                r = pair(out)
                if r is None and isinstance(out[1], (Lin, int)):
                    # two 32-bit fields returned in one register
                    v = ex.norm(st, out[1])
                    O('the arena and class are those of the address', zint(v) == zint(a) + zint(k) * (1 << 32))
                    return
                O('the arena and class are those of the address', ex.band(ex.cmp(st, 'eq', r[0], a if isinstance(a, int) else (Trunc(a, 32) if not isinstance(r[0], Lin) else a), 64 if isinstance(r[0], Lin) else 32), ex.cmp(st, 'eq', r[1], k, 64)))
            ex.run(st, on_end)
