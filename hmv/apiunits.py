"""The exported functions, each for every argument, against the contracts of what they call (hmv/api.py)."""
import os
import z3
from .val import *
from .exec import *
from .units import unit
from .kern import *
from .leaf import zb
from .smallunits import api as apiname
from . import api as A
from .api import Api, CONTRACTS, extent, zi

EINVAL = 22
CFGS = ('default', 'full', 'alt', 'alt2', 'light')


def quick_api(p, cfg, case):
    return cfg in ('default', 'full') or (cfg == 'alt' and p in ('C02', 'C03', 'C06', 'C14'))


def begin(ctx, fname, inited=True):
    fname = apiname(ctx.m, fname)
    if fname not in ctx.m.funcs and fname not in ctx.m.aliases:
        raise Unsupported('function %s is not in the source any more' % fname)
    fname = ctx.m.aliases.get(fname, fname)
    ex = ctx.ex(CONTRACTS)
    ex.mem_tags = ('C11', 'C10', 'C15')
    ex.parpaths = True
    api = Api(ex)
    st = State()
    api.start(st, inited)
    ctx.under.add(fname)
    return ex, api, st, fname


def refused(st):
    return any(e[0] == 'refused' or (e[0] == 'unmap' and not e[3]) for e in st.ev)


def finish(ex, api, st, out):
    """what every call has to guarantee when it returns; False if nothing more is to be checked"""
    g = st.g
    if g.get('raced'):
        ex.oblige(st, 'a block released by another thread in between is detected', out[0] in ('fatal', 'abort'), ('C17', 'C05'))
        return False
    if out[0] == 'fault':
        ex.oblige(st, 'no invalid memory access (%s)' % out[1], False, None)
        return False
    if out[0] != 'ret':
        return True
    ex.oblige(st, 'all locks are released', not g['held'], ('C17',))
    ex.oblige(st, 'metadata is sealed again', api.sealed_again(st), ('C24',))
    ext = [extent(api, st, b) for b in g['blk'].values() if b.kind == 'large' and b.status == 'live']
    own = z3.Or(*ext) if ext else z3.BoolVal(False)
    if refused(st):
        ex.oblige(st, 'live large blocks keep their whole range', z3.Implies(own, g['res']), ('C11', 'C14', 'C15'))
    else:
        ex.oblige(st, 'exactly the ranges of live large blocks stay reserved', g['res'] == own, ('C11', 'C10', 'C15', 'C14'))
    for nm, b in g['blk'].items():
        if b.kind != 'large':
            continue
        if b.status == 'live':
            use = inrange(g['x'], b.p, api.up(st, b.size))
            ex.oblige(st, 'exactly the usable pages of a live large block are accessible', z3.Implies(extent(api, st, b), g['acc'] == use), ('C11', 'C02', 'C14', 'C15'))
    return True


def untouched(ex, api, st, tags=('C15', 'C14')):
    """the caller's block is as before"""
    b = st.g['blk'].get('old')
    if b is None:
        return
    if b.kind in ('small', 'large'):
        ex.oblige(st, 'the old block is still live', b.status == 'live', tags)
    if b.kind == 'large':
        p, size, guard = st.g['old0']
        ex.oblige(st, 'the old block keeps its size and guards', ex.band(ex.cmp(st, 'eq', b.size, size, 64), ex.cmp(st, 'eq', b.guard, guard, 64)), tags)


def returned(ex, api, st, r):
    """(name, block) the pointer r starts, after obligations that it is a live block of this call"""
    nm, b = api.find_blk(st, r) if isinstance(r, Lin) else (None, None)
    ex.oblige(st, 'the pointer returned is the start of a live block', b is not None and b.status == 'live', ('C01', 'C02', 'C05', 'C14', 'C15'))
    return (nm, b) if b is not None and b.status == 'live' else (None, None)


def no_new(ex, st, but=None):
    for nm, b in st.g['blk'].items():
        if nm.startswith('new') and nm != but:
            ex.oblige(st, 'no block is leaked', b.status != 'live', ('C15', 'C11', 'C14', 'C23'))


def size_ok(ex, api, st, b, req, what='requested'):
    """b holds the request; small requests get exactly their class"""
    T = ('C02',)
    n = zi(req) if not z3.is_expr(req) else req
    if b.kind == 'small':
        ex.oblige(st, 'the usable size is at least the size %s' % what, zi(api.usable(st, b)) >= n, T)
    else:
        ex.oblige(st, 'the usable size is at least the size %s' % what, zi(b.size) >= n, T)


def failed(ex, api, st, overflow=False):
    """the call reports failure"""
    refusal = any(e[0] in ('small_failed', 'pages_failed', 'insert_failed') or (e[0] in ('map_fixed', 'rw', 'remap_fixed') and not e[3]) for e in st.ev)
    ex.oblige(st, 'a request fails only if it is too large or the kernel refuses memory', z3.Or(z3.BoolVal(refusal), overflow if z3.is_expr(overflow) else z3.BoolVal(overflow)), ('C15', 'C02', 'C03'))
    no_new(ex, st)
    untouched(ex, api, st)


def malloc_post(ex, api, st, out, req, tags=(), align=16, exact=True, overflow=None):
    """result of an allocation function that returns a pointer; req: requested size (Int term)"""
    if not finish(ex, api, st, out) or out[0] != 'ret':
        if out[0] in ('fatal', 'abort'):
            ex.oblige(st, 'an allocation is never fatal here', False, ('C15', 'C02'))
        return None
    r = out[1]
    adj = api.adj(req)
    if overflow is None:
        overflow = z3.And(adj > api.cf.maxslab, api.largeclass(st, adj) == 0)
    if isinstance(r, int) and r == 0:
        ex.oblige(st, 'failure sets errno to ENOMEM', ex.cmp(st, 'eq', get_errno(ex, st), ENOMEM, 32), ('C15', 'C02'))
        failed(ex, api, st, overflow)
        return None
    nm, b = returned(ex, api, st, r)
    if b is None:
        return None
    size_ok(ex, api, st, b, req)
    if exact:
        if b.kind == 'small':
            ex.oblige(st, 'a small request gets the smallest size class that fits it with the canary', zi(b.size) == api.classof(st, adj).z(), ('C02', 'C06'))
        else:
            ex.oblige(st, 'only requests above the largest slab class are large', adj > api.cf.maxslab, ('C02', 'C06'))
            ex.oblige(st, 'a large request gets its documented size', zi(b.size) == api.largeclass(st, adj), ('C02', 'C06'))
    if align > 16:
        if b.kind == 'small':
            ex.oblige(st, 'the size class is a multiple of the alignment', zi(b.size) % align == 0, ('C03',))
        else:
            ex.oblige(st, 'the address is a multiple of the alignment', b.align % align == 0, ('C03',))
    no_new(ex, st, nm)
    return b


@unit('h_malloc', ['C01', 'C02', 'C05', 'C06', 'C11', 'C15', 'C17', 'C21', 'C23', 'C24', 'C03'], cfgs=CFGS, quick=quick_api)
def h_malloc(ctx):
    for inited in (True, False):
        ex, api, st, f = begin(ctx, 'h_malloc', inited)
        n = ex.flin('size')
        ex.push(st, f, [n])
        ex.run(st, lambda s, out: malloc_post(ex, api, s, out, zi(n)))


@unit('h_calloc', ['C01', 'C02', 'C05', 'C08', 'C11', 'C15', 'C17', 'C21', 'C23', 'C24', 'C03'], cfgs=CFGS, quick=quick_api)
def h_calloc(ctx):
    for inited in (True, False):
        ex, api, st, f = begin(ctx, 'h_calloc', inited)
        n, m = ex.flin('nmemb'), ex.flin('size')
        ex.push(st, f, [n, m])

        def on_end(s, out):
            pr = s.g.get('product')
            if pr is None or not ({pr[0].key(), pr[1].key()} == {n.key(), m.key()}):
                if out[0] == 'ret':
                    raise Unsupported('calloc does not multiply its arguments')
                P = zi(n)
            else:
                P = pr[2].z()
            adj = api.adj(lin(P, 0, M64 * M64))
            over = z3.Or(P > M64, z3.And(adj > api.cf.maxslab, api.largeclass(s, adj) == 0))
            b = malloc_post(ex, api, s, out, lin(P, 0, M64 * M64), overflow=over)
            if b is not None:
                ex.oblige(s, 'a product that overflows is refused', P <= M64, ('C02',))
                ex.oblige(s, 'every byte asked for is zero', z3.Implies(s.g['t'] < P, b.zeroed), ('C08',))
        ex.run(st, on_end)


# ------------------------------------------------------------------------------------------------ aligned allocation
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
FEW = (0, 1, 4, 8, 16, 32, 4096, 8192, 1 << 20, 1 << 63)        # the quick tier of properties other than C03
ALIGNS = [0] + [1 << i for i in range(64)]


def aligned_spec(ex, api, st, out, b, al, req):
    """the class an aligned request gets"""
    adj = api.adj(req)
    maxs = api.cf.maxslab
    if b.kind == 'small':
        want = api.alignclass(st, adj, al).z() if al > 16 else api.classof(st, adj).z()
        ex.oblige(st, 'a small aligned request gets the smallest class that fits it and the alignment', z3.And(adj <= maxs, zi(b.size) == want), ('C02', 'C03', 'C06'))
    else:
        if al <= PAGE:
            ex.oblige(st, 'only requests above the largest slab class are large', adj > maxs, ('C02', 'C06'))
        ex.oblige(st, 'a large request gets its documented size', zi(b.size) == api.largeclass(st, adj), ('C02', 'C06'))


def aligned_unit(ctx, fname, al, memptr):
    """al: a power of two, 0, or None for every number that is not a power of two"""
    ex, api, st, f = begin(ctx, fname)
    n = ex.flin('size')
    a = al
    if al is None:
        a = ex.flin('alignment')
        st.assume(z3.And(*[a.z() != (1 << i if i < 64 else 0) for i in range(65)]))
    args = [a, n]
    minal = 8 if memptr else 1
    if memptr:
        o = CellObj('memptr', 8)
        mp = ex.addobj(o)
        m0 = ex.flin('memptr0')
        st.cells[o.id] = {0: (8, m0)}
        args = [mp, a, n]
    if fname in ('h_valloc', 'h_pvalloc'):
        args = [n]
    ex.push(st, f, args)
    invalid = al is None or al < minal

    def on_end(st, out):
        if not finish(ex, api, st, out):
            return
        if out[0] != 'ret':
            ex.oblige(st, 'an allocation is never fatal here', False, ('C15', 'C02', 'C03'))
            return
        r = out[1]
        if memptr:
            e = r.l if isinstance(r, Trunc) else r
            e = zi(e) if not z3.is_expr(e) else z3.BV2Int(e)
            p = st.cells[o.id][0][1]
            success = not (isinstance(p, Lin) and p == m0)
            if success:
                ex.oblige(st, 'a pointer is stored only on success', e == 0, ('C15', 'C03', 'C02'))
            else:
                ex.oblige(st, 'success stores a pointer', e != 0, ('C15', 'C03', 'C02'))
        else:
            p = r
            success = not (isinstance(p, int) and p == 0)
            e = get_errno(ex, st)
            e = z3.IntVal(e) if isinstance(e, int) else z3.BV2Int(e)
        if invalid:
            ex.oblige(st, 'an invalid alignment is rejected', not success, ('C03',))
            ex.oblige(st, 'an invalid alignment gives EINVAL', e == EINVAL, ('C03',))
            no_new(ex, st)
            return
        req = zi(n)
        if fname == 'h_pvalloc':
            q = z3.Int('pv!%d' % next(ex.fresh_n))
            st.assume(z3.And(4096 * q >= req, 4096 * q < req + 4096))
            req = 4096 * q
        R = lin(req, 0, M64 + 4096)
        adj = api.adj(R)
        over = z3.And(z3.BoolVal(True) if al > PAGE else adj > api.cf.maxslab, api.largeclass(st, adj) == 0)
        if fname == 'h_pvalloc':
            # rounding up to zero or past the end of the address space
            over = z3.Or(over, req == 0, req > M64)
        if not success:
            ex.oblige(st, 'failure gives ENOMEM', e == ENOMEM, ('C15', 'C02', 'C03'))
            if al < TOPAL:
                failed(ex, api, st, over)
            return
        nm, b = returned(ex, api, st, p)
        if b is None:
            return
        size_ok(ex, api, st, b, req)
        if al > 16:
            if b.kind == 'small':
                ex.oblige(st, 'the size class is a multiple of the alignment', zi(b.size) % al == 0, ('C03',))
            else:
                ex.oblige(st, 'the address is a multiple of the alignment', b.align % al == 0, ('C03',))
        aligned_spec(ex, api, st, out, b, al, R)
        no_new(ex, st, nm)
    ex.run(st, on_end)


TOPAL = 1 << 64
AL_PROPS = ['C01', 'C02', 'C03', 'C05', 'C06', 'C11', 'C15', 'C17', 'C21', 'C23', 'C24']
AL_CASES = [{'fn': f, 'part': i} for f in ('h_posix_memalign', 'h_aligned_alloc') for i in range(4)]


@unit('{fn}[{part}]', AL_PROPS, cfgs=CFGS, cases=AL_CASES, quick=quick_api)
def aligned_fns(ctx, fn, part):
    """one case per power of two, plus all other numbers"""
    for al in [None] + ALIGNS if part == 0 else ALIGNS:
        if al is not None and (al.bit_length() % 4) != part:
            continue
        if al is not None and al not in FEW and not (ctx.want('C03') and (ctx.u.cfg == 'default' or THOROUGH)):
            continue
        aligned_unit(ctx, fn, al, fn == 'h_posix_memalign')


@unit('{fn}', AL_PROPS, cfgs=CFGS, cases=[{'fn': 'h_valloc'}, {'fn': 'h_pvalloc'}], quick=quick_api)
def page_fns(ctx, fn):
    aligned_unit(ctx, fn, 4096, False)


# ------------------------------------------------------------------------------------------------ free
KINDS = ('small', 'large', 'unknown', 'uninit', 'null')


def old_block(ctx, fname, kind):
    ex, api, st, f = begin(ctx, fname, kind != 'uninit')
    p = 0
    if kind == 'small':
        p = api.old_small(st)
    elif kind == 'large':
        p = api.old_large(st)
    elif kind in ('unknown', 'uninit'):
        p = api.old_unknown(st)
    ex.only_fatal = kind in ('unknown', 'uninit')
    return ex, api, st, f, p


def free_end(ex, api, st, out, kind, size_match=None):
    """size_match: Int-term condition under which the size given fits (None: no size given)"""
    if not finish(ex, api, st, out):
        return
    T = ('C06', 'C25') if size_match is not None else ()
    b = st.g['blk'].get('old')
    ok = {'null': True, 'uninit': False, 'unknown': False, 'large': True, 'small': st.g['pgood']}[kind]
    ok = z3.BoolVal(ok) if isinstance(ok, bool) else ok
    tag = {'small': 'C04'}.get(kind, 'C05')
    if out[0] != 'ret':
        m = z3.And(ok, size_match) if size_match is not None else ok
        ex.oblige(st, 'aborts only for a pointer that is not a live block (or a wrong size)', z3.Not(m), (tag,) + T)
        return
    if kind == 'null':
        ex.oblige(st, 'null is ignored', not st.ev, ('C04', 'C05'))
        return
    ex.oblige(st, 'returns only for the start of a live block', ok, (tag,))
    if size_match is not None:
        ex.oblige(st, 'a size of another class is not accepted', size_match, ('C06',))
    ex.oblige(st, 'the block is released', b.status in ('released', 'deleted'), ('C04', 'C05', 'C10', 'C23'))
    rel = [e for e in st.ev if e[0] in ('released', 'deleted') and e[1] == 'old']
    ex.oblige(st, 'the block is released exactly once', len(rel) == 1, ('C04', 'C05', 'C10', 'C23'))
    no_new(ex, st)


@unit('h_free[{kind}]', ['C04', 'C05', 'C10', 'C11', 'C15', 'C16', 'C17', 'C21', 'C23', 'C24'], cfgs=CFGS + ('label',), cases=[{'kind': k} for k in KINDS], quick=lambda p, c, k: c in ('default', 'full', 'label'))
def h_free(ctx, kind):
    ex, api, st, f, p = old_block(ctx, 'h_free', kind)
    ex.push(st, f, [p])

    def on_end(st, out):
        free_end(ex, api, st, out, kind)
        if out[0] == 'ret':
            ex.oblige(st, 'errno is preserved', ex.cmp(st, 'eq', get_errno(ex, st), st.g['errno0'], 32), ('C16',))
    ex.run(st, on_end)


@unit('h_free_sized[{kind}]', ['C04', 'C05', 'C06', 'C10', 'C11', 'C15', 'C17', 'C21', 'C23', 'C24', 'C25'], cfgs=CFGS, cases=[{'kind': k} for k in KINDS], quick=quick_api)
def h_free_sized(ctx, kind):
    ex, api, st, f, p = old_block(ctx, 'h_free_sized', kind)
    n = ex.flin('expected')
    ex.push(st, f, [p, n])

    def on_end(st, out):
        b = st.g['blk'].get('old')
        m = None
        if b is not None and kind in ('small', 'large'):
            size = b.size if kind == 'small' else st.g['old0'][1]
            adj = api.adj(n)
            if kind == 'small':
                m = z3.And(adj <= api.cf.maxslab, zi(size) == api.classof(st, adj).z())
            else:
                m = zi(size) == api.largeclass(st, adj)
        free_end(ex, api, st, out, kind, m)
    ex.run(st, on_end)


@unit('h_free_aligned_sized[{kind}]', ['C04', 'C05', 'C06', 'C10', 'C15', 'C17', 'C24', 'C25'], cfgs=CFGS, cases=[{'kind': k} for k in KINDS], quick=quick_api)
def h_free_aligned_sized(ctx, kind):
    """accepts exactly the class that the aligned allocation functions give to a request of this size and alignment"""
    if apiname(ctx.m, 'h_free_aligned_sized') not in ctx.m.funcs:
        raise Unsupported('h_free_aligned_sized is not in the source')
    for al in [1 << i for i in range(0, 20)] + [1 << 30, 1 << 46]:
        ex, api, st, f, p = old_block(ctx, 'h_free_aligned_sized', kind)
        n = ex.flin('expected')
        ex.push(st, f, [p, al, n])

        def on_end(st, out):
            b = st.g['blk'].get('old')
            m = None
            if b is not None and kind in ('small', 'large'):
                size = b.size if kind == 'small' else st.g['old0'][1]
                adj = api.adj(n)
                if kind == 'small':
                    want = api.alignclass(st, adj, al).z() if 16 < al <= PAGE else api.classof(st, adj).z()
                    m = z3.And(adj <= api.cf.maxslab, zi(size) == want)
                else:
                    m = zi(size) == api.largeclass(st, adj)
                if al > PAGE and kind == 'small':
                    # never allocated with that alignment: either answer is right
                    m = z3.BoolVal(False) if out[0] != 'ret' else z3.BoolVal(True)
            free_end(ex, api, st, out, kind, m)
        ex.run(st, on_end)


# ------------------------------------------------------------------------------------------------ sizes
@unit('h_malloc_usable_size[{kind}]', ['C02', 'C04', 'C05', 'C07', 'C17', 'C21', 'C24'], cfgs=CFGS, cases=[{'kind': k} for k in KINDS], quick=quick_api)
def usable_size(ctx, kind):
    ex, api, st, f, p = old_block(ctx, 'h_malloc_usable_size', kind)
    ex.push(st, f, [p])

    def on_end(st, out):
        if not finish(ex, api, st, out):
            return
        ok = {'null': True, 'uninit': False, 'unknown': False, 'large': True, 'small': st.g['pgood']}[kind]
        ok = z3.BoolVal(ok) if isinstance(ok, bool) else ok
        tag = {'small': 'C04'}.get(kind, 'C05')
        if out[0] != 'ret':
            ex.oblige(st, 'aborts only for a pointer that is not a live block', z3.Not(ok), (tag,))
            return
        ex.oblige(st, 'answers only for live blocks', ok, (tag, 'C07'))
        want = 0 if kind == 'null' else api.usable(st, st.g['blk']['old'])
        ex.oblige(st, 'returns exactly the usable bytes', ex.cmp(st, 'eq', out[1], want, 64), ('C02', 'C07'))
        untouched(ex, api, st, ('C05', 'C04'))
    ex.run(st, on_end)


@unit('h_malloc_object_size({kind})', ['C22', 'C17', 'C21', 'C24', 'C05'], cfgs=CFGS, cases=[{'kind': k} for k in KINDS if k != 'small'], quick=quick_api)
def object_size(ctx, kind):
    ex, api, st, f, p = old_block(ctx, 'h_malloc_object_size', kind)
    ex.only_fatal = False
    ex.push(st, f, [p])

    def on_end(st, out):
        if not finish(ex, api, st, out):
            return
        ex.oblige(st, 'a query outside the slab area is never fatal', out[0] == 'ret', ('C22', 'C05'))
        if out[0] != 'ret':
            return
        want = {'null': 0, 'large': st.g.get('old0', (0, 0))[1]}.get(kind, M64)
        ex.oblige(st, 'the size of a live large block, otherwise the documented sentinel', ex.cmp(st, 'eq', out[1], want, 64), ('C22', 'C05'))
        untouched(ex, api, st, ('C22',))
    ex.run(st, on_end)


@unit('h_malloc_object_size_fast({kind})', ['C22', 'C21', 'C17', 'C24'], cfgs=CFGS, cases=[{'kind': k} for k in KINDS], quick=quick_api)
def object_size_fast(ctx, kind):
    ex, api, st, f, p = old_block(ctx, 'h_malloc_object_size_fast', kind)
    ex.only_fatal = False
    ex.push(st, f, [p])

    def on_end(st, out):
        if not finish(ex, api, st, out):
            return
        ex.oblige(st, 'is never fatal', out[0] == 'ret', ('C22',))
        if out[0] != 'ret':
            return
        r = zi(out[1])
        if kind == 'small':
            ex.oblige(st, 'never less than the accessible bytes', r >= zi(api.usable(st, st.g['blk']['old'])), ('C22',))
            ex.oblige(st, 'the usable size of the class', r == zi(api.usable(st, st.g['blk']['old'])), ('C22',))
        elif kind == 'large' or kind == 'unknown':
            ex.oblige(st, 'pointers outside the slab area get the sentinel', r == M64, ('C22',))
        else:
            ex.oblige(st, 'zero', r == 0, ('C22',))
        ex.oblige(st, 'takes no lock', st.g['epoch'] == 0, ('C17',))
    ex.run(st, on_end)


# ------------------------------------------------------------------------------------------------ realloc
@unit('h_realloc[{kind}]', ['C01', 'C02', 'C03', 'C05', 'C08', 'C10', 'C11', 'C14', 'C15', 'C17', 'C21', 'C23', 'C24'], cfgs=CFGS, cases=[{'kind': k} for k in KINDS], quick=quick_api)
def h_realloc(ctx, kind):
    ex, api, st, f, p = old_block(ctx, 'h_realloc', kind)
    n = ex.flin('size')
    if kind == 'small':
        pass
    ex.push(st, f, [p, n])

    def on_end(st, out):
        g = st.g
        if kind == 'null':
            malloc_post(ex, api, st, out, zi(n))
            return
        if not finish(ex, api, st, out):
            return
        adj = api.adj(n)
        over = z3.And(adj > api.cf.maxslab, api.largeclass(st, adj) == 0)
        ok = {'uninit': False, 'unknown': False, 'large': True, 'small': g['pgood']}[kind]
        ok = z3.BoolVal(ok) if isinstance(ok, bool) else ok
        if out[0] != 'ret':
            ex.oblige(st, 'aborts only for a pointer that is not a live block', z3.Not(ok), ('C05', 'C14') if kind != 'small' else ('C04', 'C14'))
            return
        r = out[1]
        b = g['blk']['old']
        if isinstance(r, int) and r == 0:
            ex.oblige(st, 'failure sets errno to ENOMEM', ex.cmp(st, 'eq', get_errno(ex, st), ENOMEM, 32), ('C15', 'C14'))
            if kind in ('unknown', 'uninit'):
                ex.oblige(st, 'an overflowing size fails before the pointer is looked at', over, ('C05',))
            failed(ex, api, st, over)
            return
        if kind in ('unknown', 'uninit'):
            ex.oblige(st, 'a pointer that is not a live block is never accepted', False, ('C05',))
            return
        nm, nb = returned(ex, api, st, r)
        if nb is None:
            return
        if nb.kind == 'small':
            ex.oblige(st, 'a small request gets the smallest size class that fits it with the canary', zi(nb.size) == api.classof(st, adj).z(), ('C02', 'C06', 'C14'))
            ex.oblige(st, 'only requests up to the largest slab class are small', adj <= api.cf.maxslab, ('C02', 'C14'))
        else:
            ex.oblige(st, 'a large block gets the documented size', zi(nb.size) == api.largeclass(st, adj), ('C02', 'C06', 'C14'))
        st.local = (z3.BoolVal(True),)
        size_ok(ex, api, st, nb, zi(n))
        ex.oblige(st, 'the new block is large enough', zi(api.usable(st, nb)) >= zi(n), ('C14', 'C02'))
        no_new(ex, st, nm)
        if nm == 'old':
            ex.oblige(st, 'a block that stays is not released', b.status == 'live', ('C14',))
            return
        rel = [e for e in st.ev if e[0] in ('released', 'deleted') and e[1] == 'old']
        ex.oblige(st, 'the old block is released exactly once', len(rel) == 1, ('C14', 'C23'))
        ex.oblige(st, 'only a live block is moved', ok, ('C04', 'C05') if kind == 'small' else ('C05',))
        if kind == 'small':
            us = api.usable(st, b)
        else:
            us = g['old0'][1]
        t = g['t']
        ex.oblige(st, 'the contents are preserved up to the smaller size', z3.Implies(z3.And(t < zi(us), t < zi(n)), nb.copied), ('C14',))
    ex.run(st, on_end)
