"""new.cc: operator new and operator delete over the contracts of the allocation functions (C25).

Exceptions follow the IR's invoke / landingpad / resume edges.  A loop is closed when a path comes back to a loop header in exactly the state
(live values, memory and ghost state) it had there before: every further iteration is then one that has been explored."""
import z3
from .val import *
from .exec import *
from .units import unit
from .leaf import start, eq

TAG = ('C25',)
NEW = {
    '_Znwm': (False, False), '_Znam': (False, False),
    '_ZnwmRKSt9nothrow_t': (False, True), '_ZnamRKSt9nothrow_t': (False, True),
    '_ZnwmSt11align_val_t': (True, False), '_ZnamSt11align_val_t': (True, False),
    '_ZnwmSt11align_val_tRKSt9nothrow_t': (True, True), '_ZnamSt11align_val_tRKSt9nothrow_t': (True, True),
}
# parameters after the pointer: s = size, a = alignment, n = nothrow tag
DELETE = {'_ZdlPv': '', '_ZdaPv': '', '_ZdlPvRKSt9nothrow_t': 'n', '_ZdaPvRKSt9nothrow_t': 'n', '_ZdlPvm': 's', '_ZdaPvm': 's',
          '_ZdlPvSt11align_val_t': 'a', '_ZdaPvSt11align_val_t': 'a', '_ZdlPvSt11align_val_tRKSt9nothrow_t': 'an',
          '_ZdaPvSt11align_val_tRKSt9nothrow_t': 'an', '_ZdlPvmSt11align_val_t': 'sa', '_ZdaPvmSt11align_val_t': 'sa'}


def contracts(size, align):
    C = {}

    def alloc(name, order):
        def c(ex, st, a, ins):
            ex.oblige(st, 'allocates first, and again only after the handler returned', st.g['phase'] in ('start', 'returned'), TAG)
            s = a[order.index('s')]
            al = a[order.index('a')] if 'a' in order else 16
            t = st.copy()
            st.g['phase'] = 'failed'
            p = ex.flin('block', 16, (1 << 47) - 16, st=t)
            ok = [ex.cmp(t, 'uge', s, size, 64)]
            if 'c' in order:
                ok = [z3.BoolVal(False)]
            if align is not None:
                # the alignment asked for is a power of two (std::align_val_t), and so is 16
                ok.append(z3.BoolVal(False) if isinstance(al, int) else eq(ex, t, al, align))
            t.g['got'] = t.g['got'] + ((p, ex.band(*ok)),)
            t.g['phase'] = 'got'
            return ('alts', [(t, p), (st, 0)])
        for n in (name, 'h_' + name):
            C[n] = c
    alloc('malloc', 's')
    alloc('aligned_alloc', 'as')
    alloc('memalign', 'as')

    def get_handler(ex, st, a, ins):
        ex.oblige(st, 'the new handler is looked up only after an allocation failed', st.g['phase'] == 'failed', TAG)
        t = st.copy()
        st.g['phase'] = 'nohandler'
        h = ex.flin('handler', 1, (1 << 47), st=t)
        t.g['phase'] = 'handler'
        t.g['handler'] = h
        return ('alts', [(t, h), (st, 0)])
    C['_ZSt15get_new_handlerv'] = get_handler

    def call_handler(ex, st, a, ins):
        if 'handler' not in st.g:
            raise Unsupported('indirect call')
        ex.oblige(st, 'the function called is the installed new handler', ex.band(st.g['phase'] == 'handler', eq(ex, st, a[0], st.g['handler'])), TAG)
        st.g['handler'] = 0
        out = []
        for cls in ('bad_alloc', 'derived', 'other'):
            t = st.copy()
            t.g['phase'] = 'threw-' + cls
            out.append((t, ('throw', (cls, 'handler'))))
        st.g['phase'] = 'returned'
        return ('alts', [(st, None)] + out)
    C['<indirect>'] = call_handler

    def throw_bad_alloc(ex, st, a, ins):
        return ('throw', ('bad_alloc', 'own'))
    C['_ZSt17__throw_bad_allocv'] = throw_bad_alloc

    def begin_catch(ex, st, a, ins):
        ex.oblige(st, 'the exception caught is the one in flight', eq(ex, st, a[0], st.g['excptr']), TAG)
        st.g['caught'] = st.g['caught'] + (st.g['exc'],)
        return st.g['excptr']
    C['__cxa_begin_catch'] = begin_catch

    def end_catch(ex, st, a, ins):
        ex.oblige(st, 'a caught exception is ended once', len(st.g['caught']) > 0, TAG)
        st.g['caught'] = st.g['caught'][:-1]
    C['__cxa_end_catch'] = end_catch

    def rethrow(ex, st, a, ins):
        if not st.g['caught']:
            return ('end', ('terminate', None))
        return ('throw', st.g['caught'][-1])
    C['__cxa_rethrow'] = rethrow

    def alloc_exc(ex, st, a, ins):
        if not isinstance(a[0], int):
            raise Unsupported('exception size')
        return ex.addobj(CellObj('exception', a[0]))
    C['__cxa_allocate_exception'] = alloc_exc

    def cxa_throw(ex, st, a, ins):
        ti = ins.a['args'][1][1]
        cls = {'_ZTISt9bad_alloc': 'bad_alloc'}.get(ti[1] if ti[0] == 'glob' else None)
        if cls is None:
            raise Unsupported('throw of %r' % (ti,))
        return ('throw', (cls, 'own'))
    C['__cxa_throw'] = cxa_throw
    C['_ZNSt9bad_allocC1Ev'] = C['_ZNSt9bad_allocC2Ev'] = lambda ex, st, a, ins: None
    C['_ZSt9terminatev'] = C['abort'] = lambda ex, st, a, ins: ('end', ('terminate', None))

    def rel(kind, order):
        def c(ex, st, a, ins):
            if len(a) != len(order):
                raise Unsupported('arguments of ' + kind)
            st.g['rel'] = st.g['rel'] + (tuple(zip(order, a)),)
        for n in (kind, 'h_' + kind):
            C[n] = c
    rel('free', 'p')
    rel('free_sized', 'ps')
    rel('free_aligned_sized', 'pas')
    return C


def canon(v):
    """an identification of a value that equal names do not confuse"""
    if isinstance(v, Lin):
        return ('L', v.c, tuple(sorted(v.t.items())))
    if isinstance(v, Trunc):
        return ('T', canon(v.l), v.w)
    if isinstance(v, (list, tuple)):
        return tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted(((str(k), canon(x)) for k, x in v.items()), key=repr))
    if v is None or isinstance(v, (int, str, bool)):
        return v
    if z3.is_expr(v):
        return ('z', v.sexpr())
    return ('?', id(v))


def close_loops(ex, st, fr, src):
    """a loop header is reached: end the path if this exact state was at this header before on the same path"""
    f = fr.f
    hdr = fr.b
    inside = f.loops()[hdr]
    dead = {i.dst for b in inside for i in f.blocks[b].ins if i.dst is not None and not any(i is ph for ph in f.blocks[b].phis)}
    phis = {ph.dst for ph in f.blocks[hdr].phis}
    regs = {r: v for r, v in fr.regs.items() if r in phis or r not in dead}
    inner = {ph.dst for b in inside if b != hdr for ph in f.blocks[b].phis}
    regs = tuple(sorted(((str(r), canon(v)) for r, v in regs.items() if r not in inner or r in phis), key=repr))
    cells = canon([st.cells, st.arr, len(st.pc) if st.local else 0])
    ghost = canon([st.g['phase'], st.g['got'], st.g['rel'], st.g['caught'], st.g.get('handler')])
    key = (f.name, hdr, len(st.frames), regs, cells, ghost)
    seen = st.g.get('headers', ())
    if key in seen:
        ex.oblige(st, 'the retry loop is back in a state already explored', True, TAG)
        return ('end', ('covered', None))
    n = sum(1 for k in seen if k[:3] == key[:3])
    if n > 8:
        raise Unsupported('loop in %s does not return to an earlier state' % f.name)
    st.g['headers'] = seen + (key,)
    return None


def begin(ctx, name, args, size, align):
    ex = ctx.ex(contracts(size, align))
    ex.loops['*'] = close_loops

    def setup(st):
        st.g.update(phase='start', got=(), rel=(), caught=(), exc=None, excptr=0)
    if name not in ctx.m.funcs:
        raise Unsupported('%s is not defined' % name)
    return ex, start(ctx, ex, name, args, setup)


@unit('operator.{f}', ['C25'], cases=[{'f': f} for f in NEW], cxx=True)
def op_new(ctx, f):
    """a block of the size and alignment asked for, or bad_alloc (null for nothrow), after calling the handler as long as it helps"""
    aligned, nothrow = NEW[f]
    ex0 = ctx.ex({})
    size = ex0.flin('size', 0, M64)
    align = ex0.flin('alignment', 0, M64) if aligned else None
    tag = ex0.flin('tag', 1, 1 << 47)
    ctx.execs.remove(ex0)
    args = [size] + ([align] if aligned else []) + ([tag] if nothrow else [])
    ex, st = begin(ctx, f, args, size, align)

    def on_end(st, out):
        g = st.g
        O = lambda n, b: ex.oblige(st, n, b, TAG)
        kind = out[0]
        if kind == 'covered':
            return
        gave_up = g['phase'] in ('nohandler', 'threw-bad_alloc', 'threw-derived')
        O('nothing is released', g['rel'] == ())
        if kind == 'ret':
            O('every caught exception is ended', g['caught'] == ())
            v = out[1]
            if not g['got']:
                O('without a block the result is null', eq(ex, st, v, 0))
                O('only the nothrow forms return null', nothrow)
                O('gives up only without a handler or when the handler throws bad_alloc', gave_up)
            else:
                O('exactly one block is allocated', len(g['got']) == 1)
                p, ok = g['got'][-1]
                O('the block allocated is returned', eq(ex, st, v, p))
                O('the block has at least the size and alignment asked for', ok)
        elif kind == 'throw':
            cls, origin = out[1]
            O('no block is lost when an exception is thrown', g['got'] == ())
            O('the nothrow forms throw nothing', not nothrow)
            if cls == 'other':
                O('only bad_alloc or an exception of the handler is thrown', origin == 'handler' and g['phase'] == 'threw-other')
            else:
                O('bad_alloc is thrown only without a handler or when the handler throws it', gave_up)
        elif kind == 'terminate':
            O('terminates only when a handler throws something else than bad_alloc', g['phase'] == 'threw-other')
        else:
            O('ends by return or exception', False)
    ex.run(st, on_end)
    return ex


@unit('operator.{f}', ['C25'], cases=[{'f': f} for f in DELETE], cxx=True)
def op_delete(ctx, f):
    """releases exactly the block given, once, through a function that accepts it"""
    ex0 = ctx.ex({})
    p, size, align, tag = ex0.flin('ptr', 0, 1 << 47), ex0.flin('size', 0, M64), ex0.flin('alignment', 0, M64), ex0.flin('tag', 1, 1 << 47)
    ctx.execs.remove(ex0)
    form = DELETE[f]
    args = [p] + [{'s': size, 'a': align, 'n': tag}[c] for c in form]
    ex, st = begin(ctx, f, args, size, align if 'a' in form else None)

    def on_end(st, out):
        O = lambda n, b: ex.oblige(st, n, b, TAG)
        O('always returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        null = ex.must(st, eq(ex, st, p, 0))
        O('the block is released exactly once', len(st.g['rel']) == 1 or (null and not st.g['rel']))
        for r in st.g['rel']:
            d = dict(r)
            O('the block given is released', eq(ex, st, d['p'], p))
            if 's' in d:
                O('the size passed on is the size of the block', eq(ex, st, d['s'], size) if 's' in form else False)
                O('an over-aligned block is not released by its size alone', ('a' in d) == ('a' in form))
            if 'a' in d:
                O('the alignment passed on is the alignment of the block', eq(ex, st, d['a'], align) if 'a' in form else False)
        O('nothing is allocated', st.g['got'] == ())
    ex.run(st, on_end)
