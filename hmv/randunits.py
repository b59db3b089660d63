"""random.c, chacha.c and the fatal-error path of util.c.

Ghost state of a generator: the keystream S of its current seed as an arbitrary array of bytes, and the position of the next
byte not handed out.  Invariant: the counter words of the ChaCha state number the next block, 64 * counter == reseed, and the
cache holds the 256 keystream bytes before that position, of which those from `index` on have not been handed out."""
import z3
from .val import *
from .exec import *
from .units import unit
from .loops import LoopRule
from .leaf import start
from . import kern, val
from .kern import zint

B64 = z3.BitVecSort(64)
CACHE, RESEED = 256, 256 * 1024


def bv(v, w=64):
    return zw(v, w) if w != 64 or z3.is_expr(v) else z64(v)


class RS(Obj):
    """struct random_state"""

    def __init__(self, ex, m, name='state'):
        super().__init__(name, m.layouts['random_state'][''])
        L = m.layouts['random_state']
        self.idx, self.res, self.ctx, self.cache = (L[f][0] for f in ('index', 'reseed', 'ctx', 'cache'))
        self.cells = CellObj(name, self.size)
        self.base = ex.addobj(self)
        ex.addobj(self.cells)

    def inside(self, off):
        return isinstance(off, int) and sgn(off) + 0 < self.cache

    def load(self, ex, st, off, n):
        if self.inside(off):
            if off + n > self.cache:
                raise Unsupported('access across fields of random_state')
            return ex.cload(st, self.cells, off, n)
        o = lsub(off, self.cache)
        return self.rd(ex, st, o, n)

    def rd(self, ex, st, o, n):
        a = st.g['cache']
        bs = [z3.Select(a, z64(ladd(o, j))) for j in range(n)]
        r = z3.simplify(z3.Concat(*reversed(bs)) if n > 1 else bs[0])
        return lin(r) if n == 8 else r

    def store(self, ex, st, off, v, n):
        if self.inside(off):
            return ex.cstore(st, self.cells, off, v, n)
        raise Unsupported('direct store to the cache')

    def memcpy_from(self, ex, st, soff, do, doff, n, dst):
        o = lsub(soff, self.cache)
        if not isinstance(n, int):
            raise Unsupported('copy of symbolic length from the cache')
        ex.oblige(st, 'only bytes of the cache are copied', z3.And(z3.ULE(z64(o), CACHE - n), z3.ULE(n, CACHE)), ('C19',))
        for k in (range(0, n, 8) if n % 8 == 0 else range(0, n, 2) if n % 2 == 0 else range(n)):
            w = 8 if n % 8 == 0 else 2 if n % 2 == 0 else 1
            ex.ostore(st, do, ladd(doff, k), self.rd(ex, st, ladd(o, k), w), w)

    def word(self, ex, st, i):
        return bv(ex.cload(st, self.cells, self.ctx + 4 * i, 4), 32)

    def ctr(self, ex, st):
        return z3.simplify(z3.Concat(self.word(ex, st, 13), self.word(ex, st, 12)))

    def get(self, ex, st, off):
        return bv(ex.cload(st, self.cells, off, 4), 32)


def z3e(w):
    return z3.ZeroExt(32, w)


def inv(ex, st, o, j):
    """the generator invariant, its cache part for byte j"""
    ctr, idx, res = o.ctr(ex, st), o.get(ex, st, o.idx), o.get(ex, st, o.res)
    S = st.g['S']
    return [('64 times the block counter is the number of bytes generated since seeding', ctr * 64 == z3e(res)),
            ('the output of one seed is bounded', z3.ULE(res, RESEED + CACHE)),
            ('the index lies in the cache', z3.ULE(idx, CACHE)),
            ('bytes not handed out yet are in the keystream of the current seed',
             z3.Implies(z3.And(z3.UGE(j, z3e(idx)), z3.ULT(j, CACHE)), z3.Select(st.g['cache'], j) == z3.Select(S, z3e(res) - CACHE + j)))]


def newstream(ex, st):
    st.g['S'] = z3.Array('stream!%d' % next(ex.fresh_n), B64, z3.BitVecSort(8))
    st.g['seeds'] = st.g.get('seeds', 0) + 1


def gen(ctx):
    """executor, object and entry state generator for functions on one random_state"""
    val.set_mode(False)
    ex = ctx.ex(kern.KERNEL)
    o = RS(ex, ctx.m)

    def setup(st):
        newstream(ex, st)
        st.g['seeds'] = 0
        idx, res = ex.fresh('index', 32), ex.fresh('reseed', 32)
        from_narrow(idx, 'index', 0, CACHE)
        cells = st.cells.setdefault(o.cells.id, {})
        cells[o.idx] = (4, idx)
        cells[o.res] = (4, res)
        st.assume(z3.And(z3.ULE(idx, CACHE), z3.ULE(res, RESEED + CACHE), z3.Extract(5, 0, res) == 0))
        # bytes not handed out exist only if a cache was generated since seeding
        st.assume(z3.Implies(z3.ULT(res, CACHE), idx == CACHE))
        cells[o.ctx + 48] = (4, z3.LShR(res, 6))
        cells[o.ctx + 52] = (4, 0)
        i = z3.BitVec('i!%d' % next(ex.fresh_n), 64)
        junk = z3.Array('junk', B64, z3.BitVecSort(8))
        st.g['cache'] = z3.Lambda([i], z3.If(z3.UGE(i, z3e(idx)), z3.Select(st.g['S'], z3e(res) - CACHE + i), z3.Select(junk, i)))
        st.g['S0'], st.g['pos0'] = st.g['S'], z3e(res) - CACHE + z3e(idx)
        st.g['idx0'] = idx

    def keystream(ex, st, args, ins):
        n = args[2]
        ex.oblige(st, 'the keystream of this generator is used', ex.cmp(st, 'eq', args[0], ladd(o.base, o.ctx), 64), ('C19',))
        ob, off = ex.resolve(st, args[1])
        if ob is not o or not isinstance(n, int) or not isinstance(off, int) or n % 64 or not 0 < n <= CACHE:
            raise Unsupported('use of the keystream not covered by the contract')
        off -= o.cache
        ex.oblige(st, 'the keystream is written inside the cache', 0 <= off <= CACHE - n, ('C19',))
        c = o.ctr(ex, st)
        i = z3.BitVec('i!%d' % next(ex.fresh_n), 64)
        st.g['cache'] = z3.Lambda([i], z3.If(z3.And(z3.UGE(i, off), z3.ULT(i, off + n)), z3.Select(st.g['S'], c * 64 + (i - off)), z3.Select(st.g['cache'], i)))
        c = z3.simplify(c + n // 64)
        ex.cstore(st, o.cells, o.ctx + 48, z3.simplify(z3.Extract(31, 0, c)), 4)
        ex.cstore(st, o.cells, o.ctx + 52, z3.simplify(z3.Extract(63, 32, c)), 4)
        st.g['blocks'] = st.g.get('blocks', 0) + n // 64
        return None

    def init(ex, st, args, ins):
        ex.oblige(st, 'this generator is reseeded', ex.cmp(st, 'eq', args[0], o.base, 64), ('C19',))
        newstream(ex, st)
        for off, v in ((o.idx, CACHE), (o.res, 0), (o.ctx + 48, 0), (o.ctx + 52, 0)):
            ex.cstore(st, o.cells, off, v, 4)
        for k in range(12):
            ex.cstore(st, o.cells, o.ctx + 4 * k, ex.fresh('key', 32), 4)
        return None
    ex.contracts['chacha_keystream_bytes'] = keystream
    ex.contracts['random_state_init'] = init
    return ex, o, setup


def post(ex, st, o, n, get, tags=('C19',)):
    """n bytes were handed out, byte j (z3 term < n) is get(j)"""
    j = z3.BitVec('any_byte', 64)
    O = lambda nm, g: ex.oblige(st, nm, g, tags)
    for nm, g in inv(ex, st, o, j):
        O(nm, g)
    # handed-out bytes are consecutive in the stream, and lie between the old and the new position
    pos1 = z3e(o.get(ex, st, o.res)) - CACHE + z3e(o.get(ex, st, o.idx))
    S0, S1, p0 = st.g['S0'], st.g['S'], st.g['pos0']
    same = st.g['seeds'] == 0
    O('the generator is reseeded at most once', st.g['seeds'] <= 1)
    return j, pos1, S0, S1, p0, same


@unit('{f}', ['C19', 'C20', 'C01', 'C07', 'C09', 'C27'], cases=[{'f': 'get_random_u16'}, {'f': 'get_random_u64'}])
def draw_unit(ctx, f):
    n = 2 if f.endswith('16') else 8
    ex, o, setup = gen(ctx)
    st = start(ctx, ex, f, [o.base], setup)

    def on_end(st, out):
        ex.oblige(st, 'returns', out[0] == 'ret', ('C19',))
        if out[0] != 'ret':
            return
        r = bv(out[1], 8 * n)
        j, pos1, S0, S1, p0, same = post(ex, st, o, n, None)
        p = pos1 - n
        for k in range(n):
            ex.oblige(st, 'every byte of the result is a byte of the keystream, in order, just before the new position',
                      z3.Extract(8 * k + 7, 8 * k, r) == z3.Select(S1, p + k), ('C19', 'C20'))
        if same:
            ex.oblige(st, 'no byte handed out before is handed out again', z3.UGE(p - 0x8000000000000000, p0 - 0x8000000000000000), ('C19', 'C20'))
        ex.oblige(st, 'only bytes generated are handed out', z3.ULE(pos1, z3e(o.get(ex, st, o.res))), ('C19', 'C20'))
    ex.run(st, on_end)


class Out(Obj):
    """the caller's buffer: which bytes were written, and the value of an arbitrary one"""

    def memcpy_to(self, ex, st, doff, so, soff, n, src):
        d, nn = z64(doff), z64(n)
        j = st.g['j']
        ex.oblige(st, 'writes only inside the buffer', z3.And(z3.ULE(nn, st.g['size']), z3.ULE(d, st.g['size'] - nn)), ('C19',))
        if not isinstance(so, RS):
            raise Unsupported('copy from %s' % so.name)
        s = z64(lsub(soff, so.cache))
        ex.oblige(st, 'copies only bytes of the cache', z3.And(z3.ULE(nn, CACHE), z3.ULE(s, CACHE - nn)), ('C19',))
        here = z3.And(z3.UGE(j, d), z3.ULT(j - d, nn))
        st.g['got'] = z3.If(here, z3.Select(st.g['cache'], s + (j - d)), st.g['got'])
        st.g['written'] = z3.Or(here, st.g['written'])


@unit('get_random_bytes', ['C19'])
def bytes_unit(ctx):
    """for every size up to 128 bytes (larger requests are never made)"""
    ex, o, setup = gen(ctx)
    buf = ex.addobj(Out('buffer', None))
    sz = from_narrow(ex.fresh('size', 8), 'size', 0, 128)
    size = z64(sz)

    def setup2(st):
        setup(st)
        st.g['j'], st.g['size'] = z3.BitVec('j', 64), size
        st.g['got'], st.g['written'] = z3.BitVec('old_byte', 8), z3.BoolVal(False)
        st.assume(z3.ULE(size, 128))
        st.assume(z3.ULT(st.g['j'], size))
    st = start(ctx, ex, 'get_random_bytes', [o.base, buf, sz], setup2)
    ex.max_unroll = 4

    def on_end(st, out):
        ex.oblige(st, 'returns', out[0] == 'ret', ('C19',))
        if out[0] != 'ret':
            return
        j = st.g['j']
        jj, pos1, S0, S1, p0, same = post(ex, st, o, None, None)
        ex.oblige(st, 'every byte of the buffer is filled', st.g['written'], ('C19',))
        rem = z3e(z3.BitVecVal(CACHE, 32) - st.g['idx0'])
        if same:
            want = z3.Select(S1, p0 + j)
            ex.oblige(st, 'the position advances by the number of bytes handed out', pos1 == p0 + size, ('C19',))
        else:
            want = z3.If(z3.ULT(j, rem), z3.Select(S0, p0 + j), z3.Select(S1, j - rem))
            ex.oblige(st, 'the position advances by the number of bytes handed out', pos1 == size - rem, ('C19',))
        ex.oblige(st, 'the bytes are consecutive keystream bytes', st.g['got'] == want, ('C19',))
    ex.run(st, on_end)


# ------------------------------------------------------------------------------------------------ seeding
@unit('get_random_seed', ['C18', 'C19'])
def seed_unit(ctx):
    """returns only when every byte of the buffer was filled by the kernel; a failure other than EINTR is fatal"""
    ex = ctx.ex(kern.KERNEL)
    size = ex.flin('size', 1, 4096)
    p = ex.newbase('buf', lo=1 << 16, hi=1 << 46, align=1)
    j = ex.flin('j', 0, 4095)

    def getrandom(ex, st, args, ins):
        a, n = args[0], args[1]
        d = lsub_raw(a, p)
        ex.oblige(st, 'asks the kernel to write only inside the buffer', z3.And(zint(d) >= 0, zint(ladd_raw(d, n)) <= zint(size)), ('C19',))
        ex.oblige(st, 'asks for blocking, secure randomness', ex.cmp(st, 'eq', args[2], 0, 32), ('C19',))
        t = st.copy()
        e = kern.havoc_errno(ex, t)
        t.g['bad'] = e != kern.EINTR
        r = ex.flin('r', 0, 4096)
        st.assume(zint(r) <= zint(n))
        st.g['bad'] = zint(r) == 0
        st.g['filled'] = z3.Or(st.g['filled'], z3.And(zint(j) >= zint(d), zint(j) < zint(d) + zint(r)))
        return ('alts', [(st, r), (t, M64)])
    ex.contracts['getrandom'] = getrandom

    def cands(ex, st, vals, steps):
        out = []

        def isptr(v):
            return isinstance(v, Lin) and any(ATOMS[i].obj is not None for i in v.t)
        ints = [k for k, v in vals.items() if isinstance(v, (int, Lin)) and not isinstance(v, bool)]
        for k in ints:
            ptr = isptr(vals[k])
            pr = (lambda v, k=k: zint(lsub_raw(v[k], p))) if ptr else (lambda v, k=k: zint(v[k]))
            out.append(('%s is the number of bytes filled' % k, lambda s, v, n, pr=pr: z3.And(pr(v) >= 0, pr(v) <= zint(size), z3.Implies(zint(j) < pr(v), s.g['filled']))))
            out.append(('%s is the number of bytes left' % k, lambda s, v, n, pr=pr: z3.And(pr(v) >= 0, pr(v) <= zint(size), z3.Implies(zint(j) < zint(size) - pr(v), s.g['filled']))))
            for q in ints:
                if q != k and isptr(vals[q]) and not ptr:
                    out.append(('%s + %s is constant' % (k, q), lambda s, v, n, k=k, q=q: zint(v[k]) + zint(lsub_raw(v[q], p)) == zint(size)))
        f0 = st.g['filled']
        out.append(('nothing is filled in the loop', lambda s, v, n: s.g['filled'] == f0))
        out.append(('no unhandled failure', lambda s, v, n: z3.Not(s.g['bad'])))
        return out

    def havoc(ex, s, n):
        s.g['filled'] = ex.fbool('filled')
        s.g['bad'] = ex.fbool('bad')
    rule = LoopRule(cands, havoc=havoc, tags=('C19',), ghosts=('filled', 'bad'))
    ex.loops['*'] = rule

    def setup(st):
        st.g['filled'] = z3.BoolVal(False)
        st.g['bad'] = z3.BoolVal(False)
        st.assume(zint(j) < zint(size))
    st = start(ctx, ex, 'get_random_seed', [p, size], setup)

    def on_end(st, out):
        if out[0] == 'fatal':
            ex.oblige(st, 'is fatal only if getrandom fails', st.g['bad'], ('C19',))
            return
        ex.oblige(st, 'returns or is fatal', out[0] == 'ret', ('C19',))
        ex.oblige(st, 'every byte is filled by the kernel', st.g['filled'], ('C19',))
        ex.oblige(st, 'failure of getrandom is fatal', z3.Not(st.g['bad']), ('C19',))
    ex.run(st, on_end)


SIGMA = [int.from_bytes(b'expand 32-byte k'[i:i + 4], 'little') for i in (0, 4, 8, 12)]


def le32(bs):
    return z3.Concat(*reversed(bs))


@unit('{f}', ['C19', 'C18'], cases=[{'f': 'random_state_init'}, {'f': 'random_state_init_from_random_state'}])
def init_unit(ctx, f):
    """the ChaCha state is the constants, 32 bytes of key, a zero counter and 8 bytes of nonce, all fresh; nothing of the old cache is used"""
    val.set_mode(False)
    ex = ctx.ex(kern.KERNEL)
    m = ctx.m
    L = m.layouts['random_state']
    o = CellObj('state', L[''])
    p = ex.addobj(o)
    src = ex.addobj(CellObj('source', L['']))

    def fill(st, a, n, what):
        ob, off = ex.resolve(st, a)
        if not isinstance(n, int) or not isinstance(off, int):
            raise Unsupported('seed size')
        ex.oblige(st, 'seed is written inside its buffer', ob.size is None or off + n <= ob.size, ('C19',))
        for k in range(n):
            b = ex.fresh('rnd', 8)
            st.g['fresh'] = st.g.get('fresh', ()) + (b,)
            ex.ostore(st, ob, off + k, b, 1)
        st.g['fills'] = st.g.get('fills', 0) + 1

    def seed(ex, st, args, ins):
        st.ev.append(('kernel',))
        fill(st, args[0], args[1], 'kernel')

    def rbytes(ex, st, args, ins):
        st.ev.append(('source',))
        ex.oblige(st, 'the seed comes from the source generator', ex.cmp(st, 'eq', args[0], src, 64), ('C19',))
        fill(st, args[1], args[2], 'source')
    ex.contracts['get_random_seed'] = seed
    ex.contracts['get_random_bytes'] = rbytes
    st = start(ctx, ex, f, [p] + ([src] if f != 'random_state_init' else []))

    def on_end(st, out):
        O = lambda nm, g: ex.oblige(st, nm, g, ('C19', 'C18'))
        O('returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        O('the seed is drawn from the right source', {e[0] for e in st.ev} == {'kernel' if f == 'random_state_init' else 'source'})
        fr = list(st.g.get('fresh', ()))
        O('40 random bytes are drawn', len(fr) == 40)
        if len(fr) != 40:
            return
        c = L['ctx'][0]
        w = [bv(ex.cload(st, o, c + 4 * i, 4), 32) for i in range(16)]
        for i in range(4):
            O('constant words', w[i] == SIGMA[i])
        O('the counter starts at zero', z3.And(w[12] == 0, w[13] == 0))
        used = [le32(fr[4 * i:4 * i + 4]) for i in range(10)]
        O('key and nonce are the random bytes, each used once', z3.And(*[a == b for a, b in zip(w[4:12] + w[14:16], used)]))
        O('the cache is empty', bv(ex.cload(st, o, L['index'][0], 4), 32) == CACHE)
        O('the count of output starts at zero', bv(ex.cload(st, o, L['reseed'][0], 4), 32) == 0)
    ex.run(st, on_end)


class Numbering:
    """32-bit operations up to commutativity: equal operations on equal operands get the same name (congruence, no interpretation)"""

    def __init__(self):
        self.t, self.shift, self.n = {}, {}, 0

    def key(self, a):
        return a if isinstance(a, int) else a.get_id()

    def name(self, *k):
        r = self.t.get(k)
        if r is None:
            self.n += 1
            r = self.t[k] = z3.BitVec('v%d' % self.n, 32)
        return r

    def op(self, op, a, b):
        a, b = [x.as_long() if z3.is_expr(x) and z3.is_bv_value(x) else x for x in (a, b)]
        if isinstance(a, int) and isinstance(b, int):
            return {'add': a + b, 'xor': a ^ b, 'or': a | b, 'and': a & b, 'shl': a << b, 'lshr': a >> b}[op] & 0xffffffff
        if op in ('add', 'xor', 'or') and 0 in (a, b):
            return b if isinstance(a, int) else a
        if op == 'and' and 0xffffffff in (a, b):
            return b if isinstance(a, int) else a
        if op in ('shl', 'lshr'):
            if b == 0:
                return a
            r = self.name(op, self.key(a), self.key(b))
            self.shift[r.get_id()] = (op, a, b)
            return r
        if op in ('or', 'add', 'xor'):
            x, y = self.shift.get(self.key(a)), self.shift.get(self.key(b))
            if x and y and {x[0], y[0]} == {'shl', 'lshr'} and self.key(x[1]) == self.key(y[1]) and isinstance(x[2], int) and isinstance(y[2], int) and x[2] + y[2] == 32:
                return self.rotl(x[1], x[2] if x[0] == 'shl' else y[2])
        return self.name(op, *sorted((self.key(a), self.key(b))))

    def rotl(self, x, n):
        if isinstance(x, int):
            return (x << n | x >> (32 - n)) & 0xffffffff
        return self.name('rotl', self.key(x), n)


def qr(N, s, a, b, c, d):
    for x, y, z, n in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
        s[x] = N.op('add', s[x], s[y])
        s[z] = N.rotl(N.op('xor', s[z], s[x]), n)


def chacha8(N, w):
    s = list(w)
    for r in range(4):
        for q in ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)):
            qr(N, s, *q)
    return [N.op('add', a, b) for a, b in zip(s, w)]


@unit('chacha_keystream_bytes', ['C19'], cost=2)
def chacha_unit(ctx):
    """every block is the ChaCha8 block of the state with its counter, the counter advances by one per block (all states, 64 to 256 bytes)"""
    val.set_mode(False)
    for nblk in (1, 2, 4):
        for carry in range(-1, nblk):
            # the low counter word does not overflow (carry < 0) or does so after carry + 1 blocks
            ex = ctx.ex(kern.KERNEL, timeout=60000)
            N = Numbering()
            x, c = CellObj('ctx', 64), CellObj('out', 64 * nblk)
            px, pc = ex.addobj(x), ex.addobj(c)
            w = [z3.BitVec('w%d' % i, 32) for i in range(16)]
            if carry >= 0:
                w[12] = (-1 - carry) & 0xffffffff

            def ctr(b):
                """the two counter words of block b"""
                if carry >= 0:
                    v = w[12] + b
                    return v & 0xffffffff, N.op('add', w[13], 1) if v >> 32 else w[13]
                lo = w[12]
                for i in range(b):
                    lo = N.op('add', lo, 1)
                return lo, w[13]

            def setup(st):
                cells = st.cells.setdefault(x.id, {})
                for i in range(16):
                    cells[4 * i] = (4, w[i])
                if carry < 0:
                    for b in range(1, nblk + 1):
                        st.assume(ctr(b)[0] != 0)
            plain = ex.binop

            def binop(st, op, a, b, wd, flags=()):
                if wd == 32 and op in ('add', 'xor', 'or', 'and', 'shl', 'lshr') and all(isinstance(v, int) or z3.is_bv(v) for v in (a, b)) and not (op == 'and' and 0xffffffff not in (a, b)):
                    return N.op(op, a, b)
                return plain(st, op, a, b, wd, flags)
            ex.binop = binop
            # bytes of words are kept as they are until the end
            st = start(ctx, ex, 'chacha_keystream_bytes', [px, pc, 64 * nblk], setup)

            def on_end(st, out):
                O = lambda nm, g: ex.oblige(st, nm, g, ('C19',))
                O('returns', out[0] == 'ret')
                if out[0] != 'ret':
                    return
                w2 = [bv(ex.cload(st, x, 4 * i, 4), 32) for i in range(16)]
                O('constants, key and nonce are kept', z3.And(*[a == b for i, (a, b) in enumerate(zip(w, w2)) if i not in (12, 13)]))
                lo, hi = ctr(nblk)
                O('the counter advances by the number of blocks', z3.And(w2[12] == lo, w2[13] == hi))
                for b in range(nblk):
                    s = list(w)
                    s[12], s[13] = ctr(b)
                    for i, v in enumerate(chacha8(N, s)):
                        for k in range(4):
                            got = bv(ex.cload(st, c, 64 * b + 4 * i + k, 1), 8)
                            want = N.op('lshr', v, 8 * k)
                            O('every output byte is that of the ChaCha8 block', got == z3.Extract(7, 0, bv(want, 32)))
            ex.run(st, on_end)


# ------------------------------------------------------------------------------------------------ bounded draws
@unit('{f}', ['C20', 'C01', 'C09', 'C27'], cases=[{'f': 'get_random_u16_uniform'}, {'f': 'get_random_u64_uniform'}])
def uniform_unit(ctx, f):
    """a raw draw d is accepted exactly if the low half of d * bound is at least 2^w mod bound, the result is the high half"""
    val.set_mode(False)
    w = 16 if '16' in f else 64
    raw = 'get_random_u%d' % w
    ex = ctx.ex(kern.KERNEL, timeout=60000)
    rng = ex.addobj(CellObj('rng', 4096))
    bound = ex.fresh('bound', w)
    T = ('C20',)
    nb = z3.simplify(-bound)
    thr = z3.URem(nb, bound)                      # == 2^w mod bound for bound > 0

    def prod(d):
        return z3.simplify(z3.ZeroExt(w, d) * z3.ZeroExt(w, bound))

    def lo(d):
        return z3.simplify(z3.Extract(w - 1, 0, prod(d)))

    def hi(d):
        return z3.simplify(z3.Extract(2 * w - 1, w, prod(d)))
    acc = lambda d: z3.UGE(lo(d), thr)

    def draw(ex, st, args, ins):
        ex.oblige(st, 'draws from the generator passed in', ex.cmp(st, 'eq', args[0], rng, 64), T)
        d0 = st.g.get('draw')
        if d0 is not None:
            ex.oblige(st, 'a draw is rejected only when that is needed', z3.Not(acc(d0)), T)
        d = ex.fresh('draw', w)
        st.g['draw'] = d
        return lin(d) if w == 64 else d
    ex.contracts[raw] = draw
    if w == 16:
        # the threshold, however it is computed, is a remainder of the division by the bound: its value is fixed by two facts
        pass

    def cands(ex, st, vals, steps):
        out = []
        for k, v in vals.items():
            try:
                n = v.w if isinstance(v, Trunc) else 64 if isinstance(v, (int, Lin)) else v.size()
            except AttributeError:
                continue
            def val_(v, k=k, n=n):
                return zw(v[k], n) if n != 64 else z64(v[k]) if not z3.is_expr(v[k]) else v[k]
            def ex_(t, n):
                t = z3.simplify(t)
                return z3.ZeroExt(n - t.size(), t) if n > t.size() else z3.simplify(z3.Extract(n - 1, 0, t))
            for nm, fn in (('the last draw', lambda d: d), ('the last product', prod), ('its low half', lo), ('its high half', hi)):
                out.append(('%s is %s' % (k, nm), lambda s, v, i, fn=fn, val_=val_, n=n: val_(v) == ex_(fn(s.g['draw']), n) if s.g.get('draw') is not None else z3.BoolVal(False)))
        return out

    def havoc(ex, s, n):
        s.g['draw'] = ex.fresh('draw', w)
    ex.loops['*'] = LoopRule(cands, havoc=havoc, tags=T, ghosts=('draw',))
    st = start(ctx, ex, f, [rng, lin(bound) if w == 64 else bound])
    st.assume(bound != 0)

    def on_end(st, out):
        O = lambda nm, g: ex.oblige(st, nm, g, T)
        O('returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        d = st.g.get('draw')
        O('a random number is drawn', d is not None)
        if d is None:
            return
        O('a draw that must be rejected is not used', acc(d))
        O('the result is the high half of draw * bound', bv(out[1], w) == hi(d))
    ex.run(st, on_end)


@unit('uniform.zero', ['C20', 'C10', 'C11'])
def uniform_zero(ctx):
    """bound 0 yields 0"""
    val.set_mode(False)
    ex = ctx.ex(kern.KERNEL)
    rng = ex.addobj(CellObj('rng', 4096))
    ex.contracts['get_random_u64'] = lambda ex, st, a, i: lin(ex.fresh('draw', 64))
    st = start(ctx, ex, 'get_random_u64_uniform', [rng, 0])
    ex.max_unroll = 2
    ex.run(st, lambda st, out: ex.oblige(st, 'returns 0', ex.cmp(st, 'eq', out[1], 0, 64) if out[0] == 'ret' else False, ('C20', 'C10', 'C11')))


@unit('lemma.uniform', ['C20'])
def uniform_lemma(ctx):
    """mathematics of the acceptance rule: with t = 2^w mod b, the accepted raw draws with result v are the r with
    v 2^w + t <= r b < (v+1) 2^w; there are exactly floor(2^w / b) of them for every v < b, and the result is below b"""
    ex = ctx.ex(kern.KERNEL)
    r, b, q, l, v, t, k, m = z3.Ints('r b q l v t k m')
    for w in (16, 64):
        W = 1 << w
        st = State()
        st.pc = []
        pre = [b >= 1, b < W, r >= 0, r < W, l >= 0, l < W, r * b == q * W + l]
        for x in pre:
            st.assume(x)
        st.assume((W - 1 - r) * b >= 0)                                  # product of non-negative numbers
        ex.oblige(st, 'the result is below the bound', q < b, ('C20',))
        ex.flush(st)
        st = State()
        # W = k b + t, 0 <= t < b: the interval [v W + t, (v + 1) W) has length k b; it holds k multiples of b:
        # the least multiple r0 b of the interval satisfies r0 b < v W + t + b, so r0, ..., r0 + k - 1 are in it and r0 - 1, r0 + k are not
        r0, i = z3.Ints('r0 i')
        kb, r0b, ib = z3.Ints('kb r0b ib')                               # k b, r0 b, i b
        for x in (b >= 1, t >= 0, t < b, kb == W - t, v >= 0, v < b, r0b >= v * W + t, r0b < v * W + t + b):
            st.assume(x)
        ex.oblige(st, 'multiples r0 b .. (r0 + k - 1) b lie in the interval', z3.Implies(z3.And(ib >= 0, ib <= kb - b), r0b + ib < (v + 1) * W), ('C20',))
        ex.oblige(st, '2^w mod b is (2^w - b) mod b', z3.Implies(z3.And(m * b + l == W - b, l < b, l >= 0), (m + 1) * b + l == W), ('C20',))
        ex.oblige(st, 'no other multiple lies in it', z3.And(r0b - b < v * W + t, r0b + kb >= (v + 1) * W), ('C20',))
        ex.flush(st)
    ex.paths = ex.normal_paths = 1


# ------------------------------------------------------------------------------------------------ util.c
@unit('write_full', ['C26'])
def write_full(ctx):
    """success only after every byte was written, in order; interrupted and partial writes are continued; other errors are reported"""
    ex = ctx.ex(kern.KERNEL)
    n = ex.flin('length', 0, 1 << 30)
    p = ex.newbase('buf', lo=1 << 16, hi=1 << 46, align=1)
    fd = ex.fresh('fd', 32)
    T = ('C26',)

    def write(ex, st, args, ins):
        W = st.g['written']
        ex.oblige(st, 'writes to the given file', ex.cmp(st, 'eq', args[0], fd, 32), T)
        ex.oblige(st, 'continues at the first byte not written yet, with all the rest', z3.And(zint(lsub_raw(args[1], p)) == W, zint(args[2]) == zint(n) - W), T)
        ex.oblige(st, 'does not write after an error', z3.Not(st.g['err']), T)
        t = st.copy()
        e = kern.havoc_errno(ex, t)
        t.g['err'] = e != kern.EINTR
        r = ex.flin('r', 0, 1 << 30)
        st.assume(zint(r) <= zint(args[2]))
        st.g['written'] = W + zint(r)
        return ('alts', [(st, r), (t, M64)])
    ex.contracts['write'] = write

    def cands(ex, st, vals, steps):
        out = [('no error so far', lambda s, v, i: z3.Not(s.g['err'])), ('written in range', lambda s, v, i: z3.And(s.g['written'] >= 0, s.g['written'] <= zint(n)))]
        for k, v in vals.items():
            if not isinstance(v, (int, Lin)) or isinstance(v, bool):
                continue
            if isinstance(v, Lin) and any(ATOMS[i].obj is not None for i in v.t):
                out.append(('%s is the next byte' % k, lambda s, v, i, k=k: zint(lsub_raw(v[k], p)) == s.g['written']))
            else:
                out.append(('%s is the rest' % k, lambda s, v, i, k=k: zint(v[k]) == zint(n) - s.g['written']))
                out.append(('%s is the count' % k, lambda s, v, i, k=k: zint(v[k]) == s.g['written']))
        return out

    def havoc(ex, s, i):
        s.g['written'] = z3.Int('written!%d' % next(ex.fresh_n))
        s.g['err'] = ex.fbool('err')
    ex.loops['*'] = LoopRule(cands, havoc=havoc, tags=T, ghosts=('written', 'err'))

    def setup(st):
        st.g['written'], st.g['err'] = z3.IntVal(0), z3.BoolVal(False)
    st = start(ctx, ex, 'write_full', [fd, p, n], setup)

    def on_end(st, out):
        ex.oblige(st, 'returns', out[0] == 'ret', T)
        if out[0] != 'ret':
            return
        ok = ex.cmp(st, 'ne', out[1], 0xffffffff, 32)
        ex.oblige(st, 'reports success exactly if everything was written', z3.If(zbool(ok), z3.And(st.g['written'] == zint(n), z3.Not(st.g['err'])), st.g['err']), T)
    ex.run(st, on_end)


@unit('fatal_error', ['C26'])
def fatal_error(ctx):
    """prefix, message, newline, all in full; then abort, whatever happened; nothing else is called"""
    ex = ctx.ex({k: v for k, v in kern.KERNEL.items() if k != 'fatal_error'})
    ex.only_fatal = True
    s = ex.newbase('message', lo=1 << 16, hi=1 << 46, align=1)
    L = ex.flin('strlen', 0, 1 << 20)
    T = ('C26',)

    def strlen(ex, st, args, ins):
        if args[0] == s:
            return L
        t = ex.cstr(st, args[0])
        if not isinstance(t, str):
            raise Unsupported('strlen of something else')
        return len(t)

    def write_full(ex, st, args, ins):
        t = st.copy()
        a = 'message' if args[1] == s else ex.cstr(st, args[1])
        n = args[2]
        full = n == L if a == 'message' else isinstance(a, str) and n == len(a)
        for x, ok in ((st, True), (t, False)):
            x.ev.append((args[0], a, bool(full), ok))
        return ('alts', [(st, 0), (t, 0xffffffff)])
    ex.contracts['strlen'] = strlen
    ex.contracts['write_full'] = write_full
    st = start(ctx, ex, 'fatal_error', [s])

    def on_end(st, out):
        ex.oblige(st, 'ends in abort', out[0] == 'abort', T)
        want = ['fatal allocator error: ', 'message', '\n']
        got = [e[1] for e in st.ev]
        ex.oblige(st, 'everything goes to standard error in full', all(e[0] == 2 and e[2] for e in st.ev), T)
        if all(e[3] for e in st.ev):
            ex.oblige(st, 'the complete message is written', got == want, T)
        else:
            ex.oblige(st, 'nothing but the message is written', got == want[:len(got)], T)
    ex.run(st, on_end)
