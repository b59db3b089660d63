"""Values of the symbolic executor.

64-bit integers and pointers are linear forms  c + sum(coef * atom)  modulo 2^64 over atoms that carry a
z3 term and an unsigned interval.  Pointers are the same thing with one base atom of an object.  Keeping
addresses linear makes the slab address arithmetic (and the division contracts of libdivide) decidable
without non-linear reasoning.
Other widths are python ints when concrete, else z3 bit-vectors; i1 is a python bool or a z3 Bool.
"""
import z3
from math import gcd

# reference counting and sort queries cannot fail: no error check after each of them
def _fast():
    from z3 import z3 as zz
    from z3 import z3core
    def inc(a0, a1, f=z3core.Z3_inc_ref.__defaults__[0].f): f(a0, a1)
    def get_sort(a0, a1, f=z3core.Z3_get_sort.__defaults__[0].f): return f(a0, a1)
    def get_sort_kind(a0, a1, f=z3core.Z3_get_sort_kind.__defaults__[0].f): return f(a0, a1)
    zz.Z3_inc_ref, zz.Z3_get_sort, zz.Z3_get_sort_kind = inc, get_sort, get_sort_kind


_fast()
M64 = (1 << 64) - 1
CTX = z3.main_ctx()


class Atom:
    __slots__ = ('id', 'e', 'lo', 'hi', 'obj', 'name', 'narrow', 'align')

    def __init__(self, id, e, lo, hi, obj=None, name=None, narrow=None):
        self.id, self.e, self.lo, self.hi, self.obj, self.name, self.narrow = id, e, lo, hi, obj, name, narrow
        self.align = 1


ATOMS = {}
INT_MODE = False      # atoms are mathematical integers (exact linear arithmetic, wrapping made explicit) instead of 64-bit vectors


def set_mode(int_mode):
    global INT_MODE
    INT_MODE = int_mode


def int_mode():
    return INT_MODE


def reset_atoms():
    ATOMS.clear()


def atom_of(e, lo=0, hi=M64, obj=None, name=None, narrow=None):
    i = e.get_id()
    a = ATOMS.get(i)
    if a is None:
        a = ATOMS[i] = Atom(i, e, lo, hi, obj, name, narrow)
    else:
        a.lo = max(a.lo, lo)
        a.hi = min(a.hi, hi)
    return a


def sgn(x):
    x &= M64
    return x - (1 << 64) if x >> 63 else x


class Lin:
    __slots__ = ('c', 't', '_z')

    def __init__(self, c, t):
        self.c, self.t, self._z = c, t, None     # c signed python int, t dict atom id -> signed coef (non zero), non empty

    def z(self):
        if self._z is None:
            r = None
            if INT_MODE:
                for i, k in sorted(self.t.items()):
                    e = ATOMS[i].e
                    x = e if k == 1 else k * e
                    r = x if r is None else r + x
                self._z = r + self.c if self.c else r
                return self._z
            for i, k in sorted(self.t.items()):
                e = ATOMS[i].e
                x = e if k == 1 else z3.BitVecVal(k & M64, 64) * e
                r = x if r is None else r + x
            if self.c:
                r = r + z3.BitVecVal(self.c & M64, 64)
            self._z = r
        return self._z

    def key(self):
        return (self.c, tuple(sorted(self.t.items())))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = ' + '.join(('%d*' % k if k != 1 else '') + (ATOMS[i].name or str(ATOMS[i].e)[:60]) for i, k in sorted(self.t.items()))
        return '<%s + %#x>' % (s, self.c)


class Trunc:
    """low w bits of a Lin, kept lazily so that a following zero-extension can undo it"""
    __slots__ = ('l', 'w')

    def __init__(self, l, w):
        self.l, self.w = l, w

    def z(self):
        return z3.simplify(z3.Extract(self.w - 1, 0, self.l.z()))

    def __repr__(self):
        return 'trunc%d(%r)' % (self.w, self.l)


def mk(c, t):
    t = {i: k for i, k in t.items() if k}
    if not t:
        return c & M64
    return Lin(c if INT_MODE else sgn(c), t)


def parts(v):
    if isinstance(v, int):
        return sgn(v), {}
    return v.c, v.t


def ladd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & M64
    ca, ta = parts(a)
    cb, tb = parts(b)
    t = dict(ta)
    for i, k in tb.items():
        t[i] = t.get(i, 0) + k if INT_MODE else sgn(t.get(i, 0) + k)
    return mk(ca + cb, t)


def lscale(a, k):
    if isinstance(a, int):
        return (a * k) & M64
    k = sgn(k)
    return mk(a.c * k, {i: (x * k if INT_MODE else sgn(x * k)) for i, x in a.t.items()})


def lmk(c, t):
    """linear form or plain mathematical integer"""
    t = {i: k for i, k in t.items() if k}
    return Lin(c, t) if t else c


def ladd_raw(a, b):
    """sum of mathematical integers / linear forms (no reduction modulo 2^64)"""
    ca, ta = (a, {}) if isinstance(a, int) else (a.c, a.t)
    cb, tb = (b, {}) if isinstance(b, int) else (b.c, b.t)
    t = dict(ta)
    for i, k in tb.items():
        t[i] = t.get(i, 0) + k
    return lmk(ca + cb, t)


def lneg_raw(a):
    return -a if isinstance(a, int) else Lin(-a.c, {i: -k for i, k in a.t.items()})


def lsub_raw(a, b):
    return ladd_raw(a, lneg_raw(b))


def lsub(a, b):
    return ladd(a, lscale(b, -1))


def lin(e, lo=0, hi=M64, name=None, obj=None, narrow=None):
    """Lin from a z3 64-bit term"""
    if isinstance(e, int):
        return e & M64
    if z3.is_bv_value(e) or z3.is_int_value(e):
        return e.as_long()
    if INT_MODE and z3.is_bv(e):
        e = z3.BV2Int(e)
    a = atom_of(e, lo, hi, obj, name, narrow)
    return Lin(0, {a.id: 1})


def from_narrow(e, name=None, lo=0, hi=None):
    """Lin from a narrower z3 bit-vector (zero extended)"""
    if isinstance(e, int):
        return e
    w = e.size()
    if z3.is_bv_value(e):
        return e.as_long()
    h = (1 << w) - 1
    if hi is not None:
        h = min(h, hi)
    if INT_MODE:
        return lin(z3.BV2Int(e), lo, h, name, narrow=e)
    return lin(z3.ZeroExt(64 - w, e), lo, h, name, narrow=e)


def z64(v):
    if INT_MODE:
        return z3.IntVal(v) if isinstance(v, int) else v.z()
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v.z()


def zw(v, w):
    """z3 bit-vector of width w"""
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, (Lin, Trunc)):
        if INT_MODE:
            if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
                (i, k), = v.t.items()
                n = ATOMS[i].narrow
                if k == 1 and n is not None:
                    return n if n.size() == w else z3.ZeroExt(w - n.size(), n)
            return z3.Int2BV((v.l if isinstance(v, Trunc) else v).z(), w)
        return v.z()
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def simp(e):
    """z3 term -> python int/bool if it simplifies to a constant"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def zbool(v):
    if isinstance(v, (bool, int)):
        return z3.BoolVal(bool(v))
    return v


# information about comparisons so that assuming one can refine atom intervals: bool id -> (kind, Lin)
CMP = {}
_keep = []


def note(b, kind, d):
    if z3.is_expr(b):
        CMP[b.get_id()] = (kind, d)
        _keep.append(b)
    return b


def reset():
    ATOMS.clear()
    CMP.clear()
    _keep.clear()
