"""Symbolic executor / verification condition generator over LLVM IR."""
import time
import itertools
import z3
from .ir import Unsupported, PTR, VOID, INT
from .val import *
from . import val as V
from . import par


class Undecided(Exception):
    pass


class ForkOn(Exception):
    """re-execute the current instruction once for each of these conditions"""

    def __init__(self, conds):
        self.conds = conds


class Infeasible(Exception):
    pass


class Fault(Exception):
    def __init__(self, what):
        self.what = what


class Frame:
    __slots__ = ('f', 'b', 'i', 'regs', 'prev', 'ins', 'visits', 'allocas')

    def copy(self):
        n = Frame()
        n.f, n.b, n.i, n.prev, n.ins = self.f, self.b, self.i, self.prev, self.ins
        n.regs = dict(self.regs)
        n.visits = dict(self.visits)
        n.allocas = list(self.allocas)
        return n


class State:
    def __init__(self):
        self.frames = []
        self.pc = []
        self.cells = {}       # obj id -> {off: (nbytes, val)}
        self.arr = {}         # (obj id, field) -> z3 array
        self.ev = []          # event log
        self.g = {}           # ghost
        self.bnd = {}         # atom id -> (lo, hi) path refinement
        self.inst = frozenset()    # instantiated invariants
        self.trace = []       # taken branches (line numbers), diagnostics
        self.obs = []         # pending obligations (name, goal, tags, line)
        self.killed = frozenset()
        self.inst_norm = {}
        self.alias = {}
        self.local = ()       # premises of the obligations being recorded

    def copy(self):
        n = State()
        n.frames = [f.copy() for f in self.frames]
        n.pc = list(self.pc)
        n.cells = {k: dict(v) for k, v in self.cells.items()}
        n.arr = dict(self.arr)
        n.ev = list(self.ev)
        n.g = {k: (dict(v) if type(v) is dict else list(v) if type(v) is list else v) for k, v in self.g.items()}
        n.bnd = dict(self.bnd)
        n.inst = self.inst
        n.trace = list(self.trace)
        n.obs = list(self.obs)
        n.killed = self.killed
        n.inst_norm = dict(self.inst_norm)
        n.alias = dict(self.alias)
        n.local = self.local
        return n

    # --- intervals
    def ab(self, i):
        a = ATOMS[i]
        b = self.bnd.get(i)
        return (a.lo, a.hi) if b is None else (max(a.lo, b[0]), min(a.hi, b[1]))

    def rng(self, v):
        """interval of the mathematical value of the linear form (not reduced mod 2^64)"""
        if isinstance(v, int):
            return (v, v)
        lo = hi = v.c
        for i, k in v.t.items():
            l, h = self.ab(i)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    def urng(self, v):
        """unsigned interval, or the full range if the form may wrap"""
        lo, hi = self.rng(v)
        if lo >= 0 and hi <= M64:
            return lo, hi
        if hi < 0 and lo >= -(1 << 64):
            return lo + (1 << 64), hi + (1 << 64)
        return 0, M64

    def exact(self, v):
        lo, hi = self.rng(v)
        return lo >= 0 and hi <= M64

    def unalias(self, v):
        """replace atoms known to equal another linear form on this path"""
        for i in list(v.t):
            if i in self.alias:
                k = v.t[i]
                v = ladd_raw(lmk(v.c, {j: q for j, q in v.t.items() if j != i}), lscale(self.alias[i], k))
                if isinstance(v, int):
                    break
        return v

    def subst(self, v):
        """replace atoms fixed on this path by their value"""
        if isinstance(v, int):
            return v
        if self.alias:
            v = self.unalias(v)
            if isinstance(v, int):
                return v
        c, t, ch = v.c, {}, False
        for i, k in v.t.items():
            l, h = self.ab(i)
            if l == h:
                c += k * l
                ch = True
            else:
                t[i] = k
        return mk(c, t) if ch else v

    def subst_raw(self, v):
        """like subst, but the result is a mathematical integer"""
        if self.alias:
            v = self.unalias(v)
            if isinstance(v, int):
                return v
        c, t, ch = v.c, {}, False
        for i, k in v.t.items():
            l, h = self.ab(i)
            if l == h:
                c += k * l
                ch = True
            else:
                t[i] = k
        if not t:
            return c
        return Lin(c, t) if ch else v

    def assume(self, b):
        if isinstance(b, (bool, int)):
            if not b:
                self.pc.append(z3.BoolVal(False))
            return
        b = z3.simplify(b) if False else b
        self.pc.append(b)
        self._refine(b, True)

    def _refine(self, b, pos):
        info = CMP.get(b.get_id())
        if info is None:
            if z3.is_not(b):
                self._refine(b.arg(0), not pos)
            elif z3.is_and(b) and pos:
                for x in b.children():
                    self._refine(x, True)
            elif z3.is_or(b) and not pos:
                for x in b.children():
                    self._refine(x, False)
            return
        kind, d = info
        if len(d.t) != 1:
            return
        (i, k), = d.t.items()
        lo, hi = self.ab(i)
        c = d.c
        if kind == 'lt0':         # k*a + c < 0
            if not pos:           # >= 0
                if k > 0:
                    lo = max(lo, -(c // k))
                    # a >= ceil(-c/k)
                else:
                    hi = min(hi, c // -k)
            else:
                if k > 0:
                    hi = min(hi, (-c - 1) // k)
                else:
                    lo = max(lo, c // -k + 1)
        elif kind == 'eq0':
            if pos:
                if c % k == 0:
                    x = -c // k
                    lo, hi = max(lo, x), min(hi, x)
            else:
                if c % k == 0:
                    x = -c // k
                    if x == lo:
                        lo += 1
                    if x == hi:
                        hi -= 1
        self.bnd[i] = (lo, hi)

    def fr(self):
        return self.frames[-1]


# ------------------------------------------------------------------ memory objects
class Obj:
    n = itertools.count(1)

    def __init__(self, name, size=None):
        self.name, self.size = name, size
        self.id = next(Obj.n)
        self.stack = False


class CellObj(Obj):
    """object accessed at constant offsets; init(st, off, nbytes) supplies unknown initial contents"""

    def __init__(self, name, size, init=None, const=False):
        super().__init__(name, size)
        self.init, self.const = init, const
        self.onload = self.onstore = None


class ByteArr(Obj):
    """byte array with symbolic offsets (z3 array BV64 -> BV8)"""

    def __init__(self, name, size, init=None):
        super().__init__(name, size)
        self.init_arr = init


class ArrObj(Obj):
    """array of structs: fields = {foff: (nbytes, name, codec)}; n = element count or None"""

    def __init__(self, name, esz, fields, count=None):
        super().__init__(name, None)
        self.esz, self.fields, self.count = esz, fields, count
        self.hook = None


class SubObj:
    """an object placed at a linear offset inside the base atom of another one"""


class Ob:
    """one proof obligation result"""
    __slots__ = ('name', 'tags', 'ok', 'info', 'unit')

    def __init__(self, name, tags, ok, info=None, unit=None):
        self.name, self.tags, self.ok, self.info, self.unit = name, tags, ok, info, unit


ARITH = [2]                    # z3's simplex core: several times faster than the default one on these obligations
ACTIVE = [None]                # the property being checked: obligations of others are not discharged
FRESH = itertools.count()      # names are unique over all executors of a process: atoms are shared by term


class Exec:
    def __init__(self, mod, timeout=20000):
        self.m = mod
        self.typeids = {}
        self.contracts = {}
        self.loops = {}            # (func name, header) or callable -> loop contract
        self.objs = {}             # base atom id -> list of (Lin offset of object start relative to base, obj)
        self.globals = {}
        self.max_unroll = 300
        self.ob_results = []
        self.done_obs = {}
        self.n_ob = self.n_query = 0
        self.solver_time = 0.0
        self.timeout = timeout
        self.arith = ARITH[0]
        self.solver = self.mksolver(timeout)
        self.stack = []
        self.split64 = None
        self.submode = None
        self.parpaths = False      # on_end has no effect besides obligations: subtrees of paths may run in other processes
        self.groups = {}
        self.axioms = []
        self.n_ax = 0
        self.unit = '?'
        self.fresh_n = FRESH
        self.paths = self.normal_paths = 0
        self.called = set()
        self.inlined = set()
        self.used_contracts = set()
        self.blocks_seen = set()
        self.max_paths = 20000
        self.deadline = None
        self.default_tags = ()
        self.faults_tags = ()
        self.bv_first = False

    # -------------------------------------------------------------- solver
    def mksolver(self, timeout):
        s = z3.Solver()
        s.set('timeout', min(timeout, 5000))
        if self.arith is not None:
            s.set('arith.solver', self.arith)
        return s

    def sync(self, pc):
        if self.n_ax < len(self.axioms):
            # axioms live at the bottom of the assertion stack
            if self.stack:
                self.solver.pop(len(self.stack))
                self.stack = []
            self.solver.add(*self.axioms[self.n_ax:])
            self.n_ax = len(self.axioms)
        k = 0
        n = min(len(self.stack), len(pc))
        while k < n and self.stack[k] is pc[k]:
            k += 1
        if len(self.stack) > k:
            self.solver.pop(len(self.stack) - k)
            del self.stack[k:]
        for b in pc[k:]:
            self.solver.push()
            self.solver.add(b)
            self.stack.append(b)

    def check_fresh(self, pc, *extra):
        """one large query: faster without the incremental solver's state"""
        t0 = time.time()
        self.n_query += 1
        r = z3.unknown
        if not V.INT_MODE and self.bv_first:
            r = self.bv_portfolio(pc, extra)[0]
            self.solver_time += time.time() - t0
            return r
        # z3's two simplex cores in turn: either may get stuck where the other one is fast
        for arith, limit in ((self.arith, 800), (None, 5000), (self.arith, self.timeout)):
            s = z3.Solver()
            s.set('timeout', limit)
            if arith is not None:
                s.set('arith.solver', arith)
            s.add(*self.axioms)
            s.add(*pc)
            s.add(*extra)
            r = s.check()
            if r != z3.unknown:
                break
        self.solver_time += time.time() - t0
        return r

    def bv_portfolio(self, pc, extra):
        """z3's bit-vector tactic and its general core in turn: either may get stuck where the other one is fast"""
        for logic, limit in (('QF_AUFBV', 2500), (None, 5000), ('QF_AUFBV', 20000), (None, 40000), ('QF_AUFBV', 3 * self.timeout)):
            s = z3.SolverFor(logic) if logic else z3.Solver()
            s.set('timeout', limit)
            s.add(*self.axioms)
            s.add(*pc)
            s.add(*extra)
            r = s.check()
            if r != z3.unknown:
                break
        return r, s.model() if r == z3.sat else None

    def check(self, pc, *extra, model=False):
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Undecided('unit time limit')
        self.n_query += 1
        self.sync(pc)
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        mdl = self.solver.model() if (model and r == z3.sat) else None
        if extra:
            self.solver.pop()
        if r == z3.unknown and self.bv_first and not V.INT_MODE:
            r, mdl = self.bv_portfolio(pc, extra)
        elif r == z3.unknown:
            if V.INT_MODE:
                s = z3.Solver()
            else:
                s = z3.SolverFor('QF_AUFBV')
            s.set('timeout', self.timeout * 3)
            s.add(*self.axioms)
            s.add(*pc)
            s.add(*extra)
            r = s.check()
            if r == z3.unknown and self.arith is not None:
                s.set('arith.solver', self.arith)
                r = s.check()
            if r == z3.sat and model:
                mdl = s.model()
        self.solver_time += time.time() - t0
        if r == z3.unknown:
            raise Undecided('solver gave no answer (%s)' % self.unit)
        return (r == z3.sat, mdl) if model else r == z3.sat

    def feasible(self, st, *extra):
        ex = []
        for e in extra:
            if isinstance(e, (bool, int)):
                if not e:
                    return False
                continue
            ex.append(e)
        return self.check(st.pc, *ex)

    def must(self, st, b):
        """is b implied by the path condition?"""
        if isinstance(b, (bool, int)):
            return bool(b)
        return not self.check(st.pc, z3.Not(b))

    # -------------------------------------------------------------- obligations
    def active(self, *props):
        return ACTIVE[0] is None or ACTIVE[0] in props

    def group(self, g, f):
        """mark a premise as needed only in proofs of goals of these groups (all premises are used if that fails)"""
        if g is not None:
            k = f.get_id()
            old = self.groups.get(k)
            self.groups[k] = (set(g) | (old[0] if old else set()), f)
        return f

    def oblige(self, st, name, goal, tags=None, info=None, group=None):
        """record a proof obligation; it is discharged under the path condition of this moment"""
        if self.submode is not None:
            return
        if ACTIVE[0] is not None and ACTIVE[0] not in (tags if tags is not None else self.default_tags):
            return
        st.obs.append((name, goal, tuple(tags) if tags is not None else self.default_tags, self.where(st), info, (len(st.pc), st.local, group)))

    def flush(self, st):
        """discharge the obligations recorded on a path (each once, under the path condition at its point)"""
        obs, st.obs = st.obs, []
        groups = {}
        for o in obs:
            if id(o) in self.done_obs:
                continue
            self.done_obs[id(o)] = o
            self.n_ob += 1
            g = o[1]
            if isinstance(g, (bool, int)):
                if g:
                    self.ob_results.append(Ob(o[0], o[2], True, None, self.unit))
                    continue
                g = z3.BoolVal(False)
            groups.setdefault((o[5][0], tuple(x.get_id() for x in o[5][1]), o[5][2] or ''), []).append((o, g))
        if groups:
            par.spawn(self, lambda: self.discharge(st, groups))

    def discharge(self, st, groups):
        for k in sorted(groups, reverse=True):
            todo = groups[k]
            pc = st.pc[:k[0]]
            loc = todo[0][0][5][1]
            neg = z3.Not(z3.And(*[g for o, g in todo]))
            ok = False
            if k[2]:
                # first with the premises of the group only
                sel = lambda fs: [f for f in fs if f.get_id() not in self.groups or k[2] in self.groups[f.get_id()][0]]
                ok = self.check_fresh(sel(pc), *sel(loc), neg) == z3.unsat
            if ok or (not self.bv_first and self.check_fresh(pc, *loc, neg) == z3.unsat):
                for o, g in todo:
                    self.ob_results.append(Ob(o[0], o[2], True, None, self.unit))
                continue
            for o, g in todo:
                sat, mdl = self.check(pc, *loc, z3.Not(g), model=True)
                if sat:
                    self.fail(st, o, mdl)
                else:
                    self.ob_results.append(Ob(o[0], o[2], True, None, self.unit))

    def fail(self, st, o, mdl):
        info = {'where': o[3], 'info': o[4], 'events': [repr(e)[:300] for e in st.ev], 'trace': st.trace[-40:],
                'model': mdl, 'state': st}
        self.ob_results.append(Ob(o[0], o[2], False, info, self.unit))

    def where(self, st):
        if not st.frames:
            return ''
        f = st.frames[-1]
        try:
            ins = f.f.blocks[f.b].ins[f.i]
            return '%s:%s' % (f.f.name, self.m.line_of(ins.dbg) if ins.dbg else '?')
        except Exception:
            return f.f.name

    # -------------------------------------------------------------- helpers
    def fresh(self, name, w=64):
        return z3.BitVec('%s!%d' % (name, next(self.fresh_n)), w)

    def flin(self, name, lo=0, hi=M64, st=None):
        """fresh symbolic 64-bit number in [lo, hi]"""
        if V.INT_MODE:
            e = z3.Int('%s!%d' % (name, next(self.fresh_n)))
            self.bound(e, lo, hi)
            return lin(e, lo, hi, name)
        l = lin(self.fresh(name), lo, hi, name)
        if st is not None and (lo, hi) != (0, M64):
            st.assume(z3.And(z3.UGE(l.z(), lo), z3.ULE(l.z(), hi)))
        return l

    def bound(self, e, lo, hi):
        """range of a fresh integer: a global axiom (the constant is new, so it is always satisfiable)"""
        self.axioms.append(z3.And(e >= lo, e <= hi))

    def fnarrow(self, st, name, w, lo=0, hi=None):
        """fresh small symbolic number: Lin over a narrow bit-vector, with its range assumed"""
        if V.INT_MODE:
            return self.flin(name, lo, (1 << w) - 1 if hi is None else hi)
        e = self.fresh(name, w)
        l = from_narrow(e, name, lo, hi)
        if hi is not None and hi < (1 << w) - 1:
            st.assume(z3.ULE(e, hi))
        if lo:
            st.assume(z3.UGE(e, lo))
        return l

    def fbool(self, name):
        return z3.Bool('%s!%d' % (name, next(self.fresh_n)))

    def fresh_like(self, e):
        return z3.FreshConst(e.sort(), 'loop')

    def newbase(self, name, lo=1 << 24, hi=1 << 46, align=16, st=None):
        if V.INT_MODE:
            e = z3.Int('%s!base%d' % (name, next(self.fresh_n)))
            self.bound(e, lo, hi)
            if align > 1:
                k = z3.Int('%s!basek%d' % (name, next(self.fresh_n)))
                self.axioms.append(e == align * k)
        elif align == 4096:      # a page below 2^47
            e = z3.Concat(z3.BitVecVal(0, 17), z3.BitVec('%s!page%d' % (name, next(self.fresh_n)), 35), z3.BitVecVal(0, 12))
        else:
            e = z3.BitVec('%s!base%d' % (name, next(self.fresh_n)), 64)
        l = lin(e, lo, hi, name)
        a = ATOMS[next(iter(l.t))]
        a.obj = True
        a.align = align
        self.objs[a.id] = []
        return l

    def place(self, base, off, obj):
        (i, k), = base.t.items()
        self.objs[i].append((ladd(off, base.c), obj))

    def addobj(self, obj, **kw):
        b = self.newbase(obj.name, **kw)
        self.place(b, 0, obj)
        obj.base = b
        return b

    # -------------------------------------------------------------- arithmetic on values
    def cmp(self, st, pred, a, b, w):
        if w == 1:
            a, b = zbool(a), zbool(b)
            if pred == 'eq':
                return simp(a == b)
            if pred == 'ne':
                return simp(a != b)
            if pred == 'ugt':
                return simp(z3.And(a, z3.Not(b)))
            raise Unsupported('i1 ' + pred)
        if isinstance(a, int) and isinstance(b, int):
            return self.ccmp(pred, a, b, w)
        if pred in ('ugt', 'uge', 'sgt', 'sge'):
            return self.cmp(st, {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred], b, a, w)
        if pred in ('ule', 'sle'):
            r = self.cmp(st, 'ult' if pred == 'ule' else 'slt', b, a, w)
            return self.bnot(r)
        if pred == 'ne':
            return self.bnot(self.cmp(st, 'eq', a, b, w))
        if isinstance(a, Trunc) or isinstance(b, Trunc):
            ua, ub = self.untrunc(st, a), self.untrunc(st, b)
            if ua is not None and ub is not None and pred in ('eq', 'ult'):
                return self.cmp(st, pred, ua, ub, 64)
            if ua is not None and ub is not None and pred == 'slt' and st.urng(ua)[1] < 1 << (w - 1) and st.urng(ub)[1] < 1 << (w - 1):
                return self.cmp(st, 'ult', ua, ub, 64)
        if w == 64 and V.INT_MODE and not z3.is_expr(a) and not z3.is_expr(b):
            a, b = self.norm(st, a), self.norm(st, b)
            if isinstance(a, int) and isinstance(b, int):
                return self.ccmp(pred, a, b, w)
            if pred == 'slt':
                a, b = self.signed(st, a), self.signed(st, b)
            d = lsub_raw(a, b)
            return self.eq0(st, d) if pred == 'eq' else self.lt0(st, d)
        if w == 64 and not z3.is_expr(a) and not z3.is_expr(b):
            a, b = st.subst(a), st.subst(b)
            if isinstance(a, int) and isinstance(b, int):
                return self.ccmp(pred, a, b, w)
            d = lsub(a, b)
            if pred == 'eq':
                return self.eq0(st, d)
            if pred == 'ult':
                if isinstance(b, int) and b == 0:
                    return False
                if st.exact(a) and st.exact(b):
                    lo, hi = st.rng(d)
                    if lo > -(1 << 63) and hi < 1 << 63 or hi < 0 or lo >= 0:
                        return self.lt0(st, d)
                ra, rb = st.urng(a), st.urng(b)
                if ra[1] < rb[0]:
                    return True
                if ra[0] >= rb[1]:
                    return False
                if isinstance(b, int) and b == 1:
                    return self.eq0(st, a)
            if pred == 'slt':
                ra, rb = st.rng(a), st.rng(b)
                if -(1 << 63) <= ra[0] and ra[1] < 1 << 63 and -(1 << 63) <= rb[0] and rb[1] < 1 << 63:
                    return self.lt0(st, d)
        x, y = zw(a, w), zw(b, w)
        if pred == 'eq':
            return simp(x == y)
        if pred == 'ult':
            return simp(z3.ULT(x, y))
        if pred == 'slt':
            return simp(x < y)
        raise Unsupported('icmp ' + pred)

    def norm(self, st, v):
        """(integer mode) the unsigned 64-bit value of a linear form: same form if it cannot wrap on this path, else fork"""
        v = st.subst(v)
        if isinstance(v, int):
            return v & M64
        lo, hi = st.rng(v)
        if lo >= 0 and hi <= M64:
            return v
        W = 1 << 64
        k = lo >> 64
        if k == hi >> 64:
            return Lin(v.c - k * W, v.t)
        key = ('norm', v.key())
        if key in st.inst_norm:
            return st.inst_norm[key]
        ks = []
        for k in range(lo >> 64, (hi >> 64) + 1):
            c = z3.And(v.z() >= k * W, v.z() < (k + 1) * W)
            if self.feasible(st, c):
                ks.append((k, c))
        if not ks:
            raise Infeasible()
        if len(ks) == 1:
            k = ks[0][0]
            r = Lin(v.c - k * W, v.t) if k else v
            st.inst_norm[key] = r
            return r
        raise ForkOn([c for k, c in ks])

    def signed(self, st, v):
        if isinstance(v, int):
            return sgn(v) if v >> 63 else v
        lo, hi = st.rng(v)
        if hi < 1 << 63 or self.must(st, v.z() < 1 << 63):
            return v
        raise Unsupported('signed comparison of a large value')

    def untrunc(self, st, v):
        if isinstance(v, int):
            return v
        if isinstance(v, Trunc):
            if V.INT_MODE:
                return self.divmod_const(st, v.l, 1 << v.w)[1]
            return v.l if st.urng(v.l)[1] < (1 << v.w) else None
        if V.INT_MODE and z3.is_bv(v):
            return None
        if z3.is_bv(v) and v.size() < 64:
            return from_narrow(v)
        return None

    def ccmp(self, pred, a, b, w):
        if pred[0] == 's':
            h = 1 << (w - 1)
            a = a - (1 << w) if a & h else a
            b = b - (1 << w) if b & h else b
            pred = 'u' + pred[1:]
        return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred]

    def reduce(self, st, d):
        """divide a non-wrapping linear form by the gcd of its coefficients (keeps sign and zero test)"""
        lo, hi = st.rng(d)
        if lo <= -(1 << 63) or hi >= (1 << 63):
            return d, False
        g = 0
        for k in d.t.values():
            g = gcd(g, k)
        if g > 1:
            # floor division: sign of k*g*x + c  <0  <=>  x*k + floor... handled by callers
            return g, True
        return 1, True

    def lt0(self, st, d):
        """mathematical d < 0"""
        if V.INT_MODE:
            if isinstance(d, int):
                return (sgn(d) if d >= 0 else d) < 0
            d = st.subst_raw(d)
            if isinstance(d, int):
                return d < 0
            lo, hi = st.rng(d)
            if hi < 0:
                return True
            if lo >= 0:
                return False
            g = 0
            for k in d.t.values():
                g = gcd(g, k)
            if g != 1:
                d = Lin(d.c // g, {i: k // g for i, k in d.t.items()})
                lo, hi = st.rng(d)
                if hi < 0:
                    return True
                if lo >= 0:
                    return False
            e = d.z() < 0
            return note(e, 'lt0', d)
        if isinstance(d, int):
            return sgn(d) < 0
        lo, hi = st.rng(d)
        if hi < 0:
            return True
        if lo >= 0:
            return False
        g, ok = self.reduce(st, d)
        if ok and g != 1:
            # g*X + c < 0  <=>  X + ceil(c/g)... X < -c/g <=> X < ceil(-c/g) <=> X - ceil(-c/g) < 0
            c = -((-d.c) // -g) if False else None
            ceil = -(d.c // g)       # ceil(-c/g) = -floor(c/g)
            d = mk(-ceil, {i: k // g for i, k in d.t.items()})
            lo, hi = st.rng(d)
            if hi < 0:
                return True
            if lo >= 0:
                return False
        if not ok:
            raise Unsupported('comparison range')
        e = d.z() < 0
        e = simp(e)
        if isinstance(e, bool):
            return e
        return note(e, 'lt0', d)

    def eq0(self, st, d):
        if V.INT_MODE:
            if not isinstance(d, int):
                d = st.subst_raw(d)
            if isinstance(d, int):
                return d == 0
            lo, hi = st.rng(d)
            if lo > 0 or hi < 0:
                return False
            g = 0
            for k in d.t.values():
                g = gcd(g, k)
            if d.c % g:
                return False
            if g != 1:
                d = Lin(d.c // g, {i: k // g for i, k in d.t.items()})
            if len(d.t) == 1:
                (i, k), = d.t.items()
                if abs(k) == 1:
                    e = ATOMS[i].e
                    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(e.arg(1)) and z3.is_int_value(e.arg(2)):
                        x, y, w = e.arg(1).as_long(), e.arg(2).as_long(), -d.c * k
                        if x != y:
                            return e.arg(0) if w == x else self.bnot(e.arg(0)) if w == y else False
                    return note(e == -d.c * k, 'eq0', d)
            if len(d.t) == 2 and d.c == 0:
                (i, k), (j, l) = d.t.items()
                if {k, l} == {1, -1}:
                    return ATOMS[i].e == ATOMS[j].e
            return d.z() == 0
        if isinstance(d, int):
            return d == 0
        d = st.subst(d)
        if isinstance(d, int):
            return d == 0
        lo, hi = st.rng(d)
        if lo > -(1 << 64) and hi < (1 << 64):
            if lo > 0 or hi < 0:
                return False
            if lo > -(1 << 63) and hi < (1 << 63):
                g = 0
                for k in d.t.values():
                    g = gcd(g, k)
                if d.c % g:
                    return False
                if g != 1:
                    d = mk(d.c // g, {i: k // g for i, k in d.t.items()})
            # keep narrow equality for single pairs
            if len(d.t) == 2 and d.c == 0:
                (i, k), (j, l) = d.t.items()
                a, b = ATOMS[i], ATOMS[j]
                if {k, l} == {1, -1}:
                    if a.narrow is not None and b.narrow is not None and a.narrow.size() == b.narrow.size():
                        return simp(a.narrow == b.narrow)
                    return simp(a.e == b.e)
            if len(d.t) == 1:
                (i, k), = d.t.items()
                a = ATOMS[i]
                if k in (1, -1):
                    x = -d.c * k
                    if a.narrow is not None:
                        if not 0 <= x < (1 << a.narrow.size()):
                            return False
                        e = simp(a.narrow == x)
                    else:
                        e = simp(a.e == (x & M64))
                    if isinstance(e, bool):
                        return e
                    return note(e, 'eq0', d)
            e = simp(d.z() == 0)
            return e if isinstance(e, bool) else note(e, 'eq0', d)
        e = simp(d.z() == 0)
        return e

    def bnot(self, b):
        if isinstance(b, (bool, int)):
            return not b
        if z3.is_not(b):
            return b.arg(0)
        return z3.Not(b)

    def divmod_const(self, st, v, d):
        """(quotient, remainder) of a 64-bit value by a constant, as linear forms if possible"""
        if isinstance(v, int):
            return v // d, v % d
        if V.INT_MODE:
            return self.divmod_int(st, self.norm(st, v), d)
        v = st.subst(v)
        if isinstance(v, int):
            return v // d, v % d
        if d == 1:
            return v, 0
        q, r = {}, {}
        for i, k in v.t.items():
            # split the coefficient: k = d*a + b with b the small non-negative rest
            a, b = divmod(k, d)
            if b and k < 0:
                pass
            if a:
                q[i] = a
            if b:
                r[i] = b
        a, b = divmod(v.c, d)
        # interval of the rest; may need to shift by a multiple of d
        Q, R = mk(a, q), mk(b, r)
        lo, hi = st.rng(R)
        k = lo // d
        if k:
            R = ladd(R, (-k * d) & M64)
            Q = ladd(Q, k & M64)
            lo, hi = lo - k * d, hi - k * d
        vlo, vhi = st.rng(v)
        if 0 <= lo and hi < d and vlo >= 0 and vhi <= M64:
            return Q, R
        if vlo >= 0 and vhi <= M64 and hi - lo < (1 << 62) and lo >= 0:
            # symbolic check that the rest stays below d
            if not isinstance(R, int):
                b2 = self.lt0(st, ladd(R, (-d) & M64))
                if self.must(st, b2):
                    return Q, R
        # generic
        e = z64(v)
        lo, hi = st.urng(v)
        qe = z3.UDiv(e, z3.BitVecVal(d, 64))
        qa = lin(qe, lo // d, hi // d, 'q')
        ra = lin(z3.URem(e, z3.BitVecVal(d, 64)), 0, d - 1, 'r')
        return qa, ra

    def divmod_int(self, st, v, d):
        """exact division of a non-wrapping linear form; a fresh quotient and remainder are defined when it is not linear"""
        if isinstance(v, int):
            return v // d, v % d
        if d == 1:
            return v, 0
        key = ('div', v.key(), d)
        if key in st.inst_norm:
            return st.inst_norm[key]
        if d == 64 and self.split64 and v.c == 0 and len(v.t) == 1:
            r = self.split64(st, next(iter(v.t)))
            if r is not None:
                return r
        q, r = {}, {}
        for i, k in v.t.items():
            a, b = divmod(k, d)
            if k < 0 and b:
                a, b = a + 1, b - d         # small coefficients stay small in absolute value
            if abs(b) > d // 2 and b > 0:
                a, b = a + 1, b - d
            elif abs(b) > d // 2 and b < 0:
                a, b = a - 1, b + d
            if a:
                q[i] = a
            if b:
                r[i] = b
        a, b = divmod(v.c, d)
        Q, R = lmk(a, q), lmk(b, r)
        lo, hi = (R, R) if isinstance(R, int) else st.rng(R)
        k = lo // d
        if k:
            R, Q = ladd_raw(R, -k * d), ladd_raw(Q, k)
            lo, hi = lo - k * d, hi - k * d
        if hi >= d and hi < 3 * d and not isinstance(R, int) and len(R.t) <= 4:
            # decide or fork on which multiple it is
            conds = []
            for k in range(0, hi // d + 1):
                c = z3.And(R.z() >= k * d, R.z() < (k + 1) * d)
                if self.feasible(st, c):
                    conds.append((k, c))
            if not conds:
                raise Infeasible()
            if len(conds) > 1:
                raise ForkOn([c for k, c in conds])
            k = conds[0][0]
            R, Q = ladd_raw(R, -k * d), ladd_raw(Q, k)
            hi = d - 1
        if hi < d:
            res = (Q, R)
        else:
            # new integers q, r with v = d q + r
            lo, hi = st.rng(R)
            q = self.flin('q', lo // d, hi // d)
            r = self.flin('r', 0, d - 1)
            st.assume(R.z() == d * q.z() + r.z())
            res = (ladd_raw(Q, q), r)
        st.inst_norm[key] = res
        return res

    def binop(self, st, op, a, b, w, flags=()):
        if w == 1:
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                a, b = bool(a), bool(b)
                return {'and': a and b, 'or': a or b, 'xor': a != b}[op]
            a, b = zbool(a), zbool(b)
            return simp({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b))
        mask = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.oblige(st, 'division by a non-zero value', False, self.faults_tags)
                raise Fault('division by zero')
            if op in ('shl', 'lshr', 'ashr') and b >= w:
                self.oblige(st, 'shift amount below the operand width', False, self.faults_tags)
                return 0
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: a >> b, 'ashr': lambda: sa >> b,
                 'udiv': lambda: a // b, 'urem': lambda: a % b,
                 'sdiv': lambda: int(abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1),
                 'srem': lambda: (abs(sa) % abs(sb)) * (1 if sa >= 0 else -1)}[op]()
            return r & mask
        if w == 64:
            if not z3.is_expr(a) and not z3.is_expr(b):
                r = self.lin_binop(st, op, a, b, flags)
                if r is not None:
                    return r
                if V.INT_MODE:
                    a2, b2 = st.subst(a), st.subst(b)
                    if (a2, b2) != (a, b):
                        return self.binop(st, op, a2, b2, w, flags)
                    if op not in ('shl', 'lshr', 'and', 'or', 'xor') or not all(isinstance(x, int) or self.as_bv(x) is not None for x in (a, b)):
                        return self.abstract_op(st, op, a, b)
        # generic narrow path
        if w < 64 and op in ('add', 'sub', 'mul', 'shl', 'and', 'lshr', 'udiv', 'urem') and (isinstance(a, Trunc) or isinstance(b, Trunc)):
            ua, ub = self.untrunc(st, a), self.untrunc(st, b)
            if ua is not None and ub is not None:
                r = self.lin_binop(st, op, ua, ub, flags) if op != 'sub' or True else None
                if r is not None:
                    if isinstance(r, int):
                        return r & mask
                    if op in ('add', 'mul', 'shl', 'sub') or st.urng(r)[1] <= mask:
                        return Trunc(r, w)
        x, y = zw(a, w), zw(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            nz = simp(y != 0)
            self.oblige(st, 'division by a non-zero value', nz, self.faults_tags)
            if not isinstance(nz, bool):
                st.assume(nz)
        if op in ('shl', 'lshr', 'ashr'):
            ok = simp(z3.ULT(y, w))
            if ok is not True:
                self.oblige(st, 'shift amount below the operand width', ok, self.faults_tags)
                if not isinstance(ok, bool):
                    st.assume(ok)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        if 'nsw' in flags and w in (32, 64):
            h = None
            if op == 'add':
                h = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                h = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            elif op == 'mul':
                h = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            if h is not None:
                h = simp(h)
                if h is not True:
                    self.oblige(st, 'no signed overflow', h, self.faults_tags)
        r = simp(r)
        if w == 64 and not V.INT_MODE:
            return lin(r)
        return r

    def abstract_op(self, st, op, a, b):
        """64-bit operations that are not linear: an arbitrary result with the properties stated here"""
        a, b = self.norm(st, a), self.norm(st, b)
        key = ('abs', op, a if isinstance(a, int) else a.key(), b if isinstance(b, int) else b.key())
        if key in st.inst_norm:
            return st.inst_norm[key]
        x, y = (z3.IntVal(v) if isinstance(v, int) else v.z() for v in (a, b))
        hi = {'and': min(st.urng(a)[1] if not isinstance(a, int) else a, st.urng(b)[1] if not isinstance(b, int) else b)}.get(op, M64)
        r = self.flin(op, 0, hi)
        R = r.z()
        if op == 'xor':
            st.assume((R == 0) == (x == y))
            st.assume(R <= x + y)
            for k in (8, 16, 4096):
                st.assume((R % k == 0) == ((x - y) % k == 0))
        elif op == 'or':
            st.assume(z3.And(R >= x, R >= y, R <= x + y))
        elif op == 'and':
            st.assume(z3.And(R <= x, R <= y))
        elif op == 'mul':
            st.assume(z3.Implies(z3.Or(x == 0, y == 0), R == 0))
        elif op in ('udiv', 'urem'):
            self.oblige(st, 'division by a non-zero value', y != 0, self.faults_tags)
            st.assume(y != 0)
            st.assume(R <= x)
            st.assume(R < y if op == 'urem' else z3.And(z3.Implies(x < y, R == 0), z3.Implies(x >= y, R >= 1), z3.Implies(y >= 2, R <= x / 2)))
        elif op == 'lshr':
            self.oblige(st, 'shift amount below the operand width', y < 64, self.faults_tags)
            st.assume(R <= x)
        elif op == 'shl':
            self.oblige(st, 'shift amount below the operand width', y < 64, self.faults_tags)
        else:
            raise Unsupported('64-bit %s on %r, %r' % (op, a, b))
        st.inst_norm[key] = r
        return r

    def as_bv(self, v):
        """the narrow bit-vector behind a linear form, if it is exactly one"""
        if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1:
            (i, k), = v.t.items()
            if k == 1:
                return ATOMS[i].narrow
        return None

    def lin_binop(self, st, op, a, b, flags=()):
        if op == 'add':
            return ladd(a, b)
        if op == 'sub':
            return lsub(a, b)
        if op == 'mul':
            if isinstance(b, int):
                return lscale(a, b)
            if isinstance(a, int):
                return lscale(b, a)
            a2, b2 = st.subst(a), st.subst(b)
            if isinstance(a2, int) or isinstance(b2, int):
                return self.lin_binop(st, op, a2, b2)
            return None
        if op == 'shl':
            if isinstance(b, int) and b < 64:
                return lscale(a, 1 << b)
            return None
        if op == 'lshr' and isinstance(b, int) and b < 64:
            return self.divmod_const(st, a, 1 << b)[0]
        if op == 'udiv' and isinstance(b, int) and b:
            return self.divmod_const(st, a, b)[0]
        if op == 'urem' and isinstance(b, int) and b:
            return self.divmod_const(st, a, b)[1]
        if op in ('sdiv', 'ashr') and isinstance(b, int):
            d = b if op == 'sdiv' else 1 << b
            lo, hi = st.rng(a)
            if d > 0 and d < 1 << 63 and -(1 << 63) <= lo and hi < 1 << 63:
                if not isinstance(a, int) and all(k % d == 0 for k in a.t.values()) and a.c % d == 0:
                    return mk(a.c // d, {i: k // d for i, k in a.t.items()})
                if lo >= 0:
                    return self.divmod_const(st, a, d)[0]
            return None
        if op == 'and' and V.INT_MODE and isinstance(a, Lin) and isinstance(b, Lin):
            d = lsub_raw(a, b)
            if d in (1, -1):
                x = a if d == 1 else b
                r = self.flin('and_pred', 0, M64)
                z = z3.Or(*[x.z() == (1 << i if i < 64 else 0) for i in range(65)])
                st.assume((r.z() == 0) == z)
                return r
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and not isinstance(a, int):
                if b == 0:
                    return 0
                if b == M64:
                    return a
                if (b & (b + 1)) == 0:               # low mask
                    q, r = self.divmod_try(st, a, b + 1)
                    if r is not None:
                        return r
                    lo, hi = st.urng(a)
                    r = simp(z64(a) & b)
                    return lin(r, 0, min(b, M64))
                nb = ~b & M64
                if (nb & (nb + 1)) == 0:             # high mask
                    q, r = self.divmod_try(st, a, nb + 1)
                    if r is not None:
                        return lsub(a, r)
                    r = simp(z64(a) & b)
                    lo, hi = st.urng(a)
                    return lin(r, lo & b if (lo, hi) != (0, M64) else 0, hi)
            return None
        if op == 'or' and b == 0:
            return a
        if op == 'or' and a == 0:
            return b
        return None

    def divmod_try(self, st, v, d):
        if V.INT_MODE:
            return True, self.divmod_int(st, self.norm(st, v), d)[1]
        return self.divmod_try_bv(st, v, d)

    def divmod_try_bv(self, st, v, d):
        """divmod by a power of two, or (None, None) if the result is not linear; wrap-around is harmless for powers of two"""
        v = st.subst(v)
        if isinstance(v, int):
            return v // d, v % d
        r = {}
        for i, k in v.t.items():
            b = k % d
            if b:
                r[i] = b if b <= d // 2 else b - d
        c = v.c % d
        R = mk(c, r)
        lo, hi = st.rng(R) if not isinstance(R, int) else (R, R)
        k = lo // d
        if k * d <= lo and hi < (k + 1) * d:
            R = ladd(R, (-k * d) & M64)
            return True, R
        return None, None

    # -------------------------------------------------------------- constants and operands
    def const(self, st, v, ty):
        k = v[0]
        if k == 'int':
            if ty.k == 'ptr':
                return v[1] & M64
            return v[1] & ((1 << ty.w) - 1)
        if k == 'glob':
            return self.glob(st, v[1])
        if k == 'undef':
            if ty.k in ('struct', 'arr'):
                return [self.const(st, ('undef', e), e) for e in (ty.elems if ty.k == 'struct' else [ty.elems] * ty.n)]
            if ty.k == 'int' and ty.w == 1:
                return self.fbool('undef')
            w = 64 if ty.k == 'ptr' else ty.w
            if w == 64 and V.INT_MODE:
                return self.flin('undef')
            e = self.fresh('undef', w)
            return lin(e) if w == 64 else e
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.const(st, x, t) for t, x in v[2]]
        if k == 'gep':
            ops = [(t, self.const(st, x, t)) for t, x in v[2]]
            return self.gep(st, v[1], ops)
        if k == 'cast':
            x = self.const(st, v[3], v[2])
            return self.cast(st, v[1], v[2], x, v[4])
        if k == 'none':
            return None
        if k == 'str':
            return list(v[1])
        raise Unsupported('constant %r' % (v,))

    def zero(self, ty):
        if ty.k == 'struct':
            return [self.zero(e) for e in ty.elems]
        if ty.k == 'arr':
            return [self.zero(ty.elems) for _ in range(ty.n)]
        return 0

    def glob(self, st, n):
        n = self.m.aliases.get(n, n)
        if n in self.globals:
            return self.globals[n]
        if n in self.m.globals:
            g = self.m.globals[n]
            size = self.m.size(g.ty) if g.ty.k != 'opaque' else None
            o = CellObj('@' + n, size, const=g.const)
            o.init = self.global_init(g)
            b = self.addobj(o)
            self.globals[n] = b
            return b
        # function address
        o = CellObj('@fn:' + n, 0)
        b = self.addobj(o)
        self.globals[n] = b
        return b

    def global_init(self, g):
        flat = {}

        def fill(ty, v, off):
            if v is None:
                return
            if v[0] == 'str':
                for i, c in enumerate(v[1]):
                    flat[off + i] = (1, c)
            elif v[0] == 'zero':
                zeros.append((off, self.m.size(ty)))
            elif v[0] == 'agg':
                if ty.k == 'struct':
                    offs = self.m.offsets(ty)
                    for (t, x), o in zip(v[2], offs):
                        fill(t, x, off + o)
                else:
                    es = self.m.size(ty.elems)
                    for j, (t, x) in enumerate(v[2]):
                        fill(t, x, off + j * es)
            elif v[0] == 'undef':
                pass
            else:
                flat[off] = (self.m.size(ty), v, ty)
        zeros = []
        if g.const or g.init is not None:
            fill(g.ty, g.init, 0)

        def init(st, off, n):
            if not g.const:
                return None
            e = flat.get(off)
            if e is not None and e[0] == n:
                return self.const(st, e[1], e[2]) if len(e) == 3 else e[1]
            if any(o <= off and off + n <= o + s for o, s in zeros):
                return 0
            bs = [flat.get(off + i) for i in range(n)]
            if all(b is not None and b[0] == 1 and len(b) == 2 for b in bs):
                return sum(b[1] << (8 * i) for i, b in enumerate(bs))
            return None
        return init

    def cstr(self, st, p):
        """the C string at a constant address, if it is a constant global"""
        if isinstance(p, int):
            return None
        (i, k), = p.t.items() if len(p.t) == 1 else ((None, None),)
        for n, b in self.globals.items():
            if isinstance(b, Lin) and i in b.t and n in self.m.globals:
                g = self.m.globals[n]
                if g.init and g.init[0] == 'str':
                    return g.init[1][p.c - b.c:].split(b'\0')[0].decode()
        return None

    def op(self, st, v, ty):
        if v[0] == 'reg':
            return st.frames[-1].regs[v[1]]
        return self.const(st, v, ty)

    def gep(self, st, bt, ops):
        base = ops[0][1]
        ty = bt
        off = 0
        first = True
        for t, ix in ops[1:]:
            if first:
                sz = self.m.size(ty)
                off = ladd(off, lscale(self.sext64(st, ix, t.w), sz))
                first = False
                continue
            if ty.k == 'struct':
                if not isinstance(ix, int):
                    raise Unsupported('gep struct index')
                off = ladd(off, self.m.offsets(ty)[ix])
                ty = ty.elems[ix]
            elif ty.k == 'arr':
                off = ladd(off, lscale(self.sext64(st, ix, t.w), self.m.size(ty.elems)))
                ty = ty.elems
            else:
                raise Unsupported('gep into %r' % ty)
        return ladd(base, off)

    def sext64(self, st, v, w):
        if isinstance(v, int):
            if w < 64 and v >> (w - 1):
                v -= 1 << w
            return v & M64
        if w == 64:
            return v
        return self.cast(st, 'sext', INT(w), v, INT(64))

    def cast(self, st, op, t1, v, t2):
        r = self._cast(st, op, t1, v, t2)
        return r

    def _cast(self, st, op, t1, v, t2):
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if (t2.k == 'int' and t2.w != 64) or (t1.k == 'int' and t1.w != 64):
                raise Unsupported('pointer cast width')
            return v
        w1, w2 = t1.w, t2.w
        if isinstance(v, (bool, int)):
            v = int(v)
            if op == 'sext' and v >> (w1 - 1):
                v = (v - (1 << w1)) & ((1 << w2) - 1)
            v &= (1 << w2) - 1
            return bool(v) if w2 == 1 else v
        if op == 'trunc':
            if w1 == 64:
                if w2 == 1:
                    if V.INT_MODE and isinstance(v, Lin):
                        return self.cmp(st, 'eq', self.divmod_const(st, v, 2)[1], 1, 64)
                    return simp(z3.Extract(0, 0, z64(v) if not z3.is_expr(v) else v) == 1)
                return Trunc(v, w2) if isinstance(v, Lin) else simp(z3.Extract(w2 - 1, 0, v))
            if isinstance(v, Trunc):
                if w2 == 1:
                    if V.INT_MODE:
                        return self.cmp(st, 'eq', self.divmod_const(st, v.l, 2)[1], 1, 64)
                    return simp(z3.Extract(0, 0, v.z()) == 1)
                return Trunc(v.l, w2)
            if w2 == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            r = simp(z3.Extract(w2 - 1, 0, v))
            return lin(r) if w2 == 64 else r
        if op == 'zext':
            if w1 == 1:
                if V.INT_MODE and w2 <= 64:
                    l = lin(z3.If(v, z3.IntVal(1), z3.IntVal(0)), 0, 1)
                    return l if w2 == 64 else Trunc(l, w2)
                e = z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
                return lin(e, 0, 1) if w2 == 64 else e
            if V.INT_MODE and isinstance(v, Trunc):
                l = self.divmod_const(st, v.l, 1 << v.w)[1] if not (isinstance(v.l, Lin) and 0 <= st.rng(v.l)[0] and st.rng(v.l)[1] < 1 << v.w) else v.l
                return l if w2 == 64 or isinstance(l, int) else Trunc(l, w2)
            if isinstance(v, Trunc):
                if st.urng(v.l)[1] < (1 << v.w):
                    return v.l if w2 == 64 else (Trunc(v.l, w2) if w2 < 64 else simp(z3.ZeroExt(w2 - 64, v.l.z())))
                fits = z3.ULT(v.l.z(), z3.BitVecVal(1 << v.w, 64))
                if self.must(st, fits):
                    return v.l if w2 == 64 else (Trunc(v.l, w2) if w2 < 64 else simp(z3.ZeroExt(w2 - 64, v.l.z())))
                v = v.z()
            if isinstance(v, Lin):
                return simp(z3.ZeroExt(w2 - 64, v.z()))
            if w2 == 64:
                return from_narrow(v)
            return simp(z3.ZeroExt(w2 - w1, v))
        if op == 'sext':
            if w1 == 1:
                e = z3.If(v, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2))
                return lin(e) if w2 == 64 else e
            if isinstance(v, Trunc) and st.urng(v.l)[1] < (1 << (v.w - 1)):
                return v.l if w2 == 64 else Trunc(v.l, w2)
            if isinstance(v, (Trunc, Lin)):
                v = v.z()
            r = simp(z3.SignExt(w2 - w1, v))
            return lin(r) if w2 == 64 else r
        raise Unsupported('cast ' + op)

    # -------------------------------------------------------------- memory
    def resolve(self, st, addr):
        """address -> (object, Lin offset inside it)"""
        addr = st.subst(addr)
        if isinstance(addr, int):
            raise Fault('access to constant address %#x' % addr)
        bases = [i for i, k in addr.t.items() if ATOMS[i].obj and k == 1]
        if len(bases) != 1:
            raise Fault('access through a pointer that points to no known object: %r' % addr)
        i = bases[0]
        off = mk(addr.c, {j: k for j, k in addr.t.items() if j != i})
        cands = self.objs[i] + [x for x in st.g.get('objs', {}).get(i, [])]
        if len(cands) == 1 and isinstance(cands[0][0], int) and cands[0][0] == 0:
            return cands[0][1], off
        for o, obj in cands:
            d = lsub(off, o)
            lo, hi = st.rng(d) if not isinstance(d, int) else (sgn(d), sgn(d))
            sz = obj.size
            if lo >= 0 and (sz is None or hi < sz):
                return obj, d
        # a single candidate that may contain it
        poss = []
        for o, obj in cands:
            d = lsub(off, o)
            lo, hi = st.rng(d) if not isinstance(d, int) else (sgn(d), sgn(d))
            sz = obj.size if obj.size is not None else 1 << 62
            if hi >= 0 and lo < sz:
                poss.append((d, obj, sz))
        for d, obj, sz in poss:
            inside = self.band(self.bnot(self.lt0(st, d)), self.lt0(st, lsub(d, sz)))
            if self.must(st, inside):
                return obj, d
        if poss:
            d, obj, sz = poss[0]
            return obj, d
        raise Fault('access outside every object of %s: %r' % (ATOMS[i].name, addr))

    def band(self, *bs):
        bs = [b for b in bs if not (isinstance(b, (bool, int)) and b)]
        if any(isinstance(b, (bool, int)) for b in bs):
            return False
        if not bs:
            return True
        return bs[0] if len(bs) == 1 else z3.And(*bs)

    def bor(self, *bs):
        bs = [b for b in bs if not (isinstance(b, (bool, int)) and not b)]
        if any(isinstance(b, (bool, int)) for b in bs):
            return True
        if not bs:
            return False
        return bs[0] if len(bs) == 1 else z3.Or(*bs)

    def bimp(self, a, b):
        return self.bor(self.bnot(a), b)

    def concretize(self, st, off, limit=300):
        """fork over the values of a small-range linear form"""
        off = st.subst(off)
        if isinstance(off, int):
            return off
        if len(off.t) >= 1:
            for i in off.t:
                lo, hi = st.ab(i)
                if hi - lo >= limit:
                    # ask the solver for tighter bounds by enumeration
                    vals = self.enum(st, ATOMS[i].e, limit)
                    if vals is None:
                        raise Unsupported('symbolic offset %r' % off)
                    raise ForkOn([note(ATOMS[i].e == v, 'eq0', Lin(-v, {i: 1})) for v in vals])
                raise ForkOn([note(ATOMS[i].e == v, 'eq0', Lin(-v, {i: 1})) for v in range(lo, hi + 1)])

    def enum(self, st, e, limit):
        vals = []
        cs = []
        while len(vals) <= limit:
            sat, m = self.check(st.pc, *cs, model=True)
            if not sat:
                return vals
            v = m.eval(e, model_completion=True).as_long()
            vals.append(v)
            cs.append(e != v)
        return None

    def bounds(self, st, obj, off, n, what):
        if obj.size is None:
            return
        if isinstance(off, int):
            ok = sgn(off) >= 0 and sgn(off) + n <= obj.size
            if not ok:
                self.oblige(st, 'memory access inside its object', False, self.faults_tags,
                            '%s of %d bytes at %s+%d (size %d)' % (what, n, obj.name, sgn(off), obj.size))
                raise Fault('%s outside %s' % (what, obj.name))
            return
        ok = self.band(self.bnot(self.lt0(st, off)), self.bnot(self.lt0(st, lsub(obj.size - n, off))))
        if ok is not True:
            self.oblige(st, 'memory access inside its object', ok, self.faults_tags,
                        '%s of %d bytes at %s+%r (size %d)' % (what, n, obj.name, off, obj.size))
            if isinstance(ok, bool):
                raise Fault('%s outside %s' % (what, obj.name))
            st.assume(ok)

    def load(self, st, addr, n):
        """raw load of n bytes -> value (int / Lin for 8 bytes / z3)"""
        obj, off = self.resolve(st, addr)
        return self.oload(st, obj, off, n)

    def oload(self, st, obj, off, n):
        if id(obj) in st.killed:
            raise Fault('use of dead stack object')
        self.bounds(st, obj, off, n, 'load')
        if isinstance(obj, CellObj):
            if not isinstance(off, int):
                off = self.concretize(st, off)
            if obj.onload:
                obj.onload(st, off, n)
            return self.cload(st, obj, off, n)
        if isinstance(obj, ByteArr):
            return self.bload(st, obj, off, n)
        if isinstance(obj, ArrObj):
            return self.aload(st, obj, off, n)
        return obj.load(self, st, off, n)

    def cload(self, st, obj, off, n):
        cells = st.cells.setdefault(obj.id, {})
        c = cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        over = [(o, x) for o, x in cells.items() if o < off + n and off < o + x[0]]
        if not over:
            v = obj.init(st, off, n) if obj.init else None
            if v is None:
                if n == 8 and V.INT_MODE:
                    v = self.flin('%s+%d' % (obj.name, off))
                elif n in (1, 2, 4, 8, 16):
                    e = self.fresh('%s+%d' % (obj.name, off), n * 8)
                    v = lin(e, name='%s+%d' % (obj.name, off)) if n == 8 else e
                else:
                    raise Unsupported('load of %d bytes' % n)
            cells[off] = (n, v)
            return v
        if len(over) == 1 and over[0][0] <= off and off + n <= over[0][0] + over[0][1][0]:
            o, (m, v) = over[0]
            e = zw(v, m * 8)
            r = simp(z3.Extract((off - o + n) * 8 - 1, (off - o) * 8, e))
            return lin(r) if n == 8 and not V.INT_MODE else r
        # compose bytes
        bs = [zw(self.cload(st, obj, off + k, 1), 8) if n > 1 else None for k in range(n)]
        r = simp(z3.Concat(*reversed(bs)))
        return lin(r) if n == 8 and not V.INT_MODE else r

    def store(self, st, addr, v, n):
        obj, off = self.resolve(st, addr)
        self.ostore(st, obj, off, v, n)

    def ostore(self, st, obj, off, v, n):
        if id(obj) in st.killed:
            raise Fault('use of dead stack object')
        self.bounds(st, obj, off, n, 'store')
        if isinstance(obj, CellObj):
            if obj.const:
                raise Fault('store to constant %s' % obj.name)
            if not isinstance(off, int):
                off = self.concretize(st, off)
            if obj.onstore:
                obj.onstore(st, off, n, v)
            self.cstore(st, obj, off, v, n)
        elif isinstance(obj, ByteArr):
            self.bstore(st, obj, off, v, n)
        elif isinstance(obj, ArrObj):
            self.astore(st, obj, off, v, n)
        else:
            obj.store(self, st, off, v, n)

    def cstore(self, st, obj, off, v, n):
        cells = st.cells.setdefault(obj.id, {})
        for o, (m, x) in list(cells.items()):
            if o < off + n and off < o + m and not (o == off and m == n):
                e = zw(x, m * 8)
                del cells[o]
                for k in range(m):
                    cells[o + k] = (1, simp(z3.Extract(k * 8 + 7, k * 8, e)))
        for k in range(n):
            if off + k in cells and (k or cells[off][0] != n):
                del cells[off + k]
        cells[off] = (n, v)

    # byte arrays
    def barr(self, st, obj):
        k = (obj.id, '')
        if k not in st.arr:
            st.arr[k] = obj.init_arr if obj.init_arr is not None else z3.Array('%s!%d' % (obj.name, next(self.fresh_n)), z3.BitVecSort(64), z3.BitVecSort(8))
        return k

    def bload(self, st, obj, off, n):
        k = self.barr(st, obj)
        bs = [z3.Select(st.arr[k], z64(ladd(off, j))) for j in range(n)]
        r = simp(z3.Concat(*reversed(bs)) if n > 1 else bs[0])
        return lin(r) if n == 8 and not V.INT_MODE else r

    def bstore(self, st, obj, off, v, n):
        k = self.barr(st, obj)
        e = zw(v, n * 8)
        a = st.arr[k]
        for j in range(n):
            a = z3.Store(a, z64(ladd(off, j)), simp_e(z3.Extract(j * 8 + 7, j * 8, e)))
        st.arr[k] = a

    # arrays of structs
    def asplit(self, st, obj, off):
        off = st.subst(off)
        if isinstance(off, int):
            return off // obj.esz, off % obj.esz
        bad = [i for i, k in off.t.items() if k % obj.esz]
        if bad:
            # fork on the atoms that select inside an element
            for i in bad:
                lo, hi = st.ab(i)
                if hi - lo > 64:
                    raise Unsupported('symbolic offset inside element of %s: %r' % (obj.name, off))
                raise ForkOn([note(ATOMS[i].e == v, 'eq0', Lin(-v, {i: 1})) for v in range(lo, hi + 1)])
        q, r = divmod(off.c, obj.esz)
        return mk(q, {i: k // obj.esz for i, k in off.t.items()}), r

    def aidx(self, st, idx, obj):
        """z3 index term of the array sort used by obj"""
        w = obj.iw
        if isinstance(idx, int):
            return z3.BitVecVal(idx, w)
        if len(idx.t) == 1 and idx.c == 0:
            (i, k), = idx.t.items()
            a = ATOMS[i]
            if k == 1 and a.narrow is not None:
                if a.narrow.size() == w:
                    return a.narrow
                if a.narrow.size() < w:
                    return z3.ZeroExt(w - a.narrow.size(), a.narrow)
        return simp_e(z3.Extract(w - 1, 0, idx.z())) if w < 64 else idx.z()

    def aload(self, st, obj, off, n):
        idx, fo = self.asplit(st, obj, off)
        if obj.hook:
            obj.hook(self, st, idx, fo, False)
        f = obj.fields.get(fo)
        if f is None or f[0] != n:
            raise Unsupported('load of %d bytes at offset %d of an element of %s' % (n, fo, obj.name))
        a = st.arr[(obj.id, f[1])]
        e = z3.Select(a, self.aidx(st, idx, obj))
        return f[2].decode(self, st, e, idx)

    def astore(self, st, obj, off, v, n):
        idx, fo = self.asplit(st, obj, off)
        if obj.hook:
            obj.hook(self, st, idx, fo, True)
        f = obj.fields.get(fo)
        if f is None or f[0] != n:
            raise Unsupported('store of %d bytes at offset %d of an element of %s' % (n, fo, obj.name))
        e = f[2].encode(self, st, v, idx)
        st.arr[(obj.id, f[1])] = z3.Store(st.arr[(obj.id, f[1])], self.aidx(st, idx, obj), e)

    # -------------------------------------------------------------- running
    def push(self, st, fname, args, ins=None):
        f = self.m.funcs[fname]
        fr = Frame()
        fr.f, fr.b, fr.i, fr.prev, fr.ins = f, f.entry, 0, None, ins
        fr.regs = {}
        fr.visits = {}
        fr.allocas = []
        if len(args) != len(f.params):
            raise Unsupported('argument count of ' + fname)
        for (r, ty, at), v in zip(f.params, args):
            if 'byval' in at:
                o = CellObj('byval', self.m.size(at['byval']))
                b = self.addobj(o)
                self.memcpy(st, b, v, self.m.size(at['byval']))
                v = b
            fr.regs[r] = v
        if len(st.frames) > 40:
            raise Unsupported('recursion')
        st.frames.append(fr)
        self.inlined.add(fname)

    def run(self, st, on_end):
        """explore all paths from st; on_end(st, outcome) for each"""
        self.run_all([st], on_end)

    def run_all(self, work, on_end):
        while work:
            s = work.pop()
            if self.parpaths and work and self.submode is None and 'pending_end' not in s.g:
                self.flush(s)
                if par.spawn(self, lambda: self.run_all([s], on_end), False):
                    continue
            while s is not None:
                if self.deadline and time.time() > self.deadline:
                    raise Undecided('unit time limit')
                if 'pending_end' in s.g:
                    self.end(s, s.g.pop('pending_end'), on_end)
                    s = None
                    continue
                try:
                    r = self.step(s)
                except ForkOn as f:
                    alts = []
                    for c in f.conds:
                        if isinstance(c, tuple):
                            c, fn = c
                        else:
                            fn = None
                        if isinstance(c, bool):
                            if not c:
                                continue
                            t = s.copy()
                        else:
                            if not self.feasible(s, c):
                                continue
                            t = s.copy()
                            t.assume(c)
                        if fn:
                            fn(t)
                        alts.append(t)
                    if not alts and self.feasible(s):
                        raise Unsupported('fork without alternatives')
                    alts.reverse()
                    work.extend(alts)
                    s = None
                    continue
                except Infeasible:
                    s = None
                    continue
                except Fault as e:
                    s.ev.append(('fault', e.what))
                    self.end(s, ('fault', e.what), on_end)
                    s = None
                    continue
                if r is None:
                    continue
                if r[0] == 'fork':
                    nxt = r[1]
                    if not nxt:
                        s = None
                        continue
                    s = nxt[0]
                    work.extend(reversed(nxt[1:]))
                elif r[0] == 'end':
                    self.end(s, r[1], on_end)
                    s = None
                else:
                    raise Unsupported('step result')

    def end(self, s, outcome, on_end):
        if self.submode is not None:
            self.submode[0].append((s, outcome))
            if len(self.submode[0]) > self.max_paths:
                raise Unsupported('too many paths')
            return
        if outcome[0] == 'cut':
            self.flush(s)
            return
        self.paths += 1
        if self.paths > self.max_paths:
            raise Unsupported('too many paths')
        if outcome[0] == 'ret':
            self.normal_paths += 1
        on_end(s, outcome)
        self.flush(s)

    def goto(self, st, target):
        fr = st.frames[-1]
        src = fr.b
        if self.submode is not None and len(st.frames) == self.submode[1] and target not in self.submode[2] and src in self.submode[2]:
            st.g['pending_end'] = ('exit', None)
            return None
        blk = fr.f.blocks[target]
        vals = []
        for ph in blk.phis:
            vals.append((ph.dst, self.op(st, ph.a[src], ph.ty)))
        for d, v in vals:
            fr.regs[d] = v
        fr.prev, fr.b, fr.i = src, target, 0
        self.blocks_seen.add((fr.f.name, target))
        if target in fr.f.loops():
            lc = self.loop_contract(st, fr.f, target)
            if lc is not None:
                return lc(self, st, fr, src)
            n = fr.visits.get(target, 0)
            if src in fr.f.loops()[target]:
                n += 1
            else:
                n = 0
            fr.visits[target] = n
            if n > self.max_unroll:
                raise Unsupported('loop in %s not bounded by %d iterations' % (fr.f.name, self.max_unroll))
        return None

    def loop_contract(self, st, f, header):
        return self.loops.get((f.name, header)) or self.loops.get((f.name, None)) or self.loops.get('*')

    def branch(self, st, c, yes, no):
        """two-way split on c; yes/no: functions applied to the respective state"""
        if isinstance(c, (bool, int)):
            return (yes if c else no)(st)
        a = self.feasible(st, c)
        b = self.feasible(st, z3.Not(c)) if a else True
        if a and not b:
            st.assume(c)
            return yes(st)
        if b and not a:
            st.assume(z3.Not(c))
            return no(st)
        t = st.copy()
        st.assume(c)
        t.assume(self.bnot(c))
        r1 = yes(st)
        r2 = no(t)
        out = []
        for s, r in ((st, r1), (t, r2)):
            if r is None:
                out.append(s)
            elif r[0] == 'fork':
                out.extend(r[1])
            else:
                raise Unsupported('branch to end')
        return ('fork', out)

    def ret(self, st, v):
        """return v from the current frame"""
        if len(st.frames) == 1 and V.INT_MODE and isinstance(v, Lin):
            v = self.norm(st, v)
        fr = st.frames.pop()
        if fr.allocas:
            st.killed = st.killed | frozenset(id(o) for o in fr.allocas)
            for o in fr.allocas:
                st.cells.pop(o.id, None)
        if not st.frames:
            return ('end', ('ret', v))
        cf = st.frames[-1]
        ins = fr.ins
        if ins.dst is not None:
            cf.regs[ins.dst] = v
        if ins.op == 'invoke':
            return self.goto(st, ins.a['normal'])
        cf.i += 1
        return None

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.f.blocks[fr.b].ins[fr.i]
        o = ins.op
        a = ins.a
        regs = fr.regs
        m = getattr(self, 'i_' + o, None)
        if m is not None:
            return m(st, fr, ins)
        # arithmetic
        ty = ins.ty
        if o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            x = self.op(st, a[0], ty)
            y = self.op(st, a[1], ty)
            regs[ins.dst] = self.binop(st, o, x, y, ty.w, ins.flags)
            fr.i += 1
            return None
        raise Unsupported('instruction %s in %s: %r' % (o, fr.f.name, a))

    def i_br(self, st, fr, ins):
        return self.goto(st, ins.a[0])

    def i_condbr(self, st, fr, ins):
        c = self.op(st, ins.a[0], INT(1))
        ln = self.m.line_of(ins.dbg) if ins.dbg else None

        def yes(s):
            s.trace.append((fr.f.name, ln, True))
            return self.goto(s, ins.a[1])

        def no(s):
            s.trace.append((fr.f.name, ln, False))
            return self.goto(s, ins.a[2])
        return self.branch(st, c, yes, no)

    def i_switch(self, st, fr, ins):
        ty, v, d, cs = ins.a
        x = self.op(st, v, ty)
        conds, rest = [], []
        for c, t in cs:
            b = self.cmp(st, 'eq', x, c & ((1 << ty.w) - 1), ty.w)
            if b is True:
                return self.goto(st, t)
            if b is not False:
                conds.append((b, t))
        out = []
        neg = []
        for b, t in conds:
            if self.feasible(st, b, *neg):
                s = st.copy()
                for n_ in neg:
                    s.assume(n_)
                s.assume(b)
                r = self.goto(s, t)
                out.extend(r[1] if r else [s])
            neg.append(self.bnot(b))
        if self.feasible(st, *neg):
            for n_ in neg:
                st.assume(n_)
            r = self.goto(st, d)
            out.extend(r[1] if r else [st])
        return ('fork', out)

    def i_ret(self, st, fr, ins):
        v = None if ins.a is None else self.op(st, ins.a, ins.ty)
        return self.ret(st, v)

    def i_unreachable(self, st, fr, ins):
        self.oblige(st, 'unreachable code is not reached', False, self.faults_tags)
        return ('end', ('unreachable', None))

    def i_icmp(self, st, fr, ins):
        pr, ty, a, b = ins.a
        x, y = self.op(st, a, ty), self.op(st, b, ty)
        fr.regs[ins.dst] = self.cmp(st, pr, x, y, 64 if ty.k == 'ptr' else ty.w)
        fr.i += 1

    def i_cast(self, st, fr, ins):
        op, ty, v = ins.a
        fr.regs[ins.dst] = self.cast(st, op, ty, self.op(st, v, ty), ins.ty)
        fr.i += 1

    def i_freeze(self, st, fr, ins):
        fr.regs[ins.dst] = self.op(st, ins.a, ins.ty)
        fr.i += 1

    def i_fence(self, st, fr, ins):
        fr.i += 1

    def i_gep(self, st, fr, ins):
        bt, ops = ins.a
        fr.regs[ins.dst] = self.gep(st, bt, [(t, self.op(st, v, t)) for t, v in ops])
        fr.i += 1

    def i_alloca(self, st, fr, ins):
        ty, n = ins.a
        if n is not None and self.op(st, n[1], n[0]) != 1:
            raise Unsupported('variable alloca')
        sz = self.m.size(ty)
        if ty.k == 'arr' and ty.elems.k == 'int' and ty.elems.w == 8:
            o = ByteArr('%s.%s' % (fr.f.name, ins.dst), sz)
        else:
            o = CellObj('%s.%s' % (fr.f.name, ins.dst), sz)
        o.stack = True
        fr.allocas.append(o)
        fr.regs[ins.dst] = self.addobj(o)
        fr.i += 1

    def tsize(self, ty):
        return self.m.size(ty)

    def i_load(self, st, fr, ins):
        ty = ins.ty
        addr = self.op(st, ins.a[0], PTR)
        fr.regs[ins.dst] = self.tload(st, addr, ty, ins.a[1])
        fr.i += 1

    def tload(self, st, addr, ty, order=None):
        if ty.k == 'struct':
            return [self.tload(st, ladd(addr, o), e) for e, o in zip(ty.elems, self.m.offsets(ty))]
        if ty.k == 'arr':
            es = self.m.size(ty.elems)
            return [self.tload(st, ladd(addr, j * es), ty.elems) for j in range(ty.n)]
        n = self.m.size(ty)
        st.g['order'] = order
        v = self.load(st, addr, n)
        if ty.k == 'int' and ty.w < n * 8:
            v = self.cast(st, 'trunc', INT(n * 8), v, ty)
        return v

    def i_store(self, st, fr, ins):
        ty = ins.ty
        v = self.op(st, ins.a[0], ty)
        addr = self.op(st, ins.a[1], PTR)
        st.g['order'] = ins.a[2]
        self.tstore(st, addr, v, ty)
        fr.i += 1

    def tstore(self, st, addr, v, ty):
        if ty.k == 'struct':
            for x, e, o in zip(v, ty.elems, self.m.offsets(ty)):
                self.tstore(st, ladd(addr, o), x, e)
            return
        if ty.k == 'arr':
            es = self.m.size(ty.elems)
            for j, x in enumerate(v):
                self.tstore(st, ladd(addr, j * es), x, ty.elems)
            return
        n = self.m.size(ty)
        if ty.k == 'int' and ty.w < n * 8:
            v = self.cast(st, 'zext', ty, v, INT(n * 8))
        self.store(st, addr, v, n)

    def i_select(self, st, fr, ins):
        c = self.op(st, ins.a[0], INT(1))
        if isinstance(c, (bool, int)):
            fr.regs[ins.dst] = self.op(st, ins.a[1] if c else ins.a[2], ins.ty)
            fr.i += 1
            return None

        def yes(s):
            f = s.frames[-1]
            f.regs[ins.dst] = self.op(s, ins.a[1], ins.ty)
            f.i += 1

        def no(s):
            f = s.frames[-1]
            f.regs[ins.dst] = self.op(s, ins.a[2], ins.ty)
            f.i += 1
        return self.branch(st, c, yes, no)

    def i_extractvalue(self, st, fr, ins):
        ty, v, idx = ins.a
        x = self.op(st, v, ty)
        for k in idx:
            x = x[k]
        fr.regs[ins.dst] = x
        fr.i += 1

    def i_insertvalue(self, st, fr, ins):
        ty, v, ty2, v2, idx = ins.a
        x = self.op(st, v, ty)
        y = self.op(st, v2, ty2)

        def ins_(x, idx):
            x = list(x)
            x[idx[0]] = y if len(idx) == 1 else ins_(x[idx[0]], idx[1:])
            return x
        fr.regs[ins.dst] = ins_(x, idx)
        fr.i += 1

    def i_atomicrmw(self, st, fr, ins):
        o, p, v = ins.a
        addr = self.op(st, p, PTR)
        n = self.m.size(ins.ty)
        old = self.load(st, addr, n)
        x = self.op(st, v, ins.ty)
        if o == 'xchg':
            new = x
        elif o in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.binop(st, o, old, x, ins.ty.w)
        else:
            raise Unsupported('atomicrmw ' + o)
        self.store(st, addr, new, n)
        fr.regs[ins.dst] = old
        fr.i += 1

    def i_invoke(self, st, fr, ins):
        return self.i_call(st, fr, ins)

    def i_call(self, st, fr, ins):
        cal = ins.a['callee']
        if cal[0] == 'asm':
            return self.asm(st, fr, ins)
        if cal[0] == 'glob':
            name = self.m.aliases.get(cal[1], cal[1])
            target = None
        else:
            name, target = '<indirect>', self.op(st, cal, PTR)
        args = [None if v is None else self.op(st, v, ty) for ty, v, at in ins.a['args']]
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, ins, name, args)
        self.called.add(name)
        c = self.contracts.get(name)
        if c is not None:
            if target is not None:
                args = [target] + args
            if V.INT_MODE:
                args = [self.norm(st, v) if isinstance(v, Lin) else v for v in args]
            snap = st.copy()
            try:
                r = c(self, st, args, ins)
            except ForkOn:
                st.__dict__.update(snap.__dict__)
                raise
            if not (isinstance(r, str) and r == 'inline'):
                self.used_contracts.add(name)
                return self.finish_call(st, fr, ins, r)
        if name in self.m.funcs:
            self.push(st, name, args, ins)
            r = self.enter_loop_check(st)
            return r
        raise Unsupported('call to %s has no contract' % name)

    def enter_loop_check(self, st):
        fr = st.frames[-1]
        if fr.b in fr.f.loops():
            return self.goto_entry(st)
        return None

    def goto_entry(self, st):
        return None

    def finish_call(self, st, fr, ins, r):
        """r: None | value | ('alts', [(state, value|('throw',..)|('end',outcome)) ...]) | ('end', outcome)"""
        def done(s, v):
            f = s.frames[-1]
            if isinstance(v, tuple) and v and v[0] == 'end':
                raise Unsupported('end in alternative')
            if isinstance(v, tuple) and v and v[0] == 'throw':
                return self.throw(s, v[1])
            if ins.dst is not None:
                f.regs[ins.dst] = v
            if ins.op == 'invoke':
                return self.goto(s, ins.a['normal'])
            f.i += 1
            return None
        if isinstance(r, tuple) and r and r[0] == 'end':
            return r
        if isinstance(r, tuple) and r and r[0] == 'alts':
            out = []
            ends = []
            for s, v in r[1]:
                if isinstance(v, tuple) and v and v[0] == 'end':
                    s.g['pending_end'] = v[1]
                    s.frames[-1].i = s.frames[-1].i
                    out.append(s)
                    continue
                q = done(s, v)
                if q is None:
                    out.append(s)
                elif q[0] == 'fork':
                    out.extend(q[1])
                elif q[0] == 'end':
                    s.g['pending_end'] = q[1]
                    out.append(s)
                else:
                    raise Unsupported('alts')
            return ('fork', out)
        return done(st, r)

    def throw(self, st, exc):
        """unwind to the nearest invoke"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.b].ins[fr.i]
            if ins.op == 'invoke':
                st.g['exc'] = exc
                return self.goto(st, ins.a['unwind'])
            st.frames.pop()
        return ('end', ('throw', exc))

    CATCHES = {'_ZTISt9bad_alloc': ('bad_alloc', 'derived'), '_ZTISt9exception': ('bad_alloc', 'derived')}

    def typeid(self, v):
        n = v[1] if v[0] == 'glob' else '*'
        return self.typeids.setdefault(n, len(self.typeids) + 1)

    def i_landingpad(self, st, fr, ins):
        cls = st.g['exc'][0]
        sel = None
        for c in ins.a:
            if c[0] == 'cleanup':
                sel = 0 if sel is None else sel
                continue
            if c[0] != 'catch':
                raise Unsupported('landing pad clause ' + c[0])
            n = c[1][1] if c[1][0] == 'glob' else None
            if n is not None and n not in self.CATCHES:
                raise Unsupported('catch of ' + n)
            if n is None or cls in self.CATCHES[n]:
                sel = self.typeid(c[1])
                break
        if sel is None:
            exc = st.g['exc']
            st.frames.pop()
            return self.throw(st, exc)
        st.g['excptr'] = self.flin('exception', 1, 1 << 47, st=st)
        fr.regs[ins.dst] = [st.g['excptr'], sel]
        fr.i += 1

    def i_resume(self, st, fr, ins):
        v = self.op(st, ins.a[1], ins.a[0])
        if repr(v[0]) != repr(st.g['excptr']):
            raise Unsupported('resume of another exception')
        exc = st.g['exc']
        st.frames.pop()
        return self.throw(st, exc) if st.frames else ('end', ('throw', exc))

    # -------------------------------------------------------------- intrinsics
    def setret(self, st, ins, v):
        fr = st.frames[-1]
        if ins.dst is not None:
            fr.regs[ins.dst] = v
        fr.i += 1
        return None

    def intrinsic(self, st, fr, ins, name, args):
        if name.startswith('llvm.expect'):
            return self.setret(st, ins, args[0])
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            r = self.call_mem(st, 'memcpy', args, ins)
            return r if r is not None else self.setret(st, ins, None)
        if name.startswith('llvm.memset'):
            r = self.call_mem(st, 'memset', args, ins)
            return r if r is not None else self.setret(st, ins, None)
        if name.startswith('llvm.threadlocal.address'):
            return self.setret(st, ins, args[0])
        if name.startswith('llvm.assume'):
            self.oblige(st, 'assumption in the code holds', zbool(args[0]) if not isinstance(args[0], (bool, int)) else bool(args[0]), self.faults_tags)
            return self.setret(st, ins, None)
        if name.startswith('llvm.eh.typeid.for'):
            return self.setret(st, ins, self.typeid(ins.a['args'][0][1]))
        w = ins.ty.w if ins.ty is not None and ins.ty.k == 'int' else None
        if name.startswith('llvm.ctlz') or name.startswith('llvm.cttz'):
            x = args[0]
            up = name.startswith('llvm.ctlz')
            zp = args[1]
            if V.INT_MODE and isinstance(x, Lin):
                x = self.norm(st, x)
                if not isinstance(x, int):
                    if not up:
                        raise Unsupported('cttz of an integer')
                    return self.clz_int(st, ins, x, zp)
            if isinstance(x, (Lin,)):
                x2 = st.subst(x)
                if isinstance(x2, int):
                    x = x2
            if isinstance(x, int):
                if x == 0:
                    if zp:
                        self.oblige(st, 'count of zeros is defined (operand non-zero)', False, self.faults_tags)
                    r = w
                else:
                    r = w - x.bit_length() if up else (x & -x).bit_length() - 1
                return self.setret(st, ins, r)
            e = zw(x, w)
            if zp:
                nz = simp(e != 0)
                if nz is not True:
                    self.oblige(st, 'count of zeros is defined (operand non-zero)', nz, self.faults_tags)
                    if not isinstance(nz, bool):
                        st.assume(nz)
            r = z3.BitVecVal(w, w)
            for k in (range(w) if up else range(w - 1, -1, -1)):
                r = z3.If(z3.Extract(k, k, e) == 1, z3.BitVecVal(w - 1 - k if up else k, w), r)
            if w == 64:
                return self.setret(st, ins, lin(r, 0, 63 if zp else 64, 'ctz'))
            return self.setret(st, ins, r)
        if '.with.overflow' in name:
            x, y = args
            op = name.split('.')[1]
            w = int(name.rsplit('i', 1)[1])
            if op == 'uadd':
                if isinstance(x, int) and isinstance(y, int):
                    return self.setret(st, ins, [(x + y) & ((1 << w) - 1), (x + y) >> w != 0])
                if V.INT_MODE and w == 64:
                    x, y = self.norm(st, x), self.norm(st, y)
                    s = ladd_raw(x, y)
                    return self.setret(st, ins, [s if not isinstance(s, int) else s & M64, self.lt0(st, lsub_raw(M64, s))])
                if w == 64:
                    s = ladd(x, y)
                    if st.exact(x) and st.exact(y) and not isinstance(s, int):
                        lo, hi = st.rng(s)
                        if lo >= 0 and hi <= M64:
                            return self.setret(st, ins, [s, False])
                    ov = simp(z3.ULT(z64(s), z64(x)))
                    return self.setret(st, ins, [s, ov])
            if op == 'umul':
                if isinstance(x, int) and isinstance(y, int):
                    return self.setret(st, ins, [(x * y) & ((1 << w) - 1), (x * y) >> w != 0])
                if V.INT_MODE and w == 64:
                    return self.umul_int(st, ins, self.norm(st, x), self.norm(st, y))
                if w == 64:
                    p = self.binop(st, 'mul', x, y, 64)
                    ov = z3.Not(z3.BVMulNoOverflow(z64(x), z64(y), False))
                    return self.setret(st, ins, [p, ov])
            raise Unsupported(name)
        if name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            x, y = args
            pr = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[name.split('.')[1]]
            c = self.cmp(st, pr, x, y, w)

            def yes(s):
                return self.setret(s, ins, x)

            def no(s):
                return self.setret(s, ins, y)
            return self.branch(st, c, yes, no)
        if name.startswith(('llvm.fshl', 'llvm.fshr')):
            a, b, c = args
            if not isinstance(c, int):
                raise Unsupported('variable funnel shift')
            c %= w
            e = z3.Concat(zw(a, w), zw(b, w))
            e = (e << c) if 'fshl' in name else z3.LShR(e, c)
            r = simp(z3.Extract(2 * w - 1, w, e) if 'fshl' in name else z3.Extract(w - 1, 0, e))
            return self.setret(st, ins, lin(r) if w == 64 else r)
        if name.startswith('llvm.trap'):
            return ('end', ('fatal', 'trap'))
        raise Unsupported('intrinsic ' + name)

    def umul_int(self, st, ins, x, y):
        if isinstance(x, int):
            x, y = y, x
        if isinstance(y, int):
            s = lscale(x, y)
            return self.setret(st, ins, [s, self.lt0(st, lsub_raw(M64, s))])
        # non-linear product: one integer P stands for it
        P = self.flin('product', 0, M64 * M64)
        p = self.flin('product64')
        ov = P.z() > M64
        st.assume(z3.Or(ov, p.z() == P.z()))
        X, Y = x.z(), y.z()
        st.assume(z3.And(z3.Implies(z3.Or(X == 0, Y == 0), P.z() == 0), z3.Implies(z3.And(X > 0, Y > 0), z3.And(P.z() >= X, P.z() >= Y))))
        st.g['product'] = (x, y, P, ov)
        return self.setret(st, ins, [p, ov])

    def clz_int(self, st, ins, x, zp):
        """count leading zeros of an integer: one case per bit length"""
        lo, hi = st.rng(x)
        key = ('clz', x.key())
        if key in st.inst_norm:
            return self.setret(st, ins, st.inst_norm[key])
        alts = []
        if lo <= 0:
            z = self.eq0(st, x)
            if self.feasible(st, z):
                if zp:
                    self.oblige(st, 'count of zeros is defined (operand non-zero)', self.bnot(z), self.faults_tags)
                alts.append((z, lambda t: t.inst_norm.__setitem__(key, 64)))
        for k in range(64):
            if hi < 1 << k or lo >= 2 << k:
                continue
            c = []
            if lo < 1 << k:
                c.append(self.bnot(self.lt0(st, ladd_raw(x, -(1 << k)))))
            if hi >= 2 << k:
                c.append(self.lt0(st, ladd_raw(x, -(2 << k))))
            c = self.band(*c)
            alts.append((c, (lambda k: lambda t: t.inst_norm.__setitem__(key, 63 - k))(k)))
        raise ForkOn(alts)

    def call_mem(self, st, which, args, ins):
        if which == 'memcpy':
            self.memcpy(st, args[0], args[1], args[2])
        else:
            self.memset(st, args[0], args[1], args[2])
        return None

    def memcpy(self, st, dst, src, n):
        n = st.subst(n)
        if isinstance(n, int) and n == 0:
            return
        do, doff = self.resolve(st, dst)
        so, soff = self.resolve(st, src)
        if hasattr(do, 'memcpy_to'):
            return do.memcpy_to(self, st, doff, so, soff, n, src)
        if hasattr(so, 'memcpy_from'):
            return so.memcpy_from(self, st, soff, do, doff, n, dst)
        if not isinstance(n, int):
            if isinstance(do, ByteArr) and isinstance(so, ByteArr):
                return self.memcpy_sym(st, do, doff, so, soff, n)
            n = self.concretize(st, n)
        # copy with the natural granularity of the arrays involved
        k = 0
        while k < n:
            step = 8 if n - k >= 8 else (4 if n - k >= 4 else (2 if n - k >= 2 else 1))
            for o, off in ((so, soff), (do, doff)):
                if isinstance(o, ArrObj):
                    _, fo = self.asplit(st, o, ladd(off, k))
                    f = o.fields.get(fo)
                    if f is None:
                        # padding between fields
                        nxt = min([x for x in o.fields if x > fo] + [o.esz])
                        step = -(nxt - fo)
                        break
                    step = f[0]
                elif isinstance(o, CellObj) and isinstance(off, int):
                    c = st.cells.get(o.id, {}).get(off + k)
                    if c is not None and o is so:
                        step = min(step, c[0]) if c[0] in (1, 2, 4, 8) else step
            if step < 0:
                k += -step
                continue
            v = self.oload(st, so, ladd(soff, k), step)
            self.ostore(st, do, ladd(doff, k), v, step)
            k += step

    def memcpy_sym(self, st, do, doff, so, soff, n):
        """byte arrays, symbolic length: lambda"""
        self.bounds_range(st, do, doff, n)
        self.bounds_range(st, so, soff, n)
        kd, ks = self.barr(st, do), self.barr(st, so)
        x = z3.BitVec('ix!%d' % next(self.fresh_n), 64)
        d, s, nn = z64(doff), z64(soff), z64(n)
        st.arr[kd] = z3.Lambda([x], z3.If(z3.And(z3.UGE(x, d), z3.ULT(x - d, nn)), z3.Select(st.arr[ks], x - d + s), z3.Select(st.arr[kd], x)))

    def bounds_range(self, st, obj, off, n):
        if obj.size is None:
            return
        e = z3.And(z3.ULE(z64(off), obj.size), z3.ULE(z64(n), z3.BitVecVal(obj.size, 64) - z64(off)))
        e = simp(e)
        if e is not True:
            self.oblige(st, 'memory range inside its object', e, self.faults_tags, '%s+%r..+%r' % (obj.name, off, n))

    def memset(self, st, dst, v, n):
        n = st.subst(n)
        if isinstance(n, int) and n == 0:
            return
        do, doff = self.resolve(st, dst)
        if hasattr(do, 'memset_to'):
            return do.memset_to(self, st, doff, v, n)
        if not isinstance(n, int):
            raise Unsupported('memset of symbolic length on ' + do.name)
        if isinstance(do, ByteArr):
            for k in range(n):
                self.bstore(st, do, ladd(doff, k), v, 1)
            return
        if not isinstance(v, int):
            raise Unsupported('memset value')
        k = 0
        while k < n:
            step = 8 if n - k >= 8 else 1
            if isinstance(do, ArrObj):
                _, fo = self.asplit(st, do, ladd(doff, k))
                step = do.fields[fo][0]
            self.ostore(st, do, ladd(doff, k), v * int('01' * step, 16), step)
            k += step

    def asm(self, st, fr, ins):
        txt = ins.a['callee'][1]
        args = [self.op(st, v, ty) for ty, v, at in ins.a['args']]
        if '"divq $2"' in txt or '"divl $2"' in txt:
            if not all(isinstance(x, int) for x in args):
                raise Unsupported('symbolic inline asm division')
            w = 64 if 'divq' in txt else 32
            den, lo, hi = args
            n = (hi << w) | lo
            if den == 0 or n // den >> w:
                raise Fault('divide error')
            return self.setret(st, ins, [n // den, n % den])
        if txt.startswith('asm sideeffect ""') or txt.startswith('asm ""'):
            return self.setret(st, ins, None)
        raise Unsupported('inline asm ' + txt)


def simp_e(e):
    return z3.simplify(e)


# ------------------------------------------------------------------ cell codecs
class Plain:
    """integers stored as they are"""

    def __init__(self, w):
        self.w = w

    def sort(self):
        return z3.BitVecSort(self.w)

    def decode(self, ex, st, e, idx):
        e = simp(e)
        if self.w == 64:
            return lin(e)
        return e

    def encode(self, ex, st, v, idx):
        return zw(v, self.w)
