"""Loop rule: invariants over the loop-carried values are inferred from templates and then checked like any other obligation.

At the loop header the loop-carried values (phi nodes and modified memory cells) are replaced by arbitrary ones:
affine ones by initial + step * n for the arbitrary number n of iterations done, others by fresh constants.
Candidate invariants that do not hold on entry or are not preserved are dropped until the rest is inductive.
The paths that come back to the header end there, after the obligations "invariant preserved" are recorded."""
import z3
from .val import *
from .exec import *
from .ir import Unsupported


class LoopRule:
    def __init__(self, cands=None, required=(), havoc=None, tags=None, hook=None, ghosts=()):
        self.ghosts = ghosts
        self.cands, self.required, self.havoc, self.tags, self.hook = cands, required, havoc, tags, hook

    # -- values
    def fresh(self, ex, name, old, w):
        if w == 1:
            return ex.fbool(name)
        if isinstance(old, Trunc) or (isinstance(old, int) and w == 32):
            return Trunc(ex.flin(name, 0, (1 << w) - 1), w)
        if w == 64:
            return ex.flin(name)
        return ex.fresh(name, w)

    def raw(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        return v.l if isinstance(v, Trunc) else v

    def mkval(self, init, step, n, w):
        i = self.raw(init)
        v = ladd_raw(i, lscale(n, step))
        return Trunc(v, w) if w < 64 else v

    def step_of(self, new, old, w):
        a, b = self.raw(new), self.raw(old)
        if z3.is_expr(a) or z3.is_expr(b) or isinstance(a, (bool, list)) or isinstance(b, (bool, list)):
            return None
        d = lsub_raw(a, b)
        if not isinstance(d, int):
            return None
        m = 1 << w
        d %= m
        return d - m if d >= m // 2 else d

    # -- the rule
    def __call__(self, ex, st, fr, src):
        header = fr.b
        loop = fr.f.loops()[header]
        key = '#loop' + header
        if src in loop:
            info = fr.regs.get(key)
            if info is None:
                raise Unsupported('loop entered irregularly')
            if info == 'probe':
                st.g['pending_end'] = ('back', None)
                return None
            self.back(ex, st, fr, info)
            st.g['pending_end'] = ('cut', None)
            return None
        if key in fr.regs and False:
            return None
        blk = fr.f.blocks[header]
        phis = [(p.dst, 64 if p.ty.k == 'ptr' else p.ty.w) for p in blk.phis]
        depth = len(st.frames)
        entry = st.copy()
        init = {d: fr.regs[d] for d, w in phis}
        width = dict(phis)
        cells = {}                                # (obj id, off) -> (nbytes, initial value)
        arrs = set()
        # pass 1: what is modified, and by which step; the first guess comes from executing one iteration
        s = entry.copy()
        s.frames[-1].regs[key] = 'probe'
        guess = {}
        bs = self.explore(ex, s, header, loop, depth)
        for d, w in phis:
            ss = {self.step_of(b.frames[-1].regs[d], init[d], w) for b in bs}
            if len(ss) == 1 and None not in ss:
                guess[d] = ss.pop()
        for rnd in range(8):
            vals = {}
            s = entry.copy()
            f = s.frames[-1]
            n = ex.flin('iterations', 0, 1 << 62)
            for d, w in phis:
                vals[d] = f.regs[d] = self.mkval(init[d], guess[d], n, w) if d in guess else self.fresh(ex, 'loop_' + d.strip('%'), init[d], w)
            for (o, off), (nb, v0) in cells.items():
                k = (o, off)
                vals[k] = v = self.mkval(v0, guess[k], n, nb * 8) if k in guess else self.fresh(ex, 'loop_cell', v0, nb * 8)
                s.cells.setdefault(o, {})[off] = (nb, v)
            for a in arrs:
                s.arr[a] = ex.fresh_like(s.arr[a]) if a in s.arr else None
            if self.havoc:
                self.havoc(ex, s, None)
            f.regs[key] = 'probe'
            head = s.copy()
            backs = self.explore(ex, s, header, loop, depth)
            ch = False
            for b in backs:
                for g, x in b.g.items():
                    if g not in IGNORED_GHOSTS and g not in self.ghosts and not (g in head.g and gsame(head.g[g], x)):
                        raise Unsupported('ghost state %s changes in a loop' % g)
                for o, cs in b.cells.items():
                    hs = head.cells.get(o, {})
                    for off, c in cs.items():
                        if (o, off) in cells:
                            continue
                        h = hs.get(off)
                        if h is None:
                            continue                # first touched in the loop: initial contents are arbitrary
                        if h is not c and not same(h[1], c[1]):
                            if h[0] != c[0]:
                                raise Unsupported('cell size changes in a loop')
                            cells[o, off] = entry.cells[o][off]
                            width[o, off] = c[0] * 8
                            q = self.step_of(c[1], h[1], c[0] * 8)
                            if q is not None:
                                guess[o, off] = q
                            ch = True
                    for off in hs:
                        if off not in cs:
                            raise Unsupported('cell layout changes in a loop')
                for a, t in b.arr.items():
                    if a in head.arr and a not in arrs and not head.arr[a].eq(t) and not (self.havoc and getattr(self, 'owns', lambda a: False)(a)):
                        arrs.add(a)
                        ch = True
            for k in list(guess):
                if any(self.step_of(self.cur(b, k), vals[k], width[k]) != guess[k] for b in backs):
                    del guess[k]
                    ch = True
            if not ch:
                break
        else:
            raise Unsupported('loop frame does not stabilise')
        allinit = dict(init)
        for k, (nb, v) in cells.items():
            allinit[k] = v
        steps = dict(guess)
        info0 = dict(init=allinit, width=width, steps=steps, cells=cells, arrs=arrs, header=header, line=ex.where(st))
        # pass 2: candidates
        cs = []
        if self.cands:
            self.arrs = arrs
            for c in self.cands(ex, entry, dict(allinit), steps):
                v = c[1](entry, {k: v for k, v in allinit.items()}, 0)
                if ex.must(entry, v):
                    cs.append(c)
                elif c[0] in self.required:
                    ex.oblige(st, 'loop invariant holds on entry: ' + c[0], v, self.tags)
                    cs.append(c)
        while True:
            s, vals, n = self.head(ex, entry, info0, cs)
            s.frames[-1].regs[key] = 'probe'
            if not cs:
                break
            backs = self.explore(ex, s, header, loop, depth)
            keep = []
            for c in cs:
                ok = c[0] in self.required
                if not ok:
                    ok = all(self.holds(ex, b, c, info0, n) for b in backs)
                if ok:
                    keep.append(c)
            if len(keep) == len(cs):
                break
            cs = keep
        # the real exploration continues from the arbitrary iteration
        s, vals, n = self.head(ex, entry, info0, cs)
        info0.update(cands=cs, n=n, vals=vals)
        st.__dict__.update(s.__dict__)
        st.frames[-1].regs[key] = info0
        if self.hook:
            self.hook(ex, st, info0)
        return None

    def cur(self, st, k):
        if isinstance(k, tuple):
            return st.cells[k[0]][k[1]][1]
        return st.frames[-1].regs[k]

    def head(self, ex, entry, info, cs):
        s = entry.copy()
        n = ex.flin('iterations', 0, 1 << 62)
        vals = {}
        for k, v in info['init'].items():
            w = info['width'][k]
            if k in info['steps']:
                x = self.mkval(v, info['steps'][k], n, w)
            else:
                x = self.fresh(ex, 'loop_%s' % (k if isinstance(k, str) else 'cell').strip('%'), v, w)
            vals[k] = x
            if isinstance(k, tuple):
                s.cells[k[0]][k[1]] = (info['cells'][k][0], x)
            else:
                s.frames[-1].regs[k] = x
        for a in info['arrs']:
            s.arr[a] = ex.fresh_like(s.arr[a])
        if self.havoc:
            self.havoc(ex, s, n)
        for c in cs:
            f = c[1](s, vals, n)
            if not (isinstance(f, bool) and f):
                s.assume(f)
            if len(c) > 2:
                # the candidate is checked for arbitrary constants: it may be used for all values
                c[2](s, vals, n)
        return s, vals, n

    def holds(self, ex, b, c, info, n):
        vals = {k: self.cur(b, k) for k in info['init']}
        f = c[1](b, vals, ladd_raw(n, 1))
        try:
            return ex.must(b, f)
        except Undecided:
            return False

    def back(self, ex, st, fr, info):
        vals = {k: self.cur(st, k) for k in info['init']}
        n1 = ladd_raw(info['n'], 1)
        for k, d in info['steps'].items():
            want = self.mkval(info['init'][k], d, n1, info['width'][k])
            a, b = self.raw(vals[k]), self.raw(want)
            if isinstance(a, (int, Lin)) and isinstance(lsub_raw(a, b), int) and lsub_raw(a, b) % (1 << info['width'][k]) == 0:
                continue
            ex.oblige(st, 'loop: values advance by the inferred step', ex.cmp(st, 'eq', vals[k], want, info['width'][k]), self.tags)
        for c in info['cands']:
            ex.oblige(st, 'loop invariant is preserved: ' + c[0], c[1](st, vals, n1), self.tags)
        for o, cs in st.cells.items():
            pass

    def explore(self, ex, s, header, loop, depth):
        out = []
        saved = ex.submode
        ex.submode = (out, depth, loop)
        try:
            ex.run(s, None)
        finally:
            ex.submode = saved
        return [x for x, o in out if o[0] == 'back']


IGNORED_GHOSTS = {'order', 'pending_end', 'U', 'terms', 'pstores'}


def gsame(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(gsame(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(gsame(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    if isinstance(a, (z3.ExprRef, Lin, Trunc, int, bool, str, frozenset)):
        return same(a, b)
    return False


def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if z3.is_expr(a) or z3.is_expr(b):
        return False
    if isinstance(a, Trunc) and isinstance(b, Trunc):
        return a.l == b.l
    return type(a) == type(b) and a == b
