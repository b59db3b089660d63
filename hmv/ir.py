"""Parser for the textual LLVM IR (clang 18) of the code under verification.

Only what clang emits for this code base is accepted; anything else raises
Unsupported, which ends a check with an error exit (never with a verdict).
"""
import re


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'elems', 'n', 'packed', 'name', '_off', '_size', '_al')

    def __init__(self, k, w=0, elems=None, n=0, packed=False, name=None):
        self.k, self.w, self.elems, self.n, self.packed, self.name = k, w, elems, n, packed, name
        self._off = self._size = self._al = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.elems)
        if self.k == 'struct':
            return self.name or '{%s}' % ', '.join(map(repr, self.elems))
        return self.k


PTR = Ty('ptr', 64)
VOID = Ty('void')
_ints = {}


def INT(w):
    if w not in _ints:
        _ints[w] = Ty('int', w)
    return _ints[w]


TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*"
 | [%@!]"(?:[^"\\]|\\.)*"
 | [%@][-a-zA-Z$._0-9]+ | ![-a-zA-Z$._0-9]*
 | -?[0-9]+ | \#[0-9]+ | \.\.\.
 | [a-zA-Z_][-a-zA-Z_0-9.]* | <\{ | \}> | [\[\]{}()<>,=*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %r got %r in %r' % (x, y, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if t == 'ptr':
            if self.peek() == 'addrspace':
                raise Unsupported('addrspace')
            return PTR
        if t == 'void':
            return VOID
        if re.fullmatch(r'i\d+', t):
            return INT(int(t[1:]))
        if t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            return Ty('arr', elems=e, n=n)
        if t in ('{', '<{'):
            el = []
            end = '}' if t == '{' else '}>'
            while not self.eat(end):
                el.append(self.type())
                self.eat(',')
            return Ty('struct', elems=el, packed=(t == '<{'))
        if t[0] == '%':
            return self.mod.named(t)
        if t in ('metadata', 'label', 'token'):
            return Ty(t)
        if t in ('double', 'float', 'x86_fp80'):
            return Ty('fp', {'double': 64, 'float': 32, 'x86_fp80': 128}[t])
        raise Unsupported('type %r in %s' % (t, ' '.join(self.t)))

    ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'zeroext', 'signext',
             'noalias', 'returned', 'immarg', 'inreg', 'nest', 'allocptr', 'noreturn', 'nounwind', 'nofree', 'dead_on_unwind', 'writable'}
    ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'allocalign', 'captures', 'initializes', 'range'}

    def attrs(self):
        out = {}
        while True:
            t = self.peek()
            if t in self.ATTRS:
                self.next()
                out[t] = True
            elif t in self.ATTRS_ARG:
                self.next()
                if self.peek() == '(':
                    self.next()
                    if t in ('byval', 'sret', 'elementtype'):
                        out[t] = self.type()
                    else:
                        out[t] = self.next()
                    self.expect(')')
                else:
                    out[t] = True if t == 'allocalign' else int(self.next())
            else:
                return out

    CE = {'getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'add', 'sub', 'trunc', 'xor', 'mul', 'shl', 'icmp'}

    def value(self, ty):
        """operand of known type -> ('reg',n) ('glob',n) ('int',v) ('null',) ('undef',) ('zero',ty) ('agg',ty,[..]) ('str',bytes) ('ce',...)"""
        t = self.next()
        if t[0] == '%':
            return ('reg', t)
        if t[0] == '@':
            return ('glob', unq(t))
        if t == 'null':
            return ('int', 0)
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t in ('undef', 'poison'):
            return ('undef', ty)
        if t == 'zeroinitializer':
            return ('zero', ty)
        if t == 'none':
            return ('none',)
        if re.fullmatch(r'-?\d+', t):
            return ('int', int(t))
        if t[:2] == 'c"':
            return ('str', unescape(t[2:-1]))
        if t in ('[', '{', '<{'):
            end = {'[': ']', '{': '}', '<{': '}>'}[t]
            vs = []
            while not self.eat(end):
                ety = self.type()
                vs.append((ety, self.value(ety)))
                self.eat(',')
            return ('agg', ty, vs)
        if t in self.CE:
            flags = []
            while self.peek() in ('inbounds', 'nuw', 'nsw', 'exact', 'inrange'):
                flags.append(self.next())
            if t == 'getelementptr':
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = []
                while not self.eat(')'):
                    self.eat('inrange')
                    oty = self.type()
                    ops.append((oty, self.value(oty)))
                    self.eat(',')
                return ('gep', bt, ops)
            if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
                self.expect('(')
                oty = self.type()
                v = self.value(oty)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', t, oty, v, t2)
            self.expect('(')
            a = self.type()
            va = self.value(a)
            self.expect(',')
            b = self.type()
            vb = self.value(b)
            self.expect(')')
            return ('bin', t, a, va, vb)
        raise Unsupported('value %r in %s' % (t, ' '.join(self.t)))

    def tvalue(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


def unq(t):
    if t[1:2] == '"':
        return t[2:-1]
    return t[1:]


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line', 'flags', 'dbg')

    def __init__(self, op, dst, ty, a, flags=()):
        self.op, self.dst, self.ty, self.a, self.flags = op, dst, ty, a, flags
        self.line = self.dbg = None

    def __repr__(self):
        return '%s = %s %r %r' % (self.dst, self.op, self.ty, self.a)


class Block:
    def __init__(self, name):
        self.name, self.phis, self.ins = name, [], []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (reg, ty, attrs)
        self.blocks = {}
        self.entry = None
        self.ret = None
        self.varargs = False
        self.dbg = None
        self.internal = False
        self._loops = None

    def succs(self, b):
        t = self.blocks[b].ins[-1]
        if t.op == 'br':
            return [t.a[0]]
        if t.op == 'condbr':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [x[1] for x in t.a[3]]
        if t.op == 'invoke':
            return [t.a['normal'], t.a['unwind']]
        return []

    def loops(self):
        """natural loops: header -> set of blocks"""
        if self._loops is not None:
            return self._loops
        order, seen = [], set()
        st = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {b: set(order) for b in order}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                d = set.intersection(*[dom[p] for p in preds[b]]) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.dom = dom
        loops = {}
        for b in order:
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(preds[x])
        self._loops = loops
        return loops


class Global:
    def __init__(self, name, ty, init, const, dbg, tls, external):
        self.name, self.ty, self.init, self.const, self.dbg, self.tls, self.external = name, ty, init, const, dbg, tls, external


ATOMIC_ORD = {'unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'}


class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.decls, self.aliases, self.md = {}, {}, {}, {}, {}, {}
        self.mdraw = {}
        self._named_text = {}
        self.parse(text)
        self._struct_cache = {}

    def named(self, t):
        if t not in self.types:
            ty = Ty('struct', name=t)
            self.types[t] = ty
            if t not in self._named_text:
                ty.k = 'opaque'
                return ty
            p = P(tokenize(self._named_text[t]), self)
            if p.peek() == 'opaque':
                ty.k = 'opaque'
            else:
                q = p.type()
                ty.elems, ty.packed = q.elems, q.packed
        return self.types[t]

    # ---- layout
    def align(self, ty):
        if ty._al is None:
            if ty.k == 'int':
                b = (ty.w + 7) // 8
                a = 1
                while a < b:
                    a *= 2
                ty._al = min(a, 16)
            elif ty.k == 'ptr':
                ty._al = 8
            elif ty.k == 'arr':
                ty._al = self.align(ty.elems)
            elif ty.k == 'struct':
                ty._al = 1 if ty.packed else max([self.align(e) for e in ty.elems] or [1])
            elif ty.k == 'fp':
                ty._al = ty.w // 8
            else:
                raise Unsupported('align of %r' % ty)
        return ty._al

    def size(self, ty):
        if ty._size is None:
            if ty.k == 'int':
                b = (ty.w + 7) // 8
                a = self.align(ty)
                ty._size = (b + a - 1) // a * a
            elif ty.k == 'ptr':
                ty._size = 8
            elif ty.k == 'fp':
                ty._size = ty.w // 8
            elif ty.k == 'arr':
                ty._size = ty.n * self.size(ty.elems)
            elif ty.k == 'struct':
                self.offsets(ty)
            else:
                raise Unsupported('size of %r' % ty)
        return ty._size

    def offsets(self, ty):
        if ty._off is None:
            o, off = 0, []
            for e in ty.elems:
                if not ty.packed:
                    a = self.align(e)
                    o = (o + a - 1) // a * a
                off.append(o)
                o += self.size(e)
            a = self.align(ty)
            ty._off = off
            ty._size = (o + a - 1) // a * a
        return ty._off

    # ---- parsing
    def parse(self, text):
        lines = text.split('\n')
        for l in lines:
            if l[:1] == '%':
                m = re.match(r'(%\S+) = type (.*)', l)
                if m:
                    self._named_text[m.group(1)] = m.group(2)
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_func(lines[i:j])
                i = j
            elif l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('declare'):
                m = re.search(r'(@"?[-\w$.]+"?)\(', l)
                self.decls[unq(m.group(1))] = l
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', l)
                if m:
                    self.mdraw[int(m.group(1))] = m.group(2)
            i += 1

    def parse_global(self, l):
        m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-\w$.]+) = (.*)', l)
        name = unq(m.group(1))
        rest = m.group(2)
        if re.search(r'\balias\b', rest.split('@')[0]):
            self.aliases[name] = unq(re.search(r'ptr (@[-\w$.]+)', rest).group(1))
            return
        if ' ifunc ' in rest:
            raise Unsupported('ifunc')
        dbg = re.search(r'!dbg !(\d+)', rest)
        rest0 = re.sub(r', (!dbg|align|section|comdat|no_sanitize).*$', '', rest) if 'c"' not in rest else rest
        toks = tokenize(rest0)
        p = P(toks, self)
        tls = external = const = False
        while True:
            t = p.peek()
            if t in ('internal', 'private', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'hidden', 'common', 'linkonce_odr',
                     'weak', 'weak_odr', 'constant', 'global', 'external', 'thread_local', 'extern_weak', 'available_externally', 'appending', 'linkonce', 'protected', 'default', 'comdat'):
                p.next()
                if t == 'thread_local':
                    tls = True
                    if p.eat('('):
                        p.next()
                        p.expect(')')
                if t in ('external', 'extern_weak'):
                    external = True
                if t == 'constant':
                    const = True
                if t in ('constant', 'global'):
                    break
            else:
                raise Unsupported('global ' + l)
        ty = p.type()
        init = None
        if not external and p.peek() is not None:
            try:
                init = p.value(ty)
            except Unsupported:
                init = ('undef', ty)
        self.globals[name] = Global(name, ty, init, const, int(dbg.group(1)) if dbg else None, tls, external)

    def parse_func(self, lines):
        h = lines[0]
        m = re.search(r'(@"?[-\w$.]+"?)\(', h)
        f = Func(unq(m.group(1)))
        f.internal = ' internal ' in h
        pre = tokenize(h[len('define'):m.start()])
        # return type: last type in pre, after attributes
        p = P(pre, self)
        while p.peek() in ('internal', 'dso_local', 'hidden', 'noundef', 'noalias', 'zeroext', 'signext', 'linkonce_odr', 'nonnull', 'weak', 'private',
                           'weak_odr', 'local_unnamed_addr', 'fastcc', 'protected', 'default') or p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null'):
            t = p.next()
            if t in ('dereferenceable', 'dereferenceable_or_null'):
                p.expect('('); p.next(); p.expect(')')
            elif t == 'align':
                p.next()
        f.ret = p.type()
        p = P(tokenize(h[m.end():]), self)
        while not p.eat(')'):
            if p.eat('...'):
                f.varargs = True
                continue
            ty = p.type()
            at = p.attrs()
            reg = p.next()
            f.params.append((reg, ty, at))
            p.eat(',')
        d = re.search(r'!dbg !(\d+)', h)
        f.dbg = int(d.group(1)) if d else None
        cur = None
        k = 1
        n = len(lines)
        # implicit entry label number
        while k < n:
            l = lines[k]
            k += 1
            if not l.strip():
                continue
            if l[0] != ' ':
                m2 = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', l)
                if m2:
                    nm = m2.group(1)
                    cur = Block('%' + nm)
                    f.blocks[cur.name] = cur
                    if f.entry is None:
                        f.entry = cur.name
                    continue
            if cur is None:
                # unnamed entry block: number = count of unnamed params
                cnt = sum(1 for r, _, _ in f.params if re.fullmatch(r'%\d+', r))
                cur = Block('%' + str(cnt))
                f.blocks[cur.name] = cur
                f.entry = cur.name
            s = l.strip()
            if '@llvm.dbg.' in s or '@llvm.lifetime' in s:
                continue
            # multi-line constructs
            if re.search(r'\bswitch\b', s) and s.endswith('['):
                while not lines[k].strip().startswith(']'):
                    s += ' ' + lines[k].strip()
                    k += 1
                s += ' ' + lines[k].strip()
                k += 1
            if re.search(r'(^|= )invoke\b', s):
                s += ' ' + lines[k].strip()
                k += 1
            if re.search(r'= landingpad\b', s):
                while k < n and re.match(r'\s+(catch|filter|cleanup)\b', lines[k]):
                    s += ' ' + lines[k].strip()
                    k += 1
            ins = self.parse_ins(s)
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        self.funcs[f.name] = f

    def parse_ins(self, s):
        dm = re.search(r', !dbg !(\d+)', s)
        s0 = re.sub(r'(, )?!(dbg|llvm\.loop|srcloc|tbaa|prof|range|nosanitize|noundef|heapallocsite|nonnull|align) !\d+', '', s)
        toks = tokenize(s0)
        p = P(toks, self)
        dst = None
        if p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        r = self._ins(op, dst, p)
        r.dbg = int(dm.group(1)) if dm else None
        return r

    BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
    CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}

    def _ins(self, op, dst, p):
        if op in self.BIN:
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.append(p.next())
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return Ins(op, dst, ty, (a, b), tuple(fl))
        if op in self.CAST:
            p.eat('nneg')
            ty, v = p.tvalue()
            p.expect('to')
            t2 = p.type()
            return Ins('cast', dst, t2, (op, ty, v))
        if op == 'icmp':
            pr = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return Ins('icmp', dst, INT(1), (pr, ty, a, b))
        if op == 'alloca':
            ty = p.type()
            n = None
            if p.eat(','):
                if p.peek() != 'align':
                    n = p.tvalue()
            return Ins('alloca', dst, PTR, (ty, n))
        if op == 'load':
            at = p.eat('atomic')
            p.eat('volatile')
            ty = p.type()
            p.expect(',')
            pt, v = p.tvalue()
            od = p.peek() if p.peek() in ATOMIC_ORD else None
            return Ins('load', dst, ty, (v, od if at else None))
        if op == 'store':
            at = p.eat('atomic')
            p.eat('volatile')
            ty, v = p.tvalue()
            p.expect(',')
            pt, a = p.tvalue()
            od = p.peek() if p.peek() in ATOMIC_ORD else None
            return Ins('store', None, ty, (v, a, od if at else None))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            ops = []
            while True:
                ops.append(p.tvalue())
                if not p.eat(','):
                    break
            return Ins('gep', dst, PTR, (bt, ops))
        if op == 'phi':
            ty = p.type()
            inc = []
            while p.eat('['):
                v = p.value(ty)
                p.expect(',')
                inc.append((p.next(), v))
                p.expect(']')
                p.eat(',')
            return Ins('phi', dst, ty, {b: v for b, v in inc})
        if op == 'select':
            c = p.tvalue()
            p.expect(',')
            ty, a = p.tvalue()
            p.expect(',')
            _, b = p.tvalue()
            return Ins('select', dst, ty, (c[1], a, b))
        if op == 'br':
            if p.eat('label'):
                return Ins('br', None, None, (p.next(),))
            ty = p.type()
            c = p.value(ty)
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            return Ins('condbr', None, None, (c, a, b))
        if op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cs = []
            while not p.eat(']'):
                p.type()
                c = int(p.next())
                p.expect(',')
                p.expect('label')
                cs.append((c, p.next()))
            return Ins('switch', None, None, (ty, v, d, cs))
        if op == 'ret':
            ty = p.type()
            if ty.k == 'void':
                return Ins('ret', None, ty, None)
            return Ins('ret', None, ty, p.value(ty))
        if op == 'unreachable':
            return Ins('unreachable', None, None, None)
        if op in ('call', 'invoke'):
            while p.peek() in ('fastcc', 'zeroext', 'signext', 'noundef', 'noalias', 'nonnull', 'coldcc') or p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'):
                t = p.next()
                if t == 'align':
                    p.next()
                elif p.peek() == '(':
                    while p.next() != ')':
                        pass
            ret = p.type()
            if p.peek() == '(':      # function type for varargs
                depth = 0
                while True:
                    t = p.next()
                    depth += (t == '(') - (t == ')')
                    if depth == 0:
                        break
            if p.peek() == 'asm':
                txt = []
                while p.peek() != '(' :
                    txt.append(p.next())
                callee = ('asm', ' '.join(txt))
            else:
                callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.eat(')'):
                ty = p.type()
                at = p.attrs()
                if ty.k == 'metadata':
                    while p.peek() not in (',', ')'):
                        p.next()
                    args.append((ty, None, at))
                else:
                    args.append((ty, p.value(ty), at))
                p.eat(',')
            a = {'callee': callee, 'args': args}
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.expect('to')
                p.expect('label')
                a['normal'] = p.next()
                p.expect('unwind')
                p.expect('label')
                a['unwind'] = p.next()
            return Ins(op, dst, ret, a)
        if op == 'extractvalue':
            ty, v = p.tvalue()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return Ins('extractvalue', dst, None, (ty, v, idx))
        if op == 'insertvalue':
            ty, v = p.tvalue()
            p.expect(',')
            ty2, v2 = p.tvalue()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return Ins('insertvalue', dst, ty, (ty, v, ty2, v2, idx))
        if op == 'atomicrmw':
            p.eat('volatile')
            o = p.next()
            _, a = p.tvalue()
            p.expect(',')
            ty, v = p.tvalue()
            return Ins('atomicrmw', dst, ty, (o, a, v))
        if op == 'landingpad':
            ty = p.type()
            clauses = []
            while p.peek() is not None:
                t = p.next()
                if t == 'cleanup':
                    clauses.append(('cleanup',))
                elif t == 'catch':
                    cty = p.type()
                    clauses.append(('catch', p.value(cty)))
                elif t == 'filter':
                    cty = p.type()
                    clauses.append(('filter', p.value(cty)))
            return Ins('landingpad', dst, ty, clauses)
        if op == 'resume':
            ty, v = p.tvalue()
            return Ins('resume', None, ty, (ty, v))
        if op == 'freeze':
            ty, v = p.tvalue()
            return Ins('freeze', dst, ty, v)
        if op == 'fence':
            return Ins('fence', None, None, None)
        return Ins('unsupported', dst, None, (op, ' '.join(p.t)))

    # ---- debug info: struct layouts by source field name
    def _md(self, n):
        if n in self.md:
            return self.md[n]
        raw = self.mdraw[n]
        d = {'_raw': raw}
        m = re.match(r'(distinct )?!(\w+)\((.*)\)$', raw)
        if m:
            d['_k'] = m.group(2)
            for k, v in re.findall(r'(\w+): ((?:"(?:[^"\\]|\\.)*")|[^,]+)', m.group(3)):
                d[k] = v.strip('"')
        else:
            d['_k'] = 'list'
            d['items'] = [int(x) for x in re.findall(r'!(\d+)', raw)]
        self.md[n] = d
        return d

    def ref(self, v):
        return int(v[1:])

    def strip_type(self, n):
        """follow typedefs / cv"""
        while True:
            d = self._md(n)
            if d['_k'] == 'DIDerivedType' and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_atomic_type'):
                n = self.ref(d['baseType'])
            else:
                return n, d

    def struct_md(self, name):
        for n, raw in self.mdraw.items():
            if 'DICompositeType' in raw and ('name: "%s"' % name) in raw and 'elements:' in raw:
                d = self._md(n)
                if d.get('name') == name:
                    return n
        raise Unsupported('no struct %s in debug info' % name)

    def fields_of(self, n):
        """name -> (offset bytes, size bytes, type md) including anonymous members"""
        n, d = self.strip_type(n)
        out = {}
        for e in self._md(self.ref(d['elements']))['items']:
            m = self._md(e)
            if m.get('tag') != 'DW_TAG_member':
                continue
            off = int(m.get('offset', '0')) // 8
            sz = int(m.get('size', '0')) // 8
            bt = self.ref(m['baseType'])
            if 'name' in m:
                out[m['name']] = (off, sz, bt)
            else:
                for k, (o, s, t) in self.fields_of(bt).items():
                    out[k] = (off + o, s, t)
        return out

    def struct(self, name):
        if name not in self._struct_cache:
            self._struct_cache[name] = self.fields_of(self.struct_md(name))
        return self._struct_cache[name]

    def sizeof_struct(self, name):
        return int(self._md(self.struct_md(name))['size']) // 8

    def global_fields(self, g):
        gd = self._md(self.globals[g].dbg)
        var = self._md(self.ref(gd['var']))
        return self.fields_of(self.ref(var['type']))

    def line_of(self, dbg):
        try:
            d = self._md(dbg)
            return int(d.get('line', 0))
        except Exception:
            return None
