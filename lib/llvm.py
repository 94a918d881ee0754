"""Textual LLVM IR (clang -S -emit-llvm) executed over numbers and the symbolic words of a domain."""
import re
import z3
from .wat import Trap, Unenc


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj is self.obj and o.off == self.off

    def __hash__(self):
        return hash((id(self.obj), self.off))


class Obj:
    """a piece of memory: cells by offset; a cell is (number of bytes, value)"""

    def __init__(self, name, size, fill=None):
        self.name, self.size, self.cells, self.fill = name, size, {}, fill

    def __repr__(self):
        return self.name


class FnPtr:
    def __init__(self, name):
        self.name = name


TOK = re.compile(r'c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|[%@]"[^"]*"|"[^"]*"|[%@!#][-a-zA-Z$._0-9]*|[-a-zA-Z$._0-9]+|\.\.\.|\S')


class Type:
    """('i', n) ('ptr',) ('arr', n, t) ('st', [t], packed) ('void',) ('f', bits) ('fn',)"""


class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, set()
        self.gtext = {}
        lines = text.split('\n')
        i = 0
        tdefs = {}
        while i < len(lines):
            l = lines[i]
            m = re.match(r'(%[^ ]+|%"[^"]*") = type (.*)', l)
            if m:
                tdefs[m.group(1)] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'(@"[^"]*"|@[^ ]+) = (.*)', l)
                self.gtext[m.group(1)] = m.group(2)
            elif l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                self.addfn(lines[i:j])
                i = j
            elif l.startswith('declare'):
                self.decls.add(re.search(r'(@"[^"]*"|@[^ (]+)\(', l).group(1))
            i += 1
        self.tdefs = tdefs
        self.parsed = {}

    def addfn(self, lines):
        name = re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', lines[0]).group(1)
        self.funcs[name] = lines

    # types -----------------------------------------------------------------
    def ptype(self, t, i):
        """type at token i -> (type, next index)"""
        x = t[i]
        i += 1
        if re.fullmatch(r'i\d+', x):
            r = ('i', int(x[1:]))
        elif x == 'ptr':
            r = ('ptr',)
        elif x == 'void':
            r = ('void',)
        elif x in ('float', 'double', 'x86_fp80'):
            r = ('f', {'float': 32, 'double': 64, 'x86_fp80': 128}[x])
        elif x in ('metadata', 'label', 'token'):
            r = (x,)
        elif x == '[':
            n = int(t[i])
            e, i = self.ptype(t, i + 2)
            i += 1
            r = ('arr', n, e)
        elif x == '<' and t[i] == '{':
            e, i = self.ptype(t, i)
            r = ('st', e[1], True)
            i += 1
        elif x == '<':
            n = int(t[i])
            e, i = self.ptype(t, i + 2)
            i += 1
            r = ('vec', n, e)
        elif x == '{':
            es = []
            while t[i] != '}':
                e, i = self.ptype(t, i)
                es.append(e)
                if t[i] == ',':
                    i += 1
            i += 1
            r = ('st', es, False)
        elif x[0] == '%':
            if x not in self.types:
                d = self.tdefs[x]
                self.types[x] = ('opaque',) if d == 'opaque' else self.ptype(TOK.findall(d), 0)[0]
            r = self.types[x]
        else:
            raise Unenc('type ' + x)
        while i < len(t) and t[i] == '(':  # function type
            d = 1
            i += 1
            while d:
                d += (t[i] == '(') - (t[i] == ')')
                i += 1
            r = ('fn', r)
        return r, i

    def size(self, t):
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            return n if n <= 2 else 4 if n <= 4 else 8 if n <= 8 else 16 * ((n + 15) // 16)
        if t[0] == 'ptr':
            return 8
        if t[0] == 'f':
            return t[1] // 8
        if t[0] == 'arr':
            return t[1] * self.size(t[2])
        if t[0] == 'vec':
            return t[1] * self.size(t[2])
        if t[0] == 'st':
            o = 0
            for k, e in enumerate(t[1]):
                o = self.off(t, k)
            o += self.size(t[1][-1]) if t[1] else 0
            a = 1 if t[2] else self.align(t)
            return (o + a - 1) // a * a
        raise Unenc('size of %r' % (t,))

    def align(self, t):
        if t[0] == 'arr':
            return self.align(t[2])
        if t[0] == 'st':
            return 1 if t[2] else max([self.align(e) for e in t[1]] or [1])
        return min(16, self.size(t))

    def off(self, t, k):
        o = 0
        for j, e in enumerate(t[1]):
            if not t[2]:
                a = self.align(e)
                o = (o + a - 1) // a * a
            if j == k:
                return o
            o += self.size(e)
        return o

    # functions -------------------------------------------------------------
    def func(self, name):
        if name not in self.parsed:
            self.parsed[name] = self.pfunc(self.funcs[name])
        return self.parsed[name]

    def pfunc(self, lines):
        t = TOK.findall(lines[0].split(' comdat')[0])
        k = next(i for i, x in enumerate(t) if x[0] == '@')
        i = k + 2
        params, cnt = [], 0
        while t[i] != ')':
            ty, i = self.ptype(t, i) if t[i] != '...' else (None, i + 1)
            byval = None
            nm = None
            d = 0
            while d or t[i] not in (',', ')'):
                if t[i] == 'byval':
                    byval, i2 = self.ptype(t, i + 2)
                if t[i] == '(':
                    d += 1
                elif t[i] == ')':
                    d -= 1
                elif t[i][0] == '%' and d == 0:
                    nm = t[i]
                i += 1
            if ty is not None:
                if nm is None:
                    nm = '%%%d' % cnt
                params.append((nm, ty, byval))
                cnt += nm[1:].isdigit()
            if t[i] == ',':
                i += 1
        blocks, cur, first = {}, None, None
        body = lines[1:]
        name = '%%%d' % cnt
        cur = blocks[name] = []
        first = name
        started = False
        j = 0
        while j < len(body):
            l = body[j]
            j += 1
            m = re.match(r'([-a-zA-Z$._0-9]+|"[^"]*"):', l)
            if m:
                name = '%' + m.group(1)
                if not started and not cur:
                    del blocks[first]
                    first = name
                cur = blocks[name] = []
                started = True
                continue
            l = l.strip()
            if not l or l.startswith(';'):
                continue
            started = True
            if l.startswith('switch') or ' landingpad' in l or l.startswith('invoke') or ' = invoke' in l:
                while l.startswith('switch') and ']' not in l:
                    l += ' ' + body[j].strip()
                    j += 1
                while 'invoke ' in l and ' unwind ' not in l:
                    l += ' ' + body[j].strip()
                    j += 1
            cur.append(self.pins(l))
        return dict(params=params, blocks=blocks, first=first)

    def pins(self, l):
        l = re.sub(r', ![a-z][^ ]* ![0-9]+.*$', '', l)
        l = re.sub(r' #\d+$', '', l)
        t = TOK.findall(l)
        dst = None
        if len(t) > 2 and t[1] == '=':
            dst, t = t[0], t[2:]
        return dst, t


FLAGS = {'samesign', 'nusw', 'nuw', 'nsw', 'exact', 'nneg', 'disjoint', 'inbounds', 'volatile', 'tail', 'notail', 'musttail', 'noundef', 'nonnull', 'zeroext', 'signext',
         'nocapture', 'readonly', 'writeonly', 'immarg', 'noalias', 'returned', 'inreg', 'fast', 'nofree', 'readnone'}


class Exec:
    """dom: bin(op, n, a, b), icmp(pred, n, a, b), cast(op, n, m, a), truth(v), pick(v, n)"""

    def __init__(self, mod, dom, maxsteps=2000000):
        self.m, self.d, self.hooks, self.maxsteps = mod, dom, {}, maxsteps
        self.steps = 0
        self.glob = {}
        self.calls = set()
        self.depth = 0

    # memory ------------------------------------------------------------------
    def alloc(self, name, size, fill=None):
        return Ptr(Obj(name, size, fill))

    def gptr(self, name):
        if name in self.m.funcs or name in self.m.decls or name in self.hooks:
            return FnPtr(name)
        if name not in self.glob:
            txt = self.m.gtext.get(name)
            if txt is None:
                raise Unenc('global ' + name)
            m = re.search(r'\b(?:constant|global)\b(.*)', txt)
            t = TOK.findall(m.group(1).split(', comdat')[0].split(', align')[0])
            ty, i = self.m.ptype(t, 0)
            ext = re.match(r'(?:\w+ )*external ', txt) is not None
            p = self.alloc(name, self.m.size(ty) if ty[0] != 'opaque' else 64, 0 if ext else None)
            self.glob[name] = p
            if i < len(t) and not ext:
                self.ginit(p, ty, t, i)
        return self.glob[name]

    def ginit(self, p, ty, t, i):
        """initialiser of type ty at token i written to p; next index"""
        x = t[i]
        if x in ('zeroinitializer', 'null'):
            p.obj.fill = 0 if p.off == 0 and self.m.size(ty) == p.obj.size else p.obj.fill
            if p.obj.fill != 0:
                for k in range(self.m.size(ty)):
                    self.store(Ptr(p.obj, p.off + k), 1, 0)
            return i + 1
        if x in ('undef', 'poison'):
            return i + 1
        if x[:2] == 'c"':
            b, s, k = [], x[2:-1], 0
            while k < len(s):
                if s[k] == '\\':
                    if s[k + 1] == '\\':
                        b.append(92)
                        k += 2
                    else:
                        b.append(int(s[k + 1:k + 3], 16))
                        k += 3
                else:
                    b += s[k].encode()
                    k += 1
            for k, c in enumerate(b):
                self.store(Ptr(p.obj, p.off + k), 1, c)
            return i + 1
        if ty[0] in ('arr', 'st') and x in '[{<':
            if x == '<':
                i += 1
            i += 1
            k = 0
            while t[i] not in ']}':
                e, i = self.m.ptype(t, i)
                o = k * self.m.size(e) if ty[0] == 'arr' else self.m.off(ty, k)
                i = self.ginit(Ptr(p.obj, p.off + o), e, t, i)
                k += 1
                if t[i] == ',':
                    i += 1
            return i + (2 if x == '<' else 1)
        v, i = self.const(ty, t, i)
        self.store(p, self.m.size(ty), v)
        return i

    def chk(self, p, n):
        if not isinstance(p, Ptr):
            raise Trap('memory', 'access through %r' % (p,))
        if not isinstance(p.off, int):
            p = Ptr(p.obj, self.d.pick(p.off, 64))
        off = p.off if p.off < 1 << 63 else p.off - (1 << 64)
        if off < 0 or off + n > p.obj.size:
            raise Trap('memory', 'access of %d bytes at %d of %s (%d bytes)' % (n, off, p.obj.name, p.obj.size))
        return p.obj, off

    def load(self, p, n):
        o, off = self.chk(p, n)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        if c is None and not any(off - 64 < a < off + n and a + s[0] > off for a, s in o.cells.items()):
            if o.fill is None:
                raise Unenc('uninitialised load at %d of %s' % (off, o.name))
            return o.fill
        out = []
        for k in range(n):
            out.append(self.byte(o, off + k))
        if all(isinstance(b, int) for b in out):
            return sum(b << (8 * k) for k, b in enumerate(out))
        return self.d.cat(out)

    def byte(self, o, a):
        for s in range(64):
            c = o.cells.get(a - s)
            if c is not None and c[0] > s:
                v = c[1]
                if isinstance(v, int):
                    return v >> (8 * s) & 255
                return self.d.byte(v, s)
        if o.fill is None:
            raise Unenc('uninitialised byte at %d of %s' % (a, o.name))
        return o.fill

    def store(self, p, n, v):
        o, off = self.chk(p, n)
        for a in list(o.cells) if len(o.cells) < 64 else [x for x in range(off - 63, off + n) if x in o.cells]:
            s, w = o.cells[a]
            if a + s <= off or a >= off + n or (a == off and s == n):
                continue
            bs = [(a + k, self.byte(o, a + k)) for k in range(s)]
            del o.cells[a]
            for x, b in bs:
                if not off <= x < off + n:
                    o.cells[x] = (1, b)
        for x in range(off + 1, off + n):
            o.cells.pop(x, None)
        o.cells[off] = (n, v)

    def clear(self, o, off, n):
        """the bytes become what a fresh object has there"""
        for a in [a for a, c in o.cells.items() if a < off + n and a + c[0] > off]:
            bs = [(a + k, self.byte(o, a + k)) for k in range(o.cells[a][0]) if not off <= a + k < off + n]
            del o.cells[a]
            for x, b in bs:
                o.cells[x] = (1, b)

    def copy(self, d, s, n):
        if n == 0:
            return
        so, sf = self.chk(s, n)
        self.chk(d, n)
        cells = [(a, c) for a, c in so.cells.items() if a < sf + n and a + c[0] > sf]
        whole = all(a >= sf and a + c[0] <= sf + n for a, c in cells)
        if whole:
            do, df = self.chk(d, n)
            have = set()
            new = []
            for a, c in cells:
                new.append((a - sf, c))
                have.update(range(a, a + c[0]))
            if so.fill is not None and so.fill is not do.fill and so.fill != do.fill:
                for k in range(n):
                    if sf + k not in have:
                        new.append((k, (1, so.fill)))
            self.clear(do, df, n)
            for k, c in new:
                do.cells[df + k] = c
            return
        for k in range(n):
            self.store(Ptr(d.obj, d.off + k), 1, self.byte(so, sf + k))

    # values --------------------------------------------------------------------
    def const(self, ty, t, i):
        x = t[i]
        if x in ('null', 'zeroinitializer'):
            if ty[0] in ('st', 'arr'):
                return [0] * (len(ty[1]) if ty[0] == 'st' else ty[1]), i + 1
            return 0, i + 1
        if x == 'true':
            return 1, i + 1
        if x == 'false':
            return 0, i + 1
        if x in ('undef', 'poison'):
            if ty[0] == 'st':
                return [0] * len(ty[1]), i + 1
            return 0, i + 1
        if x[0] == '@':
            return self.gptr(x), i + 1
        if re.fullmatch(r'-?\d+', x):
            return int(x) & ((1 << ty[1]) - 1), i + 1
        if ty[0] == 'f':
            return 0, i + 1
        if x == 'getelementptr':
            i += 1
            while t[i] in FLAGS:
                i += 1
            i += 1
            bt, i = self.m.ptype(t, i)
            i += 1
            args = []
            while True:
                at, i = self.m.ptype(t, i)
                v, i = self.const(at, t, i)
                args.append((at, v))
                if t[i] != ',':
                    break
                i += 1
            return self.gep(bt, args), i + 1
        if x in ('ptrtoint', 'inttoptr', 'bitcast'):
            i += 2
            at, i = self.m.ptype(t, i)
            v, i = self.const(at, t, i)
            i += 1
            _, i = self.m.ptype(t, i)
            return v, i + 1
        if x in '{[' and ty[0] in ('st', 'arr'):
            i += 1
            out = []
            while t[i] not in '}]':
                et, i = self.m.ptype(t, i)
                v, i = self.const(et, t, i)
                out.append(v)
                if t[i] == ',':
                    i += 1
            return out, i + 1
        if x == 'metadata' or x[0] == '!':
            return None, len(t)
        raise Unenc('constant ' + ' '.join(t[i:i + 6]))

    def gep(self, bt, args):
        p = args[0][1]
        if isinstance(p, int):
            if p == 0:
                p = Ptr(Obj('null', 0), 0)
            else:
                raise Unenc('pointer from a number')
        off = p.off
        ty = None
        for k, (at, v) in enumerate(args[1:]):
            if k == 0:
                ty = bt
                sz = self.m.size(bt)
            elif ty[0] == 'st':
                off = self.padd(off, self.m.off(ty, v))
                ty = ty[1][v]
                continue
            else:
                ty = ty[2]
                sz = self.m.size(ty)
            n = at[1]
            if isinstance(v, int):
                v = v - (1 << n) if v >> (n - 1) else v
                off = self.padd(off, v * sz)
            else:
                w = self.d.cast('sext', n, 64, v) if n < 64 else v
                off = self.d.bin('add', 64, off if not isinstance(off, int) else off & (1 << 64) - 1, self.d.bin('mul', 64, w, sz))
        return Ptr(p.obj, off)

    def padd(self, off, k):
        if isinstance(off, int):
            return off + k
        return self.d.bin('add', 64, off, k & (1 << 64) - 1)

    def val(self, ty, t, i, env):
        if t[i][0] == '%':
            return env[t[i]], i + 1
        return self.const(ty, t, i)

    def tv(self, t, i, env):
        ty, i = self.m.ptype(t, i)
        byval = None
        while t[i] in FLAGS or t[i] in ('align', 'byval', 'sret', 'dereferenceable', 'dereferenceable_or_null', 'range', 'captures', 'writable', 'dead_on_unwind', 'initializes', 'dead_on_return', 'nofpclass'):
            if t[i] == 'align':
                i += 2
                continue
            k = t[i]
            i += 1
            if k in ('byval', 'sret'):
                bt, i = self.m.ptype(t, i + 1)
                i += 1
                if k == 'byval':
                    byval = bt
            elif k in FLAGS or k in ('writable', 'dead_on_unwind') or k == 'dead_on_return' and t[i] != '(':
                pass
            elif t[i] == '(':
                d = 1
                i += 1
                while d:
                    d += (t[i] == '(') - (t[i] == ')')
                    i += 1
        v, i = self.val(ty, t, i, env)
        if byval is not None:
            q = self.alloc('byval', self.m.size(byval))
            self.copy(q, v, self.m.size(byval))
            v = q
        return ty, v, i

    # execution -------------------------------------------------------------------
    def call(self, name, *args):
        h = self.hooks.get(name) or self.hooks.get(name.strip('@'))
        if h is not None:
            return h(*args)
        if name not in self.m.funcs:
            b = self.builtin(name, args)
            if b is NotImplemented:
                raise Unenc('call of ' + name)
            return b
        self.calls.add(name)
        f = self.m.func(name)
        self.depth += 1
        if self.depth > 200:
            raise Unenc('call depth')
        env = {p[0]: a for p, a in zip(f['params'], args)}
        cur, prev = f['first'], None
        try:
            while True:
                blk = f['blocks'][cur]
                # phis in parallel
                k = 0
                new = {}
                while k < len(blk) and blk[k][1][0] == 'phi':
                    dst, t = blk[k]
                    ty, i = self.m.ptype(t, 1)
                    while True:
                        # [ v, %b ]
                        lab = None
                        j = i + 1
                        d = 0
                        while not (t[j] == ']' and d == 0):
                            d += (t[j] in '([') - (t[j] in ')]')
                            j += 1
                        lab = t[j - 1]
                        if lab == prev:
                            new[dst] = self.val(ty, t, i + 1, env)[0]
                            break
                        i = j + 2
                        if j + 1 >= len(t) or t[j + 1] != ',':
                            raise Unenc('phi')
                    k += 1
                env.update(new)
                nxt = None
                for dst, t in blk[k:]:
                    self.steps += 1
                    if self.steps > self.maxsteps:
                        raise Unenc('step budget')
                    r = self.step(dst, t, env)
                    if r is not None:
                        if r[0] == 'ret':
                            return r[1]
                        nxt = r[1]
                        break
                prev, cur = cur, nxt
        finally:
            self.depth -= 1

    BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}
    CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'}

    def step(self, dst, t, env):
        op = t[0]
        i = 1
        if op in self.BIN:
            while t[i] in FLAGS:
                i += 1
            ty, i = self.m.ptype(t, i)
            a, i = self.val(ty, t, i, env)
            b, i = self.val(ty, t, i + 1, env)
            env[dst] = self.bin(op, ty[1], a, b)
        elif op == 'load':
            while t[i] in FLAGS:
                i += 1
            ty, i = self.m.ptype(t, i)
            _, p, i = self.tv(t, i + 1, env)
            env[dst] = self.loadt(ty, p)
        elif op == 'store':
            while t[i] in FLAGS:
                i += 1
            ty, v, i = self.tv(t, i, env)
            _, p, i = self.tv(t, i + 1, env)
            self.storet(ty, p, v)
        elif op == 'getelementptr':
            while t[i] in FLAGS:
                i += 1
            bt, i = self.m.ptype(t, i)
            args = []
            while i < len(t) and t[i] == ',':
                at, v, i = self.tv(t, i + 1, env)
                args.append((at, v))
            env[dst] = self.gep(bt, args)
        elif op == 'icmp':
            while t[i] in FLAGS:
                i += 1
            pred = t[i]
            ty, i = self.m.ptype(t, i + 1)
            a, i = self.val(ty, t, i, env)
            b, i = self.val(ty, t, i + 1, env)
            env[dst] = self.icmp(pred, 64 if ty[0] == 'ptr' else ty[1], a, b)
        elif op == 'br':
            if t[i] == 'label':
                return 'br', t[i + 1]
            _, c, i = self.tv(t, i, env)
            y, n = t[i + 2], t[i + 5]
            return 'br', y if (c if isinstance(c, int) else self.d.truth(c)) else n
        elif op == 'switch':
            ty, v, i = self.tv(t, i, env)
            dflt = t[i + 2]
            i += 4
            cases = []
            while t[i] != ']':
                cty, c, i = self.tv(t, i, env)
                cases.append((c, t[i + 2]))
                i += 3
            for c, l in cases:
                e = self.icmp('eq', ty[1], v, c)
                if e if isinstance(e, int) else self.d.truth(e):
                    return 'br', l
            return 'br', dflt
        elif op == 'ret':
            if t[i] == 'void':
                return 'ret', None
            _, v, i = self.tv(t, i, env)
            return 'ret', v
        elif op in self.CAST:
            while t[i] in FLAGS:
                i += 1
            ty, v, i = self.tv(t, i, env)
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
                env[dst] = v
            else:
                to, i = self.m.ptype(t, i + 1)
                env[dst] = self.cast(op, ty[1], to[1], v)
        elif op == 'select':
            cty, c, i = self.tv(t, i, env)
            ty, a, i = self.tv(t, i + 1, env)
            _, b, i = self.tv(t, i + 1, env)
            if not isinstance(c, int):
                r = self.d.select(c, ty, a, b)
                if r is not NotImplemented:
                    env[dst] = r
                    return None
                c = self.d.truth(c)
            env[dst] = a if c else b
        elif op == 'alloca':
            ty, i = self.m.ptype(t, i)
            n = 1
            if i < len(t) and t[i] == ',' and t[i + 1] != 'align':
                _, n, i = self.tv(t, i + 1, env)
                if not isinstance(n, int):
                    n = self.d.pick(n, 64)
            env[dst] = self.alloc('local' + dst, self.m.size(ty) * n)
        elif op in ('call', 'tail', 'notail', 'musttail', 'invoke'):
            while t[i - 1] != 'call' and t[i - 1] != 'invoke':
                i += 1
            while t[i] in FLAGS or t[i] in ('fastcc', 'ccc', 'align', 'dereferenceable', 'dereferenceable_or_null', 'range'):
                if t[i] == 'align':
                    i += 1
                elif t[i + 1] == '(':
                    while t[i] != ')':
                        i += 1
                i += 1
            rt, i = self.m.ptype(t, i)
            fn = t[i]
            i += 2
            args = []
            while t[i] != ')':
                if t[i] == 'metadata':
                    while t[i] not in (',', ')'):
                        i += 1
                else:
                    _, v, i = self.tv(t, i, env)
                    args.append(v)
                if t[i] == ',':
                    i += 1
            if fn[0] == '%':
                f = env[fn]
                if not isinstance(f, FnPtr):
                    raise Unenc('indirect call')
                fn = f.name
            r = self.call(fn, *args)
            if dst:
                env[dst] = r
            if op == 'invoke':
                return 'br', t[t.index('label', i) + 1]
        elif op == 'extractvalue':
            ty, v, i = self.tv(t, i, env)
            while i < len(t) and t[i] == ',':
                v = v[int(t[i + 1])]
                i += 2
            env[dst] = v
        elif op == 'insertvalue':
            ty, v, i = self.tv(t, i, env)
            ety, e, i = self.tv(t, i + 1, env)
            v = list(v)
            v[int(t[i + 1])] = e
            env[dst] = v
        elif op == 'unreachable':
            raise Trap('unreachable')
        else:
            raise Unenc('instruction ' + op)
        return None

    def loadt(self, ty, p):
        if ty[0] == 'st':
            return [self.loadt(e, Ptr(p.obj, self.padd(p.off, self.m.off(ty, k)))) for k, e in enumerate(ty[1])]
        if ty[0] == 'i' and ty[1] > 64 and ty[1] % 64 == 0:
            ws = [self.load(Ptr(p.obj, self.padd(p.off, 8 * k)), 8) for k in range(ty[1] // 64)]
            if all(isinstance(w, int) for w in ws):
                return sum(w << (64 * k) for k, w in enumerate(ws))
            return self.d.words(ws)
        v = self.load(p, self.m.size(ty))
        if ty[0] == 'i' and ty[1] % 8:
            v = v & ((1 << ty[1]) - 1) if isinstance(v, int) else self.cast('trunc', self.m.size(ty) * 8, ty[1], v)
        return v

    def storet(self, ty, p, v):
        if ty[0] == 'st':
            for k, e in enumerate(ty[1]):
                self.storet(e, Ptr(p.obj, self.padd(p.off, self.m.off(ty, k))), v[k])
            return
        if ty[0] == 'i' and ty[1] > 64 and ty[1] % 64 == 0:
            for k in range(ty[1] // 64):
                w = v >> (64 * k) & (1 << 64) - 1 if isinstance(v, int) else self.d.cast('trunc', ty[1], 64, self.d.bin('lshr', ty[1], v, 64 * k) if k else v)
                self.store(Ptr(p.obj, self.padd(p.off, 8 * k)), 8, w)
            return
        if ty[0] == 'i' and ty[1] % 8 and not isinstance(v, int):
            v = self.cast('zext', ty[1], self.m.size(ty) * 8, v)
        self.store(p, self.m.size(ty), v)

    def bin(self, op, n, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return (a.off - b.off) & ((1 << n) - 1)
            if op == 'add' and isinstance(a, Ptr):
                return Ptr(a.obj, self.padd(a.off, b - (1 << n) if isinstance(b, int) and b >> (n - 1) else b))
            if op == 'add':
                return self.bin(op, n, b, a)
            raise Unenc('arithmetic on pointers')
        if isinstance(a, int) and isinstance(b, int):
            return ibin(op, n, a, b)
        return self.d.bin(op, n, a, b)

    def icmp(self, pred, n, a, b):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and isinstance(a.off, int) and isinstance(b.off, int):
                a, b = a.off + (1 << 62), b.off + (1 << 62)
            elif pred in ('eq', 'ne'):
                return int((pred == 'ne') ^ (a is b))
            else:
                raise Unenc('comparison of pointers')
        if isinstance(a, int) and isinstance(b, int):
            return icmp(pred, n, a, b)
        return self.d.icmp(pred, n, a, b)

    def cast(self, op, n, m, v):
        if isinstance(v, int):
            if op == 'sext' and v >> (n - 1):
                return v | ((1 << m) - (1 << n))
            return v & ((1 << m) - 1)
        return self.d.cast(op, n, m, v)

    def builtin(self, name, a):
        n = name.strip('@')
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental', 'llvm.va_', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.prefetch')):
            return None
        if n.startswith(('llvm.memcpy', 'llvm.memmove')) or n in ('memcpy', 'memmove'):
            k = a[2] if isinstance(a[2], int) else self.d.pick(a[2], 64)
            self.copy(a[0], a[1], k)
            return a[0]
        if n.startswith('llvm.memset') or n == 'memset':
            k = a[2] if isinstance(a[2], int) else self.d.pick(a[2], 64)
            if k and isinstance(a[1], int):
                o, off = self.chk(a[0], k)
                if o.fill == a[1] & 255 and isinstance(o.fill, int):
                    self.clear(o, off, k)
                    return a[0]
            for j in range(0, k):
                if not isinstance(a[1], int):
                    raise Unenc('memset')
                self.store(Ptr(a[0].obj, self.padd(a[0].off, j)), 1, a[1] & 255)
            return a[0]
        m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', n)
        if m and m.group(1) == 'u':
            w = int(m.group(3))
            x, y = a
            op = m.group(2)
            if isinstance(x, int) and isinstance(y, int):
                r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                return [r & (1 << w) - 1, int(r != r & (1 << w) - 1)]
            return self.d.over(op, w, x, y)
        m = re.match(r'llvm\.(u|s)cmp\.i(\d+)\.i(\d+)', n)
        if m:
            r, w = int(m.group(2)), int(m.group(3))
            for p, v in (('lt', (1 << r) - 1), ('gt', 1)):
                c = self.icmp(m.group(1) + p, w, a[0], a[1])
                if c if isinstance(c, int) else self.d.truth(c):
                    return v
            return 0
        m = re.match(r'llvm\.(umin|umax|smin|smax|usub\.sat|uadd\.sat)\.i(\d+)', n)
        if m:
            w = int(m.group(2))
            op = m.group(1)
            if op in ('umin', 'umax', 'smin', 'smax'):
                c = self.icmp(('u' if op[0] == 'u' else 's') + ('lt' if op.endswith('min') else 'gt'), w, a[0], a[1])
                return a[0] if (c if isinstance(c, int) else self.d.truth(c)) else a[1]
            if op == 'usub.sat':
                c = self.icmp('uge', w, a[0], a[1])
                return self.bin('sub', w, a[0], a[1]) if (c if isinstance(c, int) else self.d.truth(c)) else 0
        m = re.match(r'llvm\.(fshl|fshr)\.i(\d+)', n)
        if m:
            w = int(m.group(2))
            s = a[2] % w if isinstance(a[2], int) else None
            if s is not None:
                if m.group(1) == 'fshr':
                    s = (w - s) % w
                if s == 0:
                    return a[0] if m.group(1) == 'fshl' else a[1]
                return self.bin('or', w, self.bin('shl', w, a[0], s), self.bin('lshr', w, a[1], w - s))
        m = re.match(r'llvm\.bswap\.i(\d+)', n)
        if m and isinstance(a[0], int):
            return int.from_bytes(a[0].to_bytes(int(m.group(1)) // 8, 'little'), 'big')
        m = re.match(r'llvm\.ctlz\.i(\d+)', n)
        if m and isinstance(a[0], int):
            return int(m.group(1)) - a[0].bit_length()
        m = re.match(r'llvm\.ctpop\.i(\d+)', n)
        if m and isinstance(a[0], int):
            return bin(a[0]).count('1')
        if n in ('llvm.trap', 'abort', '_ZSt9terminatev', '__cxa_throw_bad_array_new_length'):
            raise Trap('abort', n)
        if n == '__assert_fail':
            raise Trap('assert', self.cstr(a[0]))
        if n in ('_Znam', '_Znwm', 'malloc'):
            k = a[0] if isinstance(a[0], int) else self.d.pick(a[0], 64)
            return self.alloc('heap', k)
        if n == 'calloc':
            return self.alloc('heap', a[0] * a[1], 0)
        if n in ('_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            return None
        return NotImplemented

    def cstr(self, p):
        out = []
        while True:
            b = self.load(Ptr(p.obj, p.off + len(out)), 1)
            if b == 0 or len(out) > 300:
                return bytes(out).decode('latin1')
            out.append(b)


def sgn(n, x):
    return x - (1 << n) if x >> (n - 1) else x


def ibin(op, n, a, b):
    M = (1 << n) - 1
    if op == 'add':
        return a + b & M
    if op == 'sub':
        return a - b & M
    if op == 'mul':
        return a * b & M
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op in ('shl', 'lshr', 'ashr') and b >= n:
        raise Unenc('shift beyond the width')
    if op == 'shl':
        return a << b & M
    if op == 'lshr':
        return a >> b
    if op == 'ashr':
        return sgn(n, a) >> b & M
    if b == 0:
        raise Trap('division', 'by zero')
    if op == 'udiv':
        return a // b
    if op == 'urem':
        return a % b
    x, y = sgn(n, a), sgn(n, b)
    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
    return (q if op == 'sdiv' else x - q * y) & M


def icmp(pred, n, a, b):
    if pred[0] == 's':
        a, b = sgn(n, a), sgn(n, b)
    p = pred[-2:]
    return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[p])


class BV:
    """the domain of z3 bit vectors"""

    def __init__(self, paths):
        self.P = paths

    @staticmethod
    def w(v, n):
        return z3.BitVecVal(v, n) if isinstance(v, int) else v

    @staticmethod
    def out(v):
        v = z3.simplify(v)
        return v.as_long() if z3.is_bv_value(v) else v

    def bin(self, op, n, a, b):
        a, b = self.w(a, n), self.w(b, n)
        return self.out({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                         'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b),
                         'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]())

    def icmp(self, pred, n, a, b):
        a, b = self.w(a, n), self.w(b, n)
        c = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b),
             'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return self.out(z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))

    def cast(self, op, n, m, v):
        if op == 'trunc':
            return self.out(z3.Extract(m - 1, 0, v))
        return self.out(z3.ZeroExt(m - n, v) if op == 'zext' else z3.SignExt(m - n, v))

    def truth(self, v):
        return self.P.branch(v != 0)

    def pick(self, v, n):
        return self.P.pick(v)

    def select(self, c, ty, a, b):
        if ty[0] != 'i':
            return NotImplemented
        return self.out(z3.If(c != 0, self.w(a, ty[1]), self.w(b, ty[1])))

    def byte(self, v, k):
        return self.out(z3.Extract(8 * k + 7, 8 * k, v))

    def cat(self, bs):
        if len(bs) == 1:
            return bs[0]
        return self.out(z3.Concat(*[self.w(b, 8) for b in reversed(bs)]))

    def words(self, ws):
        return self.out(z3.Concat(*[self.w(b, 64) for b in reversed(ws)]))

    def over(self, op, n, x, y):
        x, y = self.w(x, n), self.w(y, n)
        if op == 'mul':
            c = z3.Not(z3.BVMulNoOverflow(x, y, False))
            r = x * y
        elif op == 'add':
            r = x + y
            c = z3.ULT(r, x)
        else:
            r = x - y
            c = z3.ULT(x, y)
        return [self.out(r), self.out(z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))]
