"""Symbolic execution of the WebAssembly text that circom generates.  Memory is concrete, except that a 32-bit word may
be a token standing for a piece of a symbolic field element.  The field library ($Fr_*) is either replaced by the
operators of the language (mode 'ops') or executed itself (lib/frwat.py)."""
import re


class Trap(Exception):
    """exceptionHandler(code) or a machine trap"""

    def __init__(self, code, msg=''):
        Exception.__init__(self, code, msg)
        self.code = code


class Unenc(Exception):
    """the execution does something with a symbolic value that is not encoded"""


class Bad(Exception):
    """the module is inconsistent (for instance a constant whose two representations differ)"""


TOK = re.compile(r'"(?:[^"\\]|\\.)*"|;;[^\n]*|\(;.*?;\)|[()]|[^\s()";]+', re.S)


def tokens(s):
    return [t for t in TOK.findall(s) if not t.startswith(';;') and not t.startswith('(;')]


def unquote(s):
    out = bytearray()
    i = 1
    b = s.encode('utf8')
    n = len(b) - 1
    while i < n:
        c = b[i]
        if c == 0x5c:
            two = b[i + 1:i + 3].decode('latin1')
            if re.fullmatch('[0-9a-fA-F]{2}', two):
                out.append(int(two, 16))
                i += 3
                continue
            out.append({'n': 10, 't': 9, 'r': 13, '"': 34, "'": 39, '\\': 92}[chr(b[i + 1])])
            i += 2
            continue
        out.append(c)
        i += 1
    return bytes(out)


LOADS = {}
for _w in (32, 64):
    for _n in (8, 16, 32)[:2 if _w == 32 else 3]:
        for _s in (0, 1):
            LOADS['i%d.load%d_%s' % (_w, _n, 'us'[_s])] = (_n // 8, _s, _w)


class Func:
    __slots__ = ('name', 'params', 'locals', 'nres', 'text', 'body', 'slots')


class Module:
    def __init__(self, text):
        self.funcs, self.types, self.imports = {}, {}, set()
        self.data, self.exports, self.table, self.pages = [], {}, {}, 1
        parts, depth, start = [], 0, 0
        for t in re.finditer(r'"(?:[^"\\]|\\.)*"|;;[^\n]*|\(;.*?;\)|[()]', text, re.S):
            c = text[t.start()]
            if t.end() - t.start() > 1 or c not in '()':
                continue
            if c == '(':
                depth += 1
                if depth == 2:
                    start = t.start()
            else:
                if depth == 2:
                    parts.append(text[start:t.end()])
                depth -= 1
        for p in parts:
            p = p.strip()
            if p.startswith('(func'):
                name = re.match(r'\(func\s+(\$\S+)', p).group(1)
                f = Func()
                f.name, f.text, f.body = name, p, None
                self.funcs[name] = f
            elif p.startswith('(data'):
                t = tokens(p)
                self.data.append((int(t[4], 0), b''.join(unquote(x) for x in t[6:] if x[0] == '"')))
            elif p.startswith('(import'):
                self.imports.add(re.search(r'\(func\s+(\$\S+)', p).group(1))
            elif p.startswith('(export'):
                m = re.match(r'\(export\s+"([^"]+)"\s+\((\w+)\s+([^)\s]+)', p)
                self.exports[m.group(1)] = m.group(3)
            elif p.startswith('(type'):
                t = tokens(p)
                np = nr = 0
                i = 0
                while i < len(t):
                    if t[i] in ('param', 'result'):
                        k = t[i]
                        i += 1
                        while t[i] != ')':
                            if k == 'param':
                                np += 1
                            else:
                                nr += 1
                            i += 1
                    i += 1
                self.types[t[2]] = (np, nr)
            elif p.startswith('(memory'):
                self.pages = int(re.match(r'\(memory\s+(\d+)', p).group(1))
            elif p.startswith('(elem'):
                t = tokens(p)
                base, k = 0, 0
                names = [x for x in t if x.startswith('$')]
                base = int(t[t.index('i32.const') + 1])
                for n in names:
                    if n in self.funcs or n != names[0]:
                        self.table[base + k] = n
                        k += 1

    def func(self, name):
        f = self.funcs[name]
        if f.body is None:
            self.compile(f)
        return f

    def compile(self, f):
        t = tokens(f.text)
        i = 3
        names, loc = [], []
        f.nres = 0
        tp = None
        while t[i] == '(' and t[i + 1] in ('type', 'param', 'result', 'local'):
            k = t[i + 1]
            j = i + 2
            args = []
            while t[j] != ')':
                args.append(t[j])
                j += 1
            if k == 'type':
                tp = self.types[args[0]]
            elif k == 'param':
                if args[0].startswith('$'):
                    names.append(args[0])
                else:
                    names += [None] * len(args)
            elif k == 'result':
                f.nres += len(args)
            else:
                if args[0].startswith('$'):
                    loc.append(args[0])
                else:
                    loc += [None] * len(args)
            i = j + 1
        if tp is not None:
            f.nres = tp[1]
            if not names and tp[0]:
                names = [None] * tp[0]
        f.params = len(names)
        f.slots = len(names) + len(loc)
        idx = {n: k for k, n in enumerate(names + loc) if n}

        def lv(x):
            return idx[x] if x.startswith('$') else int(x)

        def num(x):
            return int(x.replace('_', ''), 0)
        pos = [i]
        end = len(t) - 1
        while t[end] != ')':
            end -= 1

        def block():
            out = []
            while True:
                if pos[0] >= end:
                    return out, 'eof'
                op = t[pos[0]]
                pos[0] += 1
                if op == 'end' or op == 'else':
                    return out, op
                if op in ('block', 'loop'):
                    skipres()
                    b, e = block()
                    out.append((op, b))
                elif op == 'if':
                    skipres()
                    a, e = block()
                    b = []
                    if e == 'else':
                        b, e = block()
                    out.append(('if', a, b))
                elif op in ('get_local', 'local.get'):
                    out.append(('get', lv(t[pos[0]])))
                    pos[0] += 1
                elif op in ('set_local', 'local.set'):
                    out.append(('set', lv(t[pos[0]])))
                    pos[0] += 1
                elif op in ('tee_local', 'local.tee'):
                    out.append(('tee', lv(t[pos[0]])))
                    pos[0] += 1
                elif op == 'i32.const':
                    out.append(('const', num(t[pos[0]]) & 0xffffffff))
                    pos[0] += 1
                elif op == 'i64.const':
                    out.append(('const', num(t[pos[0]]) & 0xffffffffffffffff))
                    pos[0] += 1
                elif op == 'call':
                    out.append(('call', t[pos[0]]))
                    pos[0] += 1
                elif op == 'call_indirect':
                    ty = None
                    while t[pos[0]].startswith('$') or t[pos[0]] == '(':
                        if t[pos[0]] == '(':
                            ty = t[pos[0] + 2]
                            pos[0] += 4
                        else:
                            pos[0] += 1
                    out.append(('call_indirect', self.types[ty]))
                elif op in ('br', 'br_if'):
                    out.append((op, int(t[pos[0]])))
                    pos[0] += 1
                elif 'load' in op or 'store' in op:
                    off = 0
                    while pos[0] < end and re.match(r'(offset|align)=', t[pos[0]]):
                        if t[pos[0]].startswith('offset='):
                            off = int(t[pos[0]][7:], 0)
                        pos[0] += 1
                    out.append((op, off))
                else:
                    out.append((op,))

        def skipres():
            if t[pos[0]] == '(' and t[pos[0] + 1] == 'result':
                while t[pos[0]] != ')':
                    pos[0] += 1
                pos[0] += 1
        f.body, _ = block()


M32, M64 = 0xffffffff, 0xffffffffffffffff


def s32(x):
    return x - (1 << 32) if x >> 31 else x


def s64(x):
    return x - (1 << 64) if x >> 63 else x


class Machine:
    """concrete words, tokens allowed to move around"""

    def __init__(self, mod, maxsteps=400000):
        self.m = mod
        self.mem = bytearray(mod.pages * 65536)
        self.sym = {}
        for a, b in mod.data:
            self.mem[a:a + len(b)] = b
        self.hooks = {}
        self.steps = 0
        self.maxsteps = maxsteps
        self.depth = 0
        self.calls = set()

    # hooks for symbolic words
    def concrete(self, v):
        raise Unenc('arithmetic on a symbolic word')

    def test(self, v):
        return v != 0

    def ld32(self, a):
        if a + 4 > len(self.mem) or a < 0:
            raise Trap('memory', 'load at %d' % a)
        if a in self.sym:
            return self.sym[a]
        if self.sym and any(a + d in self.sym for d in (-3, -2, -1, 1, 2, 3)):
            raise Unenc('unaligned load over a symbolic word')
        return int.from_bytes(self.mem[a:a + 4], 'little')

    def st32(self, a, v):
        if a + 4 > len(self.mem) or a < 0:
            raise Trap('memory', 'store at %d' % a)
        if self.sym:
            for d in (-3, -2, -1, 1, 2, 3):
                if a + d in self.sym:
                    raise Unenc('unaligned store over a symbolic word')
        if isinstance(v, int):
            self.sym.pop(a, None)
            self.mem[a:a + 4] = v.to_bytes(4, 'little')
        else:
            self.sym[a] = v

    def c(self, v):
        return v if isinstance(v, int) else self.concrete(v)

    def call(self, name, *args):
        h = self.hooks.get(name)
        if h is not None:
            r = h(*args)
            return [] if r is None else [r]
        self.calls.add(name)
        f = self.m.func(name)
        loc = list(args) + [0] * (f.slots - f.params)
        st = []
        self.depth += 1
        if self.depth > 300:
            raise Unenc('call depth')
        self.run(f.body, st, loc)
        self.depth -= 1
        return st[len(st) - f.nres:] if f.nres else []

    def run(self, body, st, loc):
        """None, or the number of enclosing blocks still to leave, or 'ret'"""
        for ins in body:
            op = ins[0]
            self.steps += 1
            if op == 'get':
                st.append(loc[ins[1]])
            elif op == 'const':
                st.append(ins[1])
            elif op == 'i32.add':
                b = self.c(st.pop())
                st[-1] = (self.c(st[-1]) + b) & M32
            elif op == 'i32.mul':
                b = self.c(st.pop())
                st[-1] = (self.c(st[-1]) * b) & M32
            elif op == 'i32.load':
                st[-1] = self.ld32(self.c(st[-1]) + ins[1])
            elif op == 'i32.store':
                v = st.pop()
                self.st32(self.c(st.pop()) + ins[1], v)
            elif op == 'set':
                loc[ins[1]] = st.pop()
            elif op == 'tee':
                loc[ins[1]] = st[-1]
            elif op == 'call':
                n = ins[1]
                h = self.hooks.get(n)
                k = self.arity(n)
                args = st[len(st) - k:] if k else []
                if k:
                    del st[len(st) - k:]
                st.extend(self.call(n, *args))
            elif op == 'if':
                v = st.pop()
                v = self.test(v) if isinstance(v, int) else self.concrete(v) != 0
                n = len(st)
                r = self.run(ins[1] if v else ins[2], st, loc)
                if r is not None:
                    if r == 'ret':
                        return r
                    if r > 0:
                        return r - 1
            elif op == 'block':
                r = self.run(ins[1], st, loc)
                if r is not None:
                    if r == 'ret':
                        return r
                    if r > 0:
                        return r - 1
            elif op == 'loop':
                while True:
                    if self.steps > self.maxsteps:
                        raise Unenc('step budget')
                    r = self.run(ins[1], st, loc)
                    if r is None:
                        break
                    if r == 'ret':
                        return r
                    if r > 0:
                        return r - 1
            elif op == 'br':
                return ins[1]
            elif op == 'br_if':
                v = st.pop()
                if (self.test(v) if isinstance(v, int) else self.concrete(v) != 0):
                    return ins[1]
            elif op == 'return':
                return 'ret'
            elif op == 'drop':
                st.pop()
            elif op == 'i32.eqz':
                st[-1] = int(self.c(st[-1]) == 0)
            elif op == 'i64.eqz':
                st[-1] = int(self.c(st[-1]) == 0)
            elif op in BIN32:
                b = self.c(st.pop())
                st[-1] = BIN32[op](self.c(st[-1]), b) & M32
            elif op in BIN64:
                b = self.c(st.pop())
                st[-1] = BIN64[op](self.c(st[-1]), b) & M64
            elif op == 'i32.load8_u':
                a = self.c(st[-1]) + ins[1]
                if self.sym and any(a - d in self.sym for d in range(4)):
                    raise Unenc('byte of a symbolic word')
                st[-1] = self.mem[a]
            elif op == 'i32.store8':
                v = self.c(st.pop())
                a = self.c(st.pop()) + ins[1]
                if self.sym and any(a - d in self.sym for d in range(4)):
                    raise Unenc('byte of a symbolic word')
                self.mem[a] = v & 255
            elif op == 'i64.load':
                a = self.c(st[-1]) + ins[1]
                lo, hi = self.ld32(a), self.ld32(a + 4)
                if not isinstance(lo, int) or not isinstance(hi, int):
                    raise Unenc('64-bit load of a symbolic word')
                st[-1] = lo | hi << 32
            elif op == 'i64.load32_u':
                st[-1] = self.c(self.ld32(self.c(st[-1]) + ins[1]))
            elif op == 'i64.store':
                v = self.c(st.pop())
                a = self.c(st.pop()) + ins[1]
                self.st32(a, v & M32)
                self.st32(a + 4, v >> 32)
            elif op == 'i64.store32':
                v = self.c(st.pop())
                self.st32(self.c(st.pop()) + ins[1], v & M32)
            elif op == 'i32.wrap_i64' or op == 'i32.wrap/i64':
                st[-1] = self.c(st[-1]) & M32
            elif op in ('i64.extend_i32_u', 'i64.extend_u/i32'):
                st[-1] = self.c(st[-1])
            elif op in ('i64.extend_i32_s', 'i64.extend_s/i32'):
                st[-1] = s32(self.c(st[-1])) & M64
            elif op == 'call_indirect':
                np, nr = ins[1]
                k = self.c(st.pop())
                if k not in self.m.table:
                    raise Trap('table', 'index %d' % k)
                args = st[len(st) - np:]
                if np:
                    del st[len(st) - np:]
                st.extend(self.call(self.m.table[k], *args))
            elif op == 'memory.size':
                st.append(len(self.mem) // 65536)
            elif op == 'memory.grow':
                n = self.c(st.pop())
                st.append(len(self.mem) // 65536)
                if n > 4096:
                    raise Unenc('memory budget')
                self.mem.extend(bytes(n * 65536))
            elif op == 'unreachable':
                raise Trap('unreachable')
            elif op == 'nop':
                pass
            elif op == 'select':
                c, b, a = self.c(st.pop()), st.pop(), st.pop()
                st.append(a if c else b)
            elif op in LOADS:
                n, sg, w = LOADS[op]
                a = self.c(st[-1]) + ins[1]
                if self.sym and any(x in self.sym for x in range(a - 3, a + n)):
                    raise Unenc('part of a symbolic word')
                if a + n > len(self.mem):
                    raise Trap('memory', 'load at %d' % a)
                v = int.from_bytes(self.mem[a:a + n], 'little')
                st[-1] = (v - (1 << 8 * n) if sg and v >> 8 * n - 1 else v) & (1 << w) - 1
            elif op in ('i32.store16', 'i64.store8', 'i64.store16'):
                n = int(op[9:]) // 8
                v = self.c(st.pop())
                a = self.c(st.pop()) + ins[1]
                if self.sym and any(x in self.sym for x in range(a - 3, a + n)):
                    raise Unenc('part of a symbolic word')
                if a + n > len(self.mem):
                    raise Trap('memory', 'store at %d' % a)
                self.mem[a:a + n] = (v & (1 << 8 * n) - 1).to_bytes(n, 'little')
            else:
                raise Unenc('instruction ' + op)
        return None

    def arity(self, n):
        if n in self.hooks:
            return self.hooks[n].__code__.co_argcount - (1 if hasattr(self.hooks[n], '__self__') else 0)
        return self.m.func(n).params


def divide(a, b):
    if b == 0:
        raise Trap('div', 'division by zero')
    return divmod(a, b)


BIN32 = {
    'i32.sub': lambda a, b: a - b, 'i32.and': lambda a, b: a & b, 'i32.or': lambda a, b: a | b, 'i32.xor': lambda a, b: a ^ b,
    'i32.shl': lambda a, b: a << (b & 31), 'i32.shr_u': lambda a, b: a >> (b & 31), 'i32.shr_s': lambda a, b: s32(a) >> (b & 31),
    'i32.eq': lambda a, b: int(a == b), 'i32.ne': lambda a, b: int(a != b), 'i32.lt_u': lambda a, b: int(a < b),
    'i32.gt_u': lambda a, b: int(a > b), 'i32.le_u': lambda a, b: int(a <= b), 'i32.ge_u': lambda a, b: int(a >= b),
    'i32.lt_s': lambda a, b: int(s32(a) < s32(b)), 'i32.gt_s': lambda a, b: int(s32(a) > s32(b)),
    'i32.le_s': lambda a, b: int(s32(a) <= s32(b)), 'i32.ge_s': lambda a, b: int(s32(a) >= s32(b)),
    'i32.div_u': lambda a, b: divide(a, b)[0], 'i32.rem_u': lambda a, b: divide(a, b)[1],
    'i32.rotl': lambda a, b: (a << (b & 31) | a >> (32 - (b & 31))) & M32, 'i32.rotr': lambda a, b: (a >> (b & 31) | a << (32 - (b & 31))) & M32,
}
BIN64 = {
    'i64.add': lambda a, b: a + b, 'i64.sub': lambda a, b: a - b, 'i64.mul': lambda a, b: a * b, 'i64.and': lambda a, b: a & b,
    'i64.or': lambda a, b: a | b, 'i64.xor': lambda a, b: a ^ b, 'i64.shl': lambda a, b: a << (b & 63),
    'i64.shr_u': lambda a, b: a >> (b & 63), 'i64.shr_s': lambda a, b: s64(a) >> (b & 63),
    'i64.eq': lambda a, b: int(a == b), 'i64.ne': lambda a, b: int(a != b), 'i64.lt_u': lambda a, b: int(a < b),
    'i64.gt_u': lambda a, b: int(a > b), 'i64.le_u': lambda a, b: int(a <= b), 'i64.ge_u': lambda a, b: int(a >= b),
    'i64.lt_s': lambda a, b: int(s64(a) < s64(b)), 'i64.gt_s': lambda a, b: int(s64(a) > s64(b)),
    'i64.le_s': lambda a, b: int(s64(a) <= s64(b)), 'i64.ge_s': lambda a, b: int(s64(a) >= s64(b)),
    'i64.div_u': lambda a, b: divide(a, b)[0], 'i64.rem_u': lambda a, b: divide(a, b)[1],
    'i64.rotl': lambda a, b: (a << (b & 63) | a >> (64 - (b & 63))) & M64, 'i64.rotr': lambda a, b: (a >> (b & 63) | a << (64 - (b & 63))) & M64,
}


class Word:
    """a 32-bit piece of the field element `t`: 'h0', 'h1' (its header), a limb number, or 'int' (its signed value)"""
    __slots__ = ('t', 'part')

    def __init__(self, t, part):
        self.t, self.part = t, part


class Circuit(Machine):
    """a generated module with the field operations replaced by those of the language"""

    def __init__(self, mod, eng, path, ops, maxsteps=400000):
        Machine.__init__(self, mod, maxsteps)
        self.e, self.path, self.ops = eng, path, ops
        self.n32 = None
        self.log = []
        H = self.hooks
        H['$exceptionHandler'] = self.h_exc
        H['$printErrorMessage'] = lambda: None
        H['$writeBufferMessage'] = lambda: None
        H['$showSharedRWMemory'] = self.h_show
        H['$buildBufferMessage'] = lambda a, b: None
        H['$buildLogMessage'] = lambda a: None
        for n, o in dict(add='+', sub='-', mul='*', div='/', idiv='\\', mod='%', pow='**', shl='<<', shr='>>', band='&',
                         bor='|', bxor='^', land='&&', lor='||', eq='==', neq='!=', lt='<', leq='<=', gt='>', geq='>=').items():
            H['$Fr_' + n] = self.mkbin(o)
        for n, o in dict(neg='-', bnot='~', lnot='!').items():
            H['$Fr_' + n] = self.mkun(o)
        H['$Fr_inv'] = lambda r, a: self.put(r, self.ops.bin('/', self.e.const(1), self.get(a)))
        H['$Fr_copy'] = self.h_copy
        H['$Fr_copyn'] = self.h_copyn
        H['$Fr_isTrue'] = lambda a: int(self.ops.istrue(self.get(a)))
        H['$Fr_toInt'] = self.h_toint
        H['$Fr_toLongNormal'] = self.h_long
        H['$Fr_toNormal'] = lambda a: None
        H['$Fr_int_zero'] = self.h_zero
        H['$Fr_int_copy'] = self.h_icopy
        H['$Fr_eqR'] = lambda a, b: int(self.path.decide(self.e.c_eq(self.get(a), self.get(b))))
        self.n32 = self.call('$getFieldNumLen32')[0]
        self.R = 1 << (32 * ((self.n32 + 1) // 2 * 2))

    def h_exc(self, code):
        raise Trap(self.c(code))

    def h_show(self):
        pass

    def mkbin(self, o):
        def f(r, a, b):
            x, y = self.get(a), self.get(b)
            if o == '**' and self.c(a) == self.c(b):
                # Fr_pow converts the base in place and then the exponent: with one place for both, the base is read without its factor R
                x = self.ops.bin('*', x, self.e.const(pow(self.R, -1, self.e.p)))
            self.put(r, self.ops.bin(o, x, y))
        return f

    def mkun(self, o):
        def f(r, a):
            self.put(r, self.ops.un(o, self.get(a)))
        return f

    def size(self):
        return 8 + 4 * self.n32

    def get(self, a):
        """the field element at a"""
        a = self.c(a)
        h0, h1 = self.ld32(a), self.ld32(a + 4)
        if isinstance(h1, Word):
            if not isinstance(h0, Word) or h0.t != h1.t or h0.part != 'h0' or h1.part != 'h1':
                raise Unenc('mixed header')
            return h1.t
        if h1 in (0, 0x40000000):
            if isinstance(h0, Word):
                if h0.part != 'int' or h1:
                    raise Unenc('mixed header')
                return h0.t
            v = s32(h0) % self.e.p
            if h1:
                w = self.limbs(a)
                if not isinstance(w, int) or w != v * self.R % self.e.p:
                    raise Bad('the Montgomery limbs of a short element at %d are not those of its value' % a)
            return self.e.const(v)
        w = self.limbs(a)
        if h1 == 0x80000000:
            if isinstance(w, Word):
                return w.t
            if w >= self.e.p:
                raise Bad('element at %d is not reduced' % a)
            return self.e.const(w)
        if h1 == 0xc0000000:
            if isinstance(w, Word) or w >= self.e.p:
                raise Bad('element at %d is not a reduced Montgomery residue' % a)
            return self.e.const(w * pow(self.R, -1, self.e.p) % self.e.p)
        raise Bad('element at %d has the header %x' % (a, h1))

    def limbs(self, a):
        ws = [self.ld32(a + 8 + 4 * k) for k in range(self.n32)]
        if isinstance(ws[0], Word):
            for k, w in enumerate(ws):
                if not isinstance(w, Word) or w.t != ws[0].t or w.part != k:
                    raise Unenc('mixed limbs')
            return ws[0]
        if any(isinstance(w, Word) for w in ws):
            raise Unenc('mixed limbs')
        return sum(w << (32 * k) for k, w in enumerate(ws))

    def put(self, a, t):
        a = self.c(a)
        v = self.e.val(t)
        if v is None:
            self.st32(a, Word(t, 'h0'))
            self.st32(a + 4, Word(t, 'h1'))
            for k in range(self.n32):
                self.st32(a + 8 + 4 * k, Word(t, k))
            return
        if v < 1 << 31 or v > self.e.p - (1 << 31):
            self.st32(a, (v if v < 1 << 31 else v - self.e.p) & M32)
            self.st32(a + 4, 0)
            return
        self.st32(a, 0)
        self.st32(a + 4, 0x80000000)
        for k in range(self.n32):
            self.st32(a + 8 + 4 * k, (v >> (32 * k)) & M32)

    def h_copy(self, r, a):
        r, a = self.c(r), self.c(a)
        for k in range(0, self.size(), 4):
            self.st32(r + k, self.ld32(a + k))

    def h_copyn(self, r, a, n):
        r, a, n = self.c(r), self.c(a), self.c(n)
        for k in range(0, self.size() * n, 4):
            self.st32(r + k, self.ld32(a + k))

    def h_toint(self, a):
        t = self.get(a)
        v = self.e.val(t)
        if v is None:
            return Word(t, 'int')
        return (v if v < self.e.p // 2 + 1 else v - self.e.p) & M32

    def concrete(self, w):
        """an integer taken from a symbolic element: fork over its values"""
        if not isinstance(w, Word) or w.part != 'int':
            raise Unenc('arithmetic on a symbolic word')
        if self.e.p > 1 << 31:
            raise Unenc('symbolic index in a large field')
        v = self.path.concretize(w.t)
        return (v if v < self.e.p // 2 + 1 else v - self.e.p) & M32

    def h_long(self, a):
        a = self.c(a)
        t = self.get(a)
        v = self.e.val(t)
        self.st32(a + 4, 0x80000000)
        for k in range(self.n32):
            self.st32(a + 8 + 4 * k, Word(t, k) if v is None else (v >> (32 * k)) & M32)

    def h_zero(self, a):
        a = self.c(a)
        for k in range(self.n32):
            self.st32(a + 4 * k, 0)

    def h_icopy(self, a, r):
        a, r = self.c(a), self.c(r)
        for k in range(self.n32):
            self.st32(r + 4 * k, self.ld32(a + 4 * k))


def fnv(s):
    h = 0xcbf29ce484222325
    for b in s.encode('utf8'):
        h ^= b
        h = h * 0x100000001b3 & M64
    return h


def calculate(c, inputs):
    """what witness_calculator.js does; inputs: [(name, [term])] -> list of witness terms"""
    c.call('$init', 0)
    n = 0
    for name, vals in inputs:
        h = fnv(name)
        msb, lsb = h >> 32, h & M32
        size = c.call('$getInputSignalSize', msb, lsb)[0]
        if size != len(vals):
            raise Trap('input', 'size of %s is %s, not %d' % (name, size, len(vals)))
        sh = c.call('$getSharedRWMemoryStart')[0]
        for i, t in enumerate(vals):
            v = c.e.val(t)
            for k in range(c.n32):
                c.call('$writeSharedRWMemory', k, Word(t, k) if v is None else (v >> (32 * k)) & M32)
            c.call('$setInputSignal', msb, lsb, i)
            n += 1
    if n < c.call('$getInputSize')[0]:
        raise Trap('input', 'not all inputs have been set')
    out = []
    for i in range(c.call('$getWitnessSize')[0]):
        c.call('$getWitness', i)
        ws = [c.call('$readSharedRWMemory', k)[0] for k in range(c.n32)]
        if isinstance(ws[0], Word):
            if any(not isinstance(w, Word) or w.t != ws[0].t or w.part != k for k, w in enumerate(ws)):
                raise Unenc('mixed limbs')
            out.append(ws[0].t)
        else:
            v = sum(w << (32 * k) for k, w in enumerate(ws))
            if v >= c.e.p:
                raise Bad('witness %d is not reduced' % i)
            out.append(c.e.const(v))
    return out
