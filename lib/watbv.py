"""WebAssembly text executed over z3 bit vectors."""
import z3
from . import wat
from .wat import Machine, Trap, Unenc, M32, M64


def bv(v, n):
    return z3.BitVecVal(v, n) if isinstance(v, int) else v if v.size() == n else z3.ZeroExt(n - v.size(), v) if v.size() < n else z3.Extract(n - 1, 0, v)


def num(x):
    if isinstance(x, int):
        return x
    x = z3.simplify(x)
    return x.as_long() if z3.is_bv_value(x) else x


def b01(c):
    return z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))


OPS = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b,
    'xor': lambda a, b: a ^ b, 'shl': lambda a, b: a << (b & (a.size() - 1)), 'shr_u': lambda a, b: z3.LShR(a, b & (a.size() - 1)),
    'shr_s': lambda a, b: a >> (b & (a.size() - 1)), 'eq': lambda a, b: b01(a == b), 'ne': lambda a, b: b01(a != b),
    'lt_u': lambda a, b: b01(z3.ULT(a, b)), 'gt_u': lambda a, b: b01(z3.UGT(a, b)), 'le_u': lambda a, b: b01(z3.ULE(a, b)),
    'ge_u': lambda a, b: b01(z3.UGE(a, b)), 'lt_s': lambda a, b: b01(a < b), 'gt_s': lambda a, b: b01(a > b), 'le_s': lambda a, b: b01(a <= b),
    'ge_s': lambda a, b: b01(a >= b), 'div_u': lambda a, b: z3.UDiv(a, b), 'rem_u': lambda a, b: z3.URem(a, b),
    'rotl': lambda a, b: z3.RotateLeft(a, b), 'rotr': lambda a, b: z3.RotateRight(a, b),
}
LOADS = {'i32.load': (4, 0, 32), 'i64.load': (8, 0, 64)}
for _w in (32, 64):
    for _n in (8, 16, 32)[:2 if _w == 32 else 3]:
        for _s in (0, 1):
            LOADS['i%d.load%d_%s' % (_w, _n, 'us'[_s])] = (_n // 8, _s, _w)
STORES = {'i32.store': 4, 'i32.store8': 1, 'i32.store16': 2, 'i64.store': 8, 'i64.store8': 1, 'i64.store16': 2, 'i64.store32': 4}
WORDS = {'i32.add': 32, 'i32.mul': 32}
WORDS.update({k: 32 for k in wat.BIN32})
WORDS.update({k: 64 for k in wat.BIN64})


class BVMachine(Machine):
    """words are numbers or bit vectors; memory is a map of 32-bit words at the addresses where something symbolic was stored"""

    def __init__(self, mod, paths, maxsteps=3000000):
        Machine.__init__(self, mod, maxsteps)
        self.P = paths

    def concrete(self, v):
        return self.P.pick(v)

    def truth(self, v):
        if isinstance(v, int):
            return v != 0
        return self.P.branch(v != 0)

    def put32(self, a, v):
        v = num(v)
        self.st32(a, v)

    # memory of any alignment and width: the symbolic words lie at multiples of 4
    def word(self, w):
        return self.sym[w] if w in self.sym else int.from_bytes(self.mem[w:w + 4], 'little')

    def ldn(self, a, n):
        if a < 0 or a + n > len(self.mem):
            raise Trap('memory', 'load at %d' % a)
        ws = range(a & ~3, a + n, 4)
        if not any(w in self.sym for w in ws):
            return int.from_bytes(self.mem[a:a + n], 'little')
        bs = [bv(self.word(w), 32) for w in reversed(ws)]
        x = z3.Concat(*bs) if len(bs) > 1 else bs[0]
        o = 8 * (a & 3)
        return num(z3.Extract(o + 8 * n - 1, o, x))

    def stn(self, a, n, v):
        if a < 0 or a + n > len(self.mem):
            raise Trap('memory', 'store at %d' % a)
        v = num(v) if isinstance(v, int) else num(bv(v, 8 * n))
        ws = range(a & ~3, a + n, 4)
        if isinstance(v, int) and not any(w in self.sym for w in ws):
            self.mem[a:a + n] = (v & (1 << 8 * n) - 1).to_bytes(n, 'little')
            return
        for w in ws:
            lo, hi = max(a, w), min(a + n, w + 4)
            piece = num(z3.Extract(8 * (hi - a) - 1, 8 * (lo - a), bv(v, 8 * n)))
            if hi - lo < 4:
                old = bv(self.word(w), 32)
                ps = []
                if hi < w + 4:
                    ps.append(z3.Extract(31, 8 * (hi - w), old))
                ps.append(bv(piece, 8 * (hi - lo)))
                if lo > w:
                    ps.append(z3.Extract(8 * (lo - w) - 1, 0, old))
                piece = num(z3.Concat(*ps))
            if isinstance(piece, int):
                self.sym.pop(w, None)
                self.mem[w:w + 4] = piece.to_bytes(4, 'little')
            else:
                self.sym[w] = piece

    def ld32(self, a):
        return self.ldn(a, 4)

    def st32(self, a, v):
        self.stn(a, 4, v)

    def binop(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if op == 'i32.add':
                return (a + b) & M32
            if op == 'i32.mul':
                return (a * b) & M32
            return wat.BIN32[op](a, b) & M32 if op in wat.BIN32 else wat.BIN64[op](a, b) & M64
        n = WORDS[op]
        return num(OPS[op[4:]](bv(a, n), bv(b, n)))

    def run(self, body, st, loc):
        for ins in body:
            op = ins[0]
            self.steps += 1
            if op == 'get':
                st.append(loc[ins[1]])
            elif op == 'const':
                st.append(ins[1])
            elif op == 'set':
                loc[ins[1]] = st.pop()
            elif op == 'tee':
                loc[ins[1]] = st[-1]
            elif op in WORDS:
                b = st.pop()
                st[-1] = self.binop(op, st[-1], b)
            elif op in LOADS:
                n, sg, w = LOADS[op]
                v = self.ldn(self.c(st[-1]) + ins[1], n)
                if sg and isinstance(v, int):
                    v = (v - (1 << 8 * n) if v >> 8 * n - 1 else v) & (1 << w) - 1
                elif not isinstance(v, int) and 8 * n < w:
                    v = (z3.SignExt if sg else z3.ZeroExt)(w - 8 * n, v)
                st[-1] = v
            elif op in STORES:
                v = st.pop()
                self.stn(self.c(st.pop()) + ins[1], STORES[op], v)
            elif op in ('i32.eqz', 'i64.eqz'):
                v = st[-1]
                st[-1] = int(v == 0) if isinstance(v, int) else num(b01(v == 0))
            elif op == 'i32.wrap_i64' or op == 'i32.wrap/i64':
                v = st[-1]
                st[-1] = v & M32 if isinstance(v, int) else num(z3.Extract(31, 0, v))
            elif op in ('i64.extend_i32_u', 'i64.extend_u/i32'):
                v = st[-1]
                st[-1] = v if isinstance(v, int) else z3.ZeroExt(32, v)
            elif op in ('i64.extend_i32_s', 'i64.extend_s/i32'):
                v = st[-1]
                st[-1] = wat.s32(v) & M64 if isinstance(v, int) else z3.SignExt(32, v)
            elif op == 'call':
                n = ins[1]
                k = self.arity(n)
                args = st[len(st) - k:] if k else []
                if k:
                    del st[len(st) - k:]
                st.extend(self.call(n, *args))
            elif op == 'if':
                n = len(st)
                r = self.run(ins[1] if self.truth(st.pop()) else ins[2], st, loc)
                if r is not None:
                    if r == 'ret':
                        return r
                    if r > 0:
                        return r - 1
            elif op == 'block':
                r = self.run(ins[1], st, loc)
                if r is not None:
                    if r == 'ret':
                        return r
                    if r > 0:
                        return r - 1
            elif op == 'loop':
                while True:
                    if self.steps > self.maxsteps:
                        raise Unenc('step budget')
                    r = self.run(ins[1], st, loc)
                    if r is None:
                        break
                    if r == 'ret':
                        return r
                    if r > 0:
                        return r - 1
            elif op == 'br':
                return ins[1]
            elif op == 'br_if':
                if self.truth(st.pop()):
                    return ins[1]
            elif op == 'return':
                return 'ret'
            elif op == 'drop':
                st.pop()
            elif op == 'select':
                c, b, a = st.pop(), st.pop(), st.pop()
                st.append(a if self.truth(c) else b)
            elif op == 'memory.size':
                st.append(len(self.mem) // 65536)
            elif op == 'memory.grow':
                n = self.c(st.pop())
                st.append(len(self.mem) // 65536)
                if n > 4096:
                    raise Unenc('memory budget')
                self.mem.extend(bytes(n * 65536))
            elif op == 'call_indirect':
                np, nr = ins[1]
                k = self.c(st.pop())
                if k not in self.m.table:
                    raise Trap('table', 'index %d' % k)
                args = st[len(st) - np:]
                if np:
                    del st[len(st) - np:]
                st.extend(self.call(self.m.table[k], *args))
            elif op == 'unreachable':
                raise Trap('unreachable')
            elif op == 'nop':
                pass
            else:
                raise Unenc('instruction ' + op)
        return None
