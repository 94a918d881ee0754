"""C23: the field library of the WebAssembly code, function by function, for every supported prime."""
import os, random, time
import z3
from . import build, bvpaths, suite, symrun, wat, watbv
from . import frdiv
from .alg import check_product
from .wat import Trap, Unenc, M32

DOC = {
    'bn128': 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    'bls12381': 52435875175126190479447740508185965837690552500527637822603658699938581184513,
    'goldilocks': 18446744069414584321,
    'grumpkin': 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    'pallas': 28948022309329048855892746252171976963363056481941560715954676764349967630337,
    'vesta': 28948022309329048855892746252171976963363056481941647379679742748393362948097,
    'secq256r1': 115792089210356248762697446949407573530086143415290314195533631308867097853951,
    'bls12377': 8444461749428370424248824938781546531375899335154063827935233455917409239041,
}
PROG = 'pragma circom 2.0.0;\ntemplate T(){ signal input a; signal input b; signal output c; c <== a*b; }\ncomponent main = T();\n'


def module(exe, prime):
    r = symrun.execute(exe, {'main.circom': PROG}, 'main.circom', ['--O0', '--wat', '--prime', prime], {})
    if r.rc != 0:
        raise wat.Bad('--prime %s does not compile: %s' % (prime, r.stderr[-300:]))
    return wat.Module([c for n, c in r.files.items() if n.endswith('.wat')][0].decode())


class Field:
    def __init__(self, prime, mod):
        self.name, self.mod, self.q = prime, mod, DOC[prime]
        self.nbits = self.q.bit_length()
        self.n32 = (self.nbits + 63) // 64 * 2
        self.W = 32 * self.n32
        self.R = 1 << self.W
        self.half = self.q // 2
        self.mask = (1 << self.nbits) - 1
        self.size = 8 + 4 * self.n32
        self.top = mod.pages * 65536 - 4096


# the arithmetic of the language, on numbers ----------------------------------------------------
def ev(F, op, a, b):
    q = F.q
    sg = lambda x: x - q if x > F.half else x
    if op == 'add': return (a + b) % q
    if op == 'sub': return (a - b) % q
    if op == 'mul': return a * b % q
    if op == 'neg': return -a % q
    if op == 'inv': return pow(a, -1, q)
    if op == 'div': return a * pow(b, -1, q) % q
    if op == 'pow': return pow(a, b, q)
    if op == 'idiv': return a // b
    if op == 'mod': return a % b
    if op == 'eq': return int(a == b)
    if op == 'neq': return int(a != b)
    if op == 'lt': return int(sg(a) < sg(b))
    if op == 'leq': return int(sg(a) <= sg(b))
    if op == 'gt': return int(sg(a) > sg(b))
    if op == 'geq': return int(sg(a) >= sg(b))
    if op == 'land': return int(a != 0 and b != 0)
    if op == 'lor': return int(a != 0 or b != 0)
    if op == 'lnot': return int(a == 0)
    if op == 'band': return (a & b) % q
    if op == 'bor': return (a | b) % q
    if op == 'bxor': return (a ^ b) % q
    if op == 'bnot': return (~a & F.mask) % q
    if op in ('shl', 'shr'):
        k = b if b <= F.half else q - b
        left = (op == 'shl') == (b <= F.half)
        if k >= F.nbits:
            return 0
        return ((a << k) & F.mask) % q if left else a >> k
    if op in ('copy', 'toMontgomery', 'toNormal', 'toLongNormal'): return a
    raise KeyError(op)


OPS2 = ['add', 'sub', 'mul', 'div', 'pow', 'idiv', 'mod', 'eq', 'neq', 'lt', 'leq', 'gt', 'geq', 'land', 'lor', 'band', 'bor', 'bxor', 'shl', 'shr']
OPS1 = ['neg', 'inv', 'lnot', 'bnot', 'copy']
OPS0 = ['toMontgomery', 'toNormal', 'toLongNormal']
PRED = ['isTrue', 'isNegative', 'eqR', 'toInt', 'getLsb32']


# the same on bit vectors ------------------------------------------------------------------------
class BV:
    def __init__(self, F):
        self.F, self.W = F, F.W

    def k(self, v, w=None):
        return z3.BitVecVal(v, w or self.W)

    def red(self, x, w):
        """x of w bits, below 2q"""
        q = self.k(self.F.q, w)
        return z3.Extract(self.W - 1, 0, z3.If(z3.UGE(x, q), x - q, x))

    def z(self, x):
        return z3.ZeroExt(1, x)

    def add(self, a, b):
        return self.red(self.z(a) + self.z(b), self.W + 1)

    def sub(self, a, b):
        return z3.If(z3.UGE(a, b), a - b, a - b + self.k(self.F.q))

    def s2l(self, s):
        """a signed word as a field element"""
        n = s.size()
        x = z3.SignExt(self.W + 1 - n, s)
        return z3.simplify(z3.Extract(self.W - 1, 0, z3.If(s >= 0, x, x + self.k(self.F.q, self.W + 1))))

    def gt(self, a, b):
        h = self.k(self.F.half)
        na, nb = z3.UGT(a, h), z3.UGT(b, h)
        return z3.If(na == nb, z3.UGT(a, b), nb)

    def b(self, c):
        return z3.If(c, self.k(1), self.k(0))

    def spec(self, op, a, b):
        """the result as a bit vector, or None if it is not linear"""
        F = self.F
        if op == 'add': return self.add(a, b)
        if op == 'sub': return self.sub(a, b)
        if op == 'neg': return self.sub(self.k(0), a)
        if op in ('copy', 'toMontgomery', 'toNormal', 'toLongNormal'): return a
        if op == 'eq': return self.b(a == b)
        if op == 'neq': return self.b(a != b)
        if op == 'gt': return self.b(self.gt(a, b))
        if op == 'lt': return self.b(self.gt(b, a))
        if op == 'geq': return self.b(z3.Not(self.gt(b, a)))
        if op == 'leq': return self.b(z3.Not(self.gt(a, b)))
        if op == 'land': return self.b(z3.And(a != 0, b != 0))
        if op == 'lor': return self.b(z3.Or(a != 0, b != 0))
        if op == 'lnot': return self.b(a == 0)
        m = self.k(F.mask)
        r1 = lambda x: z3.If(z3.UGE(x, self.k(F.q)), x - self.k(F.q), x)
        if op == 'band': return r1(a & b)
        if op == 'bor': return r1(a | b)
        if op == 'bxor': return r1(a ^ b)
        if op == 'bnot': return r1(~a & m)
        return None

    def shift(self, a, left, w, k):
        o = k & self.k(63)
        m = self.k(self.F.mask)
        if left:
            x = ((a << self.k(64 * w)) << o) & m
            return z3.If(z3.UGE(x, self.k(self.F.q)), x - self.k(self.F.q), x)
        return z3.LShR(z3.LShR(a, self.k(64 * w)), o)


# polynomials over the field (exponents may be negative) -----------------------------------------
class Poly:
    __slots__ = ('q', 't')

    def __init__(self, q, t):
        self.q, self.t = q, {m: c % q for m, c in t.items() if c % q}

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(self.q, t)

    def scale(self, k):
        return Poly(self.q, {m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                e = dict(m)
                for v, x in n:
                    e[v] = e.get(v, 0) + x
                k = tuple(sorted((v, x) for v, x in e.items() if x))
                t[k] = t.get(k, 0) + c * d
        return Poly(self.q, t)

    def mono(self):
        return next(iter(self.t.items())) if len(self.t) == 1 else None

    def inv(self):
        m = self.mono()
        if m is None:
            raise Unenc('inverse of a sum')
        return Poly(self.q, {tuple((v, -x) for v, x in m[0]): pow(m[1], -1, self.q)})

    def atom(self):
        m = self.mono()
        return m[0][0][0] if m and m[1] == 1 and len(m[0]) == 1 and m[0][0][1] == 1 else None

    def __eq__(self, o):
        return self.t == o.t


class FrMachine(watbv.BVMachine):
    """the module with the multiplicative routines replaced by their specifications"""

    def __init__(self, F, P, hooks):
        watbv.BVMachine.__init__(self, F.mod, P, 400000)
        self.F, self.B = F, BV(F)
        self.mean = []          # (bit vector, polynomial)
        self.atoms = []         # (name, bit vector)
        self.fresh = 0
        self.named = {}
        self.Rinv = pow(F.R, -1, F.q)
        for h in hooks:
            f = getattr(self, 'h_' + h)
            self.hooks['$Fr_' + h] = f
        self.hook_names = ['$Fr_' + h for h in hooks]

    # products of two unknown words: a function of them
    def binop(self, op, a, b):
        if op in ('i64.mul', 'i32.mul') and not isinstance(a, int) and not isinstance(b, int):
            n = int(op[1:3])
            x, y = sorted((watbv.num(watbv.bv(a, n)), watbv.num(watbv.bv(b, n))), key=lambda v: -1 if isinstance(v, int) else v.get_id())
            if not isinstance(x, int) and not isinstance(y, int):
                s = z3.BitVecSort(n)
                return z3.Function('MUL%d' % n, s, s, s)(x, y)
        return watbv.BVMachine.binop(self, op, a, b)

    # memory
    def rd(self, a):
        return watbv.bv(self.ldn(self.c(a), 4 * self.F.n32), self.F.W)

    def wr(self, a, x):
        self.stn(self.c(a), 4 * self.F.n32, x)

    # meanings
    def atom(self, name, x):
        self.atoms.append((name, x))
        return Poly(self.F.q, {((name, 1),): 1})

    def meaning(self, x):
        x = watbv.num(x)
        if isinstance(x, int):
            return Poly(self.F.q, {(): x})
        for n, y in self.atoms:
            if y.eq(x):
                return Poly(self.F.q, {((n, 1),): 1})
        for y, p in self.mean:
            if y.eq(x):
                return p
        for n, y in self.atoms:
            if self.P.valid(x == y)[0]:
                return Poly(self.F.q, {((n, 1),): 1})
        for y, p in self.mean:
            if self.P.valid(x == y)[0]:
                self.mean.append((x, p))
                return p
        p = self.atom('t%d' % len(self.atoms), x)
        return p

    def same(self, p, r):
        """the two polynomials are the same number on this path"""
        if p == r:
            return True
        ns = {v for t in (p.t, r.t) for m in t for v, _ in m}
        at = [(n, x) for n, x in self.atoms if n in ns]
        sub = {}
        for i, (n, x) in enumerate(at):
            x = watbv.bv(x, self.F.W)
            if self.P.check() != z3.sat:
                return True
            c = self.P.s.model().eval(x, model_completion=True)
            if self.P.valid(x == c)[0]:
                sub[n] = Poly(self.F.q, {(): c.as_long()})
                continue
            for m, y in at[:i]:
                if m not in sub and self.P.valid(x == watbv.bv(y, self.F.W))[0]:
                    sub[n] = Poly(self.F.q, {((m, 1),): 1})
                    break
        if not sub:
            return False

        def ap(p):
            out = Poly(self.F.q, {})
            for m, c in p.t.items():
                t = Poly(self.F.q, {(): c})
                for v, e in m:
                    f = sub.get(v) or Poly(self.F.q, {((v, 1),): 1})
                    if e < 0:
                        if not f.t:
                            return None
                        f, e = f.inv(), -e
                    for _ in range(e):
                        t = t * f
                out = out + t
            return out
        a, b = ap(p), ap(r)
        return a is not None and b is not None and a == b

    def value(self, p):
        """a canonical bit vector with this meaning"""
        if not p.t:
            return 0
        m = p.mono()
        if m and m[0] == ():
            return m[1]
        n = p.atom()
        if n is not None:
            for nm, x in self.atoms:
                if nm == n:
                    return x
        for y, r in self.mean:
            if r == p:
                return y
        self.fresh += 1
        x = z3.BitVec('v%d' % self.fresh, self.F.W)
        self.P.assume(z3.ULT(x, self.B.k(self.F.q)))
        # zero exactly if the product of its factors is
        if m:
            fs = [dict(self.atoms)[v] for v, _ in m[0]]
            self.P.assume((x == 0) == z3.Or([f == 0 for f in fs]))
        # equal exactly if the numbers they are multiples of are equal
        if m and len(m[0]) == 1:
            u = dict(self.atoms)[m[0][0][0]]
            for y, r in self.mean:
                k = r.mono()
                if k and k[1] == m[1] and len(k[0]) == 1 and k[0][0][1] == m[0][0][1] and m[0][0][1] in (1, -1):
                    self.P.assume((x == y) == (u == dict(self.atoms)[k[0][0][0]]))
        self.mean.append((x, p))
        return x

    def need(self, c, what):
        ok, m = self.P.valid(c)
        if not ok:
            raise Premise(what, m)

    def canon(self, *xs):
        for x in xs:
            self.need(z3.ULT(x, self.B.k(self.F.q)), 'a routine is called with an operand that is not below the prime')

    # leaf routines
    def h_int_copy(self, x, r):
        self.wr(r, self.rd(x))

    def h_int_zero(self, r):
        self.wr(r, 0)

    def h_int_one(self, r):
        self.wr(r, 1)

    def h_int_isZero(self, x):
        return watbv.num(watbv.b01(self.rd(x) == 0))

    def h_int_eq(self, x, y):
        return watbv.num(watbv.b01(self.rd(x) == self.rd(y)))

    def h_int_gt(self, x, y):
        return watbv.num(watbv.b01(z3.UGT(self.rd(x), self.rd(y))))

    def h_int_gte(self, x, y):
        return watbv.num(watbv.b01(z3.UGE(self.rd(x), self.rd(y))))

    def h_int_add(self, x, y, r):
        s = self.B.z(self.rd(x)) + self.B.z(self.rd(y))
        self.wr(r, z3.Extract(self.F.W - 1, 0, s))
        return watbv.num(z3.ZeroExt(31, z3.Extract(self.F.W, self.F.W, s)))

    def h_int_sub(self, x, y, r):
        a, b = self.rd(x), self.rd(y)
        self.wr(r, a - b)
        return watbv.num(watbv.b01(z3.ULT(a, b)))

    def h_F1m_add(self, x, y, r):
        self.lin(self.rd(x), self.rd(y), r, self.B.add, 1)

    def h_F1m_sub(self, x, y, r):
        self.lin(self.rd(x), self.rd(y), r, self.B.sub, -1)

    def h_F1m_neg(self, x, r):
        self.lin(self.B.k(0), self.rd(x), r, self.B.sub, -1)

    def lin(self, x, y, r, f, k):
        self.canon(x, y)
        v = z3.simplify(f(x, y))
        if not z3.is_bv_value(v) and not any(v.eq(z) for z in (x, y)):
            if v.get_id() not in self.named:
                w = z3.BitVec('w%d' % len(self.named), self.F.W)
                self.named[v.get_id()] = (v, w)
                self.P.assume(w == v)
            v = self.named[v.get_id()][1]
        if not z3.is_bv_value(v) and (self.track and not (k < 0 and z3.is_bv_value(x)) or k < 0 and z3.is_bv_value(x) and any(a.eq(y) for a in [a for _, a in self.atoms] + [a for a, _ in self.mean])):
            self.mean.append((v, self.meaning(x) + self.meaning(y).scale(k)))
        self.wr(r, v)

    track = True

    def mont(self, p, r):
        self.wr(r, self.value(p))

    def h_F1m_mul(self, x, y, r):
        a, b = self.rd(x), self.rd(y)
        self.canon(a, b)
        self.mont((self.meaning(a) * self.meaning(b)).scale(self.Rinv), r)

    def h_F1m_square(self, x, r):
        a = self.rd(x)
        self.canon(a)
        p = self.meaning(a)
        self.mont((p * p).scale(self.Rinv), r)

    def h_F1m_toMontgomery(self, x, r):
        a = self.rd(x)
        self.canon(a)
        self.mont(self.meaning(a).scale(self.F.R), r)

    def h_F1m_fromMontgomery(self, x, r):
        a = self.rd(x)
        self.canon(a)
        self.mont(self.meaning(a).scale(self.Rinv), r)

    def h_F1m_mReduct(self, x, r):
        lo, hi = self.rd(x), self.rd(self.c(x) + 4 * self.F.n32)
        self.need(hi == 0, 'mReduct of a product')
        self.canon(lo)
        p = self.meaning(lo).scale(self.Rinv)
        # the routine overwrites its operand
        self.fresh += 1
        self.stn(self.c(x), 8 * self.F.n32, z3.BitVec('over%d' % self.fresh, 2 * self.F.W))
        self.mont(p, r)

    def h_int_inverseMod(self, x, m, r):
        a = self.rd(x)
        self.need(self.rd(m) == self.F.q, 'inverse modulo something else')
        self.canon(a)
        self.need(a != 0, 'inverse of zero')
        self.mont(self.meaning(a).inv(), r)

    def h_int_div(self, x, y, c, r):
        a, b = self.rd(x), self.rd(y)
        self.need(b != 0, 'division by zero')
        d, m = divmods(self.F.W)
        # a zero pointer: the result goes to a scratch place
        c, r = self.c(c), self.c(r)
        if c:
            self.wr(c, d(a, b))
        if r:
            self.wr(r, m(a, b))

    def h_F1m_exp(self, base, e, n, r):
        b, x = self.rd(base), self.rd(e)
        self.need(watbv.bv(n, 32) == 4 * self.F.n32, 'length of the exponent')
        self.canon(b)
        p = self.meaning(b).scale(self.Rinv)
        a = p.atom()
        if a is None and p.t:
            m = p.mono()
            if m is None or m[0] != ():
                raise Unenc('power of an expression')
        y = z3.simplify(powf(self.F.W)(watbv.bv(self.value(p), self.F.W), x))
        self.P.assume(z3.ULT(y, self.B.k(self.F.q)))
        self.mont(self.meaning(y).scale(self.F.R), r)


class Premise(Exception):
    def __init__(self, what, model):
        Exception.__init__(self, what)
        self.model = model


def divmods(w):
    s = z3.BitVecSort(w)
    return z3.Function('DIV', s, s, s), z3.Function('MOD', s, s, s)


def powf(w):
    s = z3.BitVecSort(w)
    return z3.Function('POW', s, s, s)


LEAF0 = ['int_copy', 'int_zero', 'int_one', 'int_isZero', 'int_eq', 'int_gt', 'int_gte', 'int_add', 'int_sub']
LEAF1 = ['F1m_add', 'F1m_sub', 'F1m_neg']
LEAF2 = ['F1m_mul', 'F1m_square', 'F1m_mReduct']
LEAF3 = ['F1m_toMontgomery', 'F1m_fromMontgomery']
LEAF4 = ['int_inverseMod', 'int_div', 'F1m_exp']
ALL = LEAF0 + LEAF1 + LEAF2 + LEAF3 + LEAF4

REPS = ['s', 'sm', 'n', 'm']      # short, short with a Montgomery copy, long normal, long Montgomery


def layout(F, alias):
    A = F.top
    B = A if alias in ('ab', 'rab') else A + 64
    R = {'': A + 128, 'ra': A, 'rb': B, 'ab': A + 128, 'rab': A}[alias]
    return A, B, R


class Operand:
    def __init__(self, M, name, rep, addr):
        F, P = M.F, M.P
        self.name, self.rep, self.addr = name, rep, addr
        junk = z3.BitVec('junk_' + name, 32)
        s = z3.BitVec('short_' + name, 32)
        l = z3.BitVec('long_' + name, F.W)
        w = z3.BitVec('mont_' + name, F.W)
        self.s, self.l, self.w, self.junk = s, l, w, junk
        P.assume(z3.ULT(l, M.B.k(F.q)))
        P.assume(z3.ULT(w, M.B.k(F.q)))
        if rep in ('s', 'sm'):
            pos = P.branch(s >= 0)
            self.norm = z3.ZeroExt(F.W - 32, s) if pos else z3.simplify(z3.SignExt(F.W - 32, s) + M.B.k(F.q))
        else:
            self.norm = l
        p = M.atom(name, self.norm)
        M.stn(addr, 4, s if rep in ('s', 'sm') else junk)
        M.stn(addr + 4, 4, {'s': 0, 'sm': 0x40000000, 'n': 0x80000000, 'm': 0xC0000000}[rep])
        if rep == 's':
            for k in range(F.n32):
                M.stn(addr + 8 + 4 * k, 4, z3.BitVec('rest%d_%s' % (k, name), 32))
        elif rep == 'n':
            M.wr(addr + 8, l)
        else:
            for y, r in M.mean:
                P.assume((w == y) == (self.norm == dict(M.atoms)[r.scale(M.Rinv).atom()]))
            M.mean.append((w, p.scale(F.R)))
            P.assume((w == 0) == (self.norm == 0))
            M.wr(addr + 8, w)
        self.poly = p


def decode(M, addr, want_bv, want_poly, what):
    """None if the element at addr has this value; otherwise (what, model)"""
    F, P = M.F, M.P
    lo, hd = watbv.bv(M.ldn(addr, 4), 32), watbv.bv(M.ldn(addr + 4, 4), 32)
    if P.branch(z3.Extract(31, 31, hd) == 0):
        x = M.B.s2l(lo)
        ok, m = P.valid(x == want_bv) if want_bv is not None else (False, None)
        if not ok:
            return what + ' (short result)', m
        if P.branch(z3.Extract(30, 30, hd) == 1):
            y = M.rd(addr + 8)
            ok, m = P.valid(z3.ULT(y, M.B.k(F.q)))
            if not ok:
                return what + ' (short with a Montgomery copy)', m
            if not M.same(M.meaning(y), M.meaning(x).scale(F.R)):
                return what + ' (the Montgomery copy of a short number)', model(P)
        return None
    x = M.rd(addr + 8)
    ok, m = P.valid(z3.ULT(x, M.B.k(F.q)))
    if not ok:
        return what + ' (not below the prime)', m
    if P.branch(z3.Extract(30, 30, hd) == 1):
        p = M.meaning(x).scale(M.Rinv)
        if want_poly is not None and M.same(p, want_poly):
            return None
        if want_bv is not None and (p.atom() is not None or not p.t):
            ok, m = P.valid(watbv.bv(M.value(p), F.W) == want_bv)
            return None if ok else (what + ' (Montgomery result)', m)
        if want_bv is not None and p.mono() and p.mono()[0] == ():
            ok, m = P.valid(want_bv == p.mono()[1])
            return None if ok else (what + ' (Montgomery result)', m)
        return what + ' (Montgomery result)', model(P)
    if want_bv is not None:
        ok, m = P.valid(x == want_bv)
        return None if ok else (what + ' (long result)', m)
    if want_poly is not None and M.same(M.meaning(x), want_poly):
        return None
    return what + ' (long result)', model(P)


def model(P):
    return P.s.model() if P.check() == z3.sat else None


def run_op(F, op, ra, rb, alias, fail, cov, P):
    q = F.q

    def one():
        M = FrMachine(F, P, ALL)
        A, B, R = layout(F, alias)
        a = Operand(M, 'a', ra, A)
        b = Operand(M, 'b', rb, B) if rb is not None and B != A else a
        # the language gives no value to these
        if op in ('div', 'idiv', 'mod'):
            P.assume(b.norm != 0)
        if op == 'inv':
            P.assume(a.norm != 0)
        M.track = op in ('add', 'sub', 'neg')
        res = exc = None
        try:
            if op in OPS0 or op in PRED:
                res = M.call('$Fr_' + op, *([A, B] if op == 'eqR' else [A]))
            elif op in OPS1:
                M.call('$Fr_' + op, R, A)
            else:
                M.call('$Fr_' + op, R, A, B)
        except Premise as ex:
            exc = ex
        return M, a, b, A, B, R, res, exc

    for M, a, b, A, B, R, res, exc in P.run(one):
        cov['paths'] += 1
        if exc is not None:
            fail(op, '%s' % exc, exc.model, a, b)
            return
        M.track = True
        if op in PRED:
            x = watbv.bv(res[0], 32)
            if op == 'isTrue':
                w = (x != 0) == (a.norm != 0)
            elif op == 'isNegative':
                w = (x != 0) == z3.UGT(a.norm, M.B.k(F.half))
            elif op == 'eqR':
                w = (x != 0) == (a.norm == b.norm)
            elif op == 'getLsb32':
                w = z3.BoolVal(True) if ra in ('s', 'sm') else x == z3.Extract(31, 0, a.norm)
            else:
                neg = z3.UGT(a.norm, M.B.k(F.half))
                w = x == z3.If(neg, -z3.Extract(31, 0, M.B.k(q) - a.norm), z3.Extract(31, 0, a.norm))
            ok, m = P.valid(w)
            if not ok:
                fail(op, 'the result of Fr_%s is wrong' % op, m, a, b)
                return
        elif op not in OPS0:
            short = ra in ('s', 'sm') and (rb is None or rb in ('s', 'sm'))
            if op in ('shl', 'shr'):
                # the shift by 64 w + o bits as a shift by 64 w bits and one by o bits
                pos = P.branch(z3.ULE(b.norm, M.B.k(F.half)))
                k = b.norm
                if not pos:
                    k = z3.simplify(M.B.k(q) - b.norm)
                    for v, p in M.mean:
                        if p == b.poly.scale(-1) and P.valid(v == k)[0]:
                            k = v
                            break
                if P.branch(z3.UGE(k, M.B.k(F.nbits))):
                    sp = M.B.k(0)
                else:
                    w = P.pick(z3.Extract(15, 6, k))
                    sp = M.B.shift(a.norm, (op == 'shl') == pos, w, k)
            else:
                sp = M.B.spec(op, a.norm, b.norm)
            wp = None
            if op in ('add', 'sub', 'neg') and not short:
                wp = {'add': lambda: a.poly + b.poly, 'sub': lambda: a.poly + b.poly.scale(-1), 'neg': lambda: a.poly.scale(-1)}[op]()
            if op == 'mul':
                wp = a.poly * b.poly
                if short:
                    sp = M.B.s2l(watbv.bv(M.binop('i64.mul', z3.SignExt(32, a.s), z3.SignExt(32, b.s)), 64))
            if op == 'inv':
                wp = a.poly.inv()
            if op == 'div':
                wp = a.poly * b.poly.inv()
            if op in ('idiv', 'mod'):
                sp = divmods(F.W)[op == 'mod'](a.norm, b.norm)
                P.assume(z3.ULT(sp, M.B.k(q)))
            if op == 'pow':
                sp = powf(F.W)(a.norm, b.norm)
            if op in ('copy',):
                wp = a.poly
            bad = decode(M, R, sp, wp, 'the result of Fr_%s is wrong' % op)
            if bad:
                fail(op, bad[0], bad[1], a, b)
                return
        # the operands keep their values
        for o, addr in ((a, A), (b, B)):
            if o is b and (rb is None or B == A) or addr == R and op not in OPS0 and op not in PRED:
                continue
            bad = decode(M, addr, o.norm, o.poly, 'Fr_%s changes the value of its operand %s' % (op, o.name))
            if bad:
                fail(op, bad[0], bad[1], a, b)
                return


# replay: the same call on numbers, with nothing replaced ----------------------------------------
def encode(F, mem, addr, rep, v, junk=0x5a5a5a5a):
    """write the field element v; False if this representation cannot hold it"""
    s = v if v < 1 << 31 else v - F.q
    if rep in ('s', 'sm') and not -(1 << 31) <= s < 1 << 31:
        return False
    l = v if rep == 'n' else v * F.R % F.q
    hd = {'s': 0, 'sm': 0x40000000, 'n': 0x80000000, 'm': 0xC0000000}[rep]
    mem[addr:addr + 4] = (s & M32 if rep in ('s', 'sm') else junk).to_bytes(4, 'little')
    mem[addr + 4:addr + 8] = hd.to_bytes(4, 'little')
    mem[addr + 8:addr + 8 + 4 * F.n32] = l.to_bytes(4 * F.n32, 'little') if rep != 's' else bytes([0xa5]) * (4 * F.n32)
    return True


def value(F, mem, addr):
    s, hd = (int.from_bytes(mem[addr + k:addr + k + 4], 'little') for k in (0, 4))
    l = int.from_bytes(mem[addr + 8:addr + 8 + 4 * F.n32], 'little')
    if not hd >> 31:
        return (s - (1 << 32) if s >> 31 else s) % F.q
    if l >= F.q:
        return 'the number %d, which is not below the prime' % l
    return l * pow(F.R, -1, F.q) % F.q if hd >> 30 & 1 else l


def concrete(F, op, ra, rb, alias, a, b):
    """None, or what the real routine does wrong on these numbers"""
    M = wat.Machine(F.mod, 5000000)
    A, B, R = layout(F, alias)
    if not encode(F, M.mem, A, ra, a) or rb is not None and B != A and not encode(F, M.mem, B, rb, b):
        return None
    if B == A:
        b = a
    if op in ('div', 'idiv', 'mod') and b == 0 or op == 'inv' and a == 0:
        return None
    try:
        if op in OPS0 or op in PRED:
            res = M.call('$Fr_' + op, *([A, B] if op == 'eqR' else [A]))
        elif op in OPS1:
            M.call('$Fr_' + op, R, A)
        else:
            M.call('$Fr_' + op, R, A, B)
    except Trap as ex:
        return 'trap: %s' % ex
    if op in PRED:
        got = res[0]
        sg = a - F.q if a > F.half else a
        want = {'isTrue': int(a != 0), 'isNegative': int(a > F.half), 'eqR': int(a == b), 'toInt': sg & M32, 'getLsb32': a & M32}[op]
        if op in ('isTrue', 'isNegative', 'eqR'):
            got = int(got != 0)
        if op == 'getLsb32' and ra in ('s', 'sm'):
            want = got
    elif op in OPS0:
        got = want = 0
    else:
        got, want = value(F, M.mem, R), ev(F, op, a, b)
    if got != want:
        return 'gives %s, not %s' % (got, want)
    for nm, addr, v in (('a', A, a), ('b', B, b)):
        if nm == 'b' and rb is None or addr == R and op not in OPS0 and op not in PRED:
            continue
        if value(F, M.mem, addr) != v:
            return 'changes its operand %s to %s' % (nm, value(F, M.mem, addr))
    return None


def numbers(F, r):
    q = F.q
    c = [0, 1, 2, q - 1, q - 2, F.half, F.half + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, q - (1 << 31), q - (1 << 31) - 1, 5, q - 7, 253, 254, q - 1 >> 3, 65536, 46341,
         (1 << F.nbits - 1) % q, 1 << 32, q - (1 << 32), F.R % q]
    return r.choice(c) % q if r.random() < .6 else r.randrange(q) >> r.choice([0, 0, 0, 32, 64, 128, 192, 224, 250]) % F.nbits


def confirm(F, op, ra, rb, alias, m, a, b, r):
    """a pair of numbers on which the real routine is wrong"""
    cands = []
    if m is not None:
        e = lambda x: m.eval(x, model_completion=True).as_long()
        cands.append((e(a.norm) % F.q, e(b.norm) % F.q))
    sm = [0, 1, 5, F.q - 1, F.q - 7, (1 << 31) - 1, F.q - (1 << 31), 46341, 65536, F.q - 65536]
    for k in range(300):
        x = [r.choice(sm) if rep in ('s', 'sm') and r.random() < .7 else r.randrange(1 << 31) if rep in ('s', 'sm') else numbers(F, r) for rep in (ra, rb)]
        cands.append(tuple(x))
    for x, y in cands:
        w = concrete(F, op, ra, rb, alias, x, y)
        if w:
            return x, y, w
    return None


# the routines below -------------------------------------------------------------------------------
def leaf0(F, fn, alias, fail, cov, P):
    """the integer routines, on bit vectors with nothing replaced"""
    W = F.W

    def one():
        M = FrMachine(F, P, [])
        A, B, R = layout(F, alias)
        x, y = z3.BitVec('x', W), z3.BitVec('y', W)
        M.wr(A, x)
        if B != A:
            M.wr(B, y)
        else:
            y = x
        if fn in LEAF1:
            M = M
            for h in ('int_add', 'int_sub', 'int_gte', 'int_gt', 'int_eq', 'int_isZero', 'int_copy', 'int_zero'):
                M.hooks['$Fr_' + h] = getattr(M, 'h_' + h)
            P.assume(z3.ULT(x, F.q))
            P.assume(z3.ULT(y, F.q))
        args = {'int_copy': [A, R], 'int_zero': [R], 'int_one': [R], 'int_isZero': [A], 'int_eq': [A, B], 'int_gt': [A, B], 'int_gte': [A, B],
                'F1m_neg': [A, R]}.get(fn, [A, B, R])
        return M, x, y, M.call('$Fr_' + fn, *args), R
    for M, x, y, res, R in P.run(one):
        cov['paths'] += 1
        B = M.B
        r = M.rd(R)
        t = watbv.bv(res[0], 32) if res else None
        s = B.z(x) + B.z(y)
        c = {'int_copy': lambda: r == x, 'int_zero': lambda: r == 0, 'int_one': lambda: r == 1,
             'int_isZero': lambda: (t != 0) == (x == 0), 'int_eq': lambda: (t != 0) == (x == y), 'int_gt': lambda: (t != 0) == z3.UGT(x, y),
             'int_gte': lambda: (t != 0) == z3.UGE(x, y),
             'int_add': lambda: z3.And(r == x + y, (t != 0) == (z3.Extract(W, W, s) == 1)),
             'int_sub': lambda: z3.And(r == x - y, (t != 0) == z3.ULT(x, y)),
             'F1m_add': lambda: r == B.add(x, y), 'F1m_sub': lambda: r == B.sub(x, y), 'F1m_neg': lambda: r == B.sub(B.k(0), x)}[fn]()
        ok, m = P.valid(c)
        if not ok:
            e = lambda v: m.eval(v, model_completion=True).as_long()
            xv, yv = e(x), e(y)
            fail(fn, 'Fr_%s is wrong on %d and %d' % (fn, xv, yv), (xv, yv))
            return


def leaf_concrete(F, fn, alias, x, y):
    M = wat.Machine(F.mod, 5000000)
    A, B, R = layout(F, alias)
    n = 4 * F.n32
    if fn in ('int_mul', 'int_square', 'F1m_mReduct'):
        A, B, R = F.top, F.top + 256, {'': F.top + 512, 'ra': F.top, 'rb': F.top + 256, 'ab': F.top + 512}[alias]
        if alias == 'ab':
            B = A
    if fn == 'F1m_mReduct':
        M.mem[A:A + 2 * n] = (x % (1 << 2 * F.W)).to_bytes(2 * n, 'little')
    else:
        M.mem[A:A + n] = x.to_bytes(n, 'little')
        if B != A:
            M.mem[B:B + n] = y.to_bytes(n, 'little')
    if B == A:
        y = x
    args = {'int_copy': [A, R], 'int_zero': [R], 'int_one': [R], 'int_isZero': [A], 'int_eq': [A, B], 'int_gt': [A, B], 'int_gte': [A, B],
            'F1m_neg': [A, R], 'F1m_square': [A, R], 'int_square': [A, R], 'F1m_mReduct': [A, R], 'F1m_toMontgomery': [A, R], 'F1m_fromMontgomery': [A, R],
            'int_div': [A, B, R, R + 64]}.get(fn, [A, B, R])
    if fn == 'int_inverseMod':
        M.mem[B:B + n] = F.q.to_bytes(n, 'little')
    if fn == 'F1m_exp':
        args = [A, B, n, R]
    try:
        res = M.call('$Fr_' + fn, *args)
    except Trap as ex:
        return 'trap %s' % ex
    rd = lambda a, k=n: int.from_bytes(M.mem[a:a + k], 'little')
    q, Ri = F.q, pow(F.R, -1, F.q)
    if fn in ('int_isZero', 'int_eq', 'int_gt', 'int_gte'):
        got, want = int(res[0] != 0), int({'int_isZero': x == 0, 'int_eq': x == y, 'int_gt': x > y, 'int_gte': x >= y}[fn])
    elif fn == 'int_add':
        got, want = (rd(R), int(res[0] != 0)), ((x + y) % F.R, int(x + y >= F.R))
    elif fn == 'int_sub':
        got, want = (rd(R), int(res[0] != 0)), ((x - y) % F.R, int(x < y))
    elif fn in ('int_mul', 'int_square'):
        got, want = rd(R, 2 * n), x * (y if fn == 'int_mul' else x)
    elif fn == 'int_div':
        got, want = (rd(R), rd(R + 64)), (x // y, x % y)
    else:
        got = rd(R)
        want = {'int_copy': lambda: x, 'int_zero': lambda: 0, 'int_one': lambda: 1, 'F1m_add': lambda: (x + y) % q, 'F1m_sub': lambda: (x - y) % q,
                'F1m_neg': lambda: -x % q, 'F1m_mul': lambda: x * y * Ri % q, 'F1m_square': lambda: x * x * Ri % q, 'F1m_mReduct': lambda: x * Ri % q,
                'F1m_toMontgomery': lambda: x * F.R % q, 'F1m_fromMontgomery': lambda: x * Ri % q, 'int_inverseMod': lambda: pow(x, -1, q),
                'F1m_exp': lambda: pow(x * Ri, y, q) * F.R % q}[fn]()
    return None if got == want else 'gives %s, not %s' % (got, want)


LEAF_ARGS = {'int_mul': 'product', 'int_square': 'product', 'F1m_mul': 'mont', 'F1m_square': 'mont', 'F1m_mReduct': 'reduce'}


def leaf2(F, fn, alias, fail, cov, P):
    """the products, over integer polynomials in the limbs"""
    A, B, R = F.top, F.top + 256, F.top + 512
    one = fn in ('int_square', 'F1m_square', 'F1m_mReduct')
    R = {'': R, 'ra': A, 'rb': B, 'ab': R}[alias]
    args = [A, R] if one else [A, A if alias == 'ab' else B, R]
    ay = None if fn == 'F1m_mReduct' else A if one or alias == 'ab' else B
    v, d, st = check_product(F.mod, F.q, F.n32, LEAF_ARGS[fn], lambda M: M.call('$Fr_' + fn, *args), A, ay, R, 2 * F.n32 if fn.startswith('int') else F.n32)
    cov['paths'] += st['paths']
    P.queries += st['queries']
    P.ms += st['ms']
    if v != 'yes':
        fail(fn, d, None)


def leaf3(F, fn, fail, cov, P):
    """the conversions, with the products replaced"""
    def one():
        M = FrMachine(F, P, LEAF0 + LEAF1 + LEAF2)
        A, B, R = layout(F, '')
        x = z3.BitVec('x', F.W)
        P.assume(z3.ULT(x, M.B.k(F.q)))
        p = M.atom('x', x)
        M.wr(A, x)
        M.call('$Fr_' + fn, A, R)
        return M, R, p, x
    for M, R, p, x in P.run(one):
        cov['paths'] += 1
        k = F.R if fn == 'F1m_toMontgomery' else M.Rinv
        if not M.same(M.meaning(M.rd(R)), p.scale(k)) or not P.valid(z3.ULT(M.rd(R), M.B.k(F.q)))[0]:
            fail(fn, 'Fr_%s is not the product with %s' % (fn, 'R' if k == F.R else '1/R'), None)
            return


def leaf_exp(F, length, pos, bits, rest, alias, fail, cov, P):
    """a power whose exponent has unknown bits in one byte"""
    def one():
        M = FrMachine(F, P, LEAF0 + LEAF1 + LEAF2)
        A, B, R = layout(F, alias)
        x, w, e = z3.BitVec('x', F.W), z3.BitVec('w', F.W), z3.BitVec('e', bits)
        P.assume(z3.ULT(w, M.B.k(F.q)))
        p = M.atom('x', x)
        M.mean.append((w, p.scale(F.R)))
        P.assume((w == 0) == (x == 0))
        M.wr(A, w)
        M.mem[B:B + length] = rest.to_bytes(length, 'little')
        M.stn(B + pos, 1, z3.ZeroExt(8 - bits, e) if bits < 8 else e)
        M.call('$Fr_F1m_exp', A, B, length, R)
        return M, R, e
    for M, R, e in P.run(one):
        cov['paths'] += 1
        n = (rest & ~(255 << 8 * pos)) | P.pick(e) << 8 * pos
        if M.meaning(M.rd(R)) != Poly(F.q, {(('x', n),) if n else (): F.R}):
            fail('F1m_exp', 'Fr_F1m_exp is wrong for the exponent %d' % n, (None, n, length))
            return


def units(F, thorough, r):
    us = []
    for fn in LEAF0 + LEAF1:
        for al in ('', 'ra', 'rb') if fn in ('int_add', 'int_sub', 'F1m_add', 'F1m_sub') else ('', 'ra') if fn == 'F1m_neg' else ('',):
            us.append((F, 'leaf0', fn, al))
    for fn in LEAF_ARGS:
        us.append((F, 'leaf2', fn, ''))
        if fn == 'F1m_mul':
            us += [(F, 'leaf2', fn, al) for al in ('ra', 'rb', 'ab')]
        if fn == 'F1m_square':
            us.append((F, 'leaf2', fn, 'ra'))
    us += [(F, 'leaf3', fn) for fn in LEAF3]
    n = 4 * F.n32
    us.append((F, 'exp', 1, 0, 8, 0, ''))
    for pos in (range(n) if thorough else (r.randrange(n), F.nbits // 8 - 1)):
        us.append((F, 'exp', n, pos, 3 if thorough else 2, (F.q - 2) & ~(255 << 8 * pos), ''))
    us += div_units(F, thorough, r)
    for op in OPS2 + ['eqR']:
        extra = (r.choice(REPS), r.choice(REPS))
        for ra in REPS:
            for rb in REPS:
                if op in ('shl', 'shr') and not thorough and (ra, rb) not in (('n', 'n'), extra):
                    continue
                us.append((F, 'op', op, ra, rb, ''))
                if thorough:
                    us += [(F, 'op', op, ra, rb, al) for al in ('ra', 'rb')] if op in ('add', 'sub', 'mul') else []
            # the sugar cleaner keeps the two operands of a power apart, because Fr_pow needs it
            if op != 'pow' and (thorough or op not in ('shl', 'shr')):
                us.append((F, 'op', op, ra, ra, 'ab'))
    for op in OPS1 + OPS0 + PRED:
        if op != 'eqR':
            us += [(F, 'op', op, ra, None, '') for ra in REPS]
    return us


def _unit(u):
    F, kind = u[:2]
    t0 = time.time()
    P = bvpaths.Paths(40000, 3000, 'QF_AUFBV')
    cov = dict(paths=0)
    out = dict(label=' '.join([F.name] + [str(x) for x in u[1:6] if x]), kind=kind, finds=[], err=None)
    r = random.Random('confirm%s' % (u[1:],))

    def fail_op(op, what, m, a, b):
        c = confirm(F, op, u[3], u[4], u[5], m, a, b, r)
        if c:
            out['finds'].append(('wrong', '--prime %s: $Fr_%s on %s and %s (representations %s %s): %s' % (F.name, op, c[0], c[1], u[3], u[4] or '', c[2]),
                                 dict(files={'call.txt': 'prime %s\noperation Fr_%s\na %d (%s)\nb %d (%s)\nalias %s\n%s\n' % (F.name, op, c[0], u[3], c[1], u[4], u[5], c[2])},
                                      reproduced=True)))
        else:
            out['err'] = '%s; not reproduced on numbers' % what

    def fail_leaf(fn, what, xy):
        ws = [xy] if xy and xy[0] is not None else []
        q, R = F.q, F.R
        e = [0, 1, 2, q - 1, q // 2, q - 2, 1 << 31, 1 << 32, (1 << 64) - 1, 1 << 64, q >> 1, q >> 32 or 1]
        full = fn.startswith('int_') and fn not in ('int_inverseMod',)
        for k in range(400):
            p = [r.choice(e) if r.random() < .5 else r.randrange(R if full else q) >> r.choice([0, 0, 8, 40, 100, 200]) % F.W for _ in range(2)]
            ws.append(tuple(p))
        if fn == 'F1m_exp' and xy:
            ws = [(x, xy[1]) for x in (2 * R % q, 3 * R % q, 12345)] + ws
        for x, y in ws:
            if fn in ('int_div',) and y == 0 or fn == 'int_inverseMod' and x % q == 0:
                continue
            w = leaf_concrete(F, fn, u[3] if kind in ('leaf0', 'leaf2') else '', x, y)
            if w:
                out['finds'].append(('wrong', '--prime %s: $Fr_%s on %d and %d %s' % (F.name, fn, x, y, w),
                                     dict(files={'call.txt': 'prime %s\n$Fr_%s\n%d\n%d\n%s\n' % (F.name, fn, x, y, w)}, reproduced=True)))
                return
        out['err'] = '%s: %s; not reproduced on numbers' % (fn, what)
    try:
        if kind == 'op':
            run_op(F, u[2], u[3], u[4], u[5], fail_op, cov, P)
        elif kind == 'leaf0':
            leaf0(F, u[2], u[3], fail_leaf, cov, P)
        elif kind == 'leaf2':
            leaf2(F, u[2], u[3], fail_leaf, cov, P)
        elif kind == 'leaf3':
            leaf3(F, u[2], fail_leaf, cov, P)
        elif kind == 'exp':
            leaf_exp(F, *u[2:7], fail_leaf, cov, P)
        elif kind == 'div':
            leaf_div(F, u[2], u[3], fail_leaf, cov, P)
        elif kind == 'inv':
            leaf_inv(F, u[2], fail_leaf, cov, P)
    except (Unenc, bvpaths.Budget, wat.Bad) as ex:
        out['err'] = '%s %s' % (type(ex).__name__, ex)
    except Trap as ex:
        out['err'] = 'trap on a symbolic path: %s' % ex
        if kind == 'op':
            fail_op(u[2], out['err'], None, None, None)
    except Exception as ex:
        out['err'] = '%s %s' % (type(ex).__name__, str(ex)[:200])
    if out['err'] and not out['finds']:
        # a routine that could not be encoded is still run on numbers: a wrong result is a wrong result
        try:
            if kind == 'op':
                c = confirm(F, u[2], u[3], u[4], u[5], None, None, None, r)
                if c:
                    fail_op(u[2], '', None, None, None)
        except Exception:
            pass
    out.update(cov=cov, queries=P.queries, ms=P.ms, wall=round(time.time() - t0, 2))
    return out


def C23(thorough, seed):
    rep = suite.Report('C23', 'wasm field library')
    exe = build.sym_circom()
    r = random.Random('frwasm%s' % seed)
    us = []
    for p in DOC:
        try:
            us += units(Field(p, module(exe, p)), thorough, r)
        except (wat.Bad, KeyError) as ex:
            rep.errors.append('--prime %s: %s' % (p, ex))
    cost = lambda u: 9 if u[2] in ('shl', 'shr') else 5 if u[1] in ('exp', 'div') else 4 if u[2] in ('bxor', 'bor') else 1
    us.sort(key=lambda u: (-cost(u), r.random()))
    import multiprocessing
    ctx = multiprocessing.get_context('fork')
    t0, outs, lim = time.time(), [], 3600 if thorough else 420
    with ctx.Pool(8, initializer=suite._init) as pool:
        for o in pool.imap_unordered(_unit, us):
            outs.append(o)
            if time.time() - t0 > lim:
                pool.terminate()
                break
    rep.cov.update(skeletons=len(us), skeletons_run=len(outs), impl_paths=sum(o['cov']['paths'] for o in outs), extra_queries=sum(o['queries'] for o in outs),
                   extra_solver_ms=int(sum(o['ms'] for o in outs)),
                   parts={k: dict(units=sum(o['kind'] == k for o in outs), decided=sum(o['kind'] == k and not o['err'] and not o['finds'] for o in outs),
                                  paths=sum(o['cov']['paths'] for o in outs if o['kind'] == k)) for k in sorted({o['kind'] for o in outs})})
    for o in outs:
        if o['err'] and not o['finds']:
            rep.errors.append('%s: %s' % (o['label'], o['err']))
        for k, what, rp in o['finds']:
            rep.violation(o['label'], k, what, rp)
    rep.samples = [dict(label=o['label'], paths=o['cov']['paths'], queries=o['queries'], wall_s=o['wall']) for o in sorted(outs, key=lambda o: -o['wall'])[:6]]
    rep.assumptions = ['operands are what the compiler makes: short numbers (with or without a Montgomery copy), long normal and long Montgomery numbers below the prime',
                       'the divisor of /, \\, % and the operand of inverse are not zero',
                       'in the check of an operation the routines it is built on stand for what they compute; each of them is checked by itself in the same run',
                       'division of long integers: one round of the loop from any state, and the bounds stated; powers: exponents with 3 (8) unknown bits']
    rep.explanation = ('every routine of the field library of every prime, taken from the module the compiler emits: linear integer routines as bit vectors; '
                       'Montgomery products over integer polynomials in the 32-bit limbs with ranges, where z3 decides the final congruence and bound; '
                       'the operations of the language over both (bit vectors, and polynomials over the field for what is multiplicative), for every representation of the operands')
    return rep.finish('proof' if False else 'other', dict(primes=len(DOC), representations=4, operand_bits='all (64 to 256)', exponents='one byte of 3 to 8 unknown bits',
                                    shifts='all amounts; in the quick run two pairs of representations per prime', outside='routines the emitted code never calls (sqrt, timesScalar, batch)'),
                      ['$Fr_' + f for f in ALL + OPS2 + OPS1 + OPS0 + PRED])


def div_units(F, thorough, r):
    n = 4 * F.n32
    pairs = [(x, y) for x in range(7, n) for y in range(3, n)]
    if not thorough:
        keep = {(7, 3), (n - 1, 3), (n - 1, n - 1), (7, n - 1), (n - 1, 7), (n - 1, 4)}
        pairs = [p for p in pairs if p in keep] + r.sample(pairs, min(len(pairs), 26))
    pairs = sorted(set(pairs))
    return [(F, 'div', tuple(pairs[k:k + 8]), 0) for k in range(0, len(pairs), 8)] + [(F, 'inv', 6 if thorough else 5)]


def leaf_div(F, pairs, _, fail, cov, P):
    for x, y in pairs:
        w = frdiv.round_of(F, x, y, cov)
        P.queries += cov.pop('queries', 0)
        if w:
            fail('int_div', w, None)
            return


def leaf_inv(F, rounds, fail, cov, P):
    for k in range(1, rounds + 1):
        w = frdiv.inverse(F, k, cov)
        P.queries += cov.pop('queries', 0)
        if w:
            fail('int_inverseMod', w, None)
            return
