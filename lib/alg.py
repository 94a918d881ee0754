"""Straight-line machine code over 32-bit limbs, executed over integer polynomials with ranges.

Every 64-bit word is an exact integer expression in the limbs of the operands and in the parts of earlier words (v = lo + 2^k * hi).  An
operation that could leave its 64 bits is split the same way, so the expressions are always equal to the machine's words.  What the routine
computes is then a statement of linear integer arithmetic over the products of limbs, which z3 decides."""
import time
import z3
from . import wat
from .wat import Trap, Unenc, M32, M64


class V:
    __slots__ = ('p', 'lo', 'hi')

    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi = p, lo, hi


def padd(a, b, k=1):
    t = dict(a)
    for m, c in b.items():
        x = t.get(m, 0) + k * c
        if x:
            t[m] = x
        else:
            t.pop(m, None)
    return t


def pmul(a, b):
    t = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            if len(k) > 2:
                raise Unenc('product of more than two unknown words')
            t[k] = t.get(k, 0) + c * d
    return {m: c for m, c in t.items() if c}


class Cond:
    def __init__(self, c, neg=False):
        self.c, self.neg = c, neg       # ('ge'|'gt'|'eq', poly, poly)


class Alg:
    """variables, their ranges and their definitions"""

    def __init__(self):
        self.range = []          # var -> (lo, hi)
        self.defs = {}           # lo var or hi var -> split number
        self.splits = []         # (v poly, k, lo var or None, hi var)
        self.memo = {}
        self.eqs = []            # multi-word results: ([vars], poly)   sum vars 2^32i = poly
        self.eqof = {}
        self.zero = set()
        self.queries = 0
        self.ms = 0

    def var(self, lo, hi):
        self.range.append((lo, hi))
        n = len(self.range) - 1
        return V({(n,): 1}, lo, hi)

    def const(self, x):
        return V({(): x} if x else {}, x, x)

    def split(self, v, k):
        """(v mod 2^k, v div 2^k)"""
        if not v.p or set(v.p) == {()}:
            x = v.p.get((), 0)
            return self.const(x & (1 << k) - 1), self.const(x >> k)
        if v.lo >= 0 and v.hi < 1 << k:
            return v, self.const(0)
        key = (frozenset(v.p.items()), k)
        if key not in self.memo:
            lo = self.var(0, (1 << k) - 1)
            hi = self.var(v.lo >> k, v.hi >> k)
            self.memo[key] = lo, hi
            ln, hn = next(iter(lo.p))[0], next(iter(hi.p))[0]
            self.defs[ln] = self.defs[hn] = len(self.splits)
            self.splits.append((v.p, k, ln, hn))
            if k <= 64 and self.low_is_zero(v.p, k):
                self.zero.add(ln)
        return self.memo[key]

    def low_is_zero(self, p, k):
        """v = 0 mod 2^k, replacing the remainders in it by what they are remainders of"""
        t = {}
        for m, c in p.items():
            d = self.splits[self.defs[m[0]]] if len(m) == 1 and m[0] in self.defs else None
            if d and d[2] == m[0] and d[1] >= k:
                t = padd(t, d[0], c)
            else:
                t = padd(t, {m: c})
        if len(t) > 8:
            return False
        if any(c % (1 << k) for c in t.values()):
            # one of them may be replaced, the others not
            for m0 in p:
                d = self.splits[self.defs[m0[0]]] if len(m0) == 1 and m0[0] in self.defs else None
                if d and d[2] == m0[0] and d[1] >= k:
                    t = padd(padd(p, {m0: p[m0]}, -1), d[0], p[m0])
                    if all(c % (1 << k) == 0 for c in t.values()):
                        break
            else:
                return False
        # z3 confirms it on k-bit words (every monomial an arbitrary word)
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 20000)
        w = {}
        bv = lambda m: w.setdefault(m, z3.BitVec('m%s' % '_'.join(map(str, m)), k)) if m else z3.BitVecVal(1, k)
        s.add(sum((z3.BitVecVal(c % (1 << k), k) * bv(m) for m, c in t.items()), z3.BitVecVal(0, k)) != 0)
        r = s.check()
        self.queries += 1
        self.ms += 1000 * (time.time() - t0)
        return r == z3.unsat

    def words(self, p, n):
        """n fresh words whose number is p"""
        vs = [self.var(0, M32) for _ in range(n)]
        ids = [next(iter(v.p))[0] for v in vs]
        for i in ids:
            self.eqof[i] = len(self.eqs)
        self.eqs.append((ids, p))
        return vs

    def reduce(self, p, q):
        """p rewritten to the operands and to variables that cannot be eliminated"""
        p = dict(p)
        for n in range(len(self.range) - 1, -1, -1):
            c = p.get((n,), 0)
            if not c:
                continue
            if n in self.eqof:
                ids, e = self.eqs[self.eqof[n]]
                if n == ids[-1] and all(p.get((i,), 0) * (1 << 32 * (len(ids) - 1 - k)) == c for k, i in enumerate(ids)):
                    c0 = p[(ids[0],)]
                    for i in ids:
                        p.pop((i,))
                    p = padd(p, e, c0)
                continue
            if n not in self.defs:
                continue
            v, k, ln, hn = self.splits[self.defs[n]]
            if n == hn:
                cl = p.get((ln,), 0)
                if ln in self.zero or cl * (1 << k) == c or q and c % (1 << k) == 0 and (cl - (c >> k)) % q == 0:
                    if c % (1 << k):
                        continue
                    f = c >> k
                    p.pop((hn,))
                    p = padd(p, {(ln,): f}, -1)
                    p = padd(p, v, f)
                    if ln in self.zero:
                        p.pop((ln,), None)
                elif q and cl and cl % q == 0 and c % q == 0:
                    continue
            else:
                if ln in self.zero:
                    p.pop((ln,))
                    continue
                if q and c % q == 0:
                    continue
                p.pop((ln,))
                p = padd(p, {(hn,): c << k}, -1)
                p = padd(p, v, c)
        return p


class AlgMachine(wat.Machine):
    def __init__(self, mod, A, choices, maxsteps=200000):
        wat.Machine.__init__(self, mod, maxsteps)
        self.A, self.choices, self.used, self.pc = A, choices, 0, []

    def lift(self, x):
        return self.A.const(x) if isinstance(x, int) else x

    def low(self, v):
        """the word itself if it is a number"""
        return v.p.get((), 0) if not v.p or set(v.p) == {()} else v

    def fit(self, v, n):
        return self.low(v if 0 <= v.lo and v.hi < 1 << n else self.A.split(v, n)[0])

    def c(self, v):
        if not isinstance(v, int):
            raise Unenc('an unknown word as an address or a shift')
        return v

    def cond(self, v):
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Cond):
            c = v
        else:
            c = Cond(('eq', v.p, {}), True)
        if isinstance(v, V) and v.lo > 0:
            return True
        if self.used == len(self.choices):
            self.choices.append(True)
        t = self.choices[self.used]
        self.used += 1
        self.pc.append((c.c, t != c.neg))
        return t

    def ld8(self, a):
        raise Unenc('a byte of an unknown word')

    def num(self, a, n):
        p = {}
        for k in range(n):
            w = self.lift(self.ld32(a + 4 * k))
            p = padd(p, w.p, 1 << 32 * k)
        return p

    def binop(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if op in ('i32.add', 'i32.mul'):
                return (a + b if op == 'i32.add' else a * b) & M32
            return wat.BIN32[op](a, b) & M32 if op in wat.BIN32 else wat.BIN64[op](a, b) & M64
        n = 32 if op.startswith('i32') else 64
        o = op[4:]
        A = self.A
        if isinstance(a, Cond) or isinstance(b, Cond):
            raise Unenc('arithmetic on a comparison')
        if o in ('shl', 'shr_u'):
            k = self.c(b) & (n - 1)
            if o == 'shr_u':
                return self.low(A.split(a, k)[1])
            return self.fit(V({m: c << k for m, c in a.p.items()}, a.lo << k, a.hi << k), n)
        x, y = self.lift(a), self.lift(b)
        if o == 'add':
            return self.fit(V(padd(x.p, y.p), x.lo + y.lo, x.hi + y.hi), n)
        if o == 'sub':
            return self.fit(V(padd(x.p, y.p, -1), x.lo - y.hi, x.hi - y.lo), n)
        if o == 'mul':
            return self.fit(V(pmul(x.p, y.p), x.lo * y.lo, x.hi * y.hi), n)
        if o == 'and' and (isinstance(a, int) or isinstance(b, int)):
            k, v = (a, y) if isinstance(a, int) else (b, x)
            if k & (k + 1) == 0:
                return self.low(A.split(v, k.bit_length())[0])
            i = (k & -k).bit_length() - 1
            if k == (1 << n) - (1 << i):
                l = A.split(v, i)[0]
                return self.low(V(padd(v.p, l.p, -1), 0, v.hi))
        if o == 'or':
            # disjoint parts only
            for s, t in ((x, y), (y, x)):
                k = t.hi.bit_length()
                if all(c % (1 << k) == 0 for c in s.p.values()):
                    return self.fit(V(padd(s.p, t.p), s.lo + t.lo, s.hi + t.hi), n)
        if o in ('eq', 'ne'):
            return Cond(('eq', x.p, y.p), o == 'ne')
        if o in ('ge_u', 'lt_u'):
            return Cond(('ge', x.p, y.p), o == 'lt_u')
        if o in ('gt_u', 'le_u'):
            return Cond(('gt', x.p, y.p), o == 'le_u')
        raise Unenc('%s on unknown words' % op)

    def run(self, body, st, loc):
        A = self.A
        for ins in body:
            op = ins[0]
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unenc('step budget')
            if op == 'get':
                st.append(loc[ins[1]])
            elif op == 'const':
                st.append(ins[1])
            elif op == 'set':
                loc[ins[1]] = st.pop()
            elif op == 'tee':
                loc[ins[1]] = st[-1]
            elif op in ('i32.add', 'i32.mul') or op in wat.BIN32 or op in wat.BIN64:
                b = st.pop()
                st[-1] = self.binop(op, st[-1], b)
            elif op in ('i32.load', 'i64.load32_u'):
                st[-1] = self.ld32(self.c(st[-1]) + ins[1])
            elif op == 'i32.load8_u':
                st[-1] = self.ld8(self.c(st[-1]) + ins[1])
            elif op == 'i64.load':
                a = self.c(st[-1]) + ins[1]
                l, h = self.lift(self.ld32(a)), self.lift(self.ld32(a + 4))
                st[-1] = self.low(V(padd(l.p, h.p, 1 << 32), l.lo + (h.lo << 32), l.hi + (h.hi << 32)))
            elif op in ('i32.store', 'i64.store32'):
                v = st.pop()
                a = self.c(st.pop()) + ins[1]
                self.st32(a, v & M32 if isinstance(v, int) else self.fit(v, 32))
            elif op == 'i64.store':
                v = st.pop()
                a = self.c(st.pop()) + ins[1]
                l, h = A.split(self.lift(v), 32)
                self.st32(a, self.low(l))
                self.st32(a + 4, self.fit(h, 32) if not isinstance(self.low(h), int) else self.low(h) & M32)
            elif op in ('i32.wrap_i64', 'i32.wrap/i64'):
                v = st[-1]
                st[-1] = v & M32 if isinstance(v, int) else self.fit(v, 32)
            elif op in ('i64.extend_i32_u', 'i64.extend_u/i32'):
                pass
            elif op in ('i32.eqz', 'i64.eqz'):
                v = st[-1]
                if isinstance(v, Cond):
                    st[-1] = Cond(v.c, not v.neg)
                else:
                    st[-1] = int(v == 0) if isinstance(v, int) else Cond(('eq', v.p, {}))
            elif op == 'call':
                n = ins[1]
                k = self.arity(n)
                args = st[len(st) - k:] if k else []
                if k:
                    del st[len(st) - k:]
                st.extend(self.call(n, *args))
            elif op == 'if':
                v = self.cond(st.pop())
                r = self.run(ins[1] if v else ins[2], st, loc)
                if r is not None:
                    if r == 'ret' or r > 0:
                        return r if r == 'ret' else r - 1
            elif op == 'block':
                r = self.run(ins[1], st, loc)
                if r is not None:
                    if r == 'ret' or r > 0:
                        return r if r == 'ret' else r - 1
            elif op == 'loop':
                while True:
                    r = self.run(ins[1], st, loc)
                    if r is None:
                        break
                    if r == 'ret' or r > 0:
                        return r if r == 'ret' else r - 1
            elif op == 'br':
                return ins[1]
            elif op == 'br_if':
                if self.cond(st.pop()):
                    return ins[1]
            elif op == 'return':
                return 'ret'
            elif op == 'drop':
                st.pop()
            elif op == 'select':
                c, b, a = st.pop(), st.pop(), st.pop()
                st.append(a if self.cond(c) else b)
            elif op == 'nop':
                pass
            else:
                raise Unenc('instruction ' + op)
        return None


def lin(p, iv):
    return z3.Sum([z3.IntVal(c) * iv(m) if m else z3.IntVal(c) for m, c in p.items()]) if p else z3.IntVal(0)


def check_product(mod, q, n, kind, call, ax, ay, ar, nout, timeout_ms=60000, hooks=None):
    """The routine `call(machine)` on operands at ax, ay (n words each; the upper half of the 2n-word operand of a reduction is zero) and result at ar.

    kind: 'product' (result = x*y exactly, 2n words), 'mont' (result*R = x*y mod q and result < q for x, y < q; ay == ax for a square),
    'reduce' (the same with y = 1).  Returns (verdict, detail, statistics)."""
    R = 1 << 32 * n
    todo, st = [[]], dict(paths=0, queries=0, ms=0.0, steps=0, variables=0)
    while todo:
        ch = todo.pop()
        A = Alg()
        M = AlgMachine(mod, A, list(ch))
        xs = [A.var(0, M32) for _ in range(n)]
        for k, v in enumerate(xs):
            M.st32(ax + 4 * k, v)
        if kind == 'reduce':
            for k in range(n, 2 * n):
                M.st32(ax + 4 * k, 0)
        ys = xs
        if ay is not None and ay != ax:
            ys = [A.var(0, M32) for _ in range(n)]
            for k, v in enumerate(ys):
                M.st32(ay + 4 * k, v)
        num = lambda vs: {next(iter(v.p)): 1 << 32 * k for k, v in enumerate(vs)}
        X = num(xs)
        T = X if kind == 'reduce' else pmul(X, num(ys))
        tmax = q - 1 if kind == 'reduce' else (R - 1) ** 2 if kind == 'product' else (q - 1) ** 2
        seen = []

        def gte(a, b):
            P, Q = M.num(a, n), M.num(b, n)
            seen.extend([P, Q])
            return Cond(('ge', P, Q))

        def gt(a, b):
            P, Q = M.num(a, n), M.num(b, n)
            seen.extend([P, Q])
            return Cond(('gt', P, Q))

        def addsub(a, b, r, k):
            P, Q = M.num(a, n), M.num(b, n)
            seen.extend([P, Q])
            c = A.var(0, 1)
            for i, v in enumerate(A.words(padd(padd(P, Q, k), c.p, -k * R), n)):
                M.st32(r + 4 * i, v)
            return c
        M.hooks['$Fr_int_gte'] = lambda a, b: gte(a, b)
        M.hooks['$Fr_int_gt'] = lambda a, b: gt(a, b)
        M.hooks['$Fr_int_sub'] = lambda a, b, r: addsub(a, b, r, -1)
        M.hooks['$Fr_int_add'] = lambda a, b, r: addsub(a, b, r, 1)
        M.hooks['$Fr_int_copy'] = lambda a, r: [M.st32(r + 4 * k, v) for k, v in enumerate([M.ld32(a + 4 * k) for k in range(n)])] and None
        M.hooks['$Fr_int_zero'] = lambda r: [M.st32(r + 4 * k, 0) for k in range(n)] and None
        call(M)
        for k in range(len(ch), M.used):
            todo.append(M.choices[:k] + [not M.choices[k]])
        out = M.num(ar, nout)
        scale = R if kind in ('mont', 'reduce') else 1
        D = A.reduce(padd({m: c * scale for m, c in out.items()}, T, -1), q if scale > 1 else 0)
        rest = {m: c for m, c in D.items() if scale == 1 or c % q}
        st['paths'] += 1
        st['steps'] += M.steps
        st['variables'] += len(A.range)
        st['queries'] += A.queries
        st['ms'] += A.ms
        # linear integer arithmetic over the remaining variables
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout_ms)
        names = {}

        def iv(m):
            if m not in names:
                names[m] = z3.Int('m' + '_'.join(map(str, m)))
                if len(m) == 1:
                    s.add(names[m] >= A.range[m[0]][0], names[m] <= A.range[m[0]][1])
                else:
                    s.add(names[m] >= 0)
            return names[m]
        TT = z3.Int('T')
        s.add(TT >= 0, TT <= tmax)
        forms = {}

        def form(p):
            """a number as a variable, with its relation to x*y"""
            key = frozenset(p.items())
            if key in forms:
                return forms[key]
            if not p or set(p) == {()}:
                return z3.IntVal(p.get((), 0))
            x = z3.Int('n%d' % len(forms))
            forms[key] = x
            d = A.reduce(padd({m: c * scale for m, c in p.items()}, T, -1), q if scale > 1 else 0)
            if all(len(m) < 2 for m in d):
                s.add(x * scale == TT + lin(d, iv))
            if len(p) < 40 and all(len(m) < 2 for m in p):
                s.add(x == lin(p, iv))
            return x
        for (o, a, b), t in M.pc:
            l, r = form(a), form(b)
            c = {'ge': l >= r, 'gt': l > r, 'eq': l == r}[o]
            s.add(c if t else z3.Not(c))
        for ids, e in A.eqs:
            w = z3.Sum([(1 << 32 * k) * iv((i,)) for k, i in enumerate(ids)])
            # the numbers it was made of
            es = [p for p in seen]
            s.add(w >= 0)
            c = [m for m in e if len(m) == 1 and A.range[m[0]] == (0, 1)]
            lhs = dict(e)
            done = False
            for i in range(0, len(es), 2):
                for k in (1, -1):
                    d = padd(e, padd(es[i], es[i + 1], k), -1)
                    if set(d) <= set(c):
                        s.add(w == form(es[i]) + k * form(es[i + 1]) + lin(d, iv))
                        done = True
                        break
                if done:
                    break
        F = form(out)
        goal = [lin(rest, iv) == 0] if all(len(m) < 2 for m in rest) else [z3.BoolVal(False)]
        if scale > 1:
            goal.append(F < q)
        s.add(z3.Not(z3.And(goal)))
        r = s.check()
        st['queries'] += 1
        st['ms'] += 1000 * (time.time() - t0)
        if r != z3.unsat:
            return ('open' if r == z3.unknown or any(len(m) > 1 for m in rest) else 'no'), 'path %s: %d terms remain' % (M.choices, len(rest)), st
    return 'yes', '', st
